//! C01 framing round trip, C02 hostile byte streams.

use std::io::{BufReader, Write};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use sync_ls::{dap, lsp, Message, RequestId};
use vm_core::{guard, h64, json, parallel, watched, Ctx, Rng, Value, Watched};

use crate::wire::{frame, short, Chunked, StrictParser};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Proto {
    Lsp,
    Dap,
}

fn read_one(p: Proto, r: &mut BufReader<Chunked>) -> std::io::Result<Option<Value>> {
    let m = match p {
        Proto::Lsp => Message::read_lsp(r)?,
        Proto::Dap => Message::read_dap(r)?,
    };
    Ok(m.map(|m| norm(to_value(&m))))
}

fn to_value(m: &Message) -> Value {
    match m {
        Message::Lsp(m) => serde_json::to_value(m).unwrap_or(Value::Null),
        Message::Dap(m) => serde_json::to_value(m).unwrap_or(Value::Null),
    }
}

/// Absent and null payloads mean the same.
fn norm(mut v: Value) -> Value {
    if let Some(o) = v.as_object_mut() {
        o.remove("jsonrpc");
        for k in ["params", "result", "error", "arguments", "body", "message"] {
            if o.get(k).is_some_and(Value::is_null) {
                o.remove(k);
            }
        }
    }
    v
}

fn id(r: &mut Rng) -> RequestId {
    match r.below(4) {
        0 => RequestId::from(r.text(10)),
        1 if r.chance(1, 2) => RequestId::from(*r.pick(&[r.clone().u64() as i64, i64::MAX, i64::MIN, (1 << 53) + 1, -(1 << 53) - 1, 1 << 31, -(1 << 31) - 1, 1 << 32])),
        1 => RequestId::from(r.u64() as i32),
        2 => RequestId::from(*r.pick(&[0, -1, 1, i32::MAX, i32::MIN])),
        _ => RequestId::from(r.below(100).to_string()),
    }
}

fn big(r: &mut Rng, v: Value) -> Value {
    match r.below(32) {
        // Deep, but within what the JSON library reads.
        2 => (0..r.range(10, 100)).fold(v, |v, k| if k % 2 == 0 { json!([v]) } else { json!({"k": v}) }),
        // Wide.
        3 => json!((0..r.range(100, 1_500)).map(|k| (format!("k{k}"), json!(k))).collect::<serde_json::Map<_, _>>()),
        0 => {
            let n = r.range(5_000, 70_000);
            json!({"big": "x".repeat(n) + &r.text(30), "v": v})
        }
        1 => {
            let c = r.ch();
            let n = *r.pick(&[4096usize, 8191, 8192, 8193]);
            json!(c.to_string().repeat(n))
        }
        _ => v,
    }
}

fn gen(p: Proto, r: &mut Rng) -> Message {
    let payload = r.json(3);
    let payload = big(r, payload);
    match p {
        Proto::Lsp => match r.below(5) {
            0 | 1 => {
                let i = id(r);
                lsp::Request::new(i, r.text(20), payload).into()
            }
            2 => {
                let i = id(r);
                lsp::Response::new_ok(i, payload).into()
            }
            3 => {
                let i = id(r);
                let code = r.u64() as i32;
                lsp::Response::new_err(i, code, r.text(40)).into()
            }
            _ => lsp::Notification::new(r.text(20), payload).into(),
        },
        Proto::Dap => match r.below(5) {
            0 | 1 => dap::Request::new(r.u64() as i64, r.text(20), payload).into(),
            2 => dap::Response::success(r.u64() as i64, payload).into(),
            3 => {
                let msg = r.chance(2, 3).then(|| r.text(30));
                dap::Response::error(r.u64() as i64, msg, None).into()
            }
            _ => dap::Event::new(r.u64() as i64, r.text(20), payload).into(),
        },
    }
}

fn clone_msg(m: &Message) -> Message {
    match m {
        Message::Lsp(m) => Message::Lsp(m.clone()),
        Message::Dap(m) => Message::Dap(m.clone()),
    }
}

fn reader(data: Vec<u8>, r: &mut Rng) -> BufReader<Chunked> {
    let cap = *r.pick(&[1usize, 2, 3, 7, 16, 64, 8192]);
    let mode = r.below(5);
    let rng = Rng::new(r.u64());
    BufReader::with_capacity(cap, Chunked { data, pos: 0, rng, mode })
}

pub fn c01(ctx: &Ctx) -> i32 {
    let sizes: Vec<usize> = [17, 18, 19, 20, 21, 22, 23, 24, 25, 26].iter().map(|b| (1 << b) + 1).collect();
    parallel(ctx, sizes.len(), 4, |i| vast(ctx, i, sizes[i]));
    let n = ctx.n(4000, 200_000);
    parallel(ctx, n, 8, |i| {
        let mut r = ctx.rng(i as u64);
        let p = if r.chance(1, 2) { Proto::Lsp } else { Proto::Dap };
        let msgs: Vec<Message> = (0..r.range(1, 8)).map(|_| gen(p, &mut r)).collect();
        let want: Vec<Value> = msgs.iter().map(|m| norm(to_value(m))).collect();
        ctx.eval(h64(&format!("{want:?}")), want.iter().any(|w| w.to_string().len() > 24));
        ctx.sample(|| json!({"proto": format!("{p:?}"), "messages": want.iter().take(3).collect::<Vec<_>>()}));
        ctx.count("messages", msgs.len() as u64);

        // (1) what the server writes is a well-formed stream of exactly these messages.
        let mut out = Vec::new();
        for m in &msgs {
            match guard(|| clone_msg(m).write(&mut out)) {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return ctx.violate("write-error", json!({"err": e.to_string(), "msg": to_value(m)})),
                Err(p) => return ctx.on_panic("write", &p, to_value(m)),
            }
        }
        let mut sp = StrictParser::default();
        sp.push(&out);
        for (k, w) in want.iter().enumerate() {
            match sp.next() {
                Ok(Some((v, text))) => {
                    if v["jsonrpc"] != "2.0" {
                        ctx.violate("no-version", json!({"text": text}));
                    }
                    // A successful LSP response must carry a result member, even when it is null.
                    if p == Proto::Lsp && v.get("method").is_none() && v.get("error").is_none() && v.get("result").is_none() {
                        ctx.violate("response-without-result", json!({"text": text}));
                    }
                    if norm(v.clone()) != *w {
                        ctx.violate("written-differs", json!({"index": k, "want": w, "wire": v}));
                    }
                }
                other => {
                    return ctx.violate(
                        "malformed-output",
                        json!({"index": k, "want": w, "got": format!("{other:?}"), "out": short(&out)}),
                    )
                }
            }
        }
        if sp.pending() != 0 {
            ctx.violate("trailing-output", json!({"bytes": sp.pending()}));
        }

        // (2) what was written reads back, whatever the chunking.
        check_read(ctx, p, out, &want, &mut r, "own-output");

        // (3) what another client writes (other header order, case, extra headers, escaped or pretty JSON) reads back.
        let mut bytes = Vec::new();
        for w in &want {
            let mut w = w.clone();
            if r.chance(1, 2) {
                w["jsonrpc"] = json!("2.0");
            }
            let text = match r.below(3) {
                0 => w.to_string(),
                1 => serde_json::to_string_pretty(&w).unwrap(),
                _ => escape_non_ascii(&w.to_string()),
            };
            bytes.extend(foreign_frame(&text, &mut r));
        }
        check_read(ctx, p, bytes, &want, &mut r, "foreign");
        ctx.count("streams", 2);

        // (4) a message that is reported as written has arrived; one that did not is reported.
        check_write(ctx, &msgs, &mut r);
    });
    ctx.require("vast messages", 10);
    ctx.require("messages", 500);
    ctx.require("arrived at once", 500);
    ctx.require("failures reported", 500);
    ctx.finish(
        "exploration",
        "random message sequences (all kinds, ids, hostile Unicode, sizes around buffer limits) written by the code and \
         by an independent client encoder, into destinations that hold back what is not flushed or fail at any byte, re-read through buffers of 1..8192 bytes with random short reads and EINTR; \
         non-trivial: at least one message with a payload; oracle: an independent strict frame parser and value equality",
        &["floats are excluded (their text form is the JSON library's business)", "null and absent payload members are one value"],
    )
}

/// A destination behind a buffer: what is not flushed has not arrived. It fails once, or from some point on.
struct Outlet {
    held: Vec<u8>,
    arrived: Vec<u8>,
    rng: Rng,
    /// How many bytes it takes before it fails, and how many times it does.
    room: usize,
    fails: usize,
    failed: usize,
    flush_fails: bool,
}
impl std::io::Write for Outlet {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.rng.chance(1, 16) {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        if self.room == 0 && self.failed < self.fails {
            self.failed += 1;
            return Err(std::io::Error::other("no room"));
        }
        let n = if self.rng.chance(1, 2) { b.len() } else { self.rng.range(1, b.len()) };
        let n = if self.failed < self.fails { n.min(self.room) } else { n };
        self.room -= n.min(self.room);
        self.held.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.flush_fails && self.room == 0 && self.failed < self.fails {
            self.failed += 1;
            return Err(std::io::Error::other("no flush"));
        }
        self.arrived.append(&mut self.held);
        Ok(())
    }
}

fn check_write(ctx: &Ctx, msgs: &[Message], r: &mut Rng) {
    let full: Vec<Vec<u8>> = msgs
        .iter()
        .map(|m| {
            let mut v = Vec::new();
            clone_msg(m).write(&mut v).expect("written before");
            v
        })
        .collect();
    let total: usize = full.iter().map(Vec::len).sum();
    let fails = *r.pick(&[0usize, 0, 1, usize::MAX]);
    // Often in a header, or just between two messages.
    let room = match r.below(3) {
        0 => r.below(total),
        1 => full[..r.below(full.len())].iter().map(Vec::len).sum::<usize>() + r.below(24),
        _ => full[..r.range(1, full.len())].iter().map(Vec::len).sum::<usize>(),
    };
    let mut o = Outlet { held: vec![], arrived: vec![], rng: Rng::new(r.u64()), room, fails, failed: 0, flush_fails: r.chance(1, 2) };
    for (k, m) in msgs.iter().enumerate() {
        let (before, failed) = (o.arrived.len(), o.failed);
        let got = match guard(|| clone_msg(m).write(&mut o)) {
            Ok(g) => g,
            Err(p) => return ctx.on_panic("write-failing", &p, to_value(m)),
        };
        let say = |s: &str| ctx.violate(s.to_string(), json!({"index": k, "of": msgs.len(), "room": room, "fails": fails.to_string(), "got": format!("{got:?}"), "message": to_value(m)}));
        if o.failed > failed {
            if got.is_ok() {
                return say("failure-not-reported");
            }
            ctx.count("failures reported", 1);
            return;
        }
        if got.is_err() {
            return say("failure-invented");
        }
        if o.arrived[before..] != full[k][..] || !o.held.is_empty() {
            return say("not-flushed");
        }
        ctx.count("arrived at once", 1);
    }
}

fn foreign_frame(text: &str, r: &mut Rng) -> Vec<u8> {
    let name = *r.pick(&["Content-Length", "content-length", "CONTENT-LENGTH", "Content-length"]);
    let n = text.len();
    let extra = match r.below(12) {
        0..=3 => 0,
        4..=9 => 1,
        10 => r.range(2, 5),
        _ => r.range(5, 150),
    };
    let mut head = vec![format!("{name}: {n}\r\n")];
    for _ in 0..extra {
        let other = match r.below(12) {
            0..=4 => "Content-Type: application/vscode-jsonrpc; charset=utf-8\r\n".to_string(),
            5 => "X-Other: a: b: c\r\n".to_string(),
            6 => "X-Empty: \r\n".to_string(),
            7 => format!("X-Long: {}\r\n", "v".repeat(r.range(100, 20_000))),
            8 => format!("{}: x\r\n", "N".repeat(r.range(100, 2_000))),
            _ => format!(
                "{}: {}\r\n",
                r.pick(&["Content-Length-Hint", "X-Content-Length", "Content-Lengt", "ontent-Length", "Content-Length2", "Content", "Length", "Content_Length", "Content-Language"]),
                r.below(300)
            ),
        };
        let k = r.below(head.len() + 1);
        head.insert(k, other);
    }
    let mut v = head.concat().into_bytes();
    v.extend_from_slice(b"\r\n");
    v.extend_from_slice(text.as_bytes());
    v
}

/// Messages far above every buffer, whole documents and more, survive as well; so does what follows.
fn vast(ctx: &Ctx, i: usize, size: usize) {
    let mut r = ctx.rng(8_000_000 + i as u64);
    let p = if i % 2 == 0 { Proto::Lsp } else { Proto::Dap };
    let unit = *r.pick(&["x", "é", "\u{1}\"\n", "𝒳y"]);
    let body = json!({"text": unit.repeat(size / unit.len() + 1)});
    let msgs: Vec<Message> = (0..3)
        .map(|k| {
            let v = if k == 1 { body.clone() } else { json!({"n": k}) };
            match p {
                Proto::Lsp => lsp::Notification::new(format!("m{k}"), v).into(),
                Proto::Dap => dap::Event::new(k, format!("m{k}"), v).into(),
            }
        })
        .collect();
    let mut out = Vec::new();
    for m in &msgs {
        if let Err(e) = clone_msg(m).write(&mut out) {
            return ctx.violate("vast:write", json!({"err": e.to_string(), "size": size}));
        }
    }
    ctx.eval(h64(&(i, size)), true);
    ctx.count("vast messages", 1);
    let mut rd = BufReader::with_capacity(1 << 16, std::io::Cursor::new(out));
    for (k, m) in msgs.iter().enumerate() {
        let got = guard(|| match p {
            Proto::Lsp => Message::read_lsp(&mut rd),
            Proto::Dap => Message::read_dap(&mut rd),
        });
        let same = matches!(&got, Ok(Ok(Some(g))) if norm(to_value(g)) == norm(to_value(m)));
        if !same {
            let got = format!("{got:?}").chars().take(200).collect::<String>();
            return ctx.violate("vast:read", json!({"index": k, "size": size, "got": got}));
        }
    }
}

fn escape_non_ascii(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if (c as u32) < 0x80 {
            o.push(c);
        } else {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) {
                o.push_str(&format!("\\u{u:04x}"));
            }
        }
    }
    o
}

fn check_read(ctx: &Ctx, p: Proto, bytes: Vec<u8>, want: &[Value], r: &mut Rng, what: &str) {
    let dump = short(&bytes);
    let mut rd = reader(bytes, r);
    for (k, w) in want.iter().enumerate() {
        match guard(|| read_one(p, &mut rd)) {
            Ok(Ok(Some(v))) => {
                if v != *w {
                    return ctx.violate(format!("read-differs:{what}"), json!({"index": k, "want": w, "got": v}));
                }
            }
            Ok(other) => {
                return ctx.violate(
                    format!("read-failed:{what}"),
                    json!({"index": k, "want": w, "got": format!("{other:?}"), "stream": dump}),
                )
            }
            Err(p) => return ctx.on_panic("read", &p, w.clone()),
        }
    }
    match guard(|| read_one(p, &mut rd)) {
        Ok(Ok(None)) => {}
        other => ctx.violate(format!("no-clean-eof:{what}"), json!({"got": format!("{other:?}")})),
    }
}

// ---------------------------------------------------------------------------------------------------------- C02

/// The reference's view of the next message.
#[derive(Debug)]
enum Ref {
    /// A well-formed message with this value, ending at this offset.
    Msg(Value, usize),
    /// Certainly not a message.
    Not,
    /// The reference does not take a position.
    Unsure,
}

fn reference(p: Proto, b: &[u8]) -> Ref {
    if b.is_empty() {
        return Ref::Not;
    }
    let mut pos = 0;
    let mut len: Option<usize> = None;
    loop {
        let Some(nl) = b[pos..].iter().position(|c| *c == b'\n') else { return Ref::Not };
        let line = &b[pos..pos + nl + 1];
        if !line.ends_with(b"\r\n") {
            return Ref::Not;
        }
        pos += nl + 1;
        let Ok(line) = std::str::from_utf8(&line[..line.len() - 2]) else { return Ref::Not };
        if line.is_empty() {
            break;
        }
        let Some((k, v)) = line.split_once(": ") else { return Ref::Not };
        if k.eq_ignore_ascii_case("content-length") {
            if len.is_some() {
                return Ref::Unsure;
            }
            if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) {
                return if v.trim().trim_start_matches('+').parse::<usize>().is_ok() { Ref::Unsure } else { Ref::Not };
            }
            match v.parse::<usize>() {
                Ok(n) => len = Some(n),
                Err(_) => return Ref::Not,
            }
        } else if k.trim().eq_ignore_ascii_case("content-length") {
            return Ref::Unsure;
        }
    }
    let Some(len) = len else { return Ref::Not };
    if b.len() - pos < len {
        return Ref::Not;
    }
    let Ok(text) = std::str::from_utf8(&b[pos..pos + len]) else { return Ref::Not };
    let Ok(v) = serde_json::from_str::<Value>(text) else { return Ref::Not };
    match well_formed(p, &v) {
        Some(true) => Ref::Msg(norm(keep(p, v)), pos + len),
        Some(false) => Ref::Not,
        None => Ref::Unsure,
    }
}

/// Some(true): certainly a protocol message; Some(false): certainly not.
fn well_formed(p: Proto, v: &Value) -> Option<bool> {
    let Some(o) = v.as_object() else { return if v.is_array() { None } else { Some(false) } };
    match p {
        Proto::Lsp => {
            let id_ok = o.get("id").is_some_and(|i| i.is_string() || i.as_i64().is_some_and(|n| n as i32 as i64 == n));
            let method_ok = o.get("method").is_some_and(Value::is_string);
            if o.contains_key("id") && !id_ok {
                return None;
            }
            if o.contains_key("method") && !method_ok {
                return None;
            }
            if method_ok {
                return Some(true);
            }
            if !id_ok {
                return Some(false);
            }
            match o.get("error") {
                None => Some(true),
                Some(e) if e["code"].as_i64().is_some_and(|n| n as i32 as i64 == n) && e["message"].is_string() => Some(true),
                _ => None,
            }
        }
        Proto::Dap => match o.get("type").and_then(Value::as_str) {
            Some("request") if o.get("seq").is_some_and(Value::is_i64) && o.get("command").is_some_and(Value::is_string) => Some(true),
            Some("request" | "response" | "event") => None,
            _ => Some(false),
        },
    }
}

/// Only the members the message kind has.
fn keep(p: Proto, v: Value) -> Value {
    let o = v.as_object().cloned().unwrap_or_default();
    let keys: &[&str] = match p {
        Proto::Lsp if o.contains_key("method") && o.contains_key("id") => &["id", "method", "params"],
        Proto::Lsp if o.contains_key("method") => &["method", "params"],
        Proto::Lsp => &["id", "result", "error"],
        Proto::Dap => &["type", "seq", "command", "arguments"],
    };
    let mut o: serde_json::Map<String, Value> = o.into_iter().filter(|(k, _)| keys.contains(&k.as_str())).collect();
    if let Some(Value::Object(e)) = o.get_mut("error") {
        e.retain(|k, v| ["code", "message", "data"].contains(&k.as_str()) && !v.is_null());
    }
    Value::Object(o)
}

fn hostile(p: Proto, r: &mut Rng) -> (Vec<u8>, &'static str) {
    let mut bytes = Vec::new();
    let mut bounds = vec![0usize];
    for _ in 0..r.range(1, 4) {
        let m = loop {
            let m = to_value(&gen(p, r));
            if m.to_string().len() < 3000 {
                break m;
            }
        };
        bytes.extend(frame(&m.to_string()));
        bounds.push(bytes.len());
    }
    let at = |r: &mut Rng, n: usize| r.below(n);
    match r.below(14) {
        0 | 1 => {
            let k = at(r, bytes.len());
            bytes.truncate(k);
            (bytes, "truncate")
        }
        2 => {
            for _ in 0..r.range(1, 4) {
                let k = at(r, bytes.len());
                bytes[k] ^= 1 << r.below(8);
            }
            (bytes, "flip")
        }
        3 => {
            let k = at(r, bytes.len());
            let ins: Vec<u8> = (0..r.range(1, 12)).map(|_| r.u64() as u8).collect();
            bytes.splice(k..k, ins);
            (bytes, "insert")
        }
        4 => {
            let k = at(r, bytes.len());
            let e = (k + r.range(1, 20)).min(bytes.len());
            bytes.drain(k..e);
            (bytes, "delete")
        }
        5 => ((0..r.below(400)).map(|_| r.u64() as u8).collect(), "random"),
        6 => {
            let n = r.range(1, 60);
            (
                (0..n)
                    .flat_map(|_| r.pick(&["Content-Length", ": ", "\r\n", "\n", "\r", "{", "}", "0", "5", "-1", " ", ":", "{}", "\r\n\r\n"]).bytes())
                    .collect(),
                "tokens",
            )
        }
        7 => {
            let len = *r.pick(&["-1", "", "abc", "1e3", "0x10", "18446744073709551616", "99999999999999999999999", " 5", "5 ", "+5", "٣", "1_0", "3.0"]);
            bytes.extend(format!("Content-Length: {len}\r\n\r\n{{}}").bytes());
            (bytes, "bad-length")
        }
        8 => {
            // wrong length: shorter or longer than the body
            let body = to_value(&gen(p, r)).to_string();
            let d = r.range(1, 20) as i64 * if r.chance(1, 2) { 1 } else { -1 };
            let n = (body.len() as i64 + d).max(0);
            bytes.extend(format!("Content-Length: {n}\r\n\r\n{body}").bytes());
            (bytes, "wrong-length")
        }
        9 => {
            let body = r.pick(&["null", "[]", "1", "\"x\"", "{}", "{\"id\":{}}", "{\"id\":1.5,\"method\":\"m\"}", "{\"method\":3}", "", " ", "{\"type\":\"nope\"}", "{\"type\":\"request\",\"seq\":1,\"command\":\"c\"}"]).to_string();
            bytes.extend(frame(&body));
            (bytes, "odd-payload")
        }
        10 => {
            let depth = r.range(50, 4000);
            let body = "[".repeat(depth) + &"]".repeat(depth);
            let body = format!("{{\"id\":1,\"method\":\"m\",\"params\":{body},\"type\":\"request\",\"seq\":1,\"command\":\"c\"}}");
            bytes.extend(frame(&body));
            (bytes, "deep")
        }
        11 => {
            let mut body = frame("{\"id\":1,\"method\":\"\u{e9}\"}");
            let k = body.len() - 3;
            body[k] = 0xff;
            bytes.extend(body);
            (bytes, "bad-utf8")
        }
        12 => {
            let k = *r.pick(&bounds);
            let ins = r.pick(&["\r\n", "\n", "Foo\r\n", "Foo:bar\r\n", "Content-Length:5\r\n", ": \r\n", "X: y\r\n\r\n"]).as_bytes().to_vec();
            bytes.splice(k..k, ins);
            (bytes, "bad-header")
        }
        _ => {
            let k = *r.pick(&bounds);
            bytes.truncate(k);
            (bytes, "boundary-eof")
        }
    }
}

fn check_hostile(ctx: &Ctx, p: Proto, bytes: Vec<u8>, what: &str, r: &mut Rng) {
    let mut rest = &bytes[..];
    let mut rd = reader(bytes.clone(), r);
    let dump = || json!({"proto": format!("{p:?}"), "kind": what, "input": short(&bytes), "hex": hex(&bytes)});
    let limit = bytes.len() + 3;
    for step in 0..=limit {
        let expect = reference(p, rest);
        let got = match guard(|| read_one(p, &mut rd)) {
            Ok(g) => g,
            Err(pn) => return ctx.on_panic("read-hostile", &pn, dump()),
        };
        match (&expect, &got) {
            (Ref::Unsure, _) => {
                ctx.count("unsure", 1);
                // Still: no panic and bounded.
                let mut k = 0;
                while let Ok(Ok(Some(_))) = guard(|| read_one(p, &mut rd)) {
                    k += 1;
                    if k > limit {
                        return ctx.violate("endless", dump());
                    }
                }
                return;
            }
            (Ref::Msg(w, end), Ok(Some(v))) => {
                ctx.count("intact_messages", 1);
                if v != w {
                    return ctx.violate("message-altered", json!({"step": step, "want": w, "got": v, "case": dump()}));
                }
                rest = &rest[*end..];
            }
            (Ref::Msg(w, _), other) => {
                return ctx.violate("message-lost", json!({"step": step, "want": w, "got": format!("{other:?}"), "case": dump()}))
            }
            (Ref::Not, Ok(Some(v))) => {
                return ctx.violate("message-invented", json!({"step": step, "got": v, "case": dump()}))
            }
            (Ref::Not, Ok(None)) => {
                ctx.count("clean_eof", 1);
                return;
            }
            (Ref::Not, Err(_)) => {
                // An empty rest must be a clean end, not an error.
                if rest.is_empty() {
                    return ctx.violate("eof-is-error", dump());
                }
                ctx.count("errors", 1);
                return;
            }
        }
    }
    ctx.violate("endless", dump());
}

/// A source that fails at some point: what came whole before is read, then the failure, nothing else.
struct Broken {
    inner: Chunked,
    at: usize,
    kind: std::io::ErrorKind,
    again: bool,
    failed: bool,
}
impl std::io::Read for Broken {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if out.is_empty() {
            return Ok(0);
        }
        if self.inner.pos >= self.at && (self.again || !self.failed) {
            self.failed = true;
            return Err(self.kind.into());
        }
        let n = if self.failed { out.len() } else { out.len().min(self.at - self.inner.pos) };
        self.inner.read(&mut out[..n])
    }
}

fn check_broken(ctx: &Ctx, p: Proto, r: &mut Rng) {
    let mut bytes = Vec::new();
    let mut ends = vec![];
    let mut want = vec![];
    for _ in 0..r.range(1, 4) {
        let m = gen(p, r);
        want.push(norm(to_value(&m)));
        bytes.extend(foreign_frame(&to_value(&m).to_string(), r));
        ends.push(bytes.len());
    }
    let at = match r.below(4) {
        0 => *r.pick(&ends),
        1 => (ends[r.below(ends.len())] + r.below(30)).min(bytes.len()),
        _ => r.below(bytes.len()),
    };
    let kind = *r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::ConnectionReset, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::TimedOut]);
    let cap = *r.pick(&[1usize, 2, 7, 64, 8192]);
    let mode = r.below(5);
    let inner = Chunked { data: bytes.clone(), pos: 0, rng: Rng::new(r.u64()), mode };
    let mut rd = BufReader::with_capacity(cap, Broken { inner, at, kind, again: r.chance(1, 2), failed: false });
    let dump = || json!({"proto": format!("{p:?}"), "fails at": at, "kind": format!("{kind:?}"), "ends": ends, "input": short(&bytes)});
    ctx.eval(h64(&(&bytes, at)), true);
    for (k, w) in want.iter().enumerate() {
        let got = match guard(|| {
            let m = match p {
                Proto::Lsp => Message::read_lsp(&mut rd)?,
                Proto::Dap => Message::read_dap(&mut rd)?,
            };
            Ok::<_, std::io::Error>(m.map(|m| norm(to_value(&m))))
        }) {
            Ok(g) => g,
            Err(pn) => return ctx.on_panic("read-broken", &pn, dump()),
        };
        match got {
            Ok(Some(v)) if v == *w && ends[k] <= at => {}
            Err(_) if ends[k] > at => {
                ctx.count("failures of the source", 1);
                return;
            }
            got => return ctx.violate("broken-source", json!({"message": k, "got": format!("{got:?}"), "want": w, "case": dump()})),
        }
    }
}

/// C10: how the threads of a transport end when the source or the destination fails.
pub fn transport(ctx: &Ctx, r: &mut Rng) {
    let p = if r.chance(1, 2) { Proto::Lsp } else { Proto::Dap };
    let mut bytes = Vec::new();
    let (mut ends, mut want) = (vec![], vec![]);
    for _ in 0..r.range(1, 4) {
        let m = gen(p, r);
        want.push(norm(to_value(&m)));
        bytes.extend(foreign_frame(&to_value(&m).to_string(), r));
        ends.push(bytes.len());
    }
    let at = if r.chance(1, 2) { r.below(bytes.len() + 1) } else { usize::MAX };
    let src = Broken { inner: Chunked { data: bytes, pos: 0, rng: Rng::new(r.u64()), mode: r.below(5) }, at, kind: std::io::ErrorKind::ConnectionReset, again: true, failed: false };
    let out: Vec<Message> = (0..r.range(1, 4)).map(|_| gen(p, r)).collect();
    let full: Vec<u8> = out
        .iter()
        .flat_map(|m| {
            let mut v = Vec::new();
            clone_msg(m).write(&mut v).expect("written before");
            v
        })
        .collect();
    let fails = if r.chance(1, 2) { usize::MAX } else { 0 };
    let dst = Arc::new(Mutex::new(Outlet { held: vec![], arrived: vec![], rng: Rng::new(r.u64()), room: r.below(full.len()), fails, failed: 0, flush_fails: r.chance(1, 2) }));
    struct To(Arc<Mutex<Outlet>>);
    impl std::io::Write for To {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            self.0.lock().unwrap().write(b)
        }
        fn flush(&mut self) -> std::io::Result<()> {
            self.0.lock().unwrap().flush()
        }
    }
    let to = To(dst.clone());
    let kind = if p == Proto::Lsp { sync_ls::MessageKind::Lsp } else { sync_ls::MessageKind::Dap };
    let both = r.chance(1, 2);
    let says = json!({"proto": format!("{p:?}"), "source fails at": (at != usize::MAX).then_some(at), "destination fails": fails > 0, "join": if both { "both" } else { "write" }});
    ctx.eval(h64(&(&full, at)), true);
    let run = move || {
        let (tx, rx, io) = sync_ls::transport::io_transport(kind, move || BufReader::new(src), move || to);
        let got = std::thread::spawn(move || rx.into_iter().map(|m| norm(to_value(&m))).collect::<Vec<_>>());
        for m in out {
            if tx.send(m).is_err() {
                break;
            }
        }
        drop(tx);
        let res = if both { io.join() } else { io.join_write() };
        (res.map_err(|e| e.to_string()), got.join().unwrap_or_default())
    };
    let (res, got) = match watched(Duration::from_secs(60), run) {
        Watched::Done(x) => x,
        Watched::Panicked(pn) => return ctx.on_panic("transport", &pn, says),
        Watched::Hung => return ctx.violate("transport-hangs", says),
    };
    let dst = dst.lock().unwrap();
    let whole = ends.iter().filter(|e| **e <= at).count();
    let bad = (both && at != usize::MAX) || dst.failed > 0;
    // Who waits for both does not wait for the writer when the source has failed.
    let done = !(both && at != usize::MAX);
    if done && fails > 0 && dst.failed == 0 {
        return ctx.violate("destination-not-used", says);
    }
    if res.is_err() != bad {
        return ctx.violate("transport-end", json!({"case": says, "ended": format!("{res:?}")}));
    }
    if got != want[..whole] {
        return ctx.violate("transport-input", json!({"case": says, "got": got, "want": want[..whole]}));
    }
    if done && dst.failed == 0 && dst.arrived != full || !full.starts_with(&dst.arrived) {
        return ctx.violate("transport-output", json!({"case": says, "arrived": short(&dst.arrived), "want": short(&full)}));
    }
    ctx.count("transports whose source failed", (both && at != usize::MAX) as u64);
    ctx.count("transports whose destination failed", (dst.failed > 0) as u64);
}

fn hex(b: &[u8]) -> String {
    b.iter().take(4000).map(|x| format!("{x:02x}")).collect()
}

pub fn c02(ctx: &Ctx) -> i32 {
    // Every truncation and every single-byte corruption of a few short streams.
    let me = ctx.clone();
    let run = move || {
        let ctx = &me;
        parallel(ctx, 24, 8, |i| {
            let mut r = ctx.rng(1_000_000 + i as u64);
            let p = if i % 2 == 0 { Proto::Lsp } else { Proto::Dap };
            let mut bytes = Vec::new();
            while bytes.len() < 150 {
                let m = to_value(&gen(p, &mut r));
                if m.to_string().len() < 160 {
                    bytes.extend(frame(&m.to_string()));
                }
            }
            for k in 0..=bytes.len() {
                check_hostile(ctx, p, bytes[..k].to_vec(), "each-truncation", &mut r);
                ctx.eval(h64(&(i, k)), true);
                ctx.count("truncations", 1);
                if k < bytes.len() {
                    let mut b = bytes.clone();
                    b[k] = *r.pick(&[0u8, b'\n', b'\r', b'9', b'"', 0xff, b[k] ^ 0x20]);
                    ctx.eval(h64(&b), true);
                    check_hostile(ctx, p, b, "each-byte", &mut r);
                }
            }
        });
        parallel(ctx, ctx.n(20_000, 1_000_000), 8, |i| {
            let mut r = ctx.rng(i as u64);
            let p = if r.chance(1, 2) { Proto::Lsp } else { Proto::Dap };
            let (bytes, what) = hostile(p, &mut r);
            ctx.eval(h64(&bytes), !bytes.is_empty());
            ctx.sample(|| json!({"kind": what, "input": short(&bytes)}));
            ctx.count(&format!("kind_{what}"), 1);
            check_hostile(ctx, p, bytes, what, &mut r);
        });
        parallel(ctx, ctx.n(4_000, 200_000), 8, |i| {
            let mut r = ctx.rng(2_000_000 + i as u64);
            let p = if r.chance(1, 2) { Proto::Lsp } else { Proto::Dap };
            check_broken(ctx, p, &mut r);
        });
    };
    match watched(Duration::from_secs(600), run) {
        Watched::Done(()) => {}
        Watched::Panicked(p) => ctx.on_panic("c02", &p, Value::Null),
        Watched::Hung => ctx.inconclusive("watchdog: hostile reading did not end in 600 s"),
    }
    // Declared lengths far beyond the input, in a child with a memory limit.
    let exe = std::env::current_exe().expect("exe");
    for len in ["2147483648", "10000000000", "1000000000000", "9223372036854775807", "9223372036854775808", "18446744073709551615"] {
        for p in ["lsp", "dap"] {
            ctx.eval(h64(&(len, p)), true);
            ctx.count("huge_lengths", 1);
            let out = std::process::Command::new("sh")
                .arg("-c")
                .arg("ulimit -v 3000000; ulimit -c 0; exec \"$0\" child-huge \"$1\" \"$2\"")
                .arg(&exe)
                .arg(len)
                .arg(p)
                .output();
            match out {
                Ok(o) => {
                    let text = String::from_utf8_lossy(&o.stdout).to_string();
                    if o.status.code() == Some(0) && text.contains("outcome=error") {
                        continue;
                    }
                    if text.contains("started") {
                        ctx.violate(
                            "huge-length",
                            json!({"declared": len, "proto": p, "status": format!("{:?}", o.status), "stdout": text,
                                   "stderr": String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()}),
                        );
                    } else {
                        ctx.inconclusive(format!("child did not start: {:?} {text}", o.status));
                    }
                }
                Err(e) => ctx.inconclusive(format!("cannot run child: {e}")),
            }
        }
    }
    ctx.require("intact_messages", 1000);
    ctx.require("errors", 500);
    ctx.require("failures of the source", 500);
    ctx.finish(
        "exploration",
        "every truncation and one corruption per byte of short streams, plus random mutations (flip, insert, delete, wrong or \
         absurd lengths, bad headers, bad UTF-8, deep nesting, noise, sources that fail at any byte) of LSP and DAP streams under random chunking; every input \
         is non-trivial; oracle: an independent reference of what is certainly a complete message / certainly none, plus no \
         panic, no endless reading, and bounded memory for absurd lengths (child with a 3 GB address space)",
        &["inputs the protocol leaves open (duplicate or padded lengths, odd ids) are only checked for panics and termination"],
    )
}

/// `child-huge LEN PROTO`: reads one message whose declared length is far beyond the input.
pub fn child_huge(args: &[String]) -> i32 {
    use std::io::Write;
    println!("started");
    let _ = std::io::stdout().flush();
    let p = if args[1] == "dap" { Proto::Dap } else { Proto::Lsp };
    let data = format!("Content-Length: {}\r\n\r\n{{\"id\":1,\"method\":\"m\"}}", args[0]).into_bytes();
    let mut r = Rng::new(1);
    let mut rd = reader(data, &mut r);
    match read_one(p, &mut rd) {
        Err(_) => println!("outcome=error"),
        other => println!("outcome=other {other:?}"),
    }
    0
}
