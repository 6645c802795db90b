//! A real server process over standard input and output: C09 mirroring and replay, C10 orderly termination.

use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::sync::Arc;
use std::time::Duration;

use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::*;
use vm_core::{h64, json, parallel, Ctx, Rng, Scratch, Value};

use crate::case::{describe, gen, is_response, mismatch, Case, End, Expect, Profile, Step};
use crate::framing::Proto;
use crate::server::{self, Obs};
use crate::wire::{frame, StrictParser};

/// What a server that fails in the end says.
const FAILED: &str = "the server fails on its way out";

/// `child-server PROTO MIRROR REPLAY [fail]`
pub fn child_server(args: &[String]) -> i32 {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().expect("runtime");
    let mirror = MirrorArgs { mirror: args[1].clone(), replay: args[2].clone() };
    let replay = !args[2].is_empty();
    let obs = Arc::new(Obs::default());
    let h = rt.handle().clone();
    let fail = args.get(3).is_some_and(|a| a == "fail");
    let end = |res: anyhow::Result<()>| if fail { res.and_then(|()| Err(anyhow::anyhow!(FAILED))) } else { res };
    let res = if args[0] == "dap" {
        with_stdio_transport::<DapMessage>(mirror, |conn| {
            let root = LspClientRoot::new(h, conn.sender);
            end(server::dap_builder(obs, root.weak()).build().start(conn.receiver, replay))
        })
    } else {
        with_stdio_transport::<LspMessage>(mirror, |conn| {
            let root = LspClientRoot::new(h, conn.sender);
            end(server::lsp_builder(obs, root.weak()).build().start(conn.receiver, replay))
        })
    };
    match res {
        Ok(()) => {
            eprintln!("vm-end ok");
            0
        }
        Err(e) => {
            eprintln!("vm-end err {e:?}");
            3
        }
    }
}

#[derive(Default, Clone)]
pub struct Opts {
    pub mirror: String,
    pub replay: String,
    /// The client keeps its end open until the process ended.
    pub hold: bool,
    /// The client stops reading (and closes the pipe) after so many bytes.
    pub deaf_after: Option<usize>,
    /// Where the output goes instead.
    pub stdout: Option<&'static str>,
    /// The server's main loop fails when it ends.
    pub fail: bool,
    /// The client starts to read later.
    pub late: bool,
    /// `REPLAY_TIMEOUT`
    pub patience: Option<u32>,
}

#[derive(Debug, Default)]
pub struct Outcome {
    pub code: Option<i32>,
    pub timed_out: bool,
    pub frames: Vec<(Value, String)>,
    pub malformed: Option<String>,
    pub leftover: usize,
    pub stderr: String,
}

pub fn run_child(p: Proto, input: &[u8], o: &Opts, seed: u64, limit: Duration) -> Outcome {
    let mut r = Rng::new(seed);
    let exe = std::env::current_exe().expect("exe");
    let mut child = Command::new(exe)
        .arg("child-server")
        .arg(if p == Proto::Dap { "dap" } else { "lsp" })
        .arg(&o.mirror)
        .arg(&o.replay)
        .arg(if o.fail { "fail" } else { "" })
        .env("REPLAY_TIMEOUT", o.patience.unwrap_or(600).to_string())
        .stdin(Stdio::piped())
        .stdout(match o.stdout {
            Some(f) => std::fs::OpenOptions::new().write(true).open(f).expect("output").into(),
            None => Stdio::piped(),
        })
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn server");
    let mut stdin = child.stdin.take().unwrap();
    let stdout = child.stdout.take();
    let mut stderr = child.stderr.take().unwrap();
    let mut out = Outcome::default();
    let input = input.to_vec();
    let hold = o.hold;
    let deaf = o.deaf_after;
    let late = o.late;
    let (gone_tx, gone_rx) = mpsc::channel::<()>();
    let pid = child.id();
    std::thread::scope(|s| {
        let (res_tx, res_rx) = mpsc::channel();
        s.spawn(move || {
            let style = r.below(4);
            let mut pos = 0;
            while pos < input.len() {
                let n = match style {
                    0 => input.len(),
                    1 => r.range(1, 40),
                    2 => r.range(1, 400),
                    _ => r.range(1, 5000),
                }
                .min(input.len() - pos);
                if stdin.write_all(&input[pos..pos + n]).is_err() {
                    break;
                }
                pos += n;
                if style != 0 && r.chance(1, 12) {
                    std::thread::sleep(Duration::from_micros(r.range(1, 300) as u64));
                }
            }
            if hold {
                let _ = gone_rx.recv();
            }
        });
        let rd = s.spawn(move || {
            let mut b = vec![];
            let mut buf = [0u8; 4096];
            let Some(mut stdout) = stdout else { return b };
            if late {
                std::thread::sleep(Duration::from_millis(400));
            }
            loop {
                if deaf.is_some_and(|d| b.len() >= d) {
                    break;
                }
                match stdout.read(&mut buf) {
                    Ok(0) | Err(_) => break,
                    Ok(n) => b.extend_from_slice(&buf[..n]),
                }
            }
            b
        });
        let er = s.spawn(move || {
            let mut b = vec![];
            let _ = stderr.read_to_end(&mut b);
            String::from_utf8_lossy(&b).to_string()
        });
        let killer = s.spawn(move || {
            let st = res_rx.recv_timeout(limit);
            if st.is_err() {
                // SIGKILL to our own child.
                let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
                return true;
            }
            false
        });
        let st = child.wait().expect("wait");
        let _ = res_tx.send(());
        drop(gone_tx);
        out.timed_out = killer.join().unwrap_or(false);
        out.code = st.code();
        let bytes = rd.join().expect("reader");
        out.stderr = er.join().expect("stderr");
        let mut sp = StrictParser::default();
        sp.push(&bytes);
        loop {
            match sp.next() {
                Ok(Some(f)) => out.frames.push(f),
                Ok(None) => break,
                Err(e) => {
                    out.malformed = Some(e);
                    break;
                }
            }
        }
        out.leftover = sp.pending();
    });
    out
}

/// The messages of a case in order, with the byte offset at which each ends.
pub fn stream(c: &Case) -> (Vec<u8>, Vec<(Value, usize)>) {
    let mut b = vec![];
    let mut m = vec![];
    let mut put = |v: &Value, b: &mut Vec<u8>| {
        b.extend(frame(&v.to_string()));
        m.push((v.clone(), b.len()));
    };
    for s in &c.steps {
        match s {
            Step::Send(v) => put(v, &mut b),
            Step::Burst(vs) => vs.iter().for_each(|v| put(v, &mut b)),
            _ => {}
        }
    }
    (b, m)
}

fn req_id(p: Proto, v: &Value) -> Option<String> {
    match p {
        Proto::Lsp if v.get("method").is_some() => v.get("id").map(Value::to_string),
        Proto::Dap if v["type"] == "request" => v.get("seq").map(Value::to_string),
        _ => None,
    }
}

/// The requests among the messages that the server gets to handle.
fn requests(c: &Case, msgs: &[(Value, usize)], upto: usize) -> Vec<String> {
    let mut ids = vec![];
    for (v, end) in msgs {
        if *end > upto {
            break;
        }
        if c.proto == Proto::Lsp && v["method"] == "exit" {
            break;
        }
        ids.extend(req_id(c.proto, v));
    }
    ids
}

/// Compares the responses with the model. `all`: asynchronous ones must be there too.
fn judge(c: &Case, ids: &[String], o: &Outcome, all: bool) -> Option<(String, Value)> {
    if let Some(e) = &o.malformed {
        return Some(("malformed-output".into(), json!(e)));
    }
    if o.leftover != 0 {
        return Some(("torn-frame".into(), json!({"bytes": o.leftover})));
    }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let known: BTreeSet<&String> = ids.iter().collect();
    for (v, text) in &o.frames {
        let Some(id) = is_response(c.proto, v) else { return Some(("unexpected-message".into(), json!(text))) };
        if !known.contains(&id) {
            return Some(("unasked-response".into(), json!(text)));
        }
        *seen.entry(id.clone()).or_default() += 1;
        if seen[&id] > 1 {
            return Some(("several-responses".into(), json!(text)));
        }
        if let Some(why) = mismatch(c.proto, &c.want[&id].expect, v) {
            return Some(("wrong-response".into(), json!({"why": why, "frame": text, "want": format!("{:?}", c.want[&id].expect)})));
        }
    }
    for id in ids {
        if !seen.contains_key(id) && (all || !c.want[id].is_async) {
            return Some(("lost-response".into(), json!({"id": id, "want": format!("{:?}", c.want[id]), "stderr": o.stderr})));
        }
    }
    None
}

fn ended_well(o: &Outcome) -> Option<(String, Value)> {
    if o.timed_out {
        return Some(("no-termination".into(), Value::Null));
    }
    if o.stderr.contains("panicked at") {
        return Some(("panic".into(), json!({"code": o.code, "stderr": o.stderr.chars().take(600).collect::<String>()})));
    }
    if o.code != Some(0) {
        return Some(("bad-exit".into(), json!({"code": o.code, "stderr": o.stderr.chars().take(600).collect::<String>()})));
    }
    None
}

const LIMIT: Duration = Duration::from_secs(20);

/// Reruns on a timeout.
fn child_confirmed(p: Proto, input: &[u8], o: &Opts, seed: u64) -> Outcome {
    let out = run_child(p, input, o, seed, LIMIT);
    if out.timed_out {
        return run_child(p, input, o, seed, LIMIT * 4);
    }
    out
}

fn short_case(r: &mut Rng, p: Proto, max: usize) -> Case {
    for _ in 0..10_000 {
        let c = gen(r, p, Profile::Child);
        let n = stream(&c).0.len();
        if n < max && n > max / 3 && c.want.len() > 2 {
            return c;
        }
    }
    panic!("no short case");
}

/// Makes the answers of a case long.
fn swell(c: &mut Case, n: usize) {
    fn walk(v: &mut Value, long: &Value) {
        match v {
            Value::Object(o) => o.iter_mut().for_each(|(k, v)| if k == "echo" && !v.is_number() && !v.is_null() { *v = long.clone() } else { walk(v, long) }),
            Value::Array(a) => a.iter_mut().for_each(|v| walk(v, long)),
            _ => {}
        }
    }
    let long = json!("x".repeat(n));
    for s in &mut c.steps {
        match s {
            Step::Send(v) => walk(v, &long),
            Step::Burst(vs) => vs.iter_mut().for_each(|v| walk(v, &long)),
            _ => {}
        }
    }
    for w in c.want.values_mut() {
        if let Expect::Ok(v) = &mut w.expect {
            walk(v, &long);
        }
    }
}

// ------------------------------------------------------------------ C10

pub fn c10(ctx: &Ctx) -> i32 {
    let check = |c: &Case, bytes: &[u8], ids: &[String], o: Opts, seed: u64, what: &str| {
        let out = child_confirmed(c.proto, bytes, &o, seed);
        ctx.count(what, 1);
        ctx.count("responses", out.frames.len() as u64);
        ctx.eval(h64(&(bytes.len(), seed, what)), true);
        let mut bad = ended_well(&out);
        if o.fail {
            // Its failure is reported, and changes nothing else.
            let told = out.code == Some(3) && out.stderr.contains(FAILED);
            bad = bad.filter(|(s, _)| s != "bad-exit" || !told);
            if bad.is_none() && !told {
                bad = Some(("failure-not-reported".into(), json!({"code": out.code, "stderr": out.stderr})));
            }
        }
        if o.deaf_after.is_some() {
            // Nobody listens: only that the process ends, and not by a crash.
            bad = bad.filter(|(s, _)| s == "no-termination" || s == "panic" || out.code.is_none());
        } else if bad.is_none() {
            bad = judge(c, ids, &out, false);
        }
        if let Some((sig, d)) = bad {
            ctx.violate(
                format!("{what}:{sig}"),
                json!({"because": d, "input_bytes": bytes.len(), "tail": String::from_utf8_lossy(&bytes[bytes.len().saturating_sub(200)..]), "case": describe(c)}),
            );
        }
    };
    // Every byte position of short sessions.
    let shorts: Vec<Case> = (0..ctx.n(2, 24))
        .map(|i| {
            let mut r = ctx.rng(5_000_000 + i as u64);
            short_case(&mut r, if i % 2 == 0 { Proto::Lsp } else { Proto::Dap }, 900)
        })
        .collect();
    let jobs: Vec<(usize, usize)> = shorts.iter().enumerate().flat_map(|(i, c)| (0..=stream(c).0.len()).map(move |k| (i, k))).collect();
    parallel(ctx, jobs.len(), 8, |j| {
        let (i, k) = jobs[j];
        let c = &shorts[i];
        let (b, m) = stream(c);
        let ids = requests(c, &m, k);
        check(c, &b[..k], &ids, Opts::default(), j as u64, "cut_every_position");
    });
    ctx.sample(|| json!({"short_session": describe(&shorts[0])}));
    parallel(ctx, ctx.n(700, 30_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        let p = if r.chance(2, 3) { Proto::Lsp } else { Proto::Dap };
        let c = gen(&mut r, p, Profile::Child);
        let (b, m) = stream(&c);
        let seed = r.u64();
        if m.is_empty() {
            return;
        }
        match i % 6 {
            0 => {
                let k = r.below(b.len() + 1);
                check(&c, &b[..k], &requests(&c, &m, k), Opts::default(), seed, "cut_anywhere");
            }
            1 => {
                let k = r.pick(&m).1;
                check(&c, &b[..k], &requests(&c, &m, k), Opts::default(), seed, "cut_between");
            }
            // Garbage instead of the next message; the client does not even close its end.
            2 => {
                let k = r.pick(&m).1;
                let mut v = b[..k].to_vec();
                v.extend(r.pick(&["garbage\r\n\r\n", "Content-Length: x\r\n\r\n", "Content-Length: 3\r\n\r\n{}x", "\r\n", "Content-Length: 2\r\n\r\n[]", "Content-Length: 99999999999999999999\r\n\r\n"]).bytes());
                check(&c, &v, &requests(&c, &m, k), Opts { hold: true, ..Default::default() }, seed, "garbage");
            }
            // Exit in the middle of traffic, with the client holding its end open.
            3 if p == Proto::Lsp => {
                let k = r.pick(&m).1;
                let mut v = b[..k].to_vec();
                v.extend(frame("{\"jsonrpc\":\"2.0\",\"method\":\"exit\"}"));
                if r.chance(1, 2) {
                    v.extend_from_slice(&b[k..]);
                }
                check(&c, &v, &requests(&c, &m, k), Opts { hold: true, ..Default::default() }, seed, "exit_midway");
            }
            4 => {
                let d = r.below(400);
                check(&c, &b, &[], Opts { deaf_after: Some(d), hold: c.end == End::Exit, ..Default::default() }, seed, "client_vanishes");
            }
            5 if i % 12 == 5 => {
                // The output cannot be written: the process ends all the same, and says so.
                let out = child_confirmed(p, &b, &Opts { stdout: Some("/dev/full"), ..Default::default() }, seed);
                ctx.eval(h64(&(seed, "full")), true);
                ctx.count("full_output", 1);
                let due = requests(&c, &m, b.len()).iter().any(|id| !c.want[id].is_async);
                if out.timed_out || out.code.is_none() || due && out.code == Some(0) {
                    ctx.violate("full_output", json!({"code": out.code, "timed_out": out.timed_out, "stderr": out.stderr, "case": describe(&c)}));
                }
            }
            5 if i % 12 == 11 => {
                // The server's own loop fails after it has answered.
                let mut c = c;
                swell(&mut c, r.range(1, 150_000));
                let (b, m) = stream(&c);
                let k = r.pick(&m).1;
                check(&c, &b[..k], &requests(&c, &m, k), Opts { fail: true, late: r.chance(1, 2), ..Default::default() }, seed, "server_fails");
            }
            _ => {
                let k = b.len();
                check(&c, &b, &requests(&c, &m, k), Opts { hold: c.end == End::Exit, ..Default::default() }, seed, "whole");
            }
        }
    });
    parallel(ctx, ctx.n(2_000, 60_000), 8, |i| {
        let mut r = ctx.rng(7_000_000 + i as u64);
        crate::framing::transport(ctx, &mut r);
    });
    ctx.require("cut_every_position", 100);
    ctx.require("full_output", 10);
    ctx.require("server_fails", 20);
    ctx.require("transports whose source failed", 200);
    ctx.require("transports whose destination failed", 200);
    ctx.require("responses", 500);
    ctx.finish(
        "fault_enumeration",
        "real server processes whose input ends at every byte position of short sessions, and at random positions, by garbage, by \
         an exit message amid traffic, or with a client that stops reading or whose end is full, and transports whose source or destination fails at any byte; every case is non-trivial; oracle: exit status, no \
         panic, whole frames only, each synchronously answered request before the end has its response, no other response",
        &["asynchronous work outstanding at the end may go unanswered", "a client that stops reading is only claimed to let the server end"],
    )
}

// ------------------------------------------------------------------ C09

pub fn c09(ctx: &Ctx) -> i32 {
    parallel(ctx, ctx.n(500, 12_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        let p = if r.chance(2, 3) { Proto::Lsp } else { Proto::Dap };
        let c = gen(&mut r, p, Profile::Child);
        let (b, m) = stream(&c);
        let mut upto = b.len();
        if r.chance(1, 3) {
            upto = r.below(b.len() + 1);
        }
        let input = &b[..upto];
        let ids = requests(&c, &m, upto);
        let whole = upto == b.len() || m.iter().any(|x| x.1 == upto) || upto == 0;
        let complete = m.iter().map(|x| x.1).filter(|e| *e <= upto).max().unwrap_or(0);
        let dir = Scratch::new("c09");
        let file = dir.path().join("mirror.log");
        if r.chance(1, 4) {
            std::fs::write(&file, vec![b'#'; 100_000]).expect("write");
        }
        let bad = |what: &str, sig: &str, d: Value| {
            ctx.violate(format!("{what}:{sig}"), json!({"because": d, "input_bytes": upto, "case": describe(&c)}));
        };
        // The recorded session.
        let o = Opts { mirror: file.display().to_string(), ..Default::default() };
        let rec = child_confirmed(p, input, &o, r.u64());
        if let Some((s, d)) = ended_well(&rec).or_else(|| judge(&c, &ids, &rec, false)) {
            return bad("mirrored", &s, d);
        }
        let got = std::fs::read(&file).unwrap_or_default();
        let prefix = input.starts_with(&got) && got.len() >= complete;
        if !prefix || (whole && got != input) {
            let k = got.iter().zip(input).position(|(a, b)| a != b).unwrap_or(got.len().min(input.len()));
            return bad("mirror", "mirror-differs", json!({"input": input.len(), "mirror": got.len(), "complete": complete, "first_difference": k}));
        }
        ctx.count("mirrored_bytes", got.len() as u64);
        // The replay of the recording, and of the recording's prefix that a crash would have left.
        let o = Opts { replay: file.display().to_string(), ..Default::default() };
        let rep = child_confirmed(p, b"", &o, r.u64());
        if let Some((s, d)) = ended_well(&rep).or_else(|| judge(&c, &ids, &rep, true)) {
            return bad("replayed", &s, d);
        }
        ctx.count("replayed_responses", rep.frames.len() as u64);
        let set = |o: &Outcome| o.frames.iter().map(|f| f.1.clone()).collect::<BTreeSet<_>>();
        if !set(&rec).is_subset(&set(&rep)) {
            let d: Vec<String> = set(&rec).difference(&set(&rep)).take(3).cloned().collect();
            return bad("replayed", "responses-differ", json!({"only_recorded": d}));
        }
        if i % 16 == 3 {
            // A request that never completes does not keep the process for ever, nor the other responses back.
            let (mut v, mut stuck) = (vec![], None);
            for (msg, _) in &m {
                let mut msg = msg.clone();
                for a in ["params", "arguments"] {
                    if stuck.is_none() && c.want.get(&req_id(p, &msg).unwrap_or_default()).is_some_and(|w| w.is_async) && matches!(msg[a]["mode"].as_str(), Some("yield" | "sleep")) {
                        msg[a]["mode"] = json!("gate");
                        stuck = req_id(p, &msg);
                    }
                }
                v.extend(frame(&msg.to_string()));
            }
            if let Some(stuck) = stuck {
                std::fs::write(&file, &v).expect("write");
                let o = Opts { replay: file.display().to_string(), patience: Some(1), ..Default::default() };
                let rep = child_confirmed(p, b"", &o, r.u64());
                let mut ids = requests(&c, &m, b.len());
                let n = ids.len();
                ids.retain(|id| *id != stuck);
                if ids.len() < n {
                    let late = rep.timed_out.then(|| ("no-termination".to_string(), json!({"stuck": stuck})));
                    if let Some((s, d)) = late.or_else(|| judge(&c, &ids, &rep, true)) {
                        return bad("stuck", &s, d);
                    }
                    ctx.count("replays that got stuck", 1);
                }
            }
        }
        if i % 8 == 0 {
            // A mirror that cannot be written does not disturb the session.
            let o = Opts { mirror: "/dev/full".into(), ..Default::default() };
            let out = child_confirmed(p, input, &o, r.u64());
            if let Some((s, d)) = ended_well(&out).or_else(|| judge(&c, &ids, &out, false)) {
                return bad("full_disk", &s, d);
            }
            ctx.count("full_disk", 1);
        }
        ctx.eval(h64(input), !ids.is_empty());
        ctx.sample(|| json!({"proto": format!("{p:?}"), "input_bytes": upto, "requests": ids.len(), "replayed": rep.frames.len()}));
        ctx.count("sessions", 1);
    });
    ctx.require("sessions", 20);
    ctx.require("replayed_responses", 100);
    ctx.require("replays that got stuck", 5);
    ctx.finish(
        "exploration",
        "random sessions (also cut off anywhere) against a real process with a mirror file, then a replay of that file; non-trivial: \
         at least one request; oracle: mirror bytes equal the input (all of it when it ends between messages, at least every complete \
         message otherwise), recorded responses as in the model, replay answers every request as in the model, also asynchronous ones",
        &["handlers are deterministic ones of the harness"],
    )
}
