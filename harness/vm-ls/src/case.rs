//! Random scripted sessions, the reference model that says what they must observe, and the comparison.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering;
use std::time::Duration;

use vm_core::{h64, json, Rng, Value};

use crate::framing::Proto;
use crate::server::Rec;
use crate::session::start;
use crate::wire::frame;

/// What the client must receive for a request.
#[derive(Clone, Debug)]
pub enum Expect {
    Ok(Value),
    /// One of these codes (empty: any), and this message if given.
    Err(Vec<i32>, Option<String>),
}

#[derive(Clone, Debug)]
pub enum Step {
    Send(Value),
    /// Several messages in one write.
    Burst(Vec<Value>),
    /// Opens a gate from the outside.
    Release(String),
    /// Waits until every request sent so far, except those behind a closed gate, is answered.
    Await,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum End {
    Exit,
    Eof,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Profile {
    General,
    Lifecycle,
    Hostile,
    Ids,
    Order,
    /// For a server in another process: no gates.
    Child,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Uninit,
    Initializing,
    Ready,
    Down,
}

/// What a request was sent for: findings are attributed to properties by this.
#[derive(Clone, Copy, PartialEq, Debug, Eq, PartialOrd, Ord)]
pub enum Why {
    Handler,
    Lifecycle,
    Hostile,
}

#[derive(Clone, Debug)]
pub struct Want {
    pub expect: Expect,
    pub why: Why,
    pub gated: Option<String>,
    /// May be cut off when the client leaves without waiting.
    pub is_async: bool,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub proto: Proto,
    pub seed: u64,
    pub steps: Vec<Step>,
    pub want: BTreeMap<String, Want>,
    pub log: Vec<Rec>,
    pub end: End,
    pub abrupt: bool,
}

pub struct Gen<'a> {
    r: &'a mut Rng,
    p: Proto,
    profile: Profile,
    st: St,
    n: usize,
    used: BTreeSet<String>,
    want: BTreeMap<String, Want>,
    log: Vec<Rec>,
    gates: Vec<String>,
    burst: Vec<Value>,
    steps: Vec<Step>,
    last_id: i64,
}

const NOT_INIT: &[i32] = &[-32002];
const INVALID: &[i32] = &[-32600];
const UNKNOWN: &[i32] = &[-32601];
const BAD_PARAMS: &[i32] = &[-32600, -32602];

pub fn gen(r: &mut Rng, p: Proto, profile: Profile) -> Case {
    let seed = r.u64();
    let mut g = Gen {
        r,
        p,
        profile,
        st: St::Uninit,
        n: 0,
        used: BTreeSet::new(),
        want: BTreeMap::new(),
        log: vec![],
        gates: vec![],
        burst: vec![],
        steps: vec![],
        last_id: 0,
    };
    let phase = |p: Profile, r: &mut Rng| match p {
        Profile::Lifecycle => r.below(6),
        Profile::Hostile => r.below(3),
        _ => {
            if r.chance(1, 8) {
                1
            } else {
                0
            }
        }
    };
    let reach = if profile == Profile::Lifecycle { g.r.below(5) } else { 4 };
    for _ in 0..phase(profile, g.r) {
        g.one();
    }
    if reach >= 1 {
        g.init_ok();
        if p == Proto::Lsp {
            for _ in 0..phase(profile, g.r) {
                g.one();
            }
            if reach >= 2 {
                g.initialized();
            }
        }
        let n = match profile {
            Profile::Lifecycle => g.r.below(8),
            Profile::Ids => g.r.range(8, 30),
            _ => g.r.range(5, 40),
        };
        for _ in 0..n {
            g.one();
        }
        if reach >= 3 && g.st == St::Ready && g.r.chance(2, 3) {
            g.shutdown();
            for _ in 0..phase(profile, g.r) {
                g.one();
            }
        }
    }
    let abrupt = g.r.chance(1, 6);
    if !abrupt {
        g.flush();
        for t in std::mem::take(&mut g.gates) {
            g.steps.push(Step::Release(t));
        }
        g.steps.push(Step::Await);
    }
    let end = if p == Proto::Lsp && g.r.chance(1, 2) { End::Exit } else { End::Eof };
    if end == End::Exit {
        if g.st == St::Ready {
            g.log.push(Rec::Notif { method: "exit".into(), token: "bye".into() });
        }
        g.burst.push(match g.r.below(6) {
            0 => json!({"jsonrpc": "2.0", "method": "exit"}),
            1 => json!({"jsonrpc": "2.0", "method": "exit", "params": null}),
            2 => json!({"jsonrpc": "2.0", "method": "exit", "params": {}}),
            3 => json!({"jsonrpc": "2.0", "method": "exit", "params": []}),
            _ => json!({"jsonrpc": "2.0", "method": "exit", "params": {"token": "bye"}}),
        });
    }
    g.flush();
    Case { proto: p, seed, steps: g.steps, want: g.want, log: g.log, end, abrupt }
}

impl Gen<'_> {
    fn flush(&mut self) {
        if !self.burst.is_empty() {
            let b = std::mem::take(&mut self.burst);
            self.steps.push(if b.len() == 1 { Step::Send(b.into_iter().next().unwrap()) } else { Step::Burst(b) });
        }
    }
    fn push(&mut self, v: Value) {
        self.burst.push(v);
        if self.r.chance(2, 3) {
            self.flush();
        }
    }
    fn token(&mut self) -> String {
        self.n += 1;
        match self.r.below(6) {
            0 => format!("t{}-{}", self.n, self.r.text(6)),
            _ => format!("t{}", self.n),
        }
    }
    fn id(&mut self) -> Value {
        loop {
            let v = match self.p {
                Proto::Dap => match (self.profile, self.r.below(6)) {
                    (Profile::Ids, 0) => json!(self.r.u64() as i64),
                    (Profile::Ids, 1) => json!(*self.r.pick(&[i64::MAX, i64::MIN, -1, 0, 1 << 31, (1 << 31) - 1, 1 << 32, -(1 << 31)])),
                    // congruent modulo 2^32 to an earlier one
                    (Profile::Ids, 2 | 3) => json!(self.last_id.wrapping_add(1i64 << self.r.range(31, 40))),
                    _ => {
                        let n = self.n as i64 + 1;
                        json!(n * 3 + self.r.below(3) as i64)
                    }
                },
                Proto::Lsp => match (self.profile, self.r.below(8)) {
                    (Profile::Ids, 0) => json!(self.r.u64() as i32),
                    (Profile::Ids, 1) => json!(*self.r.pick(&[i32::MAX, i32::MIN, -1, 0])),
                    (Profile::Ids, 2) => json!(self.r.text(20)),
                    (Profile::Ids, 3 | 4) => json!(self.last_id.to_string()),
                    (Profile::Ids, 5) => json!(*self.r.pick(&["", " ", "null", "0", "-0", "1.0", "\"", "🦀", "a\u{0}b"])),
                    (_, 0) => json!(format!("req-{}", self.n)),
                    _ => json!(self.n as i64 + 100),
                },
            };
            if let Some(n) = v.as_i64() {
                self.last_id = n;
            }
            if self.used.insert(v.to_string()) {
                return v;
            }
            self.n += 1;
        }
    }
    /// Sends a request expecting the given response.
    fn req(&mut self, method: &str, params: Value, expect: Expect, why: Why) -> Value {
        self.req_(method, params, expect, why, None, false)
    }
    fn req_(&mut self, method: &str, params: Value, expect: Expect, why: Why, gated: Option<String>, is_async: bool) -> Value {
        let id = self.id();
        self.want.insert(id.to_string(), Want { expect, why, gated, is_async });
        let v = match self.p {
            Proto::Lsp => {
                let mut v = json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params});
                if v["params"].is_null() && self.r.chance(1, 2) {
                    v.as_object_mut().unwrap().remove("params");
                }
                v
            }
            Proto::Dap => json!({"type": "request", "seq": id, "command": method, "arguments": params}),
        };
        self.push(v);
        id
    }
    fn notif(&mut self, method: &str, params: Value) {
        let v = match self.p {
            Proto::Lsp => json!({"jsonrpc": "2.0", "method": method, "params": params}),
            Proto::Dap => {
                let seq = self.r.below(1000);
                json!({"type": "event", "seq": seq, "event": method, "body": params})
            }
        };
        self.push(v);
    }
    fn err(codes: &[i32]) -> Expect {
        Expect::Err(codes.to_vec(), None)
    }
    fn init_ok(&mut self) {
        let t = self.token();
        self.log.push(Rec::Init(t.clone()));
        // The service may come up and yet answer with an error, at once or as its result.
        let (mut later, mut params) = (false, json!({"token": t}));
        let mut e = Expect::Ok(json!({"capabilities": {}, "token": t}));
        match self.r.below(16) {
            0..=3 => later = true,
            4 | 5 => {
                params[if self.r.chance(1, 2) { "fail" } else { "early" }] = json!(true);
                e = Expect::Err(vec![-31999], Some(format!("init {t}")));
            }
            _ => {}
        }
        params["later"] = json!(later);
        self.req_("initialize", params, e, Why::Lifecycle, None, later);
        self.st = if self.p == Proto::Lsp { St::Initializing } else { St::Ready };
    }
    fn initialized(&mut self) {
        let t = self.token();
        self.log.push(Rec::Notif { method: "initialized".into(), token: t.clone() });
        self.notif("initialized", json!({"token": t}));
        self.st = St::Ready;
    }
    fn shutdown(&mut self) {
        let m = if self.p == Proto::Lsp { "shutdown" } else { "disconnect" };
        if self.r.chance(1, 2) {
            self.log.push(Rec::Req { method: m.into(), token: m.into() });
            self.req(m, Value::Null, Expect::Ok(Value::Null), Why::Lifecycle);
        } else {
            let raw = self.r.chance(1, 2);
            self.behave(m, Why::Lifecycle, raw);
        }
        self.st = St::Down;
    }

    /// The outcome a typed or raw handler was asked for.
    fn outcome(&mut self, t: &str) -> (serde_json::Map<String, Value>, Expect) {
        let mut a = serde_json::Map::new();
        a.insert("token".into(), json!(t));
        if self.r.chance(1, 4) {
            let code = *self.r.pick(&[-31000i64, -32603, -32802, 1, 0, i32::MAX as i64, i32::MIN as i64]);
            a.insert("fail".into(), json!(true));
            a.insert("code".into(), json!(code));
            (a, Expect::Err(vec![code as i32], Some(format!("failed {t}"))))
        } else if self.r.chance(1, 8) {
            a.insert("null".into(), json!(true));
            (a, Expect::Ok(Value::Null))
        } else {
            let e = self.r.json(2);
            a.insert("echo".into(), e.clone());
            (a, Expect::Ok(json!({"token": t, "echo": e})))
        }
    }
    fn early(t: &str, a: &serde_json::Map<String, Value>) -> Expect {
        let code = a.get("code").and_then(Value::as_i64).unwrap_or(-31000) as i32;
        Expect::Err(vec![code], Some(format!("failed {t}")))
    }
    /// A request to an instrumented handler; `raw` handlers respond on their own.
    fn behave(&mut self, method: &str, why: Why, raw: bool) {
        let t = self.token();
        let (mut a, mut e) = self.outcome(&t);
        if self.r.chance(1, 5) {
            a.insert("spin".into(), json!(true));
        }
        let (mut gated, mut is_async) = (None, false);
        if raw {
            let mode = *self.r.pick(&["none", "early", "self", "twice", "self_none", "self_err", "bogus", "thread", "race"]);
            a.insert("mode".into(), json!(mode));
            a.insert("raw".into(), json!(true));
            match mode {
                "none" => e = Expect::Ok(Value::Null),
                "early" => e = Self::early(&t, &a),
                "thread" | "race" => is_async = true,
                _ => {}
            }
            // DAP has no string sequence numbers to answer to.
            if mode == "bogus" && self.p == Proto::Dap {
                a.insert("mode".into(), json!("self"));
            }
        } else {
            let mut mode = *self.r.pick(&["now", "now", "early", "yield", "yield", "sleep", "gate"]);
            if mode == "gate" && self.profile == Profile::Child {
                mode = "sleep";
            }
            a.insert("mode".into(), json!(mode));
            a.insert("n".into(), json!(self.r.below(6)));
            match mode {
                "early" => e = Self::early(&t, &a),
                "yield" | "sleep" => is_async = true,
                "gate" => {
                    is_async = true;
                    gated = Some(t.clone());
                    self.gates.push(t.clone());
                }
                _ => {}
            }
        }
        let a = Value::Object(a);
        let (m, params) = match method {
            "vm.cmd" | "vm.raw" => ("workspace/executeCommand", json!({"command": method, "arguments": [a]})),
            "/res/async" | "/res/raw" => (
                "workspace/executeCommand",
                json!({"command": "tinymist.getResources", "arguments": [method, a]}),
            ),
            m => (m, a),
        };
        self.log.push(Rec::Req { method: method.into(), token: t });
        self.req_(m, params, e, why, gated, is_async);
    }

    /// One random client action that is legal to attempt in any state.
    fn one(&mut self) {
        match self.st {
            St::Ready => self.one_ready(),
            St::Uninit => self.one_closed(NOT_INIT, true),
            St::Initializing => self.one_closed(NOT_INIT, false),
            St::Down => self.one_closed(INVALID, false),
        }
    }
    /// Outside the ready state: requests are refused with a code that says so, notifications have no effect.
    fn one_closed(&mut self, code: &[i32], uninit: bool) {
        let t = self.token();
        match self.r.below(10) {
            0 | 1 => {
                let m = *self.r.pick(&["test/req", "test/raw", "test/strict", "no/such", "workspace/executeCommand", "textDocument/hover", ""]);
                self.req(m, json!({"token": t}), Self::err(code), Why::Lifecycle);
            }
            2 => {
                let m = if self.p == Proto::Lsp { "shutdown" } else { "disconnect" };
                self.req(m, Value::Null, Self::err(code), Why::Lifecycle);
            }
            3 if uninit => {
                let params = self.r.pick(&[json!(null), json!([]), json!({}), json!({"token": 5}), json!("x"), json!({"Token": "t"})]).clone();
                self.req("initialize", params, Self::err(BAD_PARAMS), Why::Lifecycle);
            }
            3 => {
                let codes = if self.st == St::Initializing { vec![-32002, -32600] } else { code.to_vec() };
                self.req("initialize", json!({"token": t}), Expect::Err(codes, None), Why::Lifecycle);
            }
            4 => {
                let args = self.r.pick(&[json!([{"token": "x"}]), json!([])]).clone();
                self.req("workspace/executeCommand", json!({"command": "vm.cmd", "arguments": args}), Self::err(code), Why::Lifecycle);
            }
            // In the initializing state this would be the real transition.
            5 if self.st != St::Initializing && self.p == Proto::Lsp => self.notif("initialized", json!({"token": t})),
            6 => {
                let resp = self.stray();
                self.push(resp);
            }
            7 => self.notif("no/such", json!({"token": t})),
            _ => self.notif("test/notif", json!({"token": t})),
        }
    }
    fn stray(&mut self) -> Value {
        let n = self.r.below(50) as i64;
        match self.p {
            Proto::Lsp => {
                let id = self.r.pick(&[json!(n), json!(n.to_string()), json!(-1), json!("zzz")]).clone();
                if self.r.chance(1, 2) {
                    json!({"jsonrpc": "2.0", "id": id, "result": {"stray": true}})
                } else {
                    json!({"jsonrpc": "2.0", "id": id, "error": {"code": 1, "message": "stray"}})
                }
            }
            Proto::Dap => json!({"type": "response", "seq": n, "request_seq": n * 7, "success": true, "command": "x", "body": null}),
        }
    }
    fn one_ready(&mut self) {
        let t = self.token();
        let hostile = self.profile == Profile::Hostile;
        let lsp = self.p == Proto::Lsp;
        match self.r.below(if hostile { 30 } else { 18 }) {
            0..=4 => self.behave("test/req", Why::Handler, false),
            5 | 6 => self.behave("test/raw", Why::Handler, true),
            7 if lsp => self.behave("vm.cmd", Why::Handler, false),
            8 if lsp => self.behave("vm.raw", Why::Handler, true),
            9 if lsp => self.behave("/res/async", Why::Handler, false),
            10 if lsp => self.behave("/res/raw", Why::Handler, true),
            11 => {
                let n = self.r.below(1 << 31);
                let m = *self.r.pick(&["test/strict", "test/typedRaw"]);
                self.log.push(Rec::Req { method: m.into(), token: t.clone() });
                self.req(m, json!({"token": t, "n": n}), Expect::Ok(json!({"token": t, "echo": n})), Why::Handler);
            }
            12 | 13 => {
                let fail = self.r.chance(1, 4);
                self.log.push(Rec::Notif { method: "test/notif".into(), token: t.clone() });
                let mut v = json!({"token": t, "fail": fail});
                if !self.gates.is_empty() && self.r.chance(1, 2) {
                    let k = self.r.below(self.gates.len());
                    let g = self.gates.swap_remove(k);
                    v["release"] = json!(g);
                }
                self.notif("test/notif", v);
            }
            14 => {
                if !self.gates.is_empty() {
                    let k = self.r.below(self.gates.len());
                    let g = self.gates.swap_remove(k);
                    self.flush();
                    self.steps.push(Step::Release(g));
                }
            }
            15 => {
                self.flush();
                self.steps.push(Step::Await);
            }
            16 => {
                self.req("initialize", json!({"token": t}), Self::err(INVALID), Why::Lifecycle);
            }
            17 => {
                let m = *self.r.pick(&["no/such", "textDocument/hover", "", "test/re", "test/reqq", "Test/Req"]);
                self.req(m, json!({"token": t}), Self::err(UNKNOWN), Why::Hostile);
            }
            // Hostile but well-framed clients.
            18 | 19 => {
                let m = *self.r.pick(&["test/strict", "test/typedRaw"]);
                let bad = [json!(null), json!([]), json!({"token": t}), json!({"token": 3, "n": 1}), json!({"token": t, "n": -1}),
                    json!({"token": t, "n": 4294967296u64}), json!({"token": t, "n": 1.5}), json!("x"), json!({"n": "1", "token": t})];
                let params = self.r.pick(&bad).clone();
                self.req(m, params, Self::err(BAD_PARAMS), Why::Hostile);
            }
            20 if lsp => {
                let v = self.r.pick(&[json!(null), json!({"n": 5}), json!([1]), json!({"token": 7, "n": 1})]).clone();
                self.notif("test/strictNotif", v);
            }
            21 if lsp => {
                self.log.push(Rec::Notif { method: "test/strictNotif".into(), token: t.clone() });
                self.notif("test/strictNotif", json!({"token": t, "n": 1}));
            }
            22 if lsp => {
                let bad = [json!(null), json!([]), json!({}), json!({"command": 5}), json!({"command": "vm.cmd", "arguments": 5}),
                    json!({"arguments": []}), json!({"command": null})];
                let params = self.r.pick(&bad).clone();
                self.req("workspace/executeCommand", params, Self::err(BAD_PARAMS), Why::Hostile);
            }
            23 if lsp => {
                let c = *self.r.pick(&["vm.cm", "", "tinymist.getresources", "VM.CMD", "exit"]);
                self.req("workspace/executeCommand", json!({"command": c, "arguments": [{"token": t}]}), Self::err(UNKNOWN), Why::Hostile);
            }
            24 if lsp => {
                let a = [json!([]), json!([5]), json!([null]), json!([{}]), json!([["/res/raw"]])];
                let a = self.r.pick(&a).clone();
                self.req("workspace/executeCommand", json!({"command": "tinymist.getResources", "arguments": a}), Self::err(BAD_PARAMS), Why::Hostile);
            }
            25 if lsp => {
                let a = self.r.pick(&["/res/none", "/res", "", "res/raw", "/res/raw/x", "/res/RAW"]).to_string();
                self.req("workspace/executeCommand", json!({"command": "tinymist.getResources", "arguments": [a, {"token": t}]}), Self::err(UNKNOWN), Why::Hostile);
            }
            26 if lsp => {
                self.log.push(Rec::Req { method: "vm.cmd".into(), token: "?".into() });
                let p = if self.r.chance(1, 2) { json!({"command": "vm.cmd", "arguments": []}) } else { json!({"command": "vm.cmd"}) };
                self.req("workspace/executeCommand", p, Expect::Ok(json!({"token": null, "echo": null})), Why::Hostile);
            }
            27 => {
                let v = self.stray();
                self.push(v);
            }
            28 => {
                let m = *self.r.pick(&["no/such", "$/cancelRequest", "$/setTrace", ""]);
                let v = self.r.json(2);
                self.notif(m, v);
            }
            _ => {
                // Arbitrary parameters to a handler which takes anything.
                let v = self.r.pick(&[json!(null), json!([]), json!("s"), json!(5), json!([[[]]])]).clone();
                self.log.push(Rec::Req { method: "test/req".into(), token: "?".into() });
                self.req("test/req", v, Expect::Ok(json!({"token": null, "echo": null})), Why::Hostile);
            }
        }
    }
}

// ------------------------------------------------------------------ running and judging

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// No response to a request, or more than one.
    Count,
    /// A wrong response.
    Body(Why),
    /// A response to a request never made.
    Unasked,
    /// The handlers saw something else than what was sent, or in another order.
    HandlerLog,
    Overlap,
    /// Malformed output.
    Wire,
    /// No orderly end.
    End,
    /// No progress within the limit.
    Hang,
}

#[derive(Debug)]
pub struct Finding {
    pub kind: Kind,
    pub sig: String,
    pub detail: Value,
}

#[derive(Default, Debug)]
pub struct Stats {
    pub requests: u64,
    pub responses: u64,
    pub reordered: u64,
    pub handled: u64,
    pub order: u64,
}

pub fn describe(c: &Case) -> Value {
    let steps: Vec<String> = c
        .steps
        .iter()
        .map(|s| {
            let s = match s {
                Step::Send(v) => format!("send {v}"),
                Step::Burst(v) => format!("burst {}", Value::Array(v.clone())),
                o => format!("{o:?}"),
            };
            s.chars().take(300).collect()
        })
        .collect();
    json!({"proto": format!("{:?}", c.proto), "seed": c.seed, "end": format!("{:?}", c.end), "abrupt": c.abrupt, "steps": steps})
}

pub fn is_response(p: Proto, v: &Value) -> Option<String> {
    match p {
        Proto::Lsp if v.get("method").is_none() => v.get("id").map(Value::to_string),
        Proto::Dap if v["type"] == "response" => v.get("request_seq").map(Value::to_string),
        _ => None,
    }
}

/// Why the response does not match, if so.
pub fn mismatch(p: Proto, e: &Expect, v: &Value) -> Option<String> {
    let (ok, body, code, msg) = match p {
        Proto::Lsp => {
            let err = v.get("error").filter(|e| !e.is_null());
            if err.is_none() && v.get("result").is_none() {
                return Some("neither result nor error".into());
            }
            if err.is_some() && v.get("result").is_some_and(|r| !r.is_null()) {
                return Some("both result and error".into());
            }
            (err.is_none(), v["result"].clone(), err.map(|e| e["code"].as_i64()), err.map(|e| e["message"].clone()))
        }
        Proto::Dap => (v["success"] == true, v["body"].clone(), None, Some(v["message"].clone())),
    };
    match e {
        Expect::Ok(want) => {
            if !ok {
                return Some("error instead of result".into());
            }
            (body != *want).then(|| "wrong result".into())
        }
        Expect::Err(codes, m) => {
            if ok {
                return Some("result instead of error".into());
            }
            if let Some(c) = code {
                if !codes.is_empty() && !codes.iter().any(|k| Some(*k as i64) == c) {
                    return Some(format!("wrong code {c:?}"));
                }
            }
            match m {
                Some(m) if msg != Some(json!(m)) => Some("wrong message".into()),
                _ => None,
            }
        }
    }
}

pub fn run(c: &Case, limit: Duration) -> (Vec<Finding>, Stats) {
    let mut r = Rng::new(c.seed);
    let mut live = start(c.proto, &mut r);
    let mut found = vec![];
    let mut stats = Stats::default();
    let add = |found: &mut Vec<Finding>, kind, sig: &str, d: Value| {
        found.push(Finding { kind, sig: sig.to_string(), detail: json!({"what": d, "case": describe(c)}) })
    };
    let mut sent: Vec<String> = vec![];
    let mut opened: BTreeSet<String> = BTreeSet::new();
    let mut hung = false;
    let note = |v: &Value, sent: &mut Vec<String>, opened: &mut BTreeSet<String>| {
        for k in ["params", "body"] {
            if let Some(g) = v[k]["release"].as_str() {
                opened.insert(g.to_string());
            }
        }
        let id = match c.proto {
            Proto::Lsp if v.get("method").is_some() => v.get("id"),
            Proto::Dap if v["type"] == "request" => v.get("seq"),
            _ => None,
        };
        if let Some(id) = id {
            sent.push(id.to_string());
        }
    };
    for s in &c.steps {
        match s {
            Step::Send(v) => {
                note(v, &mut sent, &mut opened);
                live.send(v);
            }
            Step::Burst(vs) => {
                let mut b = vec![];
                for v in vs {
                    note(v, &mut sent, &mut opened);
                    b.extend(frame(&v.to_string()));
                }
                live.send_bytes(&b);
            }
            Step::Release(t) => {
                opened.insert(t.clone());
                live.obs.release(t);
            }
            Step::Await => {
                let need: Vec<&String> = sent
                    .iter()
                    .filter(|id| match c.want.get(*id).and_then(|w| w.gated.as_ref()) {
                        Some(g) => opened.contains(g),
                        None => true,
                    })
                    .collect();
                let ok = live.out.wait(limit, |o| {
                    let mut n = 0;
                    let have: BTreeSet<String> = o.frames.iter().filter_map(|(v, _)| is_response(c.proto, v)).collect();
                    for id in &need {
                        n += have.contains(*id) as usize;
                    }
                    n == need.len()
                });
                if !ok {
                    let st = live.out.st.lock().unwrap();
                    if !st.eof && st.malformed.is_none() {
                        let have: BTreeSet<String> = st.frames.iter().filter_map(|(v, _)| is_response(c.proto, v)).collect();
                        let missing: Vec<_> = need.iter().filter(|i| !have.contains(**i)).collect();
                        add(&mut found, Kind::Hang, "no-response", json!({"missing": missing}));
                        hung = true;
                    }
                    break;
                }
            }
        }
    }
    if hung {
        live.obs.release_all();
    }
    if c.end == End::Eof || hung {
        live.close();
    }
    match live.done.recv_timeout(limit) {
        Ok((res, io)) => {
            if let Err(e) = res {
                add(&mut found, Kind::End, "server-error", json!(e));
            }
            if let Err(e) = io {
                add(&mut found, Kind::End, "io-error", json!(e));
            }
        }
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
            add(&mut found, Kind::Hang, "no-termination", Value::Null);
        }
        Err(_) => add(&mut found, Kind::End, "server-died", Value::Null),
    }
    live.obs.release_all();
    live.close();
    if !hung && !live.out.wait(limit, |o| o.eof) && !live.out.st.lock().unwrap().eof {
        add(&mut found, Kind::Hang, "output-not-closed", Value::Null);
    }
    let hung = found.iter().any(|f| f.kind == Kind::Hang);

    let st = live.out.st.lock().unwrap();
    if let Some(e) = &st.malformed {
        add(&mut found, Kind::Wire, "malformed-output", json!(e));
    } else if st.eof && st.leftover != 0 {
        add(&mut found, Kind::Wire, "torn-frame", json!({"bytes": st.leftover}));
    }
    let mut seen: BTreeMap<String, usize> = BTreeMap::new();
    let mut order = vec![];
    for (v, text) in &st.frames {
        let Some(id) = is_response(c.proto, v) else {
            add(&mut found, Kind::Unasked, "unexpected-message", json!(text));
            continue;
        };
        stats.responses += 1;
        order.push(id.clone());
        *seen.entry(id.clone()).or_default() += 1;
        match c.want.get(&id) {
            None => add(&mut found, Kind::Unasked, "unasked-response", json!({"frame": text})),
            Some(w) => {
                if let Some(why) = mismatch(c.proto, &w.expect, v) {
                    add(&mut found, Kind::Body(w.why), "wrong-response", json!({"why": why, "want": format!("{:?}", w.expect), "frame": text}));
                }
            }
        }
    }
    stats.requests = sent.len() as u64;
    let pos: BTreeMap<&String, usize> = sent.iter().enumerate().map(|(i, s)| (s, i)).collect();
    let ord: Vec<usize> = order.iter().filter_map(|i| pos.get(i).copied()).collect();
    stats.reordered = ord.windows(2).filter(|w| w[0] > w[1]).count() as u64;
    stats.order = h64(&ord);
    for (id, n) in &seen {
        if *n > 1 {
            add(&mut found, Kind::Count, "several-responses", json!({"id": id, "count": n}));
        }
    }
    if !hung && st.malformed.is_none() {
        for id in &sent {
            let w = &c.want[id];
            if !seen.contains_key(id) && !(c.abrupt && w.is_async) {
                add(&mut found, Kind::Count, "no-response", json!({"id": id, "want": format!("{w:?}")}));
            }
        }
    }
    let log: Vec<Rec> = live.obs.log.lock().unwrap().clone();
    stats.handled = log.len() as u64;
    if !hung && log != c.log {
        let k = log.iter().zip(&c.log).position(|(a, b)| a != b).unwrap_or(log.len().min(c.log.len()));
        add(
            &mut found,
            Kind::HandlerLog,
            "handler-log",
            json!({"first_difference": k, "want": format!("{:?}", c.log.get(k)), "got": format!("{:?}", log.get(k)),
                   "want_len": c.log.len(), "got_len": log.len()}),
        );
    }
    if live.obs.overlaps.load(Ordering::SeqCst) != 0 {
        add(&mut found, Kind::Overlap, "overlapping-handlers", Value::Null);
    }
    (found, stats)
}

/// Runs a case; a lack of progress counts only if a rerun with a far longer limit shows it again.
pub fn run_confirmed(c: &Case) -> (Vec<Finding>, Stats) {
    let (f, s) = run(c, Duration::from_secs(8));
    if f.iter().any(|f| f.kind == Kind::Hang) {
        return run(c, Duration::from_secs(40));
    }
    (f, s)
}
