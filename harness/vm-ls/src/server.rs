//! The server under observation: the real driver with instrumented handlers, for LSP and DAP.

use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde::{Deserialize, Serialize};
use sync_ls::*;
use vm_core::{json, Value};

pub type Log = Vec<Rec>;

/// What handlers saw, recorded at their boundary.
#[derive(Clone, Debug, PartialEq)]
pub enum Rec {
    Init(String),
    Req { method: String, token: String },
    Notif { method: String, token: String },
    Event { kind: &'static str, sender: u64, n: u64, ready: bool },
    /// The handler of a response to a server-to-client request.
    Callback { token: String, body: Value, state: u64 },
}

#[derive(Default)]
pub struct Obs {
    pub log: Mutex<Log>,
    pub busy: AtomicBool,
    pub overlaps: AtomicU64,
    pub gates: Mutex<HashMap<String, Gate>>,
    /// Asynchronous handlers that ran to completion.
    pub finished: AtomicU64,
    pub calls_sent: AtomicU64,
}

pub enum Gate {
    Waiting(tokio::sync::oneshot::Sender<()>),
    Open,
}

impl Obs {
    pub fn rec(&self, r: Rec) {
        self.log.lock().unwrap().push(r);
    }
    /// Opens a gate, now or in advance.
    pub fn release(&self, token: &str) {
        let mut g = self.gates.lock().unwrap();
        if let Some(Gate::Waiting(tx)) = g.insert(token.to_string(), Gate::Open) {
            let _ = tx.send(());
        }
    }
    fn gate(&self, token: &str) -> Option<tokio::sync::oneshot::Receiver<()>> {
        let mut g = self.gates.lock().unwrap();
        if matches!(g.get(token), Some(Gate::Open)) {
            return None;
        }
        let (tx, rx) = tokio::sync::oneshot::channel();
        g.insert(token.to_string(), Gate::Waiting(tx));
        Some(rx)
    }
    pub fn release_all(&self) {
        let mut g = self.gates.lock().unwrap();
        for (_, v) in g.iter_mut() {
            if let Gate::Waiting(tx) = std::mem::replace(v, Gate::Open) {
                let _ = tx.send(());
            }
        }
    }
    /// Marks a handler as running; overlapping handlers are counted.
    pub fn enter(self: &Arc<Self>) -> Busy {
        if self.busy.swap(true, Ordering::SeqCst) {
            self.overlaps.fetch_add(1, Ordering::SeqCst);
        }
        Busy(self.clone())
    }
}

pub struct Busy(Arc<Obs>);
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.busy.store(false, Ordering::SeqCst);
    }
}

/// The service state.
pub struct S {
    pub obs: Arc<Obs>,
    pub client: TypedLspClient<S>,
    /// Bumped by every handler, without synchronisation.
    pub steps: u64,
    pub inner: Inner,
}
pub struct Inner {
    pub obs: Arc<Obs>,
    pub callbacks: u64,
}

pub struct Init {
    pub obs: Arc<Obs>,
    pub client: LspClient,
}

#[derive(Deserialize)]
pub struct InitParams {
    pub token: String,
    #[serde(default)]
    pub fail: bool,
    #[serde(default)]
    pub early: bool,
    #[serde(default)]
    pub later: bool,
}

impl Initializer for Init {
    type I = InitParams;
    type S = S;
    fn initialize(self, req: InitParams) -> (S, AnySchedulableResponse) {
        let _b = self.obs.enter();
        self.obs.rec(Rec::Init(req.token.clone()));
        let res = if req.early {
            Err(ResponseError { code: -31999, message: format!("init {}", req.token), data: None })
        } else if req.fail {
            just_result(Err(ResponseError { code: -31999, message: format!("init {}", req.token), data: None }))
        } else if req.later {
            let t = req.token.clone();
            just_future(async move {
                tokio::task::yield_now().await;
                Ok(json!({"capabilities": {}, "token": t}))
            })
        } else {
            just_ok(json!({"capabilities": {}, "token": req.token}))
        };
        (S { obs: self.obs.clone(), client: self.client.to_typed(), steps: 0, inner: Inner { obs: self.obs.clone(), callbacks: 0 } }, res)
    }
}

fn tok(v: &Value) -> String {
    v["token"].as_str().unwrap_or("?").to_string()
}

fn ok_value(a: &Value) -> Value {
    if a["null"] == true {
        Value::Null
    } else {
        json!({"token": a["token"], "echo": a["echo"]})
    }
}

pub fn handler_err(a: &Value) -> ResponseError {
    ResponseError {
        code: a["code"].as_i64().unwrap_or(-31000) as i32,
        message: format!("failed {}", tok(a)),
        data: None,
    }
}

/// The behaviour a client asks of a handler.
fn act(s: &mut S, method: &str, a: Value) -> SchedulableResponse<Value> {
    let obs = s.obs.clone();
    let _b = obs.enter();
    s.steps += 1;
    obs.rec(Rec::Req { method: method.into(), token: tok(&a) });
    spin(&a);
    if let Some(ms) = a["block"].as_u64() {
        std::thread::sleep(Duration::from_millis(ms));
    }
    emit(&s.client, &a);
    let res = if a["fail"] == true { Err(handler_err(&a)) } else { Ok(ok_value(&a)) };
    match a["mode"].as_str().unwrap_or("now") {
        "early" => Err(handler_err(&a)),
        "yield" => {
            let n = a["n"].as_u64().unwrap_or(1);
            just_future(async move {
                for _ in 0..n {
                    tokio::task::yield_now().await;
                }
                obs.finished.fetch_add(1, Ordering::SeqCst);
                res
            })
        }
        "sleep" => {
            let n = a["n"].as_u64().unwrap_or(1);
            just_future(async move {
                tokio::time::sleep(Duration::from_micros(n * 50)).await;
                obs.finished.fetch_add(1, Ordering::SeqCst);
                res
            })
        }
        "gate" => {
            let rx = obs.gate(&tok(&a));
            just_future(async move {
                if let Some(rx) = rx {
                    let _ = rx.await;
                }
                obs.finished.fetch_add(1, Ordering::SeqCst);
                res
            })
        }
        _ => just_result(res),
    }
}

/// Tells the client something, `emit` times, of its own accord.
fn emit(c: &TypedLspClient<S>, a: &Value) {
    for n in 0..a["emit"].as_u64().unwrap_or(0) {
        tell(c, a["dap"] == true, n % 2 == 0, json!({"from": tok(a), "n": n, "body": a["echo"]}));
    }
}

/// The name of an untyped note; typed ones have one name.
pub fn note_name(body: &Value) -> String {
    format!("vm/note{}", "+".repeat(body["n"].as_u64().unwrap_or(0) as usize % 7))
}

/// Sends a notification or event by either of the client's ways.
pub fn tell(c: &TypedLspClient<S>, dap: bool, typed: bool, body: Value) {
    let name = note_name(&body);
    match (dap, typed) {
        (false, true) => c.send_notification::<Note>(&body),
        (false, false) => c.untyped().send_notification_(lsp::Notification::new(name, body)),
        (true, true) => c.send_dap_event::<DNote>(body),
        (true, false) => {
            let seq = 1_000_000_000 + body["n"].as_i64().unwrap_or(0);
            c.send_dap_event_(dap::Event::new(seq, name, body))
        }
    }
}

pub enum DNote {}
impl dapts::IEvent for DNote {
    const EVENT: &'static str = "vm/note";
    type Body = Value;
}

fn spin(a: &Value) {
    if a["spin"] == true {
        std::thread::yield_now();
    }
}

/// The behaviours of a raw handler, which may respond on its own.
fn act_raw(s: &mut S, method: &str, id: RequestId, a: Value) -> ScheduledResult {
    let obs = s.obs.clone();
    let _b = obs.enter();
    s.steps += 1;
    obs.rec(Rec::Req { method: method.into(), token: tok(&a) });
    let client = s.client.untyped().clone();
    let res = if a["fail"] == true { Err(handler_err(&a)) } else { Ok(ok_value(&a)) };
    match a["mode"].as_str().unwrap_or("none") {
        "early" => Err(handler_err(&a)),
        "self" => {
            client.respond_result(id, res);
            Ok(Some(()))
        }
        "twice" => {
            client.respond_result(id.clone(), res);
            client.respond_result(id, Ok(json!("second answer")));
            Ok(Some(()))
        }
        // Responds, then also reports that there is nothing to report.
        "self_none" => {
            client.respond_result(id, res);
            Ok(None)
        }
        "self_err" => {
            client.respond_result(id, res);
            Err(handler_err(&a))
        }
        "bogus" => {
            client.respond_result(RequestId::from("never-asked".to_string()), Ok(json!("bogus")));
            client.respond_result(id, res);
            Ok(Some(()))
        }
        "thread" => {
            std::thread::spawn(move || {
                std::thread::yield_now();
                client.respond_result(id, res);
                obs.finished.fetch_add(1, Ordering::SeqCst);
            });
            Ok(Some(()))
        }
        // Two threads race to answer.
        "race" => {
            let (c2, id2, res2) = (client.clone(), id.clone(), res.clone());
            std::thread::spawn(move || c2.respond_result(id2, res2));
            std::thread::spawn(move || {
                client.respond_result(id, res);
                obs.finished.fetch_add(1, Ordering::SeqCst);
            });
            Ok(Some(()))
        }
        _ => Ok(None),
    }
}

/// The request that ends the service, by a handler of either kind.
fn leave(s: &mut S, method: &str, id: RequestId, a: Value) -> ScheduledResult {
    let a = if a.is_null() { json!({"token": method, "null": true}) } else { a };
    if a["raw"] == true {
        act_raw(s, method, id, a)
    } else {
        let res = act(s, method, a);
        s.client.untyped().clone().schedule(id, res)
    }
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Strict {
    pub token: String,
    pub n: u32,
}

fn act_strict(s: &mut S, method: &str, a: Strict) -> SchedulableResponse<Value> {
    act(s, method, json!({"token": a.token, "echo": a.n}))
}

fn notif(s: &mut S, method: &str, a: Value) -> LspResult<()> {
    let obs = s.obs.clone();
    let _b = obs.enter();
    s.steps += 1;
    obs.rec(Rec::Notif { method: method.into(), token: tok(&a) });
    spin(&a);
    if a["release"].is_string() {
        obs.release(a["release"].as_str().unwrap_or(""));
    }
    if a["fail"] == true {
        return Err(handler_err(&a));
    }
    Ok(())
}

// ------------------------------------------------------------------ events

#[derive(Clone, Debug)]
pub struct EvA(pub u64, pub u64);
#[derive(Clone, Debug)]
pub struct EvB(pub u64, pub u64);
/// Not registered.
pub struct EvUnknown;
/// Its handler fails.
pub struct EvFail(pub String);

fn on_event(st: ServiceState<'_, Init, S>, kind: &'static str, sender: u64, n: u64) -> anyhow::Result<()> {
    match st {
        ServiceState::Uninitialized(a) => {
            if let Some(a) = a {
                let _b = a.obs.enter();
                a.obs.rec(Rec::Event { kind, sender, n, ready: false });
            }
        }
        ServiceState::Ready(s) => {
            let obs = s.obs.clone();
            let _b = obs.enter();
            s.steps += 1;
            obs.rec(Rec::Event { kind, sender, n, ready: true });
        }
    }
    Ok(())
}

macro_rules! with_events {
    ($b:expr) => {
        $b.with_event(&EvA(0, 0), |st, e: EvA| on_event(st, "A", e.0, e.1))
            .with_event(&EvB(0, 0), |st, e: EvB| on_event(st, "B", e.0, e.1))
            .with_event(&EvFail(String::new()), |_st, e: EvFail| Err(anyhow::anyhow!("event failed: {}", e.0)))
    };
}

// ------------------------------------------------------------------ LSP

macro_rules! lsp_req {
    ($name:ident, $params:ty, $method:literal) => {
        pub enum $name {}
        impl lsp_types::request::Request for $name {
            type Params = $params;
            type Result = Value;
            const METHOD: &'static str = $method;
        }
    };
}
lsp_req!(TestReq, Value, "test/req");
lsp_req!(TestRaw, Value, "test/raw");
lsp_req!(TestStrict, Strict, "test/strict");
lsp_req!(TestTypedRaw, Strict, "test/typedRaw");
lsp_req!(Shutdown, Value, "shutdown");
lsp_req!(CallClient, Value, "client/call");

macro_rules! lsp_notif {
    ($name:ident, $params:ty, $method:literal) => {
        pub enum $name {}
        impl lsp_types::notification::Notification for $name {
            type Params = $params;
            const METHOD: &'static str = $method;
        }
    };
}
lsp_notif!(Note, Value, "vm/note");
lsp_notif!(TestNotif, Value, "test/notif");
lsp_notif!(TestStrictNotif, Strict, "test/strictNotif");
lsp_notif!(TestCall, Value, "test/call");
lsp_notif!(Initialized, Value, "initialized");
lsp_notif!(Exit, Value, "exit");

/// Sends server-to-client requests as asked: `{"token", "calls": [..tokens], "threads": bool}`.
fn on_call(s: &mut S, a: Value) -> LspResult<()> {
    notif(s, "test/call", a.clone())?;
    let toks: Vec<String> = a["calls"].as_array().into_iter().flatten().filter_map(|v| v.as_str().map(String::from)).collect();
    if a["threads"] == true {
        for t in toks {
            let c = s.client.clone();
            let obs = s.obs.clone();
            std::thread::spawn(move || {
                call(&c, t);
                obs.calls_sent.fetch_add(1, Ordering::SeqCst);
            });
        }
    } else {
        for t in toks {
            call(&s.client, t);
            s.obs.calls_sent.fetch_add(1, Ordering::SeqCst);
        }
    }
    Ok(())
}

pub fn call(c: &TypedLspClient<S>, t: String) {
    if t.contains("cast") {
        // The continuation runs on a part of the service.
        let inner = c.cast::<Inner>(|s| &mut s.inner);
        inner.send_lsp_request::<CallClient>(json!({"token": t}), move |i: &mut Inner, resp| on_callback(i, t, resp));
    } else {
        c.send_lsp_request::<CallClient>(json!({"token": t}), move |s: &mut S, resp| {
            s.steps += 1;
            on_callback(&mut s.inner, t.clone(), resp);
            if t.starts_with("again") {
                // A continuation may send requests itself.
                call(&s.client.clone(), format!("{t}+"));
            }
        });
    }
}

fn on_callback(i: &mut Inner, token: String, resp: lsp::Response) {
    let obs = i.obs.clone();
    let _b = obs.enter();
    i.callbacks += 1;
    let body = json!({"result": resp.result, "error": resp.error.map(|e| e.message)});
    obs.rec(Rec::Callback { token, body, state: i.callbacks });
}

pub fn lsp_builder(obs: Arc<Obs>, client: LspClient) -> LspBuilder<Init> {
    let b = LspBuilder::new(Init { obs, client: client.clone() }, client)
        .with_request::<TestReq>(|s, a| act(s, "test/req", a))
        .with_raw_request::<TestRaw>(|s, id, a| act_raw(s, "test/raw", id, a))
        .with_request::<TestStrict>(|s, a| act_strict(s, "test/strict", a))
        .with_request_::<TestTypedRaw>(|s, id, a| act_raw(s, "test/typedRaw", id, json!({"token": a.token, "echo": a.n, "mode": "self"})))
        .with_raw_request::<Shutdown>(|s, id, a| leave(s, "shutdown", id, a))
        .with_command("vm.cmd", |s, mut args| act(s, "vm.cmd", args.drain(..).next().unwrap_or_default()))
        .with_command_("vm.raw", |s, id, mut args| act_raw(s, "vm.raw", id, args.drain(..).next().unwrap_or_default()))
        .with_resource("/res/async", |s, mut args| act(s, "/res/async", args.drain(..).nth(1).unwrap_or_default()))
        .with_resource_(std::path::Path::new("/res/raw").into(), |s, id, mut args| {
            act_raw(s, "/res/raw", id, args.drain(..).nth(1).unwrap_or_default())
        })
        .with_notification::<Initialized>(|s, a| notif(s, "initialized", a))
        .with_notification::<TestNotif>(|s, a| notif(s, "test/notif", a))
        .with_notification::<TestStrictNotif>(|s, a| notif(s, "test/strictNotif", json!({"token": a.token})))
        .with_notification_::<TestCall>(|s, a| on_call(s, a))
        .with_notification::<Exit>(|s, a| notif(s, "exit", json!({"token": a["token"].as_str().unwrap_or("bye")})));
    with_events!(b)
}

// ------------------------------------------------------------------ DAP

macro_rules! dap_req {
    ($name:ident, $params:ty, $method:literal) => {
        pub enum $name {}
        impl dapts::IRequest for $name {
            type Arguments = $params;
            type Response = Value;
            const COMMAND: &'static str = $method;
        }
    };
}
dap_req!(DTestReq, Value, "test/req");
dap_req!(DTestRaw, Value, "test/raw");
dap_req!(DTestStrict, Strict, "test/strict");
dap_req!(DTestTypedRaw, Strict, "test/typedRaw");
dap_req!(DDisconnect, Value, "disconnect");

pub fn dap_builder(obs: Arc<Obs>, client: LspClient) -> DapBuilder<Init> {
    let mut b = DapBuilder::new(Init { obs, client: client.clone() }, client)
        .with_request::<DTestReq>(|s, a| act(s, "test/req", a))
        .with_raw_request::<DTestRaw>(|s, id, a| act_raw(s, "test/raw", id, a))
        .with_request::<DTestStrict>(|s, a| act_strict(s, "test/strict", a))
        .with_request_::<DTestTypedRaw>(|s, id, a| act_raw(s, "test/typedRaw", id, json!({"token": a.token, "echo": a.n, "mode": "self"})))
        .with_raw_request::<DDisconnect>(|s, id, a| leave(s, "disconnect", id, a));
    b.notif_handlers.insert("test/notif", Box::new(|s, a| notif(s, "test/notif", a)));
    with_events!(b)
}
