//! Runs one scripted client against the real server in-process, records the history at the client boundary, and
//! compares it with a reference model of the session.

use std::io::{BufReader, Read, Write};
use std::sync::mpsc;
use std::sync::{Arc, Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

use sync_ls::transport::{io_transport, with_stdio_transport, MirrorArgs};
use sync_ls::*;
use vm_core::{Rng, Value};

use crate::framing::Proto;
use crate::server::{self, Obs};
use crate::wire::{frame, pipe, Hold, PipeTx, StrictParser};

pub fn runtime() -> &'static tokio::runtime::Runtime {
    static RT: OnceLock<tokio::runtime::Runtime> = OnceLock::new();
    RT.get_or_init(|| {
        tokio::runtime::Builder::new_multi_thread()
            .worker_threads(8)
            .thread_name("vm-tokio")
            .enable_time()
            .build()
            .expect("runtime")
    })
}

// ------------------------------------------------------------------ the client's view of the output

#[derive(Default)]
pub struct OutState {
    pub frames: Vec<(Value, String)>,
    pub malformed: Option<String>,
    pub eof: bool,
    pub leftover: usize,
}

#[derive(Default)]
pub struct Out {
    pub st: Mutex<OutState>,
    pub cv: Condvar,
}

impl Out {
    /// Waits until `f` holds or the output ended; false when the limit passed first.
    pub fn wait(&self, limit: Duration, f: impl Fn(&OutState) -> bool) -> bool {
        let end = Instant::now() + limit;
        let mut st = self.st.lock().unwrap();
        loop {
            if f(&st) {
                return true;
            }
            if st.eof || st.malformed.is_some() {
                return false;
            }
            let now = Instant::now();
            if now >= end {
                return false;
            }
            st = self.cv.wait_timeout(st, end - now).unwrap().0;
        }
    }
}

pub fn collect(mut r: impl Read + Send + 'static) -> Arc<Out> {
    let out = Arc::new(Out::default());
    let o = out.clone();
    std::thread::Builder::new()
        .name("vm-client-reader".into())
        .spawn(move || {
            let mut p = StrictParser::default();
            let mut buf = [0u8; 8192];
            loop {
                let n = r.read(&mut buf).unwrap_or(0);
                let mut st = o.st.lock().unwrap();
                if n == 0 {
                    st.eof = true;
                    st.leftover = p.pending();
                    o.cv.notify_all();
                    return;
                }
                if st.malformed.is_none() {
                    p.push(&buf[..n]);
                    loop {
                        match p.next() {
                            Ok(Some(f)) => st.frames.push(f),
                            Ok(None) => break,
                            Err(e) => {
                                st.malformed = Some(e);
                                break;
                            }
                        }
                    }
                }
                o.cv.notify_all();
            }
        })
        .expect("spawn");
    out
}

// ------------------------------------------------------------------ a running server

pub struct Live {
    pub tx: Option<PipeTx>,
    pub out: Arc<Out>,
    pub obs: Arc<Obs>,
    pub client: LspClient,
    hold: Hold,
    /// How the loop ended, as soon as it did.
    pub ended: mpsc::Receiver<Result<(), String>>,
    /// How the loop and the io threads ended.
    pub done: mpsc::Receiver<(Result<(), String>, Result<(), String>)>,
}

#[derive(Default)]
pub struct Start {
    /// How much the client leaves unread before the server must wait.
    pub out_cap: Option<usize>,
    pub handle: Option<tokio::runtime::Handle>,
}

/// Starts the server with its own io threads over in-memory pipes.
pub fn start(p: Proto, r: &mut Rng) -> Live {
    start_with(p, r, Start::default())
}

pub fn start_with(p: Proto, r: &mut Rng, opts: Start) -> Live {
    let chunk = r.chance(2, 3).then(|| Rng::new(r.u64()));
    let (tx, in_rx) = pipe(chunk);
    let (out_tx, out_rx) = pipe(None);
    let cap = *r.pick(&[1usize, 16, 64, 8192, 8192]);
    // An embedder may queue the incoming messages: nothing, some, or all that arrive.
    let queue = *r.pick(&[None, None, Some(Some(1)), Some(Some(8)), Some(None)]);
    if let Some(n) = opts.out_cap {
        out_rx.limit(n);
    }
    let hold = out_rx.holder();
    let out = collect(out_rx);
    let obs = Arc::new(Obs::default());
    let o = obs.clone();
    let (done_tx, done) = mpsc::channel();
    let (ended_tx, ended) = mpsc::channel();
    let (client_tx, client_rx) = mpsc::channel();
    std::thread::Builder::new()
        .name("vm-server".into())
        .spawn(move || {
            let kind = match p {
                Proto::Lsp => MessageKind::Lsp,
                Proto::Dap => MessageKind::Dap,
            };
            let (s, rcv, io) = io_transport(kind, move || BufReader::with_capacity(cap, in_rx), move || out_tx);
            let rcv = match queue {
                None => rcv,
                Some(cap) => queued(rcv, cap),
            };
            let (es, er) = crossbeam_channel::unbounded();
            let h = opts.handle.unwrap_or_else(|| runtime().handle().clone());
            let res = match p {
                Proto::Lsp => {
                    let conn = connect::<LspMessage>(s, rcv, es, er);
                    let root = LspClientRoot::new(h, conn.sender);
                    let c = root.weak();
                    let _ = client_tx.send(c.clone());
                    server::lsp_builder(o, c).build().start(conn.receiver, false)
                }
                Proto::Dap => {
                    let conn = connect::<DapMessage>(s, rcv, es, er);
                    let root = LspClientRoot::new(h, conn.sender);
                    let c = root.weak();
                    let _ = client_tx.send(c.clone());
                    server::dap_builder(o, c).build().start(conn.receiver, false)
                }
            };
            let res = res.map_err(|e| e.to_string());
            let _ = ended_tx.send(res.clone());
            let io = io.join().map_err(|e| e.to_string());
            let _ = done_tx.send((res, io));
        })
        .expect("spawn");
    let client = client_rx.recv().expect("server thread started");
    Live { tx: Some(tx), out, obs, client, hold, ended, done }
}

/// Moves messages to a queue of the given capacity.
fn queued(from: crossbeam_channel::Receiver<Message>, cap: Option<usize>) -> crossbeam_channel::Receiver<Message> {
    let (tx, rx) = match cap {
        Some(n) => crossbeam_channel::bounded(n),
        None => crossbeam_channel::unbounded(),
    };
    std::thread::spawn(move || {
        for m in from {
            if tx.send(m).is_err() {
                break;
            }
        }
    });
    rx
}

/// A connection over the given channels. The type has a private field, so one made by the public constructor (over an
/// empty replay file) serves as the template.
pub fn connect<M: TryFrom<Message, Error = anyhow::Error> + GetMessageKind>(
    s: crossbeam_channel::Sender<Message>,
    r: crossbeam_channel::Receiver<Message>,
    es: crossbeam_channel::Sender<Event>,
    er: crossbeam_channel::Receiver<Event>,
) -> Connection<M> {
    let mut got = None;
    let args = MirrorArgs { mirror: String::new(), replay: "/dev/null".into() };
    with_stdio_transport::<M>(args, |mut c| {
        c.sender.lsp = s;
        c.receiver.lsp = r;
        c.sender.event = es;
        c.receiver.event = er;
        got = Some(c);
        Ok(())
    })
    .expect("template connection");
    got.expect("template connection")
}

impl Live {
    pub fn send(&mut self, v: &Value) {
        let _ = self.send_bytes(&frame(&v.to_string()));
    }
    pub fn send_bytes(&mut self, b: &[u8]) -> bool {
        self.tx.as_mut().is_some_and(|t| t.write_all(b).is_ok())
    }
    /// While held, the client does not read.
    pub fn hold(&self, on: bool) {
        self.hold.set(on);
    }
    pub fn close(&mut self) {
        self.tx = None;
    }
}
