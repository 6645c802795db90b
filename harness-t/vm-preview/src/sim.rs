//! C63: every browser ends up with the newest document. C64: jumps and ids lead where they were made for.
use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

use reflexo_typst::debug_loc::{DocumentPosition, SourceSpanOffset};
use reflexo_typst::Error;
use tinymist_std::typst::TypstDocument;
use tokio::sync::mpsc;
use typst::foundations::{Content, Dict, Value as TValue};
use typst::introspection::Introspector;
use typst::layout::{Abs, Page, PagedDocument, Point, Position};
use typst::syntax::Span;
use typst_preview::*;
use vm_core::{json, parallel, Ctx, Rng, Value};

pub type Found = Option<(String, Value)>;

// ------------------------------------------------------------------ a browser

pub struct Conn {
    out: mpsc::UnboundedSender<WsMessage>,
    inc: mpsc::UnboundedReceiver<Result<WsMessage, Error>>,
    ended: bool,
}
impl futures::Sink<WsMessage> for Conn {
    type Error = Error;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn start_send(self: Pin<&mut Self>, m: WsMessage) -> Result<(), Error> {
        self.out.send(m).map_err(|_| tinymist_std::error_once!("gone"))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<(), Error>> {
        Poll::Ready(Ok(()))
    }
}
impl futures::Stream for Conn {
    type Item = Result<WsMessage, Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        // As of a websocket: the end is an error, or a closing message that nobody understands.
        match self.inc.poll_recv(cx) {
            Poll::Ready(None) if !std::mem::replace(&mut self.ended, true) => Poll::Ready(Some(Err(tinymist_std::error_once!("closed")))),
            x => x,
        }
    }
}

pub type Stream = Pin<Box<dyn Future<Output = Result<Conn, ()>> + Send>>;
pub fn cast(c: Result<Conn, ()>) -> Result<Conn, Error> {
    c.map_err(|_| tinymist_std::error_once!("no handshake"))
}

pub struct Web {
    pub tx: Option<mpsc::UnboundedSender<Result<WsMessage, Error>>>,
    rx: mpsc::UnboundedReceiver<WsMessage>,
    seq: usize,
    doc: Option<usize>,
    /// Something that makes the server render has happened since.
    asked: bool,
    greeting: Vec<String>,
    got: Vec<String>,
    closed: bool,
    /// It has sent something that may cost it the connection.
    bad: bool,
}

pub fn connect(streams: &mpsc::UnboundedSender<Stream>, wait: usize) -> Web {
    let (out, rx) = mpsc::unbounded_channel();
    let (tx, inc) = mpsc::unbounded_channel();
    let conn = Conn { out, inc, ended: false };
    let _ = streams.send(Box::pin(async move {
        for _ in 0..wait {
            tokio::task::yield_now().await;
        }
        Ok(conn)
    }));
    Web { tx: Some(tx), rx, seq: 0, doc: None, asked: false, greeting: vec![], got: vec![], closed: false, bad: false }
}

// ------------------------------------------------------------------ a document

#[derive(Clone, Debug)]
struct Heading {
    level: i64,
    bookmarked: Option<bool>,
    outlined: bool,
    text: String,
    span: i64,
    at: (u64, u64, u64),
}

struct View {
    no: usize,
    headings: Vec<Heading>,
    status: CompileStatus,
    saved: bool,
    entry: bool,
}

fn span(at: usize) -> Span {
    Span::from_range(reflexo_vec2svg::file(), at..at + 1)
}

fn file_of(at: usize) -> String {
    format!("f{}", at % 3)
}

fn spots(line: u32) -> Vec<Position> {
    (0..line % 3).map(|k| Position { page: std::num::NonZeroUsize::new(line as usize + 1).unwrap(), point: Point { x: Abs::pt(k as f64), y: Abs::pt(0.5) } }).collect()
}

impl CompileView for View {
    fn doc(&self) -> Option<TypstDocument> {
        let elems = self.headings.iter().map(|h| {
            let mut f: Vec<(ecow::EcoString, TValue)> = vec![
                ("level".into(), TValue::Int(h.level)),
                ("outlined".into(), TValue::Bool(h.outlined)),
                ("text".into(), TValue::Str(h.text.as_str().into())),
                ("position".into(), TValue::Int((h.at.0 << 32 | h.at.1 << 16 | h.at.2) as i64)),
                ("span".into(), TValue::Int(h.span)),
            ];
            f.extend(h.bookmarked.map(|b| ("bookmarked".into(), TValue::Bool(b))));
            Content { name: "heading".into(), label: "".into(), value: TValue::Dict(Dict::from_iter(f)) }
        });
        let doc = PagedDocument { pages: vec![Page::of_text(&self.no.to_string(), 1)], info: Default::default(), introspector: Introspector(elems.collect()) };
        Some(TypstDocument::Paged(Arc::new(doc)))
    }
    fn status(&self) -> CompileStatus {
        self.status
    }
    fn is_on_saved(&self) -> bool {
        self.saved
    }
    fn is_by_entry_update(&self) -> bool {
        self.entry
    }
    fn resolve_source_span(&self, by: Location) -> Option<SourceSpanOffset> {
        let Location::Src(l) = by;
        (l.filepath == "a.typ").then(|| span(l.pos.line as usize).into())
    }
    fn resolve_frame_loc(&self, pos: &DocumentPosition) -> Option<(SourceSpanOffset, SourceSpanOffset)> {
        (pos.page_no > 0).then(|| (span(pos.page_no).into(), span(pos.page_no).into()))
    }
    fn resolve_document_position(&self, by: Location) -> Vec<Position> {
        let Location::Src(l) = by;
        spots(l.pos.line)
    }
    fn resolve_span(&self, s: Span, offset: Option<usize>) -> Option<DocToSrcJumpInfo> {
        let at = s.range()?.start;
        let o = offset.unwrap_or(0);
        let end = if offset.is_some() { o + 1 } else { 5 };
        Some(DocToSrcJumpInfo { filepath: file_of(at), start: Some((at, o)), end: (at % 5 > 0).then_some((at, end)) })
    }
}

/// The outline that a document should have: headings below those of lower levels, and skipped ones that hide theirs.
fn outline(hs: &[Heading]) -> Value {
    #[derive(Default)]
    struct Node(Option<Heading>, Vec<usize>);
    let mut nodes = vec![Node::default()];
    let mut open: Vec<usize> = vec![0];
    let mut skipped = i64::MAX;
    for h in hs {
        if h.bookmarked.unwrap_or(h.outlined) {
            let limit = h.level.min(skipped);
            let keep = open.iter().take_while(|n| nodes[**n].0.as_ref().map_or(0, |x| x.level) < limit).count();
            open.truncate(keep);
            let n = nodes.len();
            nodes.push(Node(Some(h.clone()), vec![]));
            nodes[*open.last().unwrap()].1.push(n);
            open.push(n);
            skipped = i64::MAX;
        } else {
            skipped = skipped.min(h.level);
        }
    }
    fn go(nodes: &[Node], k: usize) -> Value {
        Value::Array(
            nodes[k].1.iter().map(|c| {
                let h = nodes[*c].0.as_ref().unwrap();
                json!({"title": h.text.trim(), "at": h.span, "position": {"page_no": h.at.0, "x": h.at.1 as f32, "y": h.at.2 as f32}, "children": go(nodes, *c)})
            }).collect(),
        )
    }
    go(&nodes, 0)
}

// ------------------------------------------------------------------ an editor

#[derive(Default)]
pub struct Server(Mutex<Vec<String>>);
impl EditorServer for Server {
    async fn update_memory_files(&self, files: MemoryFiles, reset: bool) -> Result<(), Error> {
        tokio::task::yield_now().await;
        let mut v: Vec<_> = files.files.into_iter().collect();
        v.sort();
        self.0.lock().unwrap().push(format!("{} {v:?}", if reset { "sync" } else { "update" }));
        if v.is_empty() {
            return Err(tinymist_std::error_once!("no files"));
        }
        Ok(())
    }
    async fn remove_memory_files(&self, files: MemoryFilesShort) -> Result<(), Error> {
        self.0.lock().unwrap().push(format!("remove {:?}", files.files));
        Ok(())
    }
}

struct Sim<'c> {
    ctx: &'c Ctx,
    r: Rng,
    paused: bool,
    ctl: mpsc::UnboundedSender<ControlPlaneMessage>,
    resp: mpsc::UnboundedReceiver<ControlPlaneResponse>,
    server: Arc<Server>,
    watcher: Arc<CompileWatcher>,
    streams: mpsc::UnboundedSender<Stream>,
    webs: Vec<Web>,
    partial: bool,
    invert: String,
    style: RefreshStyle,
    standalone: bool,
    docs: HashMap<usize, Value>,
    next: usize,
    accepted: Option<usize>,
    /// The newest outline has to be that of the newest document.
    outlined: bool,
    outlines: usize,
    last_outline: Option<usize>,
    statuses: Vec<String>,
    want_statuses: Vec<String>,
    jumps: Vec<Value>,
    /// Where the last jumps led to, whose answers (one for each browser, or unexpected ones) may be late.
    earlier: Vec<usize>,
    ids: HashMap<String, (i64, usize)>,
    allowed: HashSet<String>,
    want_server: Vec<String>,
    log: Vec<String>,
    synced: usize,
    found: Found,
}

fn status_name(s: CompileStatus) -> String {
    format!("{s:?}")
}

impl Sim<'_> {
    fn fail(&mut self, sig: &str, d: Value) {
        if self.found.is_none() {
            let log = self.log.iter().rev().take(60).rev().cloned().collect::<Vec<_>>();
            self.found = Some((sig.into(), json!({"what": d, "log": log, "paused": self.paused})));
        }
    }

    /// Takes in what was sent so far.
    fn drain(&mut self) {
        for k in 0..self.webs.len() {
            loop {
                let w = &mut self.webs[k];
                match w.rx.try_recv() {
                    Ok(WsMessage::Binary(b)) => {
                        let s = String::from_utf8_lossy(&b).into_owned();
                        self.from_server(k, s);
                    }
                    Ok(WsMessage::Text(t)) => w.got.push(t),
                    Err(mpsc::error::TryRecvError::Empty) => break,
                    Err(mpsc::error::TryRecvError::Disconnected) => {
                        w.closed = true;
                        break;
                    }
                }
            }
        }
        while let Ok(m) = self.resp.try_recv() {
            let v = serde_json::to_value(&m).unwrap();
            match v["event"].as_str().unwrap_or("") {
                "compileStatus" => self.statuses.push(v["kind"].as_str().unwrap_or("").into()),
                "outline" => self.outline(&v["items"]),
                "editorScrollTo" => self.jumps.push(v),
                "syncEditorChanges" => {
                    if self.log.len() > 1 && self.synced > 0 {
                        self.fail("sync", json!("asked again"));
                    }
                    self.synced += 1;
                }
                e => self.fail("event", json!(e)),
            }
        }
    }

    fn from_server(&mut self, k: usize, s: String) {
        let w = &mut self.webs[k];
        let head = s.split(',').next().unwrap_or("").to_owned();
        if matches!(head.as_str(), "partial-rendering" | "invert-colors") {
            if w.seq > 0 || !w.got.is_empty() {
                self.fail("greeting", json!(s));
            } else {
                w.greeting.push(s);
            }
            return;
        }
        w.got.push(s.clone());
        if matches!(head.as_str(), "diff-v1" | "new") {
            let mut p = s.split(',').skip(1).map(|x| x.parse::<usize>().unwrap_or(usize::MAX));
            let (seq, doc) = (p.next().unwrap(), p.next().unwrap());
            let (had, shown) = (w.seq, w.doc);
            w.seq = seq;
            w.doc = Some(doc);
            if head == "diff-v1" && seq != had + 1 {
                self.fail("delta", json!({"has": had, "got": s}));
            } else if !self.docs.contains_key(&doc) {
                self.fail("document", json!({"got": s}));
            } else if shown > Some(doc) {
                self.fail("older", json!({"shown": shown, "got": s}));
            }
            self.ctx.count(if head == "new" { "full renders" } else { "deltas" }, 1);
        } else if !self.allowed.contains(&s) {
            self.fail("unasked", json!(s));
        }
    }

    fn outline(&mut self, items: &Value) {
        self.outlines += 1;
        let no = self.outlines;
        // Without ids, which are looked at on their own.
        fn strip(v: &Value, ids: &mut Vec<(String, String)>) -> Value {
            let go = |x: &Value, ids: &mut Vec<(String, String)>| {
                ids.push((x["span"].as_str().unwrap_or("none").into(), x["title"].as_str().unwrap_or("").into()));
                json!({"title": x["title"], "position": x["position"], "children": strip(&x["children"], ids)})
            };
            Value::Array(v.as_array().into_iter().flatten().map(|x| go(x, ids)).collect())
        }
        fn spans(v: &Value, out: &mut Vec<i64>) -> Value {
            Value::Array(v.as_array().into_iter().flatten().map(|x| {
                out.push(x["at"].as_i64().unwrap());
                json!({"title": x["title"], "position": x["position"], "children": spans(&x["children"], out)})
            }).collect())
        }
        let mut ids = vec![];
        let got = strip(items, &mut ids);
        let mut hit = None;
        // The first of the same shape that is not older than the one before. Those of several browsers may overtake each other.
        let (least, many) = (self.last_outline, self.webs.len() > 1);
        let mut all: Vec<_> = self.docs.keys().copied().collect();
        all.sort_by_key(|k| (Some(*k) < least, *k));
        for d in all {
            let mut at = vec![];
            if spans(&self.docs[&d], &mut at) == got {
                hit = Some((d, at));
                break;
            }
        }
        let Some((d, at)) = hit else {
            self.fail("outline", json!({"got": items}));
            return;
        };
        if self.last_outline > Some(d) && !many {
            self.fail("older-outline", json!({"got": items}));
        }
        self.last_outline = Some(d);
        for ((id, _), at) in ids.into_iter().zip(at) {
            let old = self.ids.insert(id.clone(), (at, no));
            if old.is_some_and(|o| o.0 != at) {
                self.fail("same-id", json!({"id": id, "places": [old.unwrap().0, at]}));
            }
        }
        self.ctx.count("outlines", 1);
    }

    fn check(&mut self) -> Found {
        self.drain();
        if self.found.is_some() {
            return self.found.clone();
        }
        if self.statuses != self.want_statuses {
            let (a, b) = (self.statuses.len(), self.want_statuses.len());
            return Some(("statuses".into(), json!({"got": a, "want": b, "last": self.want_statuses.last()})));
        }
        if *self.server.0.lock().unwrap() != self.want_server {
            return Some(("memory-files".into(), json!({"got": *self.server.0.lock().unwrap(), "want": self.want_server})));
        }
        if self.standalone != (self.synced == 1) {
            return Some(("sync".into(), json!(self.synced)));
        }
        for (k, w) in self.webs.iter().enumerate() {
            if w.closed && w.tx.is_some() && !w.bad {
                return Some(("closed".into(), json!({"browser": k})));
            }
            if w.closed || w.tx.is_none() {
                continue;
            }
            let mut greeting = vec![];
            if self.partial {
                greeting.push("partial-rendering,true".to_owned());
            }
            if !self.invert.is_empty() {
                greeting.push(format!("invert-colors,{}", self.invert));
            }
            if greeting != w.greeting {
                return Some(("greeting".into(), json!({"got": w.greeting, "want": greeting})));
            }
            if w.asked && w.doc != self.accepted {
                return Some(("stale".into(), json!({"browser": k, "shows": w.doc, "newest": self.accepted})));
            }
        }
        // Equal outlines of several documents are told apart by nothing.
        let of = |d: Option<usize>| d.map(|d| &self.docs[&d]);
        if self.outlined && of(self.last_outline) != of(self.accepted) {
            return Some(("stale-outline".into(), json!({"told": self.last_outline, "newest": self.accepted})));
        }
        None
    }

    async fn settle(&mut self) {
        let mut last = None;
        for _ in 0..if self.paused { 2 } else { 2000 } {
            let d = if self.paused { Duration::from_millis(200) } else { Duration::from_millis(10) };
            tokio::time::sleep(d).await;
            last = self.check();
            if last.is_none() || self.found.is_some() {
                break;
            }
        }
        if let Some((s, d)) = last {
            self.fail(&s, d);
        }
        self.ctx.count("times at rest", 1);
    }

    /// At rest, and waits until it holds.
    async fn expect(&mut self, what: &str, mut f: impl FnMut(&Self) -> bool) {
        for k in 0..if self.paused { 2 } else { 2000 } {
            let d = if self.paused { Duration::from_millis(200) } else { Duration::from_millis(if k < 3 { 2 } else { 10 }) };
            tokio::time::sleep(d).await;
            self.drain();
            if f(self) || self.found.is_some() {
                return;
            }
        }
        let jumps = self.jumps.clone();
        self.fail(what, json!({"jumps": jumps}));
    }

    /// The jumps without those which answer an earlier step: on threads, these may take their time.
    fn current_jumps(&mut self, at: usize) -> Vec<Value> {
        let late = |j: &Value| !self.paused && self.earlier.iter().any(|a| j["filepath"] == json!(file_of(*a)) && j["start"][0] == json!(a));
        let jumps: Vec<Value> = self.jumps.iter().filter(|j| !late(j)).cloned().collect();
        self.earlier.push(at);
        if self.earlier.len() > 4 {
            self.earlier.remove(0);
        }
        jumps
    }

    fn live(&self) -> Vec<usize> {
        (0..self.webs.len()).filter(|k| !self.webs[*k].closed && self.webs[*k].tx.is_some() && !self.webs[*k].bad).collect()
    }

    fn compile(&mut self) {
        let n = self.r.below(6);
        let no = self.next;
        self.next += 1;
        let headings: Vec<Heading> = (0..n)
            .map(|k| Heading {
                level: self.r.range(1, 4) as i64,
                bookmarked: [None, None, Some(true), Some(false)][self.r.below(4)],
                outlined: !self.r.chance(1, 5),
                text: format!(" {no} {k}"),
                span: if self.r.chance(1, 8) { -1 } else { (no * 10 + self.r.below(3)) as i64 },
                at: (self.r.range(1, 5) as u64, self.r.below(100) as u64, self.r.below(100) as u64),
            })
            .collect();
        let status = [CompileStatus::CompileSuccess, CompileStatus::CompileSuccess, CompileStatus::CompileSuccess, CompileStatus::CompileError, CompileStatus::Compiling][self.r.below(5)];
        let (saved, entry) = (self.r.chance(1, 2), self.r.chance(1, 4));
        let skipped = self.style == RefreshStyle::OnSave && !saved && !entry;
        if !skipped {
            self.want_statuses.push(status_name(status));
            if matches!(status, CompileStatus::CompileSuccess) {
                self.docs.insert(no, outline(&headings));
                self.accepted = Some(no);
                let live = self.live();
                self.outlined |= live.iter().any(|k| self.webs[*k].asked);
                if live.iter().all(|k| !self.webs[*k].asked) {
                    self.outlined = false;
                }
            }
        }
        self.log.push(format!("compile {no} {status:?} saved {saved} entry {entry}"));
        self.watcher.notify_compile(Arc::new(View { no, headings, status, saved, entry }));
    }

    fn say(&mut self, k: usize, s: &str) {
        self.log.push(format!("browser {k}: {s}"));
        if let Some(tx) = &self.webs[k].tx {
            let _ = tx.send(Ok(WsMessage::Text(s.into())));
        }
    }

    fn editor(&mut self, v: Value) {
        self.log.push(format!("editor: {v}"));
        let _ = self.ctl.send(serde_json::from_value(v).unwrap());
    }

    async fn pause(&mut self) {
        for _ in 0..[0, 0, 0, 1, 2, 5, 12][self.r.below(7)] {
            tokio::task::yield_now().await;
        }
        if !self.paused && self.r.chance(1, 4) {
            tokio::time::sleep(Duration::from_micros(self.r.below(300) as u64)).await;
        }
    }

    /// C63: anything in any order; looked at when it is at rest.
    async fn churn(&mut self) {
        match self.r.below(14) {
            0..=3 => self.compile(),
            4 => {
                if self.live().len() < 4 {
                    self.log.push(format!("connect {}", self.webs.len()));
                    let wait = self.r.below(6);
                    self.webs.push(connect(&self.streams, wait));
                }
            }
            5 => {
                let l = self.live();
                if !l.is_empty() && self.r.chance(1, 2) {
                    let k = *self.r.pick(&l);
                    self.log.push(format!("disconnect {k}"));
                    self.webs[k].tx = None;
                    self.outlined = false;
                }
            }
            6..=8 => {
                let l = self.live();
                if !l.is_empty() {
                    let k = *self.r.pick(&l);
                    self.say(k, "current");
                    self.webs[k].asked = true;
                    self.outlined = self.accepted.is_some();
                }
            }
            9 => {
                let s = [CompileStatus::Compiling, CompileStatus::CompileError][self.r.below(2)];
                self.want_statuses.push(status_name(s));
                self.watcher.status(s);
            }
            10 => {
                let files: HashMap<String, String> = (0..self.r.below(3)).map(|k| (format!("/m{k}.typ"), self.r.text(3))).collect();
                let mut v: Vec<_> = files.clone().into_iter().map(|(k, v)| (std::path::PathBuf::from(k), v)).collect();
                v.sort();
                let what = ["sync", "update", "remove"][self.r.below(3)];
                if what == "remove" {
                    let names: Vec<_> = v.iter().map(|x| x.0.clone()).collect();
                    self.want_server.push(format!("remove {names:?}"));
                    self.editor(json!({"event": "removeMemoryFiles", "files": names}));
                } else {
                    self.want_server.push(format!("{what} {v:?}"));
                    self.editor(json!({"event": format!("{what}MemoryFiles"), "files": files}));
                }
            }
            11 => {
                let line = self.r.below(9) as u32;
                self.scroll_to(line);
            }
            12 => {
                // What a browser should not say costs at most its own connection.
                let l = self.live();
                if l.len() > 1 {
                    let k = l[0];
                    let m = *self.r.pick(&["bogus", "srclocation", "srclocation zz", "srclocation ", "srclocation 123456789123456789", "outline-sync", "outline-sync,a", "outline-sync,1 x", "srcpath", "srcpath 1", "src-point", "src-point {}", "binary", ""]);
                    self.webs[k].bad = true;
                    if m == "binary" {
                        let _ = self.webs[k].tx.as_ref().unwrap().send(Ok(WsMessage::Binary(vec![1])));
                    } else if m.is_empty() {
                        let _ = self.webs[k].tx.as_ref().unwrap().send(Err(tinymist_std::error_once!("broken")));
                    }
                    self.say(k, m);
                    self.outlined = false;
                    self.ctx.count("bad messages", 1);
                }
            }
            _ => {
                self.editor(json!({"event": "sourceScrollBySpan", "span": "zz"}));
                self.ctx.count("bad messages", 1);
            }
        }
        self.pause().await;
    }

    fn scroll_to(&mut self, line: u32) -> Option<String> {
        let p: Vec<String> = spots(line).iter().map(|p| format!("{} {} {}", p.page, p.point.x.to_pt() as f32, p.point.y.to_pt() as f32)).collect();
        let want = (!p.is_empty()).then(|| format!("jump,{}", p.join(",")));
        self.allowed.extend(want.clone());
        self.editor(json!({"event": "panelScrollTo", "filepath": "a.typ", "line": line, "character": 1}));
        want
    }

    /// C64: one thing at a time.
    async fn jump(&mut self) {
        let live = self.live();
        let ready = !live.is_empty() && self.accepted.is_some();
        self.jumps.clear();
        for w in &mut self.webs {
            w.got.clear();
        }
        let everyone = |s: &Self, want: &str| live.iter().all(|k| s.webs[*k].got.iter().any(|g| g == want));
        match self.r.below(9) {
            0..=2 => {
                // From an outline: of any age.
                let all: Vec<_> = self.ids.iter().map(|(k, v)| (k.clone(), *v)).collect();
                if all.is_empty() || !ready {
                    return;
                }
                let mut all = all;
                all.sort();
                if self.r.chance(1, 2) {
                    all.retain(|x| x.1 .1 + 29 >= self.outlines);
                }
                if all.is_empty() {
                    return;
                }
                let (id, (at, no)) = self.r.pick(&all).clone();
                if self.r.chance(1, 2) {
                    let k = *self.r.pick(&live);
                    self.say(k, &format!("srclocation {id}"));
                } else {
                    self.editor(json!({"event": "sourceScrollBySpan", "span": id}));
                }
                let before = self.outlines;
                let fresh = no + 29 > self.outlines + 2 * self.webs.len();
                if at >= 0 && fresh {
                    self.expect("jump-lost", |s| !s.jumps.is_empty()).await;
                    self.ctx.count("jumps by id", 1);
                    if no < before {
                        self.ctx.count("jumps by ids of older outlines", 1);
                    }
                } else {
                    self.settle().await;
                    if !fresh {
                        self.ctx.count("jumps by ids that may be gone", 1);
                    }
                }
                let at = at as usize;
                for j in self.current_jumps(at) {
                    if j["filepath"] != json!(file_of(at)) || j["start"][0] != json!(at) || j["end"][0] != json!(at) {
                        self.fail("jump", json!({"id": id, "of outline": no, "newest outline": before, "want": at, "got": j}));
                    }
                }
            }
            3 | 4 => {
                // From the document.
                if live.is_empty() {
                    return;
                }
                let k = *self.r.pick(&live);
                let (x, y) = (self.r.below(40), self.r.below(40));
                let n = self.r.range(1, 3);
                let want = if self.r.chance(1, 3) {
                    self.say(k, &format!("src-point {{\"page_no\":{y},\"x\":1.5,\"y\":2}}"));
                    (y > 0).then_some(y)
                } else {
                    let p: Vec<Value> = (0..n).map(|i| json!([1, if i == 0 { x } else { y }, "k"])).collect();
                    self.say(k, &format!("srcpath {}", Value::Array(p)));
                    Some(if n == 1 { x } else { y })
                };
                let want = want.filter(|_| self.accepted.is_some());
                if want.is_some() {
                    self.expect("jump-lost", |s| !s.jumps.is_empty()).await;
                    self.ctx.count("jumps from the document", 1);
                } else {
                    self.settle().await;
                }
                let at = want.unwrap_or(usize::MAX);
                for j in self.current_jumps(at) {
                    let (a, b) = (&j["start"], &j["end"]);
                    // It stays in the element.
                    let inside = |p: &Value| p.is_null() || (p[0] == json!(at) && p[1].as_u64().is_some_and(|c| c <= 5));
                    let order = a.is_null() || b.is_null() || (a[0].as_u64(), a[1].as_u64()) <= (b[0].as_u64(), b[1].as_u64());
                    if j["filepath"] != json!(file_of(at)) || !inside(a) || !inside(b) || a.is_null() || !order {
                        self.fail("jump", json!({"want": at, "got": j}));
                    }
                }
            }
            5 => {
                let line = self.r.below(30) as u32;
                let want = self.scroll_to(line);
                if let (Some(w), true) = (want, ready) {
                    self.expect("scroll-lost", |s| everyone(s, &w)).await;
                    self.ctx.count("jumps from the editor", 1);
                }
            }
            6 => {
                let line = self.r.below(30);
                let file = self.r.one(&["a.typ", "b.typ"]);
                let want = format!("cursor-paths,{}", json!([[{"kind": 1, "index": line, "fingerprint": format!("f{line}")}]]));
                // The order of the keys is that of the declaration.
                let want = {
                    let _ = want;
                    format!("cursor-paths,[[{{\"kind\":1,\"index\":{line},\"fingerprint\":\"f{line}\"}}]]")
                };
                if file == "a.typ" {
                    self.allowed.insert(want.clone());
                }
                self.editor(json!({"event": "changeCursorPosition", "filepath": file, "line": line, "character": 0}));
                if ready && file == "a.typ" {
                    self.expect("cursor-lost", |s| everyone(s, &want)).await;
                    self.ctx.count("cursors", 1);
                }
            }
            7 => {
                // Browsers follow each other, and the editor, also when they are told a lot.
                let n = if self.r.chance(1, 3) { self.r.range(33, 120) } else { self.r.range(1, 20) };
                let mut want = String::new();
                let from = (self.r.chance(1, 3) && !live.is_empty()).then(|| live[0]);
                for k in 0..n {
                    let (p, x, y) = (self.r.range(1, 9), self.r.below(50) as f32 + 0.5, k as f32);
                    want = format!("viewport,{p} {x} {y}");
                    self.allowed.insert(want.clone());
                    match from {
                        Some(k) => self.say(k, &format!("outline-sync,{p} {x} {y}")),
                        None => self.editor(json!({"event": "panelScrollByPosition", "position": {"page_no": p, "x": x, "y": y}})),
                    }
                }
                self.expect("viewport-lost", |s| everyone(s, &want)).await;
                self.ctx.count(if n > 32 { "bursts" } else { "scrolls" }, 1);
            }
            _ => {
                for _ in 0..self.r.range(1, 12) {
                    self.compile();
                    if self.r.chance(2, 3) {
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                }
                if self.r.chance(1, 4) {
                    if self.live().len() < 3 {
                        let wait = self.r.below(4);
                        self.webs.push(connect(&self.streams, wait));
                        let k = self.webs.len() - 1;
                        self.say(k, "current");
                        self.webs[k].asked = true;
                        self.outlined = self.accepted.is_some();
                    }
                }
                self.settle().await;
            }
        }
    }
}

async fn case(ctx: &Ctx, seed: u64, paused: bool, jumps: bool) -> Found {
    let mut r = Rng::new(seed);
    let partial = r.chance(1, 2);
    let invert = r.one(&["", "auto", "never", "{\"rest\":\"always\"}"]).to_owned();
    let style = if r.chance(1, 3) { RefreshStyle::OnSave } else { RefreshStyle::OnType };
    let args = PreviewArgs { enable_partial_rendering: partial, invert_colors: invert.clone(), task_id: "t".into(), refresh_style: style };
    // The editor actor of a preview of its own ends the process when it ends.
    let standalone = false;
    let (tx, rx) = ControlPlaneTx::new(standalone);
    let server = Arc::new(Server::default());
    let builder = PreviewBuilder::new(args);
    let watcher = builder.compile_watcher().clone();
    let mut previewer = builder.build(tx, server.clone()).await;
    let (streams, s) = mpsc::unbounded_channel::<Stream>();
    previewer.start_data_plane(s, cast);
    let mut sim = Sim {
        ctx, r, paused, ctl: rx.ctl_tx, resp: rx.resp_rx, server, watcher, streams, webs: vec![], partial, invert, style, standalone,
        docs: HashMap::new(), next: 0, accepted: None, outlined: false, outlines: 0, last_outline: None, statuses: vec![], want_statuses: vec![],
        jumps: vec![], earlier: vec![], ids: HashMap::new(), allowed: HashSet::new(), want_server: vec![], log: vec![], synced: 0, found: None,
    };
    let n = sim.r.range(5, 40);
    if jumps {
        sim.webs.push(connect(&sim.streams, 0));
        sim.say(0, "current");
        sim.webs[0].asked = true;
        sim.settle().await;
    }
    for _ in 0..n {
        if sim.found.is_some() {
            return sim.found;
        }
        if jumps {
            sim.jump().await;
        } else {
            sim.churn().await;
            if sim.r.chance(1, 6) {
                sim.settle().await;
            }
        }
    }
    sim.settle().await;
    // It ends when it is told to. A preview of its own ends the process then.
    if sim.found.is_none() && !standalone {
        let limit = Duration::from_secs(20);
        if tokio::time::timeout(limit, previewer.stop()).await.is_err() || tokio::time::timeout(limit, previewer.join()).await.is_err() {
            sim.fail("stop", json!(null));
        }
    }
    sim.found
}

fn run(ctx: &Ctx, jumps: bool) {
    // Tasks may fail for what browsers say.
    std::panic::set_hook(Box::new(|_| {}));
    let n = if jumps { ctx.n(3_000, 60_000) } else { ctx.n(6_000, 120_000) };
    parallel(ctx, n, 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let seed = ctx.rng(i as u64).u64();
        // Time that passes by itself, or threads.
        let paused = i % 16 != 0;
        let rt = if paused {
            tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build()
        } else {
            tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build()
        }
        .expect("runtime");
        let found = rt.block_on(case(ctx, seed, paused, jumps));
        rt.shutdown_background();
        if let Some((s, d)) = found {
            ctx.violate(s, json!({"seed": seed, "case": d}));
        }
        ctx.count(if paused { "cases one step at a time" } else { "cases on threads" }, 1);
        ctx.eval(seed, true);
    });
}

const STAND: &[&str] = &["the renderer is a stand-in: a delta applies to what it has packed before", "frames and positions come from a stand-in for typst"];

pub fn c63(ctx: &Ctx) -> i32 {
    run(ctx, false);
    for (k, n) in [("full renders", 500), ("deltas", 1000), ("outlines", 500), ("bad messages", 100), ("times at rest", 1000)] {
        ctx.require(k, n);
    }
    ctx.finish(
        "exploration",
        "compilations, browsers that come, ask and go, an editor, and messages that make no sense, in any order and with pauses of any length, on one thread \
         and on several; at rest every browser that asked shows the newest document that was accepted, having got every delta in order; distinct: workloads",
        STAND,
    )
}

pub fn c64(ctx: &Ctx) -> i32 {
    run(ctx, true);
    for (k, n) in [("jumps by id", 300), ("jumps by ids of older outlines", 100), ("jumps from the document", 300), ("jumps from the editor", 100), ("cursors", 50), ("scrolls", 100), ("bursts", 50)] {
        ctx.require(k, n);
    }
    ctx.finish(
        "exploration",
        "jumps between editor, outline and documents, with ids of outlines of any age, between compilations; the place is the one that the id was made for; distinct: workloads",
        STAND,
    )
}
