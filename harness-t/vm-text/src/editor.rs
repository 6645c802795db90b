//! C68: what the editor is told of diagnostics and states.
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;

use ecow::EcoVec;
use lsp_types::{Diagnostic, Position, Range, Url};
use sync_ls::transport::{with_stdio_transport, MirrorArgs};
use sync_ls::{LspClientRoot, LspMessage, Message, TConnectionTx};
use tinymist::actor::editor::{EditorActor, EditorActorConfig, EditorRequest, ProjVersion};
use tinymist::tool::word_count::WordsCount;
use tinymist_project::{CompileReport, CompileStatusEnum, ProjectInsId};
use tokio::sync::mpsc;
use typst::syntax::{FileId, VirtualPath};
use vm_core::{json, parallel, Ctx, Rng, Value};

fn diag(serial: usize) -> Diagnostic {
    let at = Position::new(serial as u32, 0);
    Diagnostic { range: Range::new(at, at), message: format!("d{serial}"), ..Default::default() }
}

type Shown = BTreeMap<String, Vec<String>>;

/// What each project said last.
#[derive(Default)]
struct Model {
    said: HashMap<usize, BTreeMap<String, Vec<String>>>,
    on: bool,
    status: &'static str,
    path: String,
    pages: u32,
    words: Option<usize>,
}

impl Model {
    fn shown(&self) -> Shown {
        let mut s = Shown::new();
        for said in self.said.values() {
            for (u, d) in said {
                s.entry(u.clone()).or_default().extend(d.iter().cloned());
            }
        }
        s.retain(|_, d| {
            d.sort();
            !d.is_empty()
        });
        s
    }
    fn state(&self) -> Value {
        json!([self.status, self.path, self.pages, self.words])
    }
}

/// A connection, of which only the type is used.
fn sender() -> TConnectionTx<LspMessage> {
    static CONN: OnceLock<TConnectionTx<LspMessage>> = OnceLock::new();
    CONN.get_or_init(|| {
        let mut kept = None;
        let args = MirrorArgs { replay: "/dev/null".into(), ..Default::default() };
        let _ = with_stdio_transport::<LspMessage>(args, |conn| {
            let mut tx = conn.sender;
            tx.lsp = crossbeam_channel::unbounded().0;
            kept = Some(tx);
            Ok(())
        });
        kept.expect("a connection")
    })
    .clone()
}

async fn case(ctx: &Ctx, r: &mut Rng) -> Option<(&'static str, Value)> {
    let (ltx, out) = crossbeam_channel::unbounded::<Message>();
    let mut tx = sender();
    tx.lsp = ltx;
    let root = LspClientRoot::new(tokio::runtime::Handle::current(), tx);
    let (req, rx) = mpsc::unbounded_channel();
    let mut m = Model { on: r.chance(1, 2), status: "compiling", ..Default::default() };
    let actor = tokio::spawn(EditorActor::new(root.weak(), rx, m.on).run());
    let ids: Vec<ProjectInsId> = (0..4).map(|k| if k == 0 { ProjectInsId::PRIMARY } else { ProjectInsId(format!("p{k}").into()) }).collect();
    let urls: Vec<Url> = ["file:///a.typ", "file:///b%20c.typ", "untitled:x", "file:///d/e.typ"].iter().map(|u| Url::parse(u).unwrap()).collect();
    let mut shown = Shown::new();
    let mut log: Vec<Value> = vec![];
    let mut serial = 0;
    let mut at_once = 0;
    let mut told: Vec<Value> = vec![];
    for _ in 0..r.range(1, 30) {
        let k = r.below(ids.len());
        match r.below(8) {
            0..=3 => {
                let said = (!r.chance(1, 5)).then(|| {
                    let mut d = tinymist_query::DiagnosticsMap::new();
                    for u in &urls {
                        if r.chance(1, 2) {
                            let n = r.below(4);
                            let list: EcoVec<Diagnostic> = (0..n).map(|_| { serial += r.below(2); diag(serial) }).collect();
                            d.insert(u.clone(), list);
                        }
                    }
                    d
                });
                match &said {
                    Some(d) => {
                        m.said.insert(k, d.iter().map(|(u, d)| (u.to_string(), d.iter().map(|d| d.message.clone()).collect())).collect());
                    }
                    None => {
                        m.said.remove(&k);
                    }
                }
                log.push(json!({"diag": k, "said": said.as_ref().map(|_| &m.said[&k])}));
                req.send(EditorRequest::Diag(ProjVersion { id: ids[k].clone(), revision: r.below(9) }, said)).ok();
                ctx.count("diagnostics", 1);
            }
            4 | 5 => {
                let zero = || unsafe { std::mem::zeroed() };
                let (status, name) = match r.below(5) {
                    0 => (CompileStatusEnum::Suspend, "compileSuccess"),
                    1 => (CompileStatusEnum::Compiling, "compiling"),
                    2 => (CompileStatusEnum::CompileSuccess(zero()), "compileSuccess"),
                    3 => (CompileStatusEnum::CompileError(zero()), "compileError"),
                    _ => (CompileStatusEnum::ExportError(zero()), "compileError"),
                };
                let path = *r.pick(&["", "/m.typ", "/s/ü.typ"]);
                let pages = r.below(50) as u32;
                log.push(json!({"status": k, "name": name, "path": path, "pages": pages}));
                let compiling_id = (!path.is_empty()).then(|| FileId::new(None, VirtualPath::new(path)));
                req.send(EditorRequest::Status(CompileReport { id: ids[k].clone(), compiling_id, page_count: pages, status })).ok();
                if k == 0 {
                    (m.status, m.path, m.pages) = (name, path.into(), pages);
                    told.extend(m.on.then(|| m.state()));
                }
                ctx.count("states", 1);
            }
            6 => {
                let n = r.below(1000);
                log.push(json!({"words": n, "of": k}));
                req.send(EditorRequest::WordCount(ids[k].clone(), WordsCount { words: n, chars: 0, spaces: 0, cjk_chars: 0 })).ok();
                if k == 0 {
                    m.words = Some(n);
                    told.extend(m.on.then(|| m.state()));
                }
            }
            _ => {
                m.on = r.chance(1, 2);
                log.push(json!({"notify": m.on}));
                req.send(EditorRequest::Config(EditorActorConfig { notify_status: m.on })).ok();
            }
        }
        // Several at once, now and then.
        at_once += 1;
        if at_once < 4 && r.chance(1, 3) {
            continue;
        }
        at_once = 0;
        for _ in 0..12 {
            tokio::task::yield_now().await;
        }
        let mut states = vec![];
        for msg in out.try_iter() {
            let Message::Lsp(LspMessage::Notification(n)) = msg else {
                return Some(("message", json!({"log": log, "message": format!("{msg:?}")})));
            };
            match n.method.as_str() {
                "textDocument/publishDiagnostics" => {
                    let mut d: Vec<String> = n.params["diagnostics"].as_array().into_iter().flatten().map(|d| d["message"].as_str().unwrap_or("?").to_string()).collect();
                    d.sort();
                    let uri = n.params["uri"].as_str().unwrap_or("?").to_string();
                    if d.is_empty() {
                        shown.remove(&uri);
                    } else {
                        shown.insert(uri, d);
                    }
                    ctx.count("published", 1);
                }
                "tinymist/compileStatus" => {
                    let p = &n.params;
                    states.push(json!([p["status"], p["path"], p["pageCount"], p["wordsCount"].get("words")]));
                }
                x => return Some(("method", json!({"log": log, "method": x}))),
            }
        }
        if shown != m.shown() {
            return Some(("diagnostics", json!({"log": log, "shown": shown, "want": m.shown()})));
        }
        if states != told {
            return Some(("state", json!({"log": log, "told": states, "want": told})));
        }
        told.clear();
        ctx.count("times at rest", 1);
    }
    drop(req);
    if tokio::time::timeout(std::time::Duration::from_secs(10), actor).await.is_err() {
        return Some(("endless", json!({"log": log})));
    }
    None
}

pub fn c68(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    parallel(ctx, ctx.n(10_000, 500_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let seed = ctx.rng(i as u64).u64();
        ctx.eval(seed, true);
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().expect("runtime");
        let found = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.block_on(case(ctx, &mut Rng::new(seed)))));
        match found {
            Ok(None) => {}
            Ok(Some((s, d))) => ctx.violate(s, json!({"case": seed.to_string(), "found": d})),
            Err(_) => ctx.violate("panic", json!({"case": seed.to_string()})),
        }
    });
    ctx.require("published", 1000);
    ctx.require("states", 1000);
    ctx.finish(
        "exploration",
        "histories of diagnostics of several projects about shared files, of states, word counts and configurations, one at a time or several at once; \
         non-trivial: all; oracle: the union of what each project said last, and the last state",
        &["the order of diagnostics of one file is not claimed"],
    )
}
