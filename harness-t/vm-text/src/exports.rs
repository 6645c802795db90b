//! C67: what is exported on the disk is what was compiled last.
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use tinymist::actor::editor::EditorRequest;
use tinymist::task::{ExportTask, ExportUserConfig};
use tinymist_project::*;
use tinymist_world::{CompileSnapshot, EntryState, ExportSignal, ShadowApi, WorldComputeGraph};
use tokio::sync::mpsc;
use typst::foundations::{Bytes, Dict};
use typst::syntax::VirtualPath;
use typst::utils::LazyHash;
use vm_core::{json, parallel, Ctx, Rng, Scratch, Value};

type Found = Option<(&'static str, Value)>;

struct Project {
    id: ProjectInsId,
    root: PathBuf,
    main: &'static str,
    verse: LspUniverse,
    /// The export that counts: where, what, or that it fails.
    want: Option<(PathBuf, Vec<u8>)>,
    /// All that may be at a path.
    may: HashMap<PathBuf, HashSet<Vec<u8>>>,
    words: Option<usize>,
}

fn universe(root: &Path, main: &str) -> LspUniverse {
    let args = tinymist_world::args::CompilePackageArgs { package_path: Some(root.join(".packages")), package_cache_path: Some(root.join(".cache")) };
    LspUniverseBuilder::build(
        EntryState::new_rooted(root.into(), Some(VirtualPath::new(main))),
        ExportTarget::Paged,
        typst::Features::default(),
        Arc::new(LazyHash::new(Dict::default())),
        LspUniverseBuilder::resolve_package(None, Some(&args)),
        Arc::new(LspUniverseBuilder::only_embedded_fonts().unwrap()),
    )
}

/// A task, and what it makes of pages; where it goes.
struct Kind {
    task: ProjectTask,
    make: Box<dyn Fn(&[String], &str) -> Option<Vec<u8>>>,
    pattern: Option<&'static str>,
}

fn kind(r: &mut Rng) -> (Kind, TaskWhen) {
    let when = match r.below(8) {
        0 => TaskWhen::Never,
        1 | 2 => TaskWhen::OnSave,
        3 => TaskWhen::OnDocumentHasTitle,
        _ => TaskWhen::OnType,
    };
    let pattern = *r.pick(&[None, Some("$root/out/$dir/$name"), Some("$root/$name"), Some("$root/out/deep/er/all"), Some("$root/x/../y/$name"), Some("$root/$dir/of-$name"), Some("relative/$name")]);
    let mut export = tinymist_task::ExportTask::new(when.clone());
    export.output = pattern.map(PathPattern::new);
    let gap = match r.below(5) {
        0 => {
            export.transform.push(ExportTransform::Pages { ranges: vec![Pages::FIRST] });
            None
        }
        1 => {
            let (t, v) = *r.pick(&[("3pt", 3.0), ("2.5pt", 2.5), ("1in", 72.0)]);
            export.transform.push(ExportTransform::Merge { gap: Some(t.into()) });
            Some(v)
        }
        2 => {
            export.transform.push(ExportTransform::Merge { gap: None });
            Some(0.0)
        }
        _ => Some(0.0),
    };
    let k = match r.below(6) {
        0 => Kind {
            task: ProjectTask::ExportPdf(ExportPdfTask { export, pdf_standards: vec![], creation_timestamp: Some(1_000_000_000) }),
            make: Box::new(|pages, _| Some(format!("{} {:?} {pages:?}", pdf_time(), typst_pdf::PdfStandards::default()).into_bytes())),
            pattern,
        },
        1 => Kind {
            task: ProjectTask::ExportSvg(ExportSvgTask { export }),
            make: Box::new(move |pages, _| Some(drawn("", pages, gap, "").into_bytes())),
            pattern,
        },
        2 => {
            let (fill, color) = match r.below(4) {
                0 => (None, Some([255u8; 4])),
                1 => (Some("#0102ff"), Some([1, 2, 255, 255])),
                2 => (Some("black"), Some([0, 0, 0, 255])),
                _ => (Some("nothing"), None),
            };
            let ppi = *r.pick(&[72f32, 144.0, 36.0, 0.0]);
            Kind {
                task: ProjectTask::ExportPng(ExportPngTask { export, ppi: Scalar::try_from(ppi).unwrap(), fill: fill.map(|s| s.to_string()) }),
                make: Box::new(move |pages, _| {
                    let color = typst::visualize::Color(color?);
                    (ppi > 0.0).then(|| drawn(&format!("{} ", ppi / 72.), pages, gap, &format!("{:?} ", Some(color))).into_bytes())
                }),
                pattern,
            }
        }
        3 => Kind {
            task: ProjectTask::ExportText(ExportTextTask { export }),
            make: Box::new(|pages, _| Some(pages.concat().into_bytes())),
            pattern,
        },
        4 => Kind {
            task: ProjectTask::ExportMd(ExportMarkdownTask { export }),
            make: Box::new(|_, source| Some(format!("md {source}").into_bytes())),
            pattern,
        },
        _ => Kind {
            task: ProjectTask::ExportSvgHtml(ExportHtmlTask { export }),
            make: Box::new(|pages, _| Some(format!("svg html {pages:?}").into_bytes())),
            pattern,
        },
    };
    (k, when)
}

fn drawn(scale: &str, pages: &[String], gap: Option<f64>, fill: &str) -> String {
    match gap {
        None => format!("one {scale}{:?}", pages[0]),
        Some(gap) => format!("merged {scale}{gap} {fill}{pages:?}"),
    }
}

/// 2001-09-09T01:46:40, as an option of typst's.
fn pdf_time() -> String {
    format!("{:?}", Some(typst_pdf::Timestamp::new_utc(typst::foundations::Datetime::from_ymd_hms(2001, 9, 9, 1, 46, 40).unwrap())))
}

fn target(p: &Project, k: &Kind) -> Option<PathBuf> {
    let (dir, name) = p.main.rsplit_once('/').map_or(("", p.main), |(d, n)| (d, n));
    let path = match k.pattern {
        None => p.root.join(p.main),
        Some(s) if s.starts_with("relative") => return None,
        Some(s) => {
            let s = s.replace("$root", p.root.to_str().unwrap()).replace("$dir", dir).replace("$name", name);
            let mut out = PathBuf::new();
            for c in Path::new(&s).components() {
                match c {
                    std::path::Component::ParentDir => {
                        out.pop();
                    }
                    c => out.push(c),
                }
            }
            out
        }
    };
    Some(path.with_extension(k.task.extension()))
}

struct Run<'a> {
    ctx: &'a Ctx,
    r: Rng,
    task: ExportTask,
    kind: (Kind, TaskWhen),
    count: bool,
    projects: Vec<Project>,
    log: Vec<Value>,
    serial: usize,
    may: Arc<Mutex<HashMap<PathBuf, HashSet<Vec<u8>>>>>,
}

impl Run<'_> {
    fn compile(&mut self) {
        let k = self.r.below(self.projects.len());
        self.serial += 1;
        let n = self.serial;
        let p = &mut self.projects[k];
        let r = &mut self.r;
        let signal = ExportSignal { by_mem_events: r.chance(1, 2), by_fs_events: r.chance(1, 3), by_entry_update: r.chance(1, 10) };
        let pages: Vec<String> = (0..r.range(1, 3)).map(|i| if r.chance(1, 6) { String::new() } else { format!("p{k} r{n} {i}") }).collect();
        let title = r.chance(1, 2);
        let fails = r.chance(1, 7);
        let mut source = pages.join("\n#pagebreak\n");
        if title {
            source += "\n#title T";
        }
        if fails {
            source += "\n#error E";
        }
        let pages: Vec<String> = pages.iter().map(|p| format!("{p}\n")).collect();
        let main = p.root.join(p.main);
        p.verse.map_shadow(&main, Bytes::from_string(source.clone())).unwrap();
        let mut snap: CompileSnapshot<LspCompilerFeat> = CompileSnapshot::from_world(p.verse.snapshot());
        snap.id = p.id.clone();
        snap.signal = signal;
        let art = CompiledArtifact::from_graph(WorldComputeGraph::new(snap), false);
        let (kind, when) = &self.kind;
        let need = !fails
            && (match when {
                TaskWhen::Never => false,
                _ if signal.by_entry_update => true,
                TaskWhen::OnType => signal.by_mem_events,
                TaskWhen::OnSave => signal.by_fs_events,
                TaskWhen::OnDocumentHasTitle => signal.by_fs_events && title,
            });
        self.log.push(json!({"compiled": k, "no": n, "signal": format!("{signal:?}"), "fails": fails, "exports": need}));
        if need {
            p.want = target(p, kind).and_then(|at| Some((at, (kind.make)(&pages, &source)?)));
            if let Some((at, data)) = p.want.clone() {
                self.may.lock().unwrap().entry(at.clone()).or_default().insert(data.clone());
                p.may.entry(at).or_default().insert(data);
            }
            self.ctx.count("exports", 1);
        }
        if self.count {
            p.words = (!fails).then(|| pages.concat().split_whitespace().count());
        }
        self.task.signal(&art);
    }

    fn judge(&mut self, told: &HashMap<ProjectInsId, usize>) -> Found {
        for p in &self.projects {
            let bad = |s, v: Value| Some((s, json!({"log": self.log, "project": format!("{:?}", p.id), "found": v})));
            if let Some((at, data)) = &p.want {
                match std::fs::read(at) {
                    Ok(d) if d == *data => {}
                    d => return bad("stale", json!({"path": at, "got": format!("{:?}", d.map(|d| String::from_utf8_lossy(&d).into_owned())), "want": String::from_utf8_lossy(data)})),
                }
                self.ctx.count("files as they must be", 1);
            }
            for (at, may) in &p.may {
                if std::fs::read(at).is_ok_and(|d| !may.contains(&d)) {
                    return bad("foreign", json!({"path": at}));
                }
            }
            if let Some(w) = p.words {
                if told.get(&p.id) != Some(&w) {
                    return bad("words", json!({"told": told.get(&p.id), "want": w}));
                }
                self.ctx.count("words", 1);
            }
            // Nothing else is made.
            let mut dirs = vec![p.root.clone()];
            while let Some(d) = dirs.pop() {
                for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                    let path = e.path();
                    if path.is_dir() {
                        dirs.push(path);
                    } else if !p.may.contains_key(&path) {
                        return bad("stray", json!({"path": path}));
                    }
                }
            }
        }
        None
    }
}

fn case(ctx: &Ctx, seed: u64, threads: bool) -> Found {
    let mut r = Rng::new(seed);
    let scratch = Scratch::new("exp");
    let rt = if threads { tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build() } else { tokio::runtime::Builder::new_current_thread().enable_all().build() }.expect("runtime");
    let (tx, mut rx) = mpsc::unbounded_channel();
    let task = ExportTask::new(rt.handle().clone(), Some(tx), ExportUserConfig::default());
    let mains = ["main.typ", "sub/doc.typ", "a.b/two words.typ"];
    let projects: Vec<Project> = (0..r.range(1, 3))
        .map(|k| {
            let root = scratch.path().join(format!("ws{k}"));
            std::fs::create_dir_all(&root).unwrap();
            let id = if k == 0 { ProjectInsId::PRIMARY } else { ProjectInsId(format!("p{k}").into()) };
            let mut verse = universe(&root, mains[k]);
            // Projects are not equally old.
            for i in 0..r.below(12) {
                verse.map_shadow(&root.join(mains[k]), Bytes::from_string(format!("{i}"))).unwrap();
            }
            Project { id, main: mains[k], verse, root, want: None, may: HashMap::new(), words: None }
        })
        .collect();
    let first = kind(&mut r);
    let mut run = Run { ctx, r, task, kind: first, count: false, projects, log: vec![], serial: 0, may: Default::default() };
    let configure = |run: &mut Run| {
        run.count |= run.r.chance(1, 2);
        run.log.push(json!({"config": format!("{:?}", run.kind.0.task), "count": run.count}));
        run.task.change_config(ExportUserConfig { export_target: ExportTarget::Paged, task: run.kind.0.task.clone(), count_words: run.count });
    };
    configure(&mut run);
    // Someone reads while it is written.
    let stop = Arc::new(AtomicBool::new(false));
    let reader = threads.then(|| {
        let (stop, may) = (stop.clone(), run.may.clone());
        std::thread::spawn(move || {
            let mut bad = None;
            let mut reads = 0u64;
            while !stop.load(SeqCst) {
                let paths: Vec<PathBuf> = may.lock().unwrap().keys().cloned().collect();
                for p in paths {
                    if let Ok(d) = std::fs::read(&p) {
                        reads += 1;
                        if !may.lock().unwrap()[&p].contains(&d) {
                            bad = Some((p.clone(), String::from_utf8_lossy(&d).into_owned()));
                        }
                    }
                }
                std::thread::sleep(Duration::from_micros(100));
            }
            (bad, reads)
        })
    });
    let mut told = HashMap::new();
    let mut found = None;
    'run: for _ in 0..run.r.range(1, 5) {
        for _ in 0..run.r.range(1, 8) {
            match run.r.below(8) {
                0 => {
                    run.kind = kind(&mut run.r);
                    configure(&mut run);
                }
                1 if !threads => rt.block_on(async {
                    for _ in 0..3 {
                        tokio::task::yield_now().await;
                    }
                }),
                _ => run.compile(),
            }
        }
        // Rest.
        let t = std::time::Instant::now();
        rt.block_on(async {
            while tokio::runtime::Handle::current().metrics().num_alive_tasks() > 0 && t.elapsed().as_secs() < 20 {
                tokio::time::sleep(Duration::from_micros(200)).await;
            }
        });
        if t.elapsed().as_secs() >= 20 {
            found = Some(("endless", json!({"log": run.log})));
            break 'run;
        }
        while let Ok(e) = rx.try_recv() {
            match e {
                EditorRequest::WordCount(id, n) => {
                    told.insert(id, n.words);
                }
                _ => found = Some(("told", json!({"log": run.log}))),
            }
        }
        found = found.or_else(|| run.judge(&told));
        if found.is_some() {
            break;
        }
        ctx.count("times at rest", 1);
    }
    stop.store(true, SeqCst);
    if let Some(r) = reader {
        let (bad, reads) = r.join().unwrap();
        ctx.count("reads meanwhile", reads);
        if let (None, Some((p, d))) = (&found, bad) {
            found = Some(("torn", json!({"path": p, "read": d, "log": run.log})));
        }
    }
    found
}

pub fn c67(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    parallel(ctx, ctx.n(2_000, 100_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let seed = ctx.rng(i as u64).u64();
        ctx.eval(seed, true);
        let threads = i % 8 == 0;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| case(ctx, seed, threads))) {
            Ok(None) => {}
            Ok(Some((s, d))) => ctx.violate(s, json!({"case": seed.to_string(), "threads": threads, "found": d})),
            Err(e) => {
                let e = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
                ctx.violate("panic", json!({"case": seed.to_string(), "panic": e}))
            }
        }
    });
    ctx.require("files as they must be", 500);
    ctx.require("words", 200);
    ctx.require("reads meanwhile", 20);
    ctx.finish(
        "exploration",
        "histories of compilations of several projects, with all causes, of changes of the configuration (formats, times, places), while exports wait or run; \
         non-trivial: all; oracle: a model of when, where and what is to be exported, compared with the disk at rest and while it is written",
        &["what typst makes of pages is a stand-in", "names with `$` are not used", "an export that the configuration of another format followed may be left out"],
    )
}
