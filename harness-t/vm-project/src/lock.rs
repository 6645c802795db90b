//! C69: the lock file of projects keeps what was put into it.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

use serde_json::json;
use tinymist_project::*;
use tinymist_std::path::PathClean;
use tinymist_world::args::CompileFontArgs;
use typst::diag::EcoString;
use typst::syntax::{FileId, VirtualPath};
use typst::World;
use vm_core::{h64, Ctx, Rng, Scratch};

const NAMES: [&str; 16] = [
    "a.typ", "sub/b.typ", "a b.typ", "it's.typ", "q\"q.typ", "é漢.typ", "a.b.c.typ", "[x].typ", "#c.typ", "back\\slash.typ", "x=y.typ", "$root.typ", "c:d.typ", "e::f:.typ", "-.typ", "..x/g.typ",
];

fn text(rng: &mut Rng) -> String {
    match rng.below(8) {
        0 => String::new(),
        1 => "a\nb\tc".into(),
        2 => "\"quoted\" and 'single' \\ back".into(),
        3 => "[table]\nkey = 1".into(),
        4 => "'''\"\"\"".into(),
        5 => "# no comment".into(),
        6 => format!("é漢🙂 {}", rng.below(5)),
        _ => NAMES[rng.below(NAMES.len())].into(),
    }
}

fn id(rng: &mut Rng) -> Id {
    Id::new(match rng.below(3) {
        0 => text(rng),
        _ => format!("file:{}", NAMES[rng.below(NAMES.len())]),
    })
}

fn resource(rng: &mut Rng) -> ResourcePath {
    let name = NAMES[rng.below(NAMES.len())];
    match rng.below(6) {
        0 => {
            let spec: typst::syntax::package::PackageSpec = "@preview/pkg:0.1.0".parse().unwrap();
            ResourcePath::from_file_id(FileId::new(Some(spec), VirtualPath::new(name)))
        }
        1 => ResourcePath::from_file_id(FileId::new(None, VirtualPath::new(name))),
        2 => ResourcePath::from_user_sys(&Path::new("/somewhere else").join(name)),
        _ => ResourcePath::from_user_sys(Path::new(name)),
    }
}

fn maybe<T>(rng: &mut Rng, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    rng.chance(1, 2).then(|| f(rng))
}

fn input(rng: &mut Rng, id: Id) -> ProjectInput {
    ProjectInput {
        id,
        root: maybe(rng, resource),
        main: resource(rng),
        inputs: (0..rng.below(3)).map(|_| (text(rng), text(rng))).collect(),
        font_paths: (0..rng.below(3)).map(|_| resource(rng)).collect(),
        system_fonts: rng.chance(1, 2),
        package_path: maybe(rng, resource),
        package_cache_path: maybe(rng, resource),
    }
}

fn pages(rng: &mut Rng) -> Pages {
    let a = rng.range(1, 20);
    let b = a + rng.below(4);
    let n = std::num::NonZeroUsize::new;
    Pages(match rng.below(4) {
        0 => n(a)..=n(a),
        1 => n(a)..=None,
        2 => None..=n(b),
        _ => n(a)..=n(b),
    })
}

fn transform(rng: &mut Rng) -> ExportTransform {
    match rng.below(4) {
        0 => ExportTransform::Pages { ranges: (0..rng.below(4)).map(|_| pages(rng)).collect() },
        1 => ExportTransform::Merge { gap: maybe(rng, text) },
        2 => ExportTransform::Script { script: maybe(rng, text) },
        _ => ExportTransform::Pretty { script: maybe(rng, text) },
    }
}

fn when(rng: &mut Rng) -> TaskWhen {
    match rng.below(4) {
        0 => TaskWhen::Never,
        1 => TaskWhen::OnSave,
        2 => TaskWhen::OnType,
        _ => TaskWhen::OnDocumentHasTitle,
    }
}

fn task(rng: &mut Rng, id: Id, document: Id) -> ApplyProjectTask {
    let export = ExportTask {
        when: when(rng),
        output: maybe(rng, |rng| PathPattern(text(rng).into())),
        transform: (0..[0, 0, 1, 2, 3][rng.below(5)]).map(|_| transform(rng)).collect(),
    };
    let task = match rng.below(9) {
        0 => ProjectTask::Preview(PreviewTask { when: when(rng) }),
        1 => ProjectTask::ExportPdf(ExportPdfTask {
            export,
            pdf_standards: (0..rng.below(3)).map(|_| [PdfStandard::V_1_7, PdfStandard::A_2b, PdfStandard::A_3b][rng.below(3)]).collect(),
            creation_timestamp: maybe(rng, |rng| match rng.below(3) {
                0 => i64::MIN,
                1 => i64::MAX,
                _ => rng.u64() as i64,
            }),
        }),
        2 => ProjectTask::ExportPng(ExportPngTask {
            export,
            ppi: [144.0, 0.1, 1e30, f32::MIN_POSITIVE, 1.0, -3.25][rng.below(6)].try_into().unwrap(),
            fill: maybe(rng, text),
        }),
        3 => ProjectTask::ExportSvg(ExportSvgTask { export }),
        4 => ProjectTask::ExportHtml(ExportHtmlTask { export }),
        5 => ProjectTask::ExportSvgHtml(ExportHtmlTask { export }),
        6 => ProjectTask::ExportMd(ExportMarkdownTask { export }),
        7 => ProjectTask::ExportText(ExportTextTask { export }),
        _ => ProjectTask::Query(QueryTask {
            export,
            format: text(rng),
            output_extension: maybe(rng, text),
            selector: text(rng),
            field: maybe(rng, text),
            one: rng.chance(1, 2),
        }),
    };
    ApplyProjectTask { id, document, task }
}

fn route(rng: &mut Rng, id: Id) -> ProjectRoute {
    ProjectRoute { id, priority: [0, 1, 256, u32::MAX, rng.u64() as u32][rng.below(5)] }
}

/// What the file must hold.
#[derive(Clone, Default)]
struct Model {
    docs: BTreeMap<Id, ProjectInput>,
    tasks: BTreeMap<Id, ApplyProjectTask>,
    routes: Vec<ProjectRoute>,
}

#[derive(Clone, Debug)]
enum Op {
    Doc(ProjectInput),
    Task(ApplyProjectTask),
    Route(ProjectRoute),
}

impl Model {
    fn apply(&mut self, op: &Op) {
        match op {
            Op::Doc(d) => {
                self.docs.insert(d.id.clone(), d.clone());
            }
            Op::Task(t) => {
                self.tasks.insert(t.id.clone(), t.clone());
            }
            Op::Route(r) => {
                self.routes.retain(|o| o.id != r.id);
                self.routes.push(r.clone());
            }
        }
    }
    fn file(&self) -> LockFile {
        let mut task: Vec<_> = self.tasks.values().cloned().collect();
        task.sort_by(|a, b| (&a.document, &a.id).cmp(&(&b.document, &b.id)));
        LockFile { document: self.docs.values().cloned().collect(), task, route: self.routes.iter().cloned().collect() }
    }
}

fn put(l: &mut LockFile, op: &Op) {
    match op.clone() {
        Op::Doc(d) => l.replace_document(d),
        Op::Task(t) => l.replace_task(t),
        Op::Route(r) => l.replace_route(r),
    }
}

fn random_op(rng: &mut Rng, ids: &[Id]) -> Op {
    let of = rng.pick(ids).clone();
    match rng.below(3) {
        0 => Op::Doc(input(rng, of)),
        1 => {
            let doc = rng.pick(ids).clone();
            Op::Task(task(rng, of, doc))
        }
        _ => Op::Route(route(rng, of)),
    }
}

fn bytes(dir: &Path) -> Option<Vec<u8>> {
    std::fs::read(dir.join(LOCK_FILENAME)).ok()
}

fn lossy(b: &Option<Vec<u8>>) -> String {
    b.as_ref().map(|b| String::from_utf8_lossy(b).chars().take(3000).collect()).unwrap_or_default()
}

/// A mark in the past, which writing removes.
fn age(dir: &Path) -> (SystemTime, u64) {
    use std::os::unix::fs::MetadataExt;
    let path = dir.join(LOCK_FILENAME);
    let f = std::fs::File::options().write(true).open(&path).unwrap();
    f.set_modified(SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000)).unwrap();
    let m = std::fs::metadata(&path).unwrap();
    (m.modified().unwrap(), m.ino())
}
fn is_aged(dir: &Path) -> (SystemTime, u64) {
    use std::os::unix::fs::MetadataExt;
    let m = std::fs::metadata(dir.join(LOCK_FILENAME)).unwrap();
    (m.modified().unwrap(), m.ino())
}

fn history(ctx: &Ctx, i: usize) {
    let mut rng = ctx.rng(i as u64);
    let rng = &mut rng;
    let s = Scratch::new("lock");
    let dir = s.path();
    let mut ids: Vec<Id> = (0..rng.range(1, 7)).map(|_| id(rng)).collect();
    ids.dedup();
    let mut model = Model::default();
    let mut log: Vec<String> = vec![];
    for step in 0..rng.range(2, 12) {
        let before = bytes(dir);
        let violate = |what: &str, got: String, log: &[String]| {
            ctx.violate(what, json!({ "history": i, "step": step, "ops": log.iter().rev().take(4).collect::<Vec<_>>(), "got": got, "file before": lossy(&before), "file": lossy(&bytes(dir)) }));
        };
        let ops: Vec<Op> = match rng.below(8) {
            0 => vec![],
            1 => model.docs.values().cloned().map(Op::Doc).collect(),
            _ => (0..rng.range(1, 5)).map(|_| random_op(rng, &ids)).collect(),
        };
        let failing = rng.chance(1, 6);
        log.push(format!("failing {failing} {ops:?}"));
        let was = model.file();
        let mut seen = None;
        let mut next = model.clone();
        let mut lookups = true;
        let old = before.is_some().then(|| age(dir));
        let r = LockFile::update(dir, |l| {
            seen = Some(*l == was);
            for op in &ops {
                put(l, op);
                next.apply(op);
                lookups &= match op {
                    Op::Doc(d) => l.get_document(&d.id) == Some(d),
                    Op::Task(t) => l.get_task(&t.id) == Some(t),
                    Op::Route(r) => l.route.iter().filter(|o| o.id == r.id).collect::<Vec<_>>() == [r],
                };
            }
            match failing {
                true => Err(tinymist_std::error_once!("the closure fails")),
                false => Ok(()),
            }
        });
        if seen != Some(true) {
            violate("update-starts-elsewhere", format!("{seen:?} {r:?} expected {was:?}"), &log);
            return;
        }
        if !lookups {
            violate("not-found-after-replacing", String::new(), &log);
            return;
        }
        ctx.count("updates", 1);
        if failing {
            ctx.count("failing updates", 1);
            if r.is_ok() || (before.is_some() && (bytes(dir) != before || old != Some(is_aged(dir)))) {
                violate("failing-update-changes-the-file", format!("{r:?}"), &log);
                return;
            }
            continue;
        }
        if let Err(e) = r {
            violate("update-fails", format!("{e:?}"), &log);
            return;
        }
        let same = next.file() == was;
        model = next;
        if same && before.as_ref().is_some_and(|b| !b.is_empty()) {
            ctx.count("updates without a change", 1);
            if bytes(dir) != before || old != Some(is_aged(dir)) {
                violate("rewritten-without-a-change", String::new(), &log);
                return;
            }
        }
        match LockFile::read(dir) {
            Ok(l) if l == model.file() => {}
            r => {
                violate("read-differs-from-written", format!("{r:?} expected {:?}", model.file()), &log);
                return;
            }
        }
        let content = bytes(dir).unwrap_or_default();
        let head = format!("version = {LOCK_VERSION:?}");
        if !String::from_utf8_lossy(&content).lines().any(|l| l == head) {
            violate("no-version", String::new(), &log);
            return;
        }
        // Any order of putting the same things in yields the same bytes.
        if rng.chance(1, 4) {
            let other = Scratch::new("lock");
            let mut ops: Vec<Op> = model.docs.values().cloned().map(Op::Doc).chain(model.tasks.values().cloned().map(Op::Task)).collect();
            rng.shuffle(&mut ops);
            ops.extend(model.routes.iter().cloned().map(Op::Route));
            let r = LockFile::update(other.path(), |l| {
                ops.iter().for_each(|op| put(l, op));
                Ok(())
            });
            ctx.count("files written in another order", 1);
            if r.is_err() || bytes(other.path()).as_deref() != Some(&content[..]) {
                violate("order-shows-in-the-file", format!("{r:?} {}", lossy(&bytes(other.path()))), &log);
                return;
            }
        }
        ctx.eval(h64(&content), model.docs.len() + model.tasks.len() > 1);
    }
    ctx.count("documents", model.docs.len() as u64);
    ctx.count("tasks", model.tasks.len() as u64);
    ctx.count("tasks with transforms", model.tasks.values().filter(|t| t.task.as_export().is_some_and(|e| !e.transform.is_empty())).count() as u64);
    ctx.count("routes", model.routes.len() as u64);
    ctx.sample(|| json!({ "history": i, "file": lossy(&bytes(dir)) }));
    hostile(ctx, i, rng, dir, &model);
}

/// Files which are not of this version, or no lock files, are left alone.
fn hostile(ctx: &Ctx, i: usize, rng: &mut Rng, dir: &Path, model: &Model) {
    let Some(good) = bytes(dir).filter(|b| !b.is_empty()) else { return };
    let text = String::from_utf8(good.clone()).unwrap();
    let versioned = |v: &str| text.replacen(&format!("version = {LOCK_VERSION:?}"), &format!("version = {v}"), 1).into_bytes();
    let bad: Vec<u8> = match rng.below(9) {
        0 => versioned("\"0.1.0\""),
        1 => versioned("\"99.0.0\""),
        2 => versioned("\"0.1.0-beta1\""),
        3 => versioned("\"not a version\""),
        4 => versioned("\"0.0.1\""),
        5 => versioned("7"),
        6 => [&good[..], b"\n\xff\xfe\n"].concat(),
        7 => [&good[..], b"\n[[document\n"].concat(),
        _ => [&good[..], b"\n[[document]]\nid = 5\n"].concat(),
    };
    std::fs::write(dir.join(LOCK_FILENAME), &bad).unwrap();
    let mut called = false;
    let r = LockFile::update(dir, |l| {
        called = true;
        *l = LockFile::default();
        Ok(())
    });
    ctx.count("files that are refused", 1);
    let read = LockFile::read(dir);
    if r.is_ok() || called || bytes(dir).as_ref() != Some(&bad) || read.is_ok() {
        ctx.violate("foreign-file-accepted", json!({ "history": i, "file": lossy(&Some(bad)), "update": format!("{r:?}"), "called": called, "read": format!("{read:?}"), "after": lossy(&bytes(dir)) }));
        return;
    }
    // Restored, it is what it was; empty, it is a new one.
    std::fs::write(dir.join(LOCK_FILENAME), &good).unwrap();
    if LockFile::read(dir).ok() != Some(model.file()) {
        ctx.violate("restored-file-differs", json!({ "history": i, "file": text }));
    }
    std::fs::write(dir.join(LOCK_FILENAME), [&b""[..], b"\n", b"  \n\t\n"][rng.below(3)]).unwrap();
    let op = random_op(rng, &[Id::new("one".into())]);
    let mut one = Model::default();
    one.apply(&op);
    let r = LockFile::update(dir, |l| {
        put(l, &op);
        Ok(())
    });
    if r.is_err() || LockFile::read(dir).ok() != Some(one.file()) {
        ctx.violate("empty-file-is-not-a-new-one", json!({ "history": i, "update": format!("{r:?}"), "file": lossy(&bytes(dir)) }));
    }
}

fn doc_of(who: &str, k: usize) -> ProjectInput {
    let name = format!("{who}-{k}.typ");
    ProjectInput {
        id: Id::new(name.clone()),
        root: None,
        main: ResourcePath::from_user_sys(Path::new(&name)),
        inputs: vec![],
        font_paths: vec![],
        system_fonts: k % 2 == 0,
        package_path: None,
        package_cache_path: None,
    }
}

/// A process which puts documents in, and says when it did.
pub fn child(args: &[String]) -> i32 {
    let (dir, who, n) = (Path::new(&args[0]), &args[1], args[2].parse::<usize>().unwrap());
    for k in 0..n {
        let r = LockFile::update(dir, |l| {
            l.replace_document(doc_of(who, k));
            Ok(())
        });
        if let Err(e) = r {
            println!("error {e:?}");
            return 1;
        }
        println!("done {k}");
    }
    0
}

/// Threads and processes updating one file: nothing is lost, and whoever reads sees all that was done.
fn crowd(ctx: &Ctx, i: usize) {
    let s = Scratch::new("crowd");
    let dir = s.path();
    let (threads, procs, each) = (4, 2, ctx.n(12, 30).min(60));
    // What was begun, and what was done, by writer.
    let names: Vec<String> = (0..threads).map(|t| format!("t{t}")).chain((0..procs).map(|p| format!("p{p}"))).collect();
    let done: Vec<AtomicUsize> = names.iter().map(|_| AtomicUsize::new(0)).collect();
    let over = AtomicBool::new(false);
    let errors = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        let writers: Vec<_> = names
            .iter()
            .enumerate()
            .map(|(w, name)| {
                let (done, errors) = (&done, &errors);
                sc.spawn(move || {
                    if w < threads {
                        for k in 0..each {
                            if let Err(e) = LockFile::update(dir, |l| {
                                l.replace_document(doc_of(name, k));
                                Ok(())
                            }) {
                                errors.lock().unwrap().push(format!("{name} {k}: {e:?}"));
                                return;
                            }
                            done[w].store(k + 1, SeqCst);
                        }
                        return;
                    }
                    use std::io::BufRead;
                    let exe = std::env::current_exe().unwrap();
                    let mut c = Command::new(exe).arg("lock-child").arg(dir).arg(name).arg(each.to_string()).stdout(Stdio::piped()).spawn().unwrap();
                    for line in std::io::BufReader::new(c.stdout.take().unwrap()).lines() {
                        match line.unwrap().strip_prefix("done ") {
                            Some(k) => done[w].store(k.parse::<usize>().unwrap() + 1, SeqCst),
                            None => errors.lock().unwrap().push(format!("{name}: failed")),
                        }
                    }
                    let _ = c.wait();
                })
            })
            .collect();
        for _ in 0..2 {
            let (done, names, over, errors) = (&done, &names, &over, &errors);
            sc.spawn(move || {
                let mut last: BTreeSet<Id> = BTreeSet::new();
                while !over.load(SeqCst) {
                    let at_least: Vec<usize> = done.iter().map(|d| d.load(SeqCst)).collect();
                    match LockFile::read(dir) {
                        Ok(l) => {
                            let have: BTreeSet<Id> = l.document.iter().map(|d| d.id.clone()).collect();
                            for (w, name) in names.iter().enumerate() {
                                for k in 0..at_least[w] {
                                    if l.get_document(&doc_of(name, k).id) != Some(&doc_of(name, k)) {
                                        errors.lock().unwrap().push(format!("{name} {k} was put in, but is not read"));
                                        return;
                                    }
                                }
                            }
                            if let Some(gone) = last.iter().find(|i| !have.contains(*i)) {
                                errors.lock().unwrap().push(format!("{gone} was read once, and no more"));
                                return;
                            }
                            last = have;
                            ctx.count("concurrent reads", 1);
                        }
                        Err(e) if at_least.iter().any(|n| *n > 0) => {
                            errors.lock().unwrap().push(format!("the file cannot be read: {e:?}"));
                            return;
                        }
                        Err(_) => {}
                    }
                    std::thread::yield_now();
                }
            });
        }
        for w in writers {
            let _ = w.join();
        }
        over.store(true, SeqCst);
    });
    let errors = errors.into_inner().unwrap();
    let l = LockFile::read(dir).ok();
    let missing: Vec<String> = names.iter().flat_map(|n| (0..each).map(move |k| (n, k))).filter(|(n, k)| l.as_ref().and_then(|l| l.get_document(&doc_of(n, *k).id)).is_none()).map(|(n, k)| format!("{n}-{k}")).collect();
    ctx.count("concurrent updates", (names.len() * each) as u64);
    ctx.eval(h64(&format!("crowd {i}")), true);
    if !errors.is_empty() || !missing.is_empty() {
        ctx.violate("concurrent-updates", json!({ "crowd": i, "errors": errors.iter().take(5).collect::<Vec<_>>(), "missing": missing.iter().take(10).collect::<Vec<_>>(), "file": lossy(&bytes(dir)) }));
    }
}

type Materials = Mutex<BTreeMap<(String, Id), Vec<PathBuf>>>;

/// What was compiled is what the lock file says, wherever the server runs.
fn compiled(ctx: &Ctx, i: usize, materials: &Materials) {
    let mut rng = ctx.rng(0x10c6 ^ (i as u64) << 20);
    let rng = &mut rng;
    let cwd = std::env::current_dir().unwrap();
    // The directory of the lock file is the working one, above it, below it or elsewhere.
    let s = Scratch::new("project");
    let root = match rng.below(4) {
        0 => cwd.join(format!("below {i}")),
        1 => s.path().to_owned(),
        2 => s.path().join("deeper/é"),
        _ => cwd.join(format!("deeper/{i}/x")),
    };
    std::fs::create_dir_all(&root).unwrap();
    let fonts: Vec<PathBuf> = (0..rng.below(3)).map(|k| root.join(format!("fonts {k}"))).collect();
    fonts.iter().for_each(|f| std::fs::create_dir_all(f).unwrap());
    let packages = root.join("pkgs");
    for round in 0..rng.range(1, 4) {
        let name = NAMES[rng.below(NAMES.len())].to_string();
        std::fs::create_dir_all(root.join(&name).parent().unwrap()).unwrap();
        std::fs::write(root.join(&name), "text").unwrap();
        let registry = LspUniverseBuilder::resolve_package(
            None,
            Some(&CompilePackageArgs { package_path: Some(packages.clone()), package_cache_path: Some(packages.join("cache")) }),
        );
        let font = LspUniverseBuilder::resolve_fonts(CompileFontArgs { font_paths: fonts.clone(), ignore_system_fonts: true }).unwrap();
        let verse = LspUniverseBuilder::build(crate::sys::entry(&root, Some(&name)), tinymist_task::ExportTarget::Paged, typst::Features::default(), crate::sys::dict(&BTreeMap::new()), registry, Arc::new(font));
        let world = verse.snapshot();
        let mut up = update_lock(root.as_path().into());
        let got = up.compiled(&world);
        let expected = Id::new(format!("file:{name}"));
        if got.as_ref() != Some(&expected) {
            ctx.violate("other-id", json!({ "name": name, "got": format!("{got:?}") }));
            return;
        }
        let t = task(rng, expected.clone(), expected.clone());
        up.task(t.clone());
        let mut files: Vec<PathBuf> = (0..rng.below(5)).map(|k| root.join(format!("dep {} {k}", rng.below(9)))).collect();
        rng.shuffle(&mut files);
        up.update_materials(expected.clone(), files.iter().map(|p| p.as_path().into()).collect());
        let priority = rng.below(1000) as u32;
        up.route(expected.clone(), priority);
        up.commit();
        files.sort();
        materials.lock().unwrap().insert((root.display().to_string(), expected.clone()), files);
        let violate = |what: &str, detail: String| {
            ctx.violate(what, json!({ "project": i, "round": round, "name": name, "root": root, "cwd": cwd, "detail": detail, "file": lossy(&bytes(&root)) }));
        };
        let lock = match LockFile::read(&root) {
            Ok(l) => l,
            Err(e) => {
                violate("unreadable-after-commit", format!("{e:?}"));
                return;
            }
        };
        let Some(doc) = lock.get_document(&expected) else {
            violate("document-is-not-there", String::new());
            return;
        };
        if lock.get_task(&expected) != Some(&t) {
            violate("task-differs", format!("{t:?}"));
            return;
        }
        if lock.route.last() != Some(&ProjectRoute { id: expected.clone(), priority }) || lock.route.iter().filter(|r| r.id == expected).count() != 1 {
            violate("route-differs", format!("{:?}", lock.route));
            return;
        }
        // From elsewhere, as one who reads the lock file.
        let lock_dir: tinymist_std::ImmutPath = root.as_path().into();
        let clean = |p: &ResourcePath| p.to_abs_path(&root).map(|p| p.clean());
        if clean(&doc.main) != Some(root.join(&name)) {
            violate("main-is-elsewhere", format!("{:?}", clean(&doc.main)));
            return;
        }
        if doc.font_paths.iter().map(clean).collect::<Vec<_>>() != fonts.iter().cloned().map(Some).collect::<Vec<_>>() {
            violate("fonts-are-elsewhere", format!("{:?}", doc.font_paths));
            return;
        }
        match (doc.clone(), lock_dir).resolve() {
            Ok(v) => {
                let w = v.snapshot();
                let main = w.path_for_id(w.main()).ok().map(|p| p.as_path().to_owned());
                if main != Some(root.join(&name)) || w.entry_state().root().map(|r| r.clean()) != Some(root.clone()) {
                    violate("resolves-elsewhere", format!("{main:?} {:?}", w.entry_state().root()));
                    return;
                }
            }
            Err(e) => {
                violate("does-not-resolve", format!("{e:?}"));
                return;
            }
        }
        ctx.count("projects committed", 1);
        ctx.count("projects committed from elsewhere", (root != cwd) as u64);
        ctx.eval(h64(&format!("{root:?} {name}")), true);
    }
}

fn walk(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        match e.path() {
            p if p.is_dir() => walk(&p, out),
            p => out.push(p),
        }
    }
}

fn check_materials(ctx: &Ctx, cache: &Path, expected: &BTreeMap<(String, Id), Vec<PathBuf>>) {
    let mut found = vec![];
    walk(&cache.join("tinymist/projects"), &mut found);
    let mut got: BTreeMap<(String, Id), Vec<PathBuf>> = BTreeMap::new();
    for f in &found {
        let m: Result<ProjectPathMaterial, _> = serde_json::from_slice(&std::fs::read(f).unwrap_or_default());
        match m {
            Ok(m) if f.file_name().is_some_and(|n| n == "path-material.json") => {
                let root: EcoString = m.root.clone();
                if got.insert((root.to_string(), m.id.clone()), m.files).is_some() {
                    ctx.violate("material-twice", json!({ "file": f, "root": root.as_str(), "id": m.id.to_string() }));
                }
            }
            r => ctx.violate("foreign-material", json!({ "file": f, "got": format!("{r:?}") })),
        }
    }
    ctx.count("materials", got.len() as u64);
    if got != *expected {
        let bad: Vec<_> = expected.iter().filter(|(k, v)| got.get(k) != Some(v)).take(3).map(|(k, v)| format!("{k:?}: {v:?}, but got {:?}", got.get(k))).collect();
        ctx.violate("materials-differ", json!({ "differences": bad, "expected": expected.len(), "got": got.len() }));
    }
}

pub fn c69(ctx: &Ctx) -> i32 {
    vm_core::install_panic_hook();
    let s = Scratch::new("locks");
    let (cwd, cache) = (s.path().join("work dir"), s.path().join("cache"));
    std::fs::create_dir_all(&cwd).unwrap();
    std::env::set_current_dir(&cwd).unwrap();
    std::env::set_var("XDG_CACHE_HOME", &cache);
    std::env::set_var("HOME", s.path());
    let materials = Materials::default();
    let n = ctx.n(1600, 40000);
    let crowds = AtomicUsize::new(0);
    vm_core::parallel(ctx, n, 6, |i| match i % 40 {
        0 if crowds.fetch_add(1, SeqCst) < 40 => crowd(ctx, i),
        1..=12 => compiled(ctx, i, &materials),
        _ => history(ctx, i),
    });
    check_materials(ctx, &cache, &materials.into_inner().unwrap());
    ctx.drain_panics("the lock file panicked", || json!({}));
    std::env::set_current_dir("/").unwrap();
    for (k, n) in [
        ("updates", 1000), ("failing updates", 100), ("updates without a change", 100), ("files written in another order", 100), ("files that are refused", 100), ("documents", 300),
        ("tasks", 300), ("tasks with transforms", 100), ("routes", 300), ("concurrent updates", 400), ("concurrent reads", 50), ("projects committed", 200), ("materials", 150),
    ] {
        ctx.require(k, n);
    }
    ctx.finish(
        "monitored",
        "what is put into a lock file is read from it, by all and exactly so; files of other versions and failing updates leave it alone; what was compiled is what it resolves to",
        &["toml 0.8 is not available offline and is stood in for by 0.9", "one file system; killed writers are not part of it"],
    )
}
