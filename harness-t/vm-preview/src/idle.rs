//! C65: the preview goes when nobody looks at it.
use std::sync::Arc;
use std::time::Duration;

use tokio::sync::mpsc;
use typst_preview::*;
use vm_core::{json, parallel, Ctx, Rng};

use crate::sim::{cast, connect, Found, Server, Stream};

async fn case(ctx: &Ctx, seed: u64) -> Found {
    let mut r = Rng::new(seed);
    let scheduled = !r.chance(1, 5);
    let args = PreviewArgs { enable_partial_rendering: false, invert_colors: String::new(), task_id: "t".into(), refresh_style: RefreshStyle::OnType };
    let (tx, rx) = ControlPlaneTx::new(false);
    let (down, mut downed) = mpsc::channel(1);
    let mut builder = PreviewBuilder::new(args);
    if scheduled {
        builder = builder.with_shutdown_tx(down);
    }
    let watcher = builder.compile_watcher().clone();
    let mut previewer = builder.build(tx, Arc::new(Server::default())).await;
    let (streams, s) = mpsc::unbounded_channel::<Stream>();
    previewer.start_data_plane(s, cast);
    let start = tokio::time::Instant::now();
    let mut webs: Vec<crate::sim::Web> = vec![];
    // Since when nobody looks.
    let mut since = start;
    let mut log = vec![];
    for _ in 0..r.range(1, 12) {
        match r.below(5) {
            0 | 1 => {
                log.push("connect".into());
                webs.push(connect(&streams, 0));
            }
            2 if !webs.is_empty() => {
                log.push("disconnect".into());
                let k = r.below(webs.len());
                webs.swap_remove(k);
                if webs.is_empty() {
                    since = tokio::time::Instant::now();
                }
            }
            3 => {
                log.push("no handshake".to_owned());
                let _ = streams.send(Box::pin(async { Err(()) }));
                if webs.is_empty() {
                    since = tokio::time::Instant::now();
                }
                ctx.count("failed handshakes", 1);
            }
            _ => {}
        }
        // Not at the very moment.
        let ms = *r.pick(&[10, 500, 2000, 4500, 5500, 9000, 20_000]);
        log.push(format!("wait {ms}"));
        let t = tokio::time::Instant::now();
        tokio::time::sleep(Duration::from_millis(ms)).await;
        watcher.status(CompileStatus::Compiling);
        tokio::time::sleep(Duration::from_millis(1)).await;
        let idle = webs.is_empty().then(|| t.max(since) .elapsed().max(since.elapsed()));
        let gone = downed.try_recv().is_ok();
        let must = scheduled && idle.is_some_and(|i| i > Duration::from_millis(5400));
        // Anything that happens starts the clock again.
        let may = scheduled && idle.is_some_and(|i| i >= Duration::from_millis(4990));
        if gone && !may {
            return Some(("too early".into(), json!({"log": log, "scheduled": scheduled})));
        }
        if must && !gone {
            return Some(("stays".into(), json!({"log": log})));
        }
        if gone {
            ctx.count("gone when idle", 1);
            return None;
        }
        if !webs.is_empty() {
            ctx.count("stays while looked at", 1);
        }
    }
    let limit = Duration::from_secs(30);
    if tokio::time::timeout(limit, previewer.stop()).await.is_err() || tokio::time::timeout(limit, previewer.join()).await.is_err() {
        return Some(("stop".into(), json!({"log": log})));
    }
    drop(rx);
    ctx.count("stopped", 1);
    None
}

pub fn c65(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    parallel(ctx, ctx.n(20_000, 400_000), 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let seed = ctx.rng(i as u64).u64();
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().expect("runtime");
        if let Some((s, d)) = rt.block_on(case(ctx, seed)) {
            ctx.violate(s, json!({"seed": seed, "case": d}));
        }
        ctx.eval(seed, true);
    });
    ctx.require("gone when idle", 300);
    ctx.require("stays while looked at", 300);
    ctx.require("failed handshakes", 300);
    ctx.finish(
        "exploration",
        "browsers that come, fail to, and go, with waits around the time after which a preview that nobody looks at ends; on a clock of its own; distinct: workloads",
        &["time is tokio's, which moves on when nothing else does"],
    )
}
