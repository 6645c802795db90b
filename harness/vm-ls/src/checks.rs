//! The checks which run random scripted sessions.

use vm_core::{h64, json, parallel, Ctx};

use crate::case::{gen, run_confirmed, Kind, Profile, Why};
use crate::framing::Proto;

pub struct Plan {
    pub protos: &'static [Proto],
    pub profiles: &'static [Profile],
    pub kinds: fn(Kind) -> bool,
    pub rule: &'static str,
}

pub fn plan(prop: &str) -> Option<Plan> {
    use Kind::*;
    use Profile::*;
    const L: &[Proto] = &[Proto::Lsp];
    const D: &[Proto] = &[Proto::Dap];
    const B: &[Proto] = &[Proto::Lsp, Proto::Dap];
    Some(match prop {
        "C03" => Plan {
            protos: L,
            profiles: &[General, General, Order, Lifecycle],
            kinds: |k| matches!(k, Count | Unasked | Wire | Hang | End | Body(Why::Handler)),
            rule: "random LSP sessions over handlers of every kind (typed, raw, command, resource; immediate, early error, \
                   async, gated, self-responding, double-responding, racing threads)",
        },
        "C04" => Plan {
            protos: L,
            profiles: &[Lifecycle],
            kinds: |k| matches!(k, Body(Why::Lifecycle) | HandlerLog | Hang | End),
            rule: "random LSP sessions biased to traffic before, between and after initialize / initialized / shutdown",
        },
        "C05" => Plan {
            protos: D,
            profiles: &[General, Lifecycle, Order],
            kinds: |_| true,
            rule: "random DAP sessions over every handler kind and lifecycle phase",
        },
        "C07" => Plan {
            protos: B,
            profiles: &[Order, General],
            kinds: |k| matches!(k, HandlerLog | Overlap | Hang | End),
            rule: "random LSP and DAP sessions with pipelined bursts while asynchronous work is pending",
        },
        "C11" => Plan {
            protos: B,
            profiles: &[Hostile],
            kinds: |_| true,
            rule: "random LSP and DAP sessions mixing well-formed traffic with bad parameters, unknown methods, commands, \
                   resources and notifications, empty arguments and stray responses",
        },
        "C12" => Plan {
            protos: B,
            profiles: &[Ids],
            kinds: |k| matches!(k, Count | Unasked | Body(_) | Wire | Hang),
            rule: "random LSP and DAP sessions with boundary, colliding (7 and \"7\"; equal modulo 2^32) and hostile text ids, \
                   many of them pending at once",
        },
        _ => return None,
    })
}

pub fn sessions(ctx: &Ctx, p: Plan) -> i32 {
    let n = ctx.n(8000, 200_000);
    use crate::scale::Kind::{Answers, Order};
    let large: &[crate::scale::Kind] = match ctx.prop.as_str() {
        "C03" | "C12" => &[Answers],
        "C05" => &[Answers, Order],
        "C07" => &[Order],
        _ => &[],
    };
    let protos = if large.is_empty() { &[] } else { p.protos };
    crate::scale::beside(ctx, large, protos, || {
        parallel(ctx, n, 8, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        let proto = p.protos[i % p.protos.len()];
        let profile = *r.pick(p.profiles);
        let c = gen(&mut r, proto, profile);
        let (found, st) = run_confirmed(&c);
        ctx.eval(h64(&(format!("{:?}", c.steps.len()), c.seed)), st.requests > 0 && st.handled > 0);
        ctx.sample(|| {
            json!({"proto": format!("{proto:?}"), "profile": format!("{profile:?}"), "requests": st.requests,
                   "responses": st.responses, "handled": st.handled, "end": format!("{:?}", c.end)})
        });
        ctx.count("sessions", 1);
        ctx.count("requests", st.requests);
        ctx.count("responses", st.responses);
        ctx.count("handled", st.handled);
        ctx.count("responses_out_of_request_order", st.reordered);
        if st.reordered > 0 {
            ctx.count("sessions_with_reordering", 1);
        }
        for f in found {
            if (p.kinds)(f.kind) {
                ctx.violate(f.sig, f.detail);
            } else {
                ctx.count("other_findings", 1);
            }
        }
        ctx.drain_panics("server", || json!({"note": "a session of this or a concurrent case", "seed": c.seed}));
    });
    });
    ctx.require("sessions", 50);
    ctx.require("responses", 200);
    ctx.require("handled", 100);
    ctx.finish(
        "exploration",
        &format!(
            "{}; non-trivial: at least one request sent and one handler run; oracle: a reference model of the session over \
             the recorded client-side history and handler log (each token unique); a lack of progress counts only when a \
             rerun with a five times longer limit shows it again",
            p.rule
        ),
        &["handlers are instrumented ones of the harness", "in-memory pipes stand for stdio (the subprocess checks use real ones)"],
    )
}

/// C13: stress sessions of every kind under ThreadSanitizer; the sanitizer is the oracle, the session model a bonus.
pub fn c13(ctx: &Ctx) -> i32 {
    let n = ctx.n(2500, 40_000);
    parallel(ctx, n, 6, |i| {
        if ctx.violations() >= 3 {
            return;
        }
        let mut r = ctx.rng(i as u64);
        match i % 6 {
            0 => crate::calls::c06_one(ctx, &mut r),
            1 => crate::calls::c08_one(ctx, &mut r),
            2 => crate::queue::handle_one(ctx, &mut r),
            3 => crate::calls::c14_one(ctx, &mut r),
            _ => {
                let proto = if r.chance(2, 3) { Proto::Lsp } else { Proto::Dap };
                let profile = *r.pick(&[Profile::General, Profile::Order, Profile::Hostile]);
                let c = gen(&mut r, proto, profile);
                let (found, st) = run_confirmed(&c);
                ctx.eval(h64(&c.seed), st.requests > 0);
                ctx.count("responses", st.responses);
                ctx.count("other_findings", found.len() as u64);
                ctx.sample(|| json!({"proto": format!("{proto:?}"), "requests": st.requests, "responses": st.responses}));
            }
        }
        ctx.count("sessions", 1);
    });
    ctx.count("sanitized", cfg!(vm_tsan) as u64);
    ctx.require("sanitized", 1);
    ctx.require("notes", 1000);
    ctx.require("sessions", 20);
    ctx.finish(
        "exploration",
        "random sessions (all handler kinds, racing responders, concurrent event senders and server requests) with 6 at a time under \
         ThreadSanitizer with an instrumented standard library; non-trivial: at least one request; oracle: no data race report",
        &["handlers are instrumented ones of the harness"],
    )
}
