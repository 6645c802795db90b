//! C33: fingerprint builders (also compiled with the other conflict strategy).

use std::any::TypeId;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::sync::{Barrier, Mutex};
use tinymist_std::hash::{Fingerprint, FingerprintBuilder, FingerprintSipHasher};
use vm_core::{guard, json, parallel, Ctx, Rng};

#[derive(Hash, Clone, Copy, PartialEq, Eq, Debug)]
struct Other(u64);

#[derive(Hash, Clone, PartialEq, Eq, Debug)]
enum Item {
    U(u64),
    S(String),
    V(Vec<u8>),
    L(Vec<Item>),
}

fn item(r: &mut Rng, depth: usize) -> Item {
    match r.below(if depth == 0 { 3 } else { 4 }) {
        0 => Item::U(r.u64() >> r.below(64)),
        1 => Item::S(r.text(6)),
        2 => Item::V((0..r.below(30)).map(|_| r.u64() as u8).collect()),
        _ => Item::L((0..r.below(4)).map(|_| item(r, depth - 1)).collect()),
    }
}

fn fast<T: Hash + 'static>(t: &T) -> u32 {
    let mut s = FingerprintSipHasher::default();
    TypeId::of::<T>().hash(&mut s);
    t.hash(&mut s);
    s.fast_hash().0
}

/// As `resolve_unchecked` has it.
fn fast_unchecked<T: Hash>(t: &T) -> u32 {
    let mut s = FingerprintSipHasher::default();
    t.hash(&mut s);
    s.fast_hash().0
}

/// Different items which share a quick 32-bit hash, in groups, the larger ones first.
fn colliding(ctx: &Ctx, salt: u64, n: usize, f: fn(&u64) -> u32) -> Vec<Vec<u64>> {
    let mut all: Vec<(u32, u64)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64)
            .map(|k| {
                let mut r = ctx.rng(salt << 8 | k);
                s.spawn(move || (0..n / 8).map(|_| r.u64()).map(|x| (f(&x), x)).collect::<Vec<_>>())
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    all.sort_unstable();
    all.dedup();
    let mut out: Vec<Vec<u64>> = all.chunk_by(|a, b| a.0 == b.0).filter(|c| c.len() > 1).map(|c| c.iter().map(|x| x.1).collect()).collect();
    out.sort_by_key(|g| std::cmp::Reverse(g.len()));
    out.truncate(500);
    out
}

/// The largest groups and some others.
fn some(groups: &[Vec<u64>], r: &mut Rng) -> Vec<u64> {
    let at = r.below(groups.len().max(1));
    groups.iter().take(6).chain(groups.iter().skip(at).take(12)).flatten().copied().collect()
}

pub fn c33(ctx: &Ctx, strategy: &str) -> i32 {
    let tsan = std::env::var("VM_PART").as_deref() == Ok("tsan");
    let n = if tsan { ctx.n(10, 80) } else { ctx.n(150, 3000) };
    let tries = if tsan { 200_000 } else { 8_000_000 };
    let groups = colliding(ctx, 4, tries, fast);
    let groups_u = colliding(ctx, 5, tries, fast_unchecked);
    let pairs: Vec<(u64, u64)> = groups.iter().map(|g| (g[0], g[1])).collect();
    ctx.count("groups with equal quick hash", (groups.len() + groups_u.len()) as u64);
    ctx.count("groups of three", groups.iter().chain(&groups_u).filter(|g| g.len() > 2).count() as u64);
    parallel(ctx, n, if tsan { 1 } else { 3 }, |i| {
        let mut r = ctx.rng(i as u64);
        let b = FingerprintBuilder::default();
        let mut items: Vec<Item> = (0..r.range(1, 80)).map(|_| item(&mut r, 2)).collect();
        items.push(items[0].clone());
        // Long ones that differ in one place.
        let len = *r.pick(&[200, 1_000, 5_000, 70_000, if i % 10 == 0 && !tsan { 3_000_000 } else { 300 }]);
        for k in 0..4 {
            let mut v = vec![b'l'; len];
            let at = [0, len / 2, len - 1, r.below(len)][k];
            v[at] = b'm';
            items.push(Item::V(v.clone()));
            items.push(Item::S(String::from_utf8(v).unwrap()));
            if len <= 5_000 {
                items.push(Item::L((0..len).map(|j| Item::U((j == at) as u64)).collect()));
            }
        }
        let mut nums = some(&groups, &mut r);
        nums.extend((0..40).map(|_| r.u64() >> r.below(64)));
        let mut nums_u = some(&groups_u, &mut r);
        nums_u.extend((0..10).map(|_| r.u64()));
        let threads = r.range(1, 4);
        let gate = Barrier::new(threads);
        let all: Mutex<Vec<(String, Fingerprint)>> = Mutex::new(vec![]);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        let unchecked = r.chance(1, 2);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (b, items, nums, nums_u, gate, all, bad) = (&b, &items, &nums, &nums_u, &gate, &all, &bad);
                let mut r = ctx.rng((i * 8 + t) as u64 ^ 0xabcd_0000);
                let _ = std::thread::Builder::new().name(format!("b{i}-{t}")).spawn_scoped(s, move || {
                    gate.wait();
                    let mut mine = vec![];
                    let res = guard(|| {
                        for _ in 0..2 {
                            let mut order: Vec<usize> = (0..items.len() + 2 * nums.len()).collect();
                            r.shuffle(&mut order);
                            for k in order {
                                if k < items.len() {
                                    mine.push((format!("item {:?}", items[k]), b.resolve(&items[k])));
                                } else if (k - items.len()) % 2 == 0 {
                                    let x = nums[(k - items.len()) / 2];
                                    mine.push((format!("u64 {x}"), b.resolve(&x)));
                                } else {
                                    let x = nums[(k - items.len()) / 2];
                                    mine.push((format!("other {x}"), b.resolve(&Other(x))));
                                }
                                if unchecked {
                                    let x = nums_u[k % nums_u.len()];
                                    mine.push((format!("unchecked u64 {x}"), b.resolve_unchecked(&x)));
                                }
                                if unchecked && k % 5 == 0 {
                                    let it = &items[k % items.len()];
                                    mine.push((format!("unchecked {it:?}"), b.resolve_unchecked(it)));
                                }
                            }
                        }
                    });
                    if let Err(p) = res {
                        bad.lock().unwrap().push(format!("panic: {p:?}"));
                    }
                    all.lock().unwrap().extend(mine);
                });
            }
        });
        let mut bad = bad.into_inner().unwrap();
        let all = all.into_inner().unwrap();
        let mut of: HashMap<&str, Fingerprint> = HashMap::new();
        for (k, f) in &all {
            if let Some(g) = of.insert(k, *f) {
                if g != *f {
                    bad.push(format!("{k} got two fingerprints"));
                }
            }
        }
        let mut owner: HashMap<Fingerprint, &str> = HashMap::new();
        for (k, f) in &of {
            if let Some(o) = owner.insert(*f, k) {
                bad.push(format!("{k} and {o} share a fingerprint"));
            }
        }
        ctx.count("resolutions", all.len() as u64);
        ctx.eval(vm_core::h64(&(i, threads, items.len())), true);
        ctx.sample(|| json!({"threads": threads, "items": items.len() + 2 * nums.len()}));
        if !bad.is_empty() {
            bad.sort();
            bad.truncate(5);
            ctx.violate("builder", json!({"case": i, "strategy": strategy, "threads": threads, "problems": bad}));
        }
    });
    // Items with equal quick hashes, resolved for the first time at the same moment.
    let trials = if tsan { ctx.n(60, 400) } else { ctx.n(1500, 30000) };
    let racing: Vec<(u64, u64)> = pairs.iter().copied().take(40).collect();
    if !racing.is_empty() {
        let mut problems: HashSet<String> = HashSet::new();
        for t in 0..trials {
            if !ctx.time_left() || problems.len() > 3 {
                break;
            }
            let b = FingerprintBuilder::default();
            let gate = Barrier::new(2);
            let run = |second: bool| {
                let mut fs = vec![];
                gate.wait();
                for p in &racing {
                    fs.push(b.resolve(if second { &p.1 } else { &p.0 }));
                }
                fs
            };
            let (xs, ys) = std::thread::scope(|s| {
                let h = s.spawn(|| run(true));
                let xs = run(false);
                (xs, h.join().unwrap_or_default())
            });
            ctx.count("racing pairs", racing.len() as u64);
            for (k, (x, y)) in xs.iter().zip(&ys).enumerate() {
                if x == y {
                    problems.insert(format!("trial {t}: {:?} share a fingerprint", racing[k]));
                }
                if b.resolve(&racing[k].0) != *x || b.resolve(&racing[k].1) != *y {
                    problems.insert(format!("trial {t}: the fingerprint of {:?} changed", racing[k]));
                }
            }
        }
        if !problems.is_empty() {
            ctx.violate("builder:race", json!({"strategy": strategy, "problems": problems}));
        }
    }
    // Two builders of this process agree on items without conflicts.
    if strategy == "sip" {
        let mut r = ctx.rng(99);
        let (a, b) = (FingerprintBuilder::default(), FingerprintBuilder::default());
        for _ in 0..2000 {
            let it = item(&mut r, 2);
            if a.resolve(&it) != b.resolve(&it) || a.resolve_unchecked(&it) != b.resolve_unchecked(&it) {
                ctx.violate("builder:two", json!({"item": format!("{it:?}")}));
                break;
            }
        }
    }
    ctx.require("resolutions", 1000);
    ctx.finish(
        "exploration",
        "one builder shared by several threads resolving the same items in different orders, among them items whose quick hashes collide; distinct by threads and items",
        &["fingerprints are compared within one process"],
    )
}
