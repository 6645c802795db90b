//! C32, C34, C35, C36: fingerprints, sharded maps, queries, hashes.

use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::num::NonZeroU32;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier, Mutex};
use tinymist_std::adt::FingerprintMap;
use tinymist_std::hash::{self, Fingerprint, FingerprintHasher, HashedTrait, StaticHash128};
use tinymist_std::QueryRef;
use vm_core::{guard, json, parallel, Ctx, Rng};

pub fn tsan() -> bool {
    std::env::var("VM_PART").as_deref() == Ok("tsan")
}

pub fn word(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => u64::MAX,
        2 => 1u64 << r.below(64),
        3 => r.u64() >> r.below(64),
        4 => r.u64() << r.below(64),
        5 => r.below(4) as u64,
        // Zero bytes in arbitrary places.
        6 => u64::from_le_bytes(std::array::from_fn(|_| if r.chance(1, 2) { 0 } else { r.u64() as u8 })),
        _ => r.u64(),
    }
}

// ---------------------------------------------------------------- C32

const PREFIXES: [&str; 5] = ["", "fg", "g", "A", "-é"];

pub fn c32(ctx: &Ctx) -> i32 {
    let ids: Mutex<HashMap<String, (u64, u64)>> = Mutex::new(HashMap::new());
    parallel(ctx, ctx.n(64, 1500), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..150 {
            let (lo, hi) = (word(&mut r), word(&mut r));
            let f = Fingerprint::from_pair(lo, hi);
            let mut bad: Vec<String> = vec![];
            ctx.eval(vm_core::h64(&(lo, hi)), true);
            ctx.count("fingerprints", 1);
            let n = (hi as u128) << 64 | lo as u128;
            if f.to_u128() != n || Fingerprint::from_u128(n) != f || f.lower32() != lo as u32 {
                bad.push("the integer forms disagree".into());
            }
            let id = f.as_svg_id("");
            if id.is_empty() || !id.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'+' || b == b'/') {
                bad.push(format!("odd characters: {id}"));
            }
            let p = *r.pick(&PREFIXES);
            if f.as_svg_id(p) != format!("{p}{id}") || f.as_svg_id("") != id {
                bad.push("the prefix changes the id".into());
            }
            match guard(|| Fingerprint::try_from_str(&id)) {
                Ok(Ok(g)) if g == f => {}
                o => bad.push(format!("{id} reads back as {:?}", o.map(|r| r.map(|g| g.to_u128()).map_err(|e| e.to_string())))),
            }
            match guard(|| serde_json::to_string(&f).ok().and_then(|s| serde_json::from_str::<Fingerprint>(&s).ok())) {
                Ok(Some(g)) if g == f => {}
                o => bad.push(format!("through JSON: {o:?}")),
            }
            if let Some(old) = ids.lock().unwrap().insert(id.clone(), (lo, hi)) {
                if old != (lo, hi) {
                    bad.push(format!("two fingerprints share the id {id}: {old:?}"));
                }
            }
            if !bad.is_empty() {
                ctx.violate("fingerprint:text", json!({"lo": format!("{lo:x}"), "hi": format!("{hi:x}"), "problems": bad}));
            }
            ctx.sample(|| json!({"lo": format!("{lo:x}"), "hi": format!("{hi:x}"), "id": id}));
            // Foreign text: damaged ids and arbitrary strings never panic, and what is too long or not base64 is refused.
            let mut t: Vec<char> = id.chars().collect();
            match r.below(7) {
                0 => t.truncate(r.below(t.len() + 1)),
                1 => {
                    let at = r.below(t.len());
                    t[at] = r.ch();
                }
                2 => t = r.text(30).chars().collect(),
                3 => t.extend((0..r.range(1, 40)).map(|_| 'A')),
                4 => t.insert(0, *r.pick(&['é', '=', ' ', '-', '_'])),
                5 => t.push('='),
                _ => t = (0..r.below(40)).map(|_| *r.pick(&['A', 'z', '9', '+', '/', '='])).collect(),
            }
            let t: String = t.into_iter().collect();
            ctx.count("foreign texts", 1);
            let must_fail = t.bytes().any(|b| !(b.is_ascii_alphanumeric() || b == b'+' || b == b'/')) || t.len() < 11 || t.len() > 22;
            match guard(|| (Fingerprint::try_from_str(&t), serde_json::from_value::<Fingerprint>(json!(t)))) {
                Ok((a, b)) => {
                    if a.is_ok() != b.is_ok() || (a.is_ok() && must_fail) {
                        ctx.violate("fingerprint:foreign", json!({"text": t, "result": format!("{:?}", a.map(|f| f.to_u128()))}));
                    }
                }
                Err(p) => ctx.on_panic("parsing a fingerprint", &p, json!({"text": t})),
            }
        }
    });
    ctx.count("distinct ids", ids.lock().unwrap().len() as u64);
    ctx.require("fingerprints", 3000);
    ctx.finish(
        "exploration",
        "one fingerprint (with zero bytes in all places) through its text forms and one foreign text; distinct by value",
        &[],
    )
}

// ---------------------------------------------------------------- C34

pub fn c34(ctx: &Ctx) -> i32 {
    let sizes = [1u32, 2, 3, 4, 5, 7, 8, 9, 16, 31, 33, 64, 100, 255, 256, 257, 511, 512, 513, 1000, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX];
    let n = if tsan() { ctx.n(12, 100) } else { ctx.n(200, 4000) };
    parallel(ctx, n, if tsan() { 1 } else { 4 }, |i| {
        let mut r = ctx.rng(i as u64);
        let size = if r.chance(1, 8) { None } else { Some(if r.chance(2, 3) { sizes[i % sizes.len()] } else { (r.u64() as u32).max(1) }) };
        let made = guard(|| match size {
            None => FingerprintMap::<u64>::default(),
            Some(s) => FingerprintMap::new(NonZeroU32::new(s).unwrap()),
        });
        let mut map = match made {
            Ok(m) => m,
            Err(p) => return ctx.on_panic("creating a map", &p, json!({"shards": size})),
        };
        let threads = r.range(1, 4);
        let per = if tsan() { 150 } else if i % 100 == 3 { 60_000 } else { r.range(10, 400) };
        let keys: Vec<Fingerprint> = (0..per)
            .map(|_| {
                let lo = if per > 1000 || r.chance(1, 3) { word(&mut r) } else { r.below(16) as u64 | (r.below(3) as u64) << 32 };
                Fingerprint::from_pair(lo, r.below(3) as u64)
            })
            .collect();
        let distinct: HashSet<Fingerprint> = keys.iter().copied().collect();
        // Each thread adds 1 for every key: nothing may be lost.
        let gate = Barrier::new(threads);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (map, keys, gate, bad) = (&map, &keys, &gate, &bad);
                s.spawn(move || {
                    gate.wait();
                    let n = keys.len();
                    for j in 0..n {
                        let k = keys[(j * 7 + t * n / 4) % n.max(1)];
                        let j7 = n % 7 == 0;
                        let k = if j7 { keys[j] } else { k };
                        let sh = map.shard(k);
                        if !std::ptr::eq(sh, map.shard(k)) {
                            bad.lock().unwrap().push("one key has two shards".into());
                        }
                        *sh.write().entry(k).or_default() += 1;
                        if !map.contains_key(&k) {
                            bad.lock().unwrap().push("an inserted key is missing".into());
                        }
                    }
                });
            }
        });
        let mut bad = bad.into_inner().unwrap();
        let mut want: HashMap<Fingerprint, u64> = HashMap::new();
        for t in 0..threads {
            let n = keys.len();
            for j in 0..n {
                let k = if n % 7 == 0 { keys[j] } else { keys[(j * 7 + t * n / 4) % n] };
                *want.entry(k).or_default() += 1;
            }
        }
        for k in &distinct {
            if map.contains_key(k) != want.contains_key(k) {
                bad.push(format!("contains_key({k:?}) is wrong"));
            }
            if map.shard(*k).read().get(k) != want.get(k) {
                bad.push(format!("{k:?} has {:?}, expected {:?}", map.shard(*k).read().get(k), want.get(k)));
            }
        }
        for _ in 0..20 {
            let k = Fingerprint::from_pair(r.u64(), r.u64());
            if map.contains_key(&k) && !want.contains_key(&k) {
                bad.push("a key that was never inserted is present".into());
            }
        }
        // The shards partition the items: every one of them is reachable through its own shard.
        let mut seen = 0;
        let addr: Vec<usize> = distinct.iter().map(|k| map.shard(*k) as *const _ as usize).collect();
        let slice = map.as_mut_slice();
        let range = slice.as_ptr_range();
        let (lo, hi) = (range.start as usize, range.end as usize);
        if addr.iter().any(|a| *a < lo || *a >= hi) {
            bad.push("a shard outside the map".into());
        }
        let nshards = slice.len();
        if nshards == 0 || nshards > 512 || !nshards.is_power_of_two() {
            bad.push(format!("{nshards} shards"));
        }
        for s in slice.iter_mut() {
            seen += s.get_mut().len();
        }
        if seen != want.len() {
            bad.push(format!("{seen} items in the shards, expected {}", want.len()));
        }
        let items: Vec<(Fingerprint, u64)> = map.into_items().collect();
        let uniq: HashMap<Fingerprint, u64> = items.iter().copied().collect();
        if items.len() != want.len() || uniq != want {
            bad.push(format!("into_items yields {} items ({} distinct), expected {}", items.len(), uniq.len(), want.len()));
        }
        ctx.count("insertions", want.values().sum());
        ctx.eval(vm_core::h64(&(size, threads, per)), true);
        ctx.sample(|| json!({"asked": size, "shards": nshards, "threads": threads, "items": want.len()}));
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.violate("fmap", json!({"case": i, "shards asked for": size, "threads": threads, "problems": bad}));
        }
    });
    ctx.require("insertions", 2000);
    ctx.finish(
        "exploration",
        "one map of a given shard count filled by several threads and drained; distinct by shard count, threads and items",
        &["debug assertions are on: an index outside the shards panics before it is used"],
    )
}

// ---------------------------------------------------------------- C35

struct Context {
    id: usize,
    drops: Arc<AtomicUsize>,
}
impl Drop for Context {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
    }
}

/// A computation that takes long, awaited by very many.
fn slow_query(ctx: &Ctx, fails: bool) {
    let calls = AtomicUsize::new(0);
    let done = std::sync::atomic::AtomicBool::new(false);
    let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
    let q: QueryRef<String, String, u32> = QueryRef::with_context(7);
    let wait = std::time::Duration::from_secs(if matches!(ctx.tier, vm_core::Tier::Thorough) { 70 } else { 8 });
    let seen: Mutex<HashSet<Result<usize, String>>> = Mutex::default();
    std::thread::scope(|s| {
        for k in 0..if tsan() { 20 } else { 200 } {
            let (q, calls, done, bad, seen) = (&q, &calls, &done, &bad, &seen);
            s.spawn(move || {
                if k >= 100 {
                    std::thread::sleep(wait / 2);
                }
                let v = q.compute_with_context(|c| {
                    calls.fetch_add(1, SeqCst);
                    std::thread::sleep(wait);
                    done.store(true, SeqCst);
                    if fails { Err(format!("no {c}")) } else { Ok(format!("yes {c}")) }
                });
                if !done.load(SeqCst) {
                    bad.lock().unwrap().push("a result before the computation was over".into());
                }
                match &v {
                    Ok(s) if !fails && *s == "yes 7" => {}
                    Err(e) if fails && e == "no 7" => {}
                    o => bad.lock().unwrap().push(format!("a caller got {o:?}")),
                }
                seen.lock().unwrap().insert(v.map(|s| s.as_ptr() as usize));
            });
        }
        std::thread::sleep(wait / 2);
        if q.get_uninitialized().is_some() {
            bad.lock().unwrap().push("a result before the computation was over".into());
        }
    });
    let mut bad = bad.into_inner().unwrap();
    if calls.load(SeqCst) != 1 || seen.lock().unwrap().len() != 1 {
        bad.push(format!("computed {} times, {} different results", calls.load(SeqCst), seen.lock().unwrap().len()));
    }
    ctx.count("slow queries", 1);
    if !bad.is_empty() {
        bad.truncate(5);
        ctx.violate("query:slow", json!({"seconds": wait.as_secs(), "fails": fails, "problems": bad}));
    }
}

pub fn c35(ctx: &Ctx) -> i32 {
    std::thread::scope(|s| {
        s.spawn(|| slow_query(ctx, false));
        s.spawn(|| slow_query(ctx, true));
        queries(ctx);
    });
    ctx.require("queries", 100);
    ctx.require("slow queries", 2);
    ctx.finish(
        "exploration",
        "one query computed from several threads at once; distinct by threads, outcome and duration",
        &["a computation that panics or asks for itself is not claimed"],
    )
}

fn queries(ctx: &Ctx) {
    let n = if tsan() { ctx.n(150, 1500) } else { ctx.n(1500, 30000) };
    parallel(ctx, n, if tsan() { 2 } else { 4 }, |i| {
        let mut r = ctx.rng(i as u64);
        let threads = r.range(1, 6);
        let fails = r.chance(1, 3);
        let kind = r.below(4);
        let drops = Arc::new(AtomicUsize::new(0));
        let calls = AtomicUsize::new(0);
        let inside = AtomicUsize::new(0);
        let bad: Mutex<Vec<String>> = Mutex::new(vec![]);
        let results: Mutex<Vec<Result<(usize, usize), String>>> = Mutex::new(vec![]);
        let spin = r.below(300);
        let q: QueryRef<Vec<usize>, String, Context> = match kind {
            0 => QueryRef::with_value(vec![7; 3]),
            _ => QueryRef::with_context(Context { id: i, drops: drops.clone() }),
        };
        if q.get_uninitialized().is_some() != (kind == 0) {
            bad.lock().unwrap().push("wrong initial state".into());
        }
        let gate = Barrier::new(threads + 1);
        std::thread::scope(|s| {
            for t in 0..threads {
                let (q, calls, inside, bad, results, gate) = (&q, &calls, &inside, &bad, &results, &gate);
                s.spawn(move || {
                    gate.wait();
                    for rep in 0..2 {
                        let v = q.compute_with_context(|c| {
                            let n = calls.fetch_add(1, SeqCst);
                            if inside.fetch_add(1, SeqCst) != 0 {
                                bad.lock().unwrap().push("two computations at a time".into());
                            }
                            if c.id != i {
                                bad.lock().unwrap().push("a foreign context".into());
                            }
                            for _ in 0..spin {
                                std::hint::spin_loop();
                            }
                            inside.fetch_sub(1, SeqCst);
                            if fails {
                                Err(format!("failed in call {n}"))
                            } else {
                                Ok(vec![t * 10 + rep, n, i])
                            }
                        });
                        let rec = match v {
                            Ok(v) => Ok((v.as_ptr() as usize, vm_core::h64(v) as usize)),
                            Err(e) => Err(e),
                        };
                        // Once a result was returned it is visible.
                        match (q.get_uninitialized(), &rec) {
                            (Some(Ok(v)), Ok((p, _))) if v.as_ptr() as usize == *p => {}
                            (Some(Err(e)), Err(f)) if e == f => {}
                            (o, _) => bad.lock().unwrap().push(format!("after a result, the cell shows {:?}", o.map(|r| r.is_ok()))),
                        }
                        results.lock().unwrap().push(rec);
                    }
                });
            }
            // Never blocks, shows nothing or the final result.
            gate.wait();
            for _ in 0..50 {
                if let Some(v) = q.get_uninitialized() {
                    if v.is_err() != (fails && kind != 0) {
                        bad.lock().unwrap().push("a half-done result was visible".into());
                    }
                }
            }
        });
        let mut bad = bad.into_inner().unwrap();
        let results = results.into_inner().unwrap();
        let c = calls.load(SeqCst);
        let want = usize::from(kind != 0);
        if c != want {
            bad.push(format!("computed {c} times instead of {want}"));
        }
        if results.len() != threads * 2 || results.windows(2).any(|w| w[0] != w[1]) {
            bad.push(format!("callers saw different results: {results:?}"));
        }
        if (kind == 0 || !fails) != results.iter().all(|r| r.is_ok()) {
            bad.push("the wrong kind of result".into());
        }
        drop(q);
        if drops.load(SeqCst) != want {
            bad.push(format!("the context was dropped {} times", drops.load(SeqCst)));
        }
        // The plain form.
        let n = AtomicUsize::new(0);
        let p: QueryRef<String, String> = QueryRef::default();
        let mut outs = vec![];
        for _ in 0..3 {
            outs.push(p.compute(|| {
                n.fetch_add(1, SeqCst);
                if fails { Err("e".into()) } else { Ok("v".into()) }
            }).cloned());
        }
        if n.load(SeqCst) != 1 || outs.iter().any(|o| *o != if fails { Err("e".into()) } else { Ok("v".to_string()) }) {
            bad.push(format!("plain query: {} calls, {outs:?}", n.load(SeqCst)));
        }
        let dbg = format!("{p:?}");
        if !dbg.contains(if fails { "\"e\"" } else { "\"v\"" }) {
            bad.push(format!("debug output lacks the result: {dbg}"));
        }
        ctx.count("queries", 1);
        ctx.count("callers", threads as u64);
        ctx.eval(vm_core::h64(&(threads, fails, kind, spin)), true);
        ctx.sample(|| json!({"threads": threads, "fails": fails, "preset": kind == 0}));
        if !bad.is_empty() {
            bad.truncate(5);
            ctx.violate("query", json!({"case": i, "threads": threads, "fails": fails, "preset": kind == 0, "problems": bad}));
        }
    });
}

// ---------------------------------------------------------------- C36

#[derive(Hash, Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Item {
    U(u64),
    S(String),
    V(Vec<Item>),
    B(Vec<u8>),
    O(Option<Box<Item>>),
    P(u8, i32, bool),
}

pub fn item(r: &mut Rng, depth: usize) -> Item {
    if depth == 3 && r.chance(1, 40) {
        // A long one that differs from others in one place.
        let len = *r.pick(&[200, 1_000, 5_000, 20_000, 70_000]);
        let mut v = vec![b'l'; len];
        let at = [0, len - 1, len / 2, r.below(len)][r.below(4)];
        v[at] = r.u64() as u8 & 0x7f;
        return match r.below(3) {
            0 => Item::B(v),
            1 if len <= 5_000 => Item::V((0..len).map(|j| Item::U(if j == at { v[at] as u64 } else { 1 << 40 })).collect()),
            _ => Item::S(String::from_utf8(v).unwrap()),
        };
    }
    match r.below(if depth == 0 { 4 } else { 6 }) {
        0 => Item::U(word(r)),
        1 => Item::S(r.text(8)),
        2 => Item::B((0..r.below(20)).map(|_| r.u64() as u8).collect()),
        3 => Item::P(r.u64() as u8, r.u64() as i32, r.chance(1, 2)),
        4 => Item::V((0..r.below(4)).map(|_| item(r, depth - 1)).collect()),
        _ => Item::O(r.chance(2, 3).then(|| Box::new(item(r, depth - 1)))),
    }
}

/// Gives the bytes that an item feeds to a hasher.
#[derive(Default)]
struct Bytes(Vec<u8>);
impl Hasher for Bytes {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}

pub fn child(op: &[String]) -> anyhow::Result<i32> {
    // hashes SEED COUNT: the hashes another process computes.
    let (seed, n): (u64, u64) = (op[1].parse()?, op[2].parse()?);
    for i in 0..n {
        let mut r = Rng::fork(seed, i);
        let it = item(&mut r, 3);
        println!("{:x} {:x} {:x}", hash::hash128(&it), hash::hash64(&it), hash::hash32(&it));
    }
    Ok(crate::fault::OK)
}

#[derive(Hash, Clone, PartialEq)]
struct W1(u32);
#[derive(Hash, Clone, PartialEq)]
struct W2(u32);

#[derive(Hash, Default, Clone, PartialEq, Debug)]
struct Def(u32, String);

pub fn c36(ctx: &Ctx) -> i32 {
    let seen: Mutex<BTreeMap<u128, Item>> = Mutex::new(BTreeMap::new());
    let seen_t: Mutex<BTreeMap<u128, String>> = Mutex::new(BTreeMap::new());
    // Short hashes may collide, but not as a rule.
    let short: [Mutex<HashSet<u64>>; 4] = Default::default();
    parallel(ctx, ctx.n(64, 1500), 8, |k| {
        let mut r = ctx.rng(k as u64);
        for _ in 0..150 {
            let it = item(&mut r, 3);
            let mut bad: Vec<String> = vec![];
            let h = hash::hash128(&it);
            ctx.eval(h as u64, true);
            ctx.count("items", 1);
            if hash::hash128(&it.clone()) != h || hash::hash64(&it) != hash::hash64(&it.clone()) || hash::hash32(&it) != hash::hash32(&it.clone()) || hash::item_hash128(&it) != hash::item_hash128(&it.clone()) {
                bad.push("equal items hash differently".into());
            }
            // The hasher of fingerprints, used as a plain hasher: the bytes count, however they come.
            let mut fed = Bytes::default();
            it.hash(&mut fed);
            let by = |cut: usize| {
                let mut s = hash::FingerprintSipHasher::default();
                let (a, b) = fed.0.split_at(cut);
                s.write(a);
                s.write(b);
                (s.finish(), s.fast_hash().0, s.finish_fingerprint())
            };
            let (whole, parts) = (by(0), by(r.below(fed.0.len() + 1)));
            if whole != parts || whole.2 .1 != fed.0 {
                bad.push("a hasher of fingerprints hashes the same bytes differently".into());
            }
            for (m, h) in short.iter().zip([hash::hash64(&it), hash::hash32(&it) as u64, whole.0, whole.1 as u64]) {
                m.lock().unwrap().insert(h);
            }
            if hash::hash128(&&it) != h || hash::hash128(&Box::new(it.clone())) != h {
                bad.push("a reference hashes differently".into());
            }
            // An independent SipHash-1-3 of the same bytes.
            let mut b = Bytes::default();
            it.hash(&mut b);
            if sip13(&b.0) != h {
                bad.push("not SipHash-1-3 with a zero key".into());
            }
            if let Some(o) = seen.lock().unwrap().insert(h, it.clone()) {
                if o != it {
                    bad.push(format!("collides with {o:?}"));
                }
            }
            // The type counts in item_hash128, not in hash128.
            let x = r.u64() as u32;
            if hash::item_hash128(&W1(x)) == hash::item_hash128(&W2(x)) || hash::item_hash128(&x) == hash::item_hash128(&(x as i32)) {
                bad.push("values of two types share an item hash".into());
            }
            if hash::hash128(&W1(x)) != hash::hash128(&W2(x)) {
                bad.push("hash128 depends on more than the value".into());
            }
            for (name, h) in [("u32", hash::item_hash128(&x)), ("i32", hash::item_hash128(&(x as i32))), ("w1", hash::item_hash128(&W1(x))), ("str", hash::item_hash128(&x.to_string()))] {
                let v = format!("{name}:{x}");
                if let Some(o) = seen_t.lock().unwrap().insert(h, v.clone()) {
                    if o != v {
                        bad.push(format!("{v} and {o} share an item hash"));
                    }
                }
            }
            // Prehashed wrappers.
            let g = word(&mut r) as u128 * 0x1_0000_0001;
            let w = HashedTrait::<Item>::new(g, Box::new(it.clone()));
            let dynw: &dyn StaticHash128 = &w;
            let feed = |f: &dyn Fn(&mut Bytes)| {
                let mut b = Bytes::default();
                f(&mut b);
                b.0
            };
            if w.get_hash() != g || *w != it || feed(&|b| w.hash(b)) != g.to_ne_bytes() || feed(&|b| dynw.hash(b)) != g.to_ne_bytes() {
                bad.push("HashedTrait does not carry its hash".into());
            }
            let d = HashedTrait::<Def>::default();
            if d.get_hash() != hash::item_hash128(&Def::default()) || *d != Def::default() {
                bad.push("the default HashedTrait has a foreign hash".into());
            }
            if !bad.is_empty() {
                ctx.violate("hash", json!({"item": format!("{it:?}"), "problems": bad}));
            }
            ctx.sample(|| json!({"item": format!("{it:?}"), "hash128": format!("{h:x}")}));
        }
    });
    let items = seen.lock().unwrap().len();
    for (name, m) in ["hash64", "hash32", "finish", "fast_hash"].iter().zip(&short) {
        let n = m.lock().unwrap().len();
        ctx.count(&format!("distinct {name}"), n as u64);
        if n * 5 < items * 4 {
            ctx.violate("hash:collides", json!({"hash": name, "items": items, "distinct": n}));
        }
    }
    // Another process computes the same.
    for round in 0..ctx.n(2, 10) {
        let seed = ctx.seed * 100 + round as u64;
        let (end, out) = crate::fault::child_wait(&["hashes", &seed.to_string(), "500"], None);
        if end != crate::fault::End::Ok {
            ctx.violate("hash:process", json!({"outcome": format!("{end:?}")}));
            continue;
        }
        for (i, l) in out.lines().enumerate() {
            let it = item(&mut Rng::fork(seed, i as u64), 3);
            ctx.count("compared with another process", 1);
            let mine = format!("{:x} {:x} {:x}", hash::hash128(&it), hash::hash64(&it), hash::hash32(&it));
            if l != mine {
                ctx.violate("hash:process", json!({"item": format!("{it:?}"), "here": mine, "there": l}));
                break;
            }
        }
    }
    ctx.require("items", 3000);
    ctx.require("compared with another process", 500);
    ctx.finish("exploration", "one generated item hashed by every function; distinct by hash", &["distinctness is checked among the items of the run"])
}

/// SipHash-1-3 with a zero key and 128 bits of output, written from its definition.
fn sip13(data: &[u8]) -> u128 {
    let mut v = [0x736f6d6570736575u64, 0x646f72616e646f6d ^ 0xee, 0x6c7967656e657261, 0x7465646279746573];
    fn round(v: &mut [u64; 4]) {
        v[0] = v[0].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(13) ^ v[0];
        v[0] = v[0].rotate_left(32);
        v[2] = v[2].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(16) ^ v[2];
        v[0] = v[0].wrapping_add(v[3]);
        v[3] = v[3].rotate_left(21) ^ v[0];
        v[2] = v[2].wrapping_add(v[1]);
        v[1] = v[1].rotate_left(17) ^ v[2];
        v[2] = v[2].rotate_left(32);
    }
    let mut chunks = data.chunks_exact(8);
    for c in &mut chunks {
        let m = u64::from_le_bytes(c.try_into().unwrap());
        v[3] ^= m;
        round(&mut v);
        v[0] ^= m;
    }
    let rest = chunks.remainder();
    let mut last = [0u8; 8];
    last[..rest.len()].copy_from_slice(rest);
    last[7] = data.len() as u8;
    let m = u64::from_le_bytes(last);
    v[3] ^= m;
    round(&mut v);
    v[0] ^= m;
    v[2] ^= 0xee;
    for _ in 0..3 {
        round(&mut v);
    }
    let h1 = v[0] ^ v[1] ^ v[2] ^ v[3];
    v[1] ^= 0xdd;
    for _ in 0..3 {
        round(&mut v);
    }
    let h2 = v[0] ^ v[1] ^ v[2] ^ v[3];
    (h2 as u128) << 64 | h1 as u128
}
