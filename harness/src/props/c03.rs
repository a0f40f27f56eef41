//! C03: the in-memory cache returns the freshest unexpired value for exactly its key.
use std::collections::BTreeMap;
use std::num::NonZeroU64;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::json;
use tailcall::core::cache::InMemoryCache;
use tailcall::core::Cache;

use crate::common::*;
use crate::mock::{self, URes, Upstream};

#[derive(Clone, Debug)]
struct Set {
    id: u64,
    ttl: Duration,
    s0: Instant,
    s1: Instant,
}

pub fn run(c: &C) {
    c.rule("one case = one read of one cache history (stores, overwrites, waits around the lifetime boundary; real clock with the interval of every operation recorded); non-trivial = the key had been stored before; distinct by (history, read)");
    c.assume("the cache's clock is the system's monotonic clock; reads whose interval straddles the expiry instant may go either way and are counted separately");
    c.section("histories", histories);
    c.section("threads", threads);
    c.section("capacity", capacity);
    c.section("gateway", gateway);
    c.floor("must_hit", 120);
    c.floor("must_expire", 40);
    c.floor("gateway_reads", 60);
}

/// What a read over [g0,g1] may return given the last store.
fn allowed(last: Option<&Set>, g0: Instant, g1: Instant) -> (bool, bool) {
    match last {
        None => (false, true),
        Some(s) => (g0 < s.s1 + s.ttl, g1 >= s.s0 + s.ttl),
    }
}

fn histories(c: &C) {
    let rt = rt_multi(4);
    let mut r = c.rng("hist");
    let n = c.n(220, 2500);
    let out: Vec<_> = rt.block_on(async {
        let mut hs = vec![];
        for h in 0..n {
            let mut r = r.fork();
            hs.push(tokio::spawn(async move {
                // keys of several shapes in one cache
                let cache: InMemoryCache<String, u64> = InMemoryCache::default();
                let keys = ["a", "b", "ab", "", "a\0", "A"];
                let mut last: BTreeMap<&str, Set> = BTreeMap::new();
                let (mut hits, mut misses) = (0u64, 0u64);
                let mut bad = vec![];
                let mut trace = vec![];
                let (mut must_hit, mut must_exp, mut either) = (0u64, 0u64, 0u64);
                let mut reads = vec![];
                if cache.hit_rate().is_some() {
                    bad.push(("hit-ratio-before-any-read", json!({})));
                }
                let base = *r.pick(&[6u64, 15, 40]);
                for s in 0..r.range(6, 24) {
                    match r.below(10) {
                        0..=3 => {
                            let k = *r.pick(&keys);
                            let ttl = *r.pick(&[1, base, base * 2, base * 5, 60_000, u32::MAX as u64]);
                            let id = (h as u64) << 32 | s as u64;
                            let s0 = Instant::now();
                            if cache.set(k.to_string(), id, NonZeroU64::new(ttl).unwrap()).await.is_err() {
                                bad.push(("store-failed", json!({"key": k, "ttl": ttl})));
                            }
                            let s1 = Instant::now();
                            last.insert(k, Set { id, ttl: Duration::from_millis(ttl), s0, s1 });
                            trace.push(json!({"set": k, "ttl": ttl}));
                        }
                        4..=5 => {
                            let ms = *r.pick(&[1, base / 2, base, base + 3]);
                            tokio::time::sleep(Duration::from_millis(ms)).await;
                            trace.push(json!({"wait": ms}));
                        }
                        _ => {
                            let k = *r.pick(&keys);
                            let key = k.to_string();
                            let g0 = Instant::now();
                            let got = cache.get(&key).await;
                            let g1 = Instant::now();
                            let Ok(got) = got else {
                                bad.push(("read-failed", json!(trace)));
                                continue;
                            };
                            if got.is_some() { hits += 1 } else { misses += 1 }
                            let l = last.get(k);
                            let (may_hit, may_miss) = allowed(l, g0, g1);
                            let ok = match got {
                                Some(v) => may_hit && l.is_some_and(|l| l.id == v),
                                None => may_miss,
                            };
                            match (may_hit, may_miss) {
                                (true, false) => must_hit += 1,
                                (false, true) if l.is_some() => must_exp += 1,
                                (true, true) => either += 1,
                                _ => {}
                            }
                            trace.push(json!({"get": k, "got": got.is_some()}));
                            reads.push((trace.len(), l.is_some()));
                            if !ok {
                                let why = match got {
                                    Some(v) if l.is_some_and(|l| l.id != v) => "stale-or-foreign-value",
                                    Some(_) => "served-after-expiry",
                                    None => "lost-before-expiry",
                                };
                                bad.push((why, json!({"key": k, "trace": trace, "got": got, "stored": l.map(|l| json!({"id": l.id, "ttl_ms": l.ttl.as_millis() as u64, "age_ms": g0.duration_since(l.s0).as_secs_f64() * 1e3}))})));
                            }
                            let want = Some(hits as f64 / (hits + misses) as f64);
                            let hr = cache.hit_rate();
                            if hr.is_none() || (hr.unwrap() - want.unwrap()).abs() > 1e-9 {
                                bad.push(("hit-ratio-wrong", json!({"got": hr, "want": want, "hits": hits, "misses": misses})));
                            }
                        }
                    }
                }
                (bad, trace, reads, must_hit, must_exp, either)
            }));
        }
        let mut v = vec![];
        for h in hs {
            v.push(h.await);
        }
        v
    });
    for (i, o) in out.into_iter().enumerate() {
        match o {
            Err(_) => c.violation("histories:crash", json!({"panic": last_panic()})),
            Ok((bad, trace, reads, mh, me, ei)) => {
                for (w, d) in bad {
                    c.violation(&format!("histories:{w}"), d);
                }
                c.count("must_hit", mh);
                c.count("must_expire", me);
                c.count("straddling_reads", ei);
                let t = json!(trace).to_string();
                for (p, nt) in reads {
                    c.case(&(&t, p), nt);
                }
                if i < 2 {
                    c.sample(|| json!(trace));
                }
            }
        }
    }
}

/// Many threads, few keys, unique values: every read returns a value whose store had begun, and that
/// no other store had wholly replaced before the read began.
fn threads(c: &C) {
    let mut r = c.rng("thr");
    for round in 0..c.n(12, 120) {
        let cache: Arc<InMemoryCache<u32, u64>> = Arc::new(InMemoryCache::new(1000));
        let sets: Arc<Mutex<Vec<(u32, Set)>>> = Default::default();
        let gets: Arc<Mutex<Vec<(u32, Instant, Instant, Option<u64>)>>> = Default::default();
        let next = Arc::new(AtomicU64::new(1));
        let seeds: Vec<u64> = (0..6).map(|_| r.next()).collect();
        let rt = rt_multi(6);
        rt.block_on(async {
            let mut hs = vec![];
            for seed in seeds {
                let (cache, sets, gets, next) = (cache.clone(), sets.clone(), gets.clone(), next.clone());
                hs.push(tokio::spawn(async move {
                    let mut r = Rng::new(seed);
                    for _ in 0..60 {
                        let k = r.below(3) as u32;
                        if r.chance(1, 3) {
                            let id = next.fetch_add(1, Ordering::SeqCst);
                            let s0 = Instant::now();
                            cache.set(k, id, NonZeroU64::new(60_000).unwrap()).await.ok();
                            let s1 = Instant::now();
                            sets.lock().unwrap().push((k, Set { id, ttl: Duration::from_secs(60), s0, s1 }));
                        } else {
                            let g0 = Instant::now();
                            let v = cache.get(&k).await.ok().flatten();
                            gets.lock().unwrap().push((k, g0, Instant::now(), v));
                        }
                        if r.chance(1, 8) {
                            tokio::task::yield_now().await;
                        }
                    }
                }));
            }
            for h in hs {
                if h.await.is_err() {
                    c.violation("threads:crash", json!({"panic": last_panic()}));
                }
            }
        });
        let sets = sets.lock().unwrap();
        let gets = gets.lock().unwrap();
        for (k, g0, g1, v) in gets.iter() {
            match v {
                Some(v) => {
                    let s = sets.iter().find(|s| s.0 == *k && s.1.id == *v);
                    let ok = s.is_some_and(|s| s.1.s0 <= *g1 && !sets.iter().any(|o| o.0 == *k && o.1.s0 > s.1.s1 && o.1.s1 < *g0));
                    c.check(ok, "threads:stale-or-foreign-value", || json!({"key": k, "value": v}));
                }
                None => {
                    c.check(!sets.iter().any(|o| o.0 == *k && o.1.s1 < *g0), "threads:lost-value", || json!({"key": k}));
                }
            }
            c.case(&(round, k, v), v.is_some());
        }
        let h = gets.iter().filter(|g| g.3.is_some()).count() as f64 / gets.len() as f64;
        c.check(cache.hit_rate().is_some_and(|x| (x - h).abs() < 1e-9), "threads:hit-ratio-wrong", || json!({"got": cache.hit_rate(), "want": h}));
        c.count("threaded_reads", gets.len() as u64);
    }
}

/// A small cache may forget, but never mixes entries up.
fn capacity(c: &C) {
    let mut r = c.rng("cap");
    let rt = rt_single();
    for _ in 0..c.n(60, 600) {
        let cap = r.range(1, 6);
        let cache: InMemoryCache<u32, u32> = InMemoryCache::new(cap);
        let mut last: BTreeMap<u32, u32> = BTreeMap::new();
        let mut trace = vec![];
        rt.block_on(async {
            for i in 0..r.range(5, 40) as u32 {
                let k = r.below(10) as u32;
                trace.push(k);
                cache.set(k, i, NonZeroU64::new(60_000).unwrap()).await.ok();
                last.insert(k, i);
                // what was just stored is there
                let got = cache.get(&k).await.ok().flatten();
                c.check(got == Some(i), "capacity:fresh-value-lost", || json!({"cap": cap, "trace": trace, "got": got}));
                let mut held = 0;
                for (k, v) in &last {
                    match cache.get(k).await.ok().flatten() {
                        Some(x) => {
                            held += 1;
                            c.check(x == *v, "capacity:stale-value", || json!({"cap": cap, "trace": trace, "key": k}));
                        }
                        None => {}
                    }
                }
                c.check(held <= cap, "capacity:exceeded", || json!({"cap": cap, "held": held}));
                c.check(last.len() > cap || held == last.len(), "capacity:evicted-without-need", || json!({"cap": cap, "trace": trace, "held": held}));
            }
        });
        c.case(&(cap, &trace), true);
    }
}

/// @cache on fields of a running gateway.
fn gateway(c: &C) {
    const SDL: &str = r#"
schema @server(port: 8000) @upstream(allowedHeaders: ["tenant"]) { query: Query }
type Query {
  long(id: Int, tag: String): V @http(url: "http://up/long", query: [{key: "id", value: "{{.args.id}}"}, {key: "tag", value: "{{.args.tag}}"}]) @cache(maxAge: 60000)
  short(id: Int): V @http(url: "http://up/short", query: [{key: "id", value: "{{.args.id}}"}]) @cache(maxAge: 60)
  plain(id: Int): V @http(url: "http://up/plain", query: [{key: "id", value: "{{.args.id}}"}])
  byhead: V @http(url: "http://up/head", headers: [{key: "x-t", value: "{{.headers.tenant}}"}]) @cache(maxAge: 60000)
  bybody(id: Int): V @http(url: "http://up/body", method: POST, body: "{{.args.id}}") @cache(maxAge: 60000)
  list: [P] @http(url: "http://up/list")
}
type P { id: Int!  v: V @http(url: "http://up/p/{{.value.id}}") @cache(maxAge: 60000) }
type V { key: String n: Int }
"#;
    let mut r = c.rng("gw");
    let rt = rt_multi(2);
    let runs: Vec<u64> = (0..c.n(16, 160)).map(|_| r.next()).collect();
    let c2 = c.clone();
    rt.block_on(async {
        let hs: Vec<_> = runs
            .into_iter()
            .map(|seed| {
                let c = c2.clone();
                tokio::spawn(async move {
                    let mut r = Rng::new(seed);
                    let ctr = Arc::new(AtomicU64::new(0));
                    let ctr2 = ctr.clone();
                    let fail = Arc::new(std::sync::atomic::AtomicBool::new(false));
                    let fail2 = fail.clone();
                    let up = Upstream::new(move |q| {
                        if q.path() == "/list" {
                            return URes::json(json!([{"id": 1}, {"id": 2}, {"id": 1}]));
                        }
                        if fail2.load(Ordering::SeqCst) {
                            return URes::fail("down");
                        }
                        let n = ctr2.fetch_add(1, Ordering::SeqCst) + 1;
                        URes::json(json!({"key": format!("{}|{}|{}|{}|{}", q.path(), q.q("id").unwrap_or_default(), q.q("tag").unwrap_or_default(), q.header("x-t").unwrap_or(""), q.body_str()), "n": n}))
                    });
                    let app = match mock::app(SDL, mock::runtime(up.clone())) {
                        Ok(a) => a,
                        Err(e) => return c.violation("gateway:start", json!(e)),
                    };
                    let mut stored: BTreeMap<String, Set> = BTreeMap::new();
                    let mut trace = vec![];
                    for _ in 0..r.range(8, 22) {
                        if r.chance(1, 4) {
                            let ms = *r.pick(&[5u64, 30, 64]);
                            tokio::time::sleep(Duration::from_millis(ms)).await;
                            trace.push(json!({"wait": ms}));
                            continue;
                        }
                        let down = r.chance(1, 6);
                        fail.store(down, Ordering::SeqCst);
                        let id = r.below(3);
                        let tenant = *r.pick(&["t1", "t2"]);
                        let (q, path, key, ttl): (String, &str, String, Option<u64>) = match r.below(6) {
                            0 => {
                                let tag = *r.pick(&["", "x", "2"]);
                                (format!("{{ long(id: {id}, tag: \"{tag}\") {{ key n }} }}"), "long", format!("/long|{id}|{tag}||"), Some(60000))
                            }
                            1 => (format!("{{ short(id: {id}) {{ key n }} }}"), "short", format!("/short|{id}|||"), Some(60)),
                            2 => (format!("{{ plain(id: {id}) {{ key n }} }}"), "plain", format!("/plain|{id}|||"), None),
                            3 => ("{ byhead { key n } }".to_string(), "byhead", format!("/head|||{tenant}|"), Some(60000)),
                            4 => (format!("{{ bybody(id: {id}) {{ key n }} }}"), "bybody", format!("/body||||{id}"), Some(60000)),
                            _ => ("{ list { id v { key n } } }".to_string(), "list", String::new(), Some(60000)),
                        };
                        let before = ctr.load(Ordering::SeqCst);
                        let g0 = Instant::now();
                        let res = mock::gql(&app, json!({"query": q}), &[("tenant", tenant)]).await;
                        let g1 = Instant::now();
                        let fresh = ctr.load(Ordering::SeqCst) - before;
                        trace.push(json!({"q": q, "tenant": tenant, "down": down, "fresh": fresh}));
                        let input = || json!({"trace": trace, "body": res.json()});
                        if path == "list" {
                            let d = res.data();
                            if let Some(a) = d["list"].as_array() {
                                for p in a {
                                    let k = format!("/p/{}||||", p["id"]);
                                    let v = &p["v"];
                                    let sk = format!("{tenant}:{k}");
                                    if v.is_null() {
                                        c.check(down && !stored.contains_key(&sk), "gateway:cached-value-lost", input);
                                        continue;
                                    }
                                    c.check(v["key"] == json!(k), "gateway:value-of-another-parent", input);
                                    let n = v["n"].as_u64().unwrap_or(0);
                                    match stored.get(&sk) {
                                        Some(s) => { c.check(s.id == n, "gateway:recomputed-or-stale", input); }
                                        None => { stored.insert(sk, Set { id: n, ttl: Duration::from_secs(60), s0: g0, s1: g1 }); }
                                    }
                                }
                            }
                            c.count("gateway_reads", 1);
                            continue;
                        }
                        // the allow-listed header is forwarded, so it is part of the upstream request
                        let echo = key.clone();
                        let key = format!("{tenant}:{key}");
                        let v = res.data()[path].clone();
                        let n = v["n"].as_u64();
                        let (may_hit, may_miss) = if ttl.is_none() { (false, true) } else { allowed(stored.get(&key), g0, g1) };
                        match n {
                            Some(n) => {
                                c.check(v["key"] == json!(echo), "gateway:value-of-another-key", input);
                                if n > before {
                                    c.check(may_miss, "gateway:upstream-called-again", input);
                                    c.check(!down, "gateway:answered-while-down", input);
                                    c.check(fresh == 1, "gateway:several-calls", input);
                                    if let Some(t) = ttl {
                                        stored.insert(key.clone(), Set { id: n, ttl: Duration::from_millis(t), s0: g0, s1: g1 });
                                    }
                                } else {
                                    c.check(may_hit && stored.get(&key).is_some_and(|s| s.id == n), "gateway:stale-or-foreign-value", input);
                                }
                            }
                            None => {
                                c.check(down && may_miss && !res.errors().is_empty(), "gateway:no-value", input);
                            }
                        }
                        c.count("gateway_reads", 1);
                        c.case(&(seed, trace.len()), true);
                    }
                    c.sample(|| json!(trace));
                })
            })
            .collect();
        for h in hs {
            if h.await.is_err() {
                c.violation("gateway:crash", json!({"panic": last_panic()}));
            }
        }
    });
}
