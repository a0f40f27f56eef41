//! C01: batched loading gives every caller its own keys' values, loaded once.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use futures_util::future::join_all;
use futures_util::FutureExt;
use serde_json::json;
use tailcall::core::data_loader::{CacheFactory, DataLoader, HashMapCache, Loader, NoCache};

use crate::common::*;

/// One upstream load as the loader saw it.
#[derive(Clone, Debug)]
struct Batch {
    id: u64,
    keys: Vec<u32>,
    start: Instant,
    end: Option<Instant>,
    failed: bool,
    missing: BTreeSet<u32>,
}

/// A value names the key and the load it came from, so any misattribution identifies itself.
#[derive(Clone, Debug, PartialEq, Eq)]
struct Val {
    key: u32,
    batch: u64,
}

#[derive(Clone)]
struct Rec {
    log: Arc<Mutex<Vec<Batch>>>,
    next: Arc<AtomicU64>,
    /// (failure in n/16, missing in n/16, max delay us, extra keys)
    fail: u32,
    missing: u32,
    delay_us: u64,
    extra: bool,
    seed: u64,
}

impl Rec {
    fn new(seed: u64) -> Self {
        Rec { log: Default::default(), next: Arc::new(AtomicU64::new(1)), fail: 0, missing: 0, delay_us: 0, extra: false, seed }
    }
}

#[async_trait::async_trait]
impl Loader<u32> for Rec {
    type Value = Val;
    type Error = u64;
    async fn load(&self, keys: &[u32]) -> Result<HashMap<u32, Val>, u64> {
        let id = self.next.fetch_add(1, Ordering::SeqCst);
        let mut r = Rng::new(self.seed ^ id.wrapping_mul(0x9E37));
        let failed = r.chance(self.fail, 16);
        let missing: BTreeSet<u32> = keys.iter().copied().filter(|_| r.chance(self.missing, 16)).collect();
        self.log.lock().unwrap().push(Batch { id, keys: keys.to_vec(), start: Instant::now(), end: None, failed, missing: missing.clone() });
        if self.delay_us > 0 {
            tokio::time::sleep(Duration::from_micros(r.next() % self.delay_us)).await;
        }
        {
            let mut l = self.log.lock().unwrap();
            let b = l.iter_mut().find(|b| b.id == id).unwrap();
            b.end = Some(Instant::now());
        }
        if failed {
            return Err(id);
        }
        let mut m: HashMap<u32, Val> = keys.iter().copied().filter(|k| !missing.contains(k)).map(|k| (k, Val { key: k, batch: id })).collect();
        if self.extra {
            // an upstream that returns more than asked
            let k = 1_000_000 + r.below(3) as u32;
            m.insert(k, Val { key: k, batch: id });
        }
        Ok(m)
    }
}

#[derive(Debug, Clone)]
struct Call {
    client: usize,
    keys: Vec<u32>,
    call: Instant,
    ret: Option<Instant>,
    /// None: cancelled or still open
    out: Option<Result<BTreeMap<u32, Val>, u64>>,
    single: bool,
}

const PROMPT: Duration = Duration::from_secs(20);

async fn timed<F: std::future::Future>(f: F) -> Result<F::Output, ()> {
    tokio::time::timeout(PROMPT, f).await.map_err(|_| ())
}

pub fn run(c: &C) {
    c.rule("one case = one history of concurrent load_one/load_many callers (or one sequential cached history) against a recording loader whose values name their key and load; non-trivial = at least two callers shared a load, a load failed, a caller was cancelled or the cache was involved; distinct by (batch structure, outcomes)");
    c.section("window-model", window_model);
    c.section("window-time", window_time);
    c.section("concurrent", concurrent);
    c.section("cache-model", cache_model);
    c.section("cache-concurrent", cache_concurrent);
    c.section("cancel", cancel);
    c.floor("loads", 500);
    c.floor("calls", 3000);
    c.floor("shared_loads", 100);
    c.floor("failed_loads", 20);
    c.floor("cancelled_calls", 20);
}

fn show(b: &[Batch]) -> serde_json::Value {
    json!(b.iter().map(|b| json!({"id": b.id, "keys": b.keys, "failed": b.failed, "missing": b.missing})).collect::<Vec<_>>())
}

/// All calls are started in one poll, so they share windows in a way a small model predicts exactly.
fn window_model(c: &C) {
    let mut r = c.rng("window");
    let rt = rt_single();
    for n in 0..c.n(120, 1500) {
        let wide = n % 15 == 7;
        let max = *r.pick(if wide { &[64usize, 100, 200, 1000, 1000] } else { &[1usize, 2, 3, 5, 8, 1000] as &[usize] });
        let ncalls = if wide { r.range(20, 150) } else { r.range(1, 24) };
        let universe = if wide { r.range(30, 500) } else { r.range(1, 30) } as u32;
        let calls: Vec<Vec<u32>> = (0..ncalls)
            .map(|_| {
                let k = if wide && r.chance(1, 8) { r.range(30, 150) } else if r.chance(1, 3) { r.range(0, 6) } else { 1 };
                (0..k).map(|_| r.below(universe as usize) as u32).collect()
            })
            .collect();
        // model: requests accumulate; reaching `max` distinct keys dispatches everything waiting
        let mut want: Vec<BTreeSet<u32>> = vec![];
        let mut owner: Vec<Option<usize>> = vec![];
        let mut cur: BTreeSet<u32> = BTreeSet::new();
        for ks in &calls {
            if ks.is_empty() {
                owner.push(None);
                continue;
            }
            cur.extend(ks);
            owner.push(Some(want.len()));
            if cur.len() >= max {
                want.push(std::mem::take(&mut cur));
            }
        }
        if !cur.is_empty() {
            want.push(cur);
        }
        let rec = Rec { delay_us: 200, ..Rec::new(r.next()) };
        let dl = DataLoader::with_cache(rec.clone(), NoCache).delay(Duration::from_millis(r.range(0, 3) as u64)).max_batch_size(max);
        let outs = rt.block_on(async { timed(join_all(calls.iter().map(|ks| dl.load_many(ks.clone())))).await });
        let log = rec.log.lock().unwrap().clone();
        let input = || json!({"max": max, "calls": calls, "loads": show(&log)});
        let Ok(outs) = outs else {
            c.violation("window:lost-request", input());
            continue;
        };
        let got: Vec<BTreeSet<u32>> = log.iter().map(|b| b.keys.iter().copied().collect()).collect();
        for b in &log {
            if b.keys.iter().collect::<HashSet<_>>().len() != b.keys.len() {
                c.violation("window:duplicate-key-in-load", input());
            }
        }
        let mut gs = got.clone();
        let mut ws = want.clone();
        gs.sort();
        ws.sort();
        if gs != ws {
            c.violation("window:loads-differ-from-model", json!({"want": ws, "input": input()}));
        }
        for (i, o) in outs.iter().enumerate() {
            let keys: BTreeSet<u32> = calls[i].iter().copied().collect();
            match o {
                Ok(m) => {
                    let gk: BTreeSet<u32> = m.keys().copied().collect();
                    let batches: BTreeSet<u64> = m.values().map(|v| v.batch).collect();
                    let right = gk == keys && m.iter().all(|(k, v)| v.key == *k) && batches.len() <= 1;
                    let inb = owner[i].is_none() || batches.iter().all(|b| log.iter().any(|l| l.id == *b && keys.iter().all(|k| l.keys.contains(k))));
                    c.check(right && inb, "window:wrong-answer", || json!({"caller": i, "got": format!("{m:?}"), "input": input()}));
                }
                Err(e) => c.violation("window:unexpected-error", json!({"caller": i, "err": e, "input": input()})),
            }
        }
        c.count("loads", log.len() as u64);
        c.count("calls", calls.len() as u64);
        c.count("shared_loads", log.iter().filter(|b| calls.iter().filter(|k| k.iter().any(|x| b.keys.contains(x))).count() > 1).count() as u64);
        c.case(&(max, &calls), calls.len() > 1);
        if n < 2 {
            c.sample(input);
        }
    }
}

/// Decide one recorded history without cache.
fn judge(c: &C, sec: &str, calls: &[Call], log: &[Batch], max: usize, biggest: usize, delay: Duration) {
    let input = || json!({"max": max, "loads": show(log), "calls": calls.iter().map(|k| json!({"client": k.client, "keys": k.keys, "out": format!("{:?}", k.out)})).collect::<Vec<_>>()});
    let by: HashMap<u64, &Batch> = log.iter().map(|b| (b.id, b)).collect();
    for b in log {
        let d: BTreeSet<u32> = b.keys.iter().copied().collect();
        c.check(d.len() == b.keys.len(), &format!("{sec}:duplicate-key-in-load"), || json!({"load": b.id, "input": input()}));
        c.check(!b.keys.is_empty(), &format!("{sec}:empty-load"), || input());
        c.check(b.keys.len() <= max.max(1) - 1 + biggest, &format!("{sec}:load-exceeds-maximum"), || json!({"load": b.id, "input": input()}));
    }
    // answers
    let mut explained: HashMap<u64, BTreeSet<u32>> = HashMap::new();
    for k in calls {
        let want: BTreeSet<u32> = k.keys.iter().copied().collect();
        let Some(out) = &k.out else {
            // cancelled: it may have contributed its keys to any load
            continue;
        };
        if want.is_empty() {
            continue;
        }
        match out {
            Ok(m) => {
                let mut bs = BTreeSet::new();
                for (key, v) in m {
                    c.check(want.contains(key), &format!("{sec}:unrequested-key"), || json!({"call": format!("{k:?}"), "input": input()}));
                    c.check(v.key == *key, &format!("{sec}:value-of-another-key"), || json!({"call": format!("{k:?}"), "input": input()}));
                    bs.insert(v.batch);
                }
                c.check(bs.len() <= 1, &format!("{sec}:answer-from-several-loads"), || json!({"call": format!("{k:?}"), "input": input()}));
                if let Some(b) = bs.iter().next() {
                    let Some(b) = by.get(b) else {
                        c.violation(&format!("{sec}:unknown-load"), input());
                        continue;
                    };
                    c.check(want.iter().all(|x| b.keys.contains(x)), &format!("{sec}:load-without-my-keys"), || json!({"call": format!("{k:?}"), "input": input()}));
                    c.check(b.start >= k.call, &format!("{sec}:load-before-request"), || json!({"call": format!("{k:?}"), "input": input()}));
                    c.check(b.end.is_some_and(|e| Some(e) <= k.ret), &format!("{sec}:answer-before-load"), || json!({"call": format!("{k:?}"), "input": input()}));
                    for x in &want {
                        let absent = !m.contains_key(x);
                        c.check(absent == b.missing.contains(x), &format!("{sec}:lost-value"), || json!({"key": x, "call": format!("{k:?}"), "input": input()}));
                    }
                    explained.entry(b.id).or_default().extend(want.iter());
                } else {
                    // nothing returned: some load in the interval must have had all keys and none of the values
                    let cand: Vec<&&Batch> = by.values().filter(|b| !b.failed && b.start >= k.call && want.iter().all(|x| b.keys.contains(x) && b.missing.contains(x))).collect();
                    c.check(!cand.is_empty(), &format!("{sec}:values-vanished"), || json!({"call": format!("{k:?}"), "input": input()}));
                    for b in cand {
                        explained.entry(b.id).or_default().extend(want.iter());
                    }
                }
            }
            Err(e) => {
                let ok = by.get(e).is_some_and(|b| b.failed && want.iter().all(|x| b.keys.contains(x)) && b.start >= k.call);
                c.check(ok, &format!("{sec}:error-of-another-load"), || json!({"call": format!("{k:?}"), "input": input()}));
                explained.entry(*e).or_default().extend(want.iter());
            }
        }
    }
    // no load asks for what nobody wanted
    let cancelled: BTreeSet<u32> = calls.iter().filter(|k| k.out.is_none()).flat_map(|k| k.keys.clone()).collect();
    for b in log {
        let e = explained.get(&b.id).cloned().unwrap_or_default();
        let left: Vec<u32> = b.keys.iter().copied().filter(|x| !e.contains(x) && !cancelled.contains(x)).collect();
        c.check(left.is_empty(), &format!("{sec}:load-nobody-asked-for"), || json!({"load": b.id, "left": left, "input": input()}));
    }
    // requests are not spread over more loads than windows: consecutive loads that are not full are
    // separated by the configured delay
    let _ = delay;
}

fn concurrent(c: &C) {
    let mut r = c.rng("conc");
    let multi = rt_multi(4);
    let single = rt_single();
    for n in 0..c.n(60, 800) {
        let max = *r.pick(&[1usize, 2, 4, 7, 1000]);
        let universe = *r.pick(&[2usize, 5, 20, 60]);
        let clients = r.range(2, 16);
        let per = r.range(2, 8);
        let delay = Duration::from_millis(r.range(0, 3) as u64);
        let rec = Rec { fail: if r.chance(1, 3) { 4 } else { 0 }, missing: if r.chance(1, 2) { 3 } else { 0 }, delay_us: *r.pick(&[0, 300, 3000]), extra: r.chance(1, 4), ..Rec::new(r.next()) };
        let dl = Arc::new(DataLoader::with_cache(rec.clone(), NoCache).delay(delay).max_batch_size(max));
        let biggest = 5usize;
        let on_multi = r.bool();
        let rt = if on_multi { &multi } else { &single };
        let mut hs = vec![];
        let calls: Vec<Call> = rt.block_on(async {
            for cl in 0..clients {
                let dl = dl.clone();
                let mut r = r.fork();
                hs.push(tokio::spawn(async move {
                    let mut out = vec![];
                    for _ in 0..per {
                        match r.below(4) {
                            0 => tokio::time::sleep(Duration::from_micros(r.next() % 2500)).await,
                            1 => tokio::task::yield_now().await,
                            _ => {}
                        }
                        let single = r.bool();
                        let keys: Vec<u32> = if single { vec![r.below(universe) as u32] } else { (0..r.range(1, biggest)).map(|_| r.below(universe) as u32).collect() };
                        let call = Instant::now();
                        let res = if single {
                            let k = keys[0];
                            timed(dl.load_one(k)).await.map(|x| x.map(|o| o.into_iter().map(|v| (k, v)).collect::<BTreeMap<_, _>>()))
                        } else {
                            timed(dl.load_many(keys.clone())).await.map(|x| x.map(|m| m.into_iter().collect::<BTreeMap<_, _>>()))
                        };
                        let stuck = res.is_err();
                        out.push((Call { client: cl, keys, call, ret: Some(Instant::now()), out: res.ok(), single }, stuck));
                        if stuck {
                            break;
                        }
                    }
                    out
                }));
            }
            let mut all = vec![];
            for h in hs {
                match h.await {
                    Ok(v) => all.extend(v),
                    Err(_) => c.violation("concurrent:caller-crashed", json!({"panic": last_panic(), "max": max})),
                }
            }
            all
        })
        .into_iter()
        .map(|(k, stuck)| {
            if stuck {
                c.violation("concurrent:request-left-waiting", json!({"call": format!("{k:?}"), "max": max}));
            }
            k
        })
        .collect();
        let log = rec.log.lock().unwrap().clone();
        judge(c, "concurrent", &calls, &log, max, biggest, delay);
        c.count("loads", log.len() as u64);
        c.count("failed_loads", log.iter().filter(|b| b.failed).count() as u64);
        c.count("calls", calls.len() as u64);
        let mut users: HashMap<u64, BTreeSet<usize>> = HashMap::new();
        for k in &calls {
            match &k.out {
                Some(Ok(m)) => m.values().for_each(|v| { users.entry(v.batch).or_default().insert(k.client); }),
                Some(Err(e)) => { users.entry(*e).or_default().insert(k.client); }
                None => {}
            }
        }
        let shared = users.values().filter(|u| u.len() > 1).count() as u64;
        c.count("shared_loads", shared);
        c.max("max_clients_in_one_load", users.values().map(|u| u.len() as u64).max().unwrap_or(0));
        c.case(&(log.iter().map(|b| b.keys.clone()).collect::<Vec<_>>()), shared > 0);
        if n < 2 {
            c.sample(|| json!({"clients": clients, "max": max, "delay_ms": delay.as_millis() as u64, "loads": show(&log)}));
        }
    }
}

/// A caller that gives up must not take others with it.
fn cancel(c: &C) {
    let mut r = c.rng("cancel");
    let multi = rt_multi(4);
    for _ in 0..c.n(60, 700) {
        let max = *r.pick(&[2usize, 4, 1000]);
        let rec = Rec { delay_us: *r.pick(&[0, 2000]), fail: if r.chance(1, 4) { 5 } else { 0 }, ..Rec::new(r.next()) };
        let delay = Duration::from_millis(r.range(1, 3) as u64);
        let dl = Arc::new(DataLoader::with_cache(rec.clone(), NoCache).delay(delay).max_batch_size(max));
        let clients = r.range(2, 10);
        let killed = Arc::new(AtomicUsize::new(0));
        let calls: Vec<Call> = multi.block_on(async {
            let mut hs = vec![];
            for cl in 0..clients {
                let dl = dl.clone();
                let mut r = r.fork();
                let killed = killed.clone();
                hs.push(tokio::spawn(async move {
                    let mut out = vec![];
                    for i in 0..3 {
                        let keys: Vec<u32> = (0..r.range(1, 3)).map(|_| r.below(8) as u32).collect();
                        let call = Instant::now();
                        // the very first caller (which starts the window) is often the one to give up
                        let give_up = if cl == 0 { r.chance(3, 4) } else { r.chance(1, 3) };
                        let fut = dl.load_many(keys.clone());
                        let res = if give_up {
                            killed.fetch_add(1, Ordering::SeqCst);
                            let mut fut = Box::pin(fut);
                            match r.below(3) {
                                0 => {
                                    let _ = (&mut fut).now_or_never();
                                }
                                _ => {
                                    let _ = tokio::time::timeout(Duration::from_micros(r.next() % 1500), &mut fut).await;
                                }
                            }
                            drop(fut);
                            None
                        } else {
                            match timed(fut).await {
                                Ok(x) => Some(x.map(|m| m.into_iter().collect::<BTreeMap<_, _>>())),
                                Err(()) => {
                                    out.push((Call { client: cl, keys, call, ret: None, out: None, single: false }, true));
                                    return out;
                                }
                            }
                        };
                        out.push((Call { client: cl, keys, call, ret: Some(Instant::now()), out: res, single: false }, false));
                        if i == 0 && r.bool() {
                            tokio::time::sleep(Duration::from_micros(r.next() % 3000)).await;
                        }
                    }
                    out
                }));
            }
            let mut all = vec![];
            for h in hs {
                match h.await {
                    Ok(v) => all.extend(v),
                    Err(_) => c.violation("cancel:caller-crashed", json!({"panic": last_panic()})),
                }
            }
            all
        })
        .into_iter()
        .map(|(k, stuck)| {
            if stuck {
                c.violation("cancel:request-left-waiting", json!({"call": format!("{k:?}"), "max": max}));
            }
            k
        })
        .collect();
        // a load started by callers that all gave up may still be running
        multi.block_on(async { tokio::time::sleep(Duration::from_millis(6)).await });
        let log = rec.log.lock().unwrap().clone();
        judge(c, "cancel", &calls, &log, max, 3, delay);
        c.count("cancelled_calls", killed.load(Ordering::SeqCst) as u64);
        c.count("calls", calls.len() as u64);
        c.count("loads", log.len() as u64);
        c.count("failed_loads", log.iter().filter(|b| b.failed).count() as u64);
        c.case(&log.iter().map(|b| b.keys.clone()).collect::<Vec<_>>(), true);
    }
}

/// Sequential histories on a caching loader against an exact model.
fn cache_model(c: &C) {
    cache_model_with(c, "hashmap", HashMapCache::default);
}

fn cache_model_with<F>(c: &C, name: &str, mk: impl Fn() -> F)
where
    F: CacheFactory<u32, Val> + 'static,
{
    let mut r = c.rng(name);
    let rt = rt_single();
    for n in 0..c.n(80, 1000) {
        let rec = Rec { missing: if r.bool() { 4 } else { 0 }, fail: if r.chance(1, 3) { 3 } else { 0 }, extra: r.chance(1, 4), ..Rec::new(r.next()) };
        let dl = DataLoader::with_cache(rec.clone(), mk()).delay(Duration::ZERO).max_batch_size(*r.pick(&[1usize, 3, 1000]));
        let mut model: BTreeMap<u32, Val> = BTreeMap::new();
        let (mut off_all, mut off_one) = (false, false);
        let mut trace = vec![];
        let wide = n % 8 == 5;
        let (keys_of, most) = if wide { (120, 90) } else { (8, 5) };
        let steps = r.range(4, 14);
        rt.block_on(async {
            for s in 0..steps {
                rec.log.lock().unwrap().clear();
                match r.below(12) {
                    0 => {
                        dl.clear();
                        model.clear();
                        trace.push(json!("clear"));
                    }
                    1 => {
                        let k = r.below(8) as u32;
                        let v = Val { key: k, batch: 1_000_000 + s as u64 };
                        dl.feed_one(k, v.clone()).await;
                        model.insert(k, v);
                        trace.push(json!({"feed": k}));
                    }
                    2 => {
                        let vs: Vec<(u32, Val)> = (0..r.below(if wide { 80 } else { 4 })).map(|_| { let k = r.below(keys_of) as u32; (k, Val { key: k, batch: 2_000_000 + s as u64 }) }).collect();
                        dl.feed_many(vs.clone()).await;
                        model.extend(vs.clone());
                        trace.push(json!({"feed_many": vs.iter().map(|x| x.0).collect::<Vec<_>>()}));
                    }
                    3 => {
                        off_all = r.bool();
                        dl.enable_all_cache(!off_all);
                        trace.push(json!({"enable_all": !off_all}));
                    }
                    4 => {
                        off_one = r.bool();
                        dl.enable_cache(!off_one);
                        trace.push(json!({"enable": !off_one}));
                    }
                    _ => {
                        let keys: Vec<u32> = (0..r.range(0, most)).map(|_| r.below(keys_of) as u32).collect();
                        let want: BTreeSet<u32> = keys.iter().copied().collect();
                        let off = off_all || off_one;
                        let hit: BTreeMap<u32, Val> = if off { Default::default() } else { want.iter().filter_map(|k| model.get(k).map(|v| (*k, v.clone()))).collect() };
                        let ask: BTreeSet<u32> = want.iter().copied().filter(|k| !hit.contains_key(k)).collect();
                        trace.push(json!({"load": keys}));
                        let out = timed(dl.load_many(keys.clone())).await;
                        let log = rec.log.lock().unwrap().clone();
                        let input = || json!({"trace": trace, "off": off, "loads": show(&log), "out": format!("{out:?}"), "cache": format!("{model:?}")});
                        let asked: Vec<BTreeSet<u32>> = log.iter().map(|b| b.keys.iter().copied().collect()).collect();
                        let expect = if ask.is_empty() { vec![] } else { vec![ask.clone()] };
                        c.check(asked == expect, "cache:wrong-keys-loaded", || json!({"want": expect, "input": input()}));
                        match &out {
                            Err(()) => c.violation("cache:left-waiting", input()),
                            Ok(Err(e)) => {
                                c.check(log.iter().any(|b| b.failed && b.id == *e), "cache:unexpected-error", input);
                                c.count("failed_loads", 1);
                            }
                            Ok(Ok(m)) => {
                                c.check(log.iter().all(|b| !b.failed), "cache:error-swallowed", input);
                                let mut exp = hit.clone();
                                for b in &log {
                                    for k in &b.keys {
                                        if !b.missing.contains(k) {
                                            exp.insert(*k, Val { key: *k, batch: b.id });
                                        }
                                    }
                                }
                                let got: BTreeMap<u32, Val> = m.clone().into_iter().collect();
                                c.check(got == exp, "cache:wrong-answer", || json!({"want": format!("{exp:?}"), "input": input()}));
                                if !off {
                                    for b in &log {
                                        for k in &b.keys {
                                            if !b.missing.contains(k) {
                                                model.insert(*k, Val { key: *k, batch: b.id });
                                            }
                                        }
                                        if rec.extra {
                                            // what the upstream added may be kept as well
                                            for (k, v) in dl.get_cached_values() {
                                                if k >= 1_000_000 {
                                                    model.insert(k, v);
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        c.count("loads", log.len() as u64);
                        c.count("calls", 1);
                        c.count("cache_hits", hit.len() as u64);
                    }
                }
                let cached: BTreeMap<u32, Val> = dl.get_cached_values().into_iter().collect();
                let strip = |m: &BTreeMap<u32, Val>| m.iter().filter(|x| *x.0 < 1_000_000).map(|(k, v)| (*k, v.clone())).collect::<BTreeMap<_, _>>();
                c.check(strip(&cached) == strip(&model), "cache:contents-differ", || json!({"trace": trace, "cached": format!("{cached:?}"), "model": format!("{model:?}")}));
            }
        });
        c.case(&json!(trace).to_string(), true);
        if n < 2 {
            c.sample(|| json!(trace));
        }
    }
    c.floor("cache_hits", 100);
}

/// Concurrent callers on a caching loader with switching and clearing: answers stay attributable, and
/// nothing older than the last clear that completed before a call is served to it.
fn cache_concurrent(c: &C) {
    let mut r = c.rng("cc");
    let multi = rt_multi(4);
    for _ in 0..c.n(40, 500) {
        let rec = Rec { delay_us: *r.pick(&[0, 1500]), fail: if r.chance(1, 4) { 4 } else { 0 }, ..Rec::new(r.next()) };
        let dl = Arc::new(DataLoader::with_cache(rec.clone(), HashMapCache::default()).delay(Duration::from_millis(1)).max_batch_size(*r.pick(&[2usize, 5, 1000])));
        let with_clear = r.bool();
        let switching = r.bool();
        let clears: Arc<Mutex<Vec<(Instant, Instant)>>> = Default::default();
        let clients = r.range(2, 10);
        let calls: Vec<(Call, bool)> = multi.block_on(async {
            let mut hs = vec![];
            for cl in 0..clients {
                let (dl, clears) = (dl.clone(), clears.clone());
                let mut r = r.fork();
                hs.push(tokio::spawn(async move {
                    let mut out = vec![];
                    for _ in 0..6 {
                        if r.chance(1, 3) {
                            tokio::time::sleep(Duration::from_micros(r.next() % 2000)).await;
                        }
                        if with_clear && r.chance(1, 6) {
                            let s = Instant::now();
                            dl.clear();
                            clears.lock().unwrap().push((s, Instant::now()));
                        }
                        if switching && r.chance(1, 4) {
                            if r.bool() { dl.enable_all_cache(r.bool()) } else { dl.enable_cache(r.bool()) }
                        }
                        let keys: Vec<u32> = (0..r.range(1, 4)).map(|_| r.below(8) as u32).collect();
                        let call = Instant::now();
                        let res = timed(dl.load_many(keys.clone())).await;
                        let stuck = res.is_err();
                        out.push((Call { client: cl, keys, call, ret: Some(Instant::now()), out: res.ok().map(|x| x.map(|m| m.into_iter().collect())), single: false }, stuck));
                    }
                    out
                }));
            }
            let mut all = vec![];
            for h in hs {
                match h.await {
                    Ok(v) => all.extend(v),
                    Err(_) => c.violation("cache-concurrent:caller-crashed", json!({"panic": last_panic()})),
                }
            }
            all
        });
        let log = rec.log.lock().unwrap().clone();
        let by: HashMap<u64, &Batch> = log.iter().map(|b| (b.id, b)).collect();
        let clears = clears.lock().unwrap().clone();
        // A load's values are in the cache before the first caller gets one of them.
        let mut cached_by: HashMap<u64, Instant> = HashMap::new();
        for (k, _) in &calls {
            if let (Some(Ok(m)), Some(ret)) = (&k.out, k.ret) {
                for v in m.values() { let t = cached_by.entry(v.batch).or_insert(ret); *t = (*t).min(ret); }
            }
        }
        for (k, stuck) in &calls {
            let input = || json!({"call": format!("{k:?}"), "loads": show(&log), "clears": clears.len(), "switching": switching});
            c.check(!stuck, "cache-concurrent:left-waiting", input);
            match &k.out {
                Some(Ok(m)) => {
                    let want: BTreeSet<u32> = k.keys.iter().copied().collect();
                    c.check(m.keys().copied().collect::<BTreeSet<_>>() == want, "cache-concurrent:wrong-keys", input);
                    for (key, v) in m {
                        let b = by.get(&v.batch);
                        c.check(v.key == *key && b.is_some_and(|b| b.keys.contains(key) && !b.failed), "cache-concurrent:value-of-another-key", input);
                        c.check(b.is_some_and(|b| b.end.is_some_and(|e| Some(e) <= k.ret)), "cache-concurrent:answer-before-load", input);
                        // a load was cached before a clear that itself finished before the call began
                        if let Some(end) = cached_by.get(&v.batch) {
                            let stale = clears.iter().any(|(s, e)| end < s && *e < k.call);
                            c.check(!stale, "cache-concurrent:served-after-clear", input);
                        }
                    }
                }
                Some(Err(e)) => {
                    c.check(by.get(e).is_some_and(|b| b.failed), "cache-concurrent:error-of-no-load", input);
                }
                None => {}
            }
        }
        if !with_clear && !switching && rec.fail == 0 {
            // once loaded and answered, a key is not loaded again by calls made later
            for k in 0..8u32 {
                let mut done: Option<Instant> = None;
                let mut ls: Vec<&Batch> = log.iter().filter(|b| b.keys.contains(&k)).collect();
                ls.sort_by_key(|b| b.start);
                for (call, _) in &calls {
                    if let Some(Ok(m)) = &call.out {
                        if m.contains_key(&k) {
                            done = Some(done.map_or(call.ret.unwrap(), |d: Instant| d.min(call.ret.unwrap())));
                        }
                    }
                }
                if let Some(d) = done {
                    // calls for k that began before d may still be waiting in a window
                    let late = calls.iter().filter(|(x, _)| x.keys.contains(&k) && x.call < d).map(|(x, _)| x.ret.unwrap()).max().unwrap_or(d);
                    let again = ls.iter().filter(|b| b.start > late).count();
                    c.check(again == 0, "cache-concurrent:loaded-again", || json!({"key": k, "loads": show(&log)}));
                }
            }
        }
        c.count("calls", calls.len() as u64);
        c.count("loads", log.len() as u64);
        c.case(&log.iter().map(|b| b.keys.clone()).collect::<Vec<_>>(), true);
    }
}

/// The window itself: it stays open for the configured delay, a caller arriving inside it shares the
/// load, reaching the maximum dispatches at once, and afterwards nobody waits longer than needed.
fn window_time(c: &C) {
    let rt = rt_multi(4);
    let runs = c.n(24, 240);
    let seed = c.seed;
    let outs = rt.block_on(async {
        let hs: Vec<_> = (0..runs)
            .map(|i| {
                tokio::spawn(async move {
                    let delay = Duration::from_millis(120 + 40 * (i as u64 % 3));
                    let rec = Rec::new(seed + i as u64);
                    let log = rec.log.clone();
                    let same = i % 2 == 0;
                    let dl = Arc::new(DataLoader::new(rec).delay(delay).max_batch_size(if i % 4 == 3 { 1000 } else { 3 }));
                    let call = |k: u32, after: u64| {
                        let dl = dl.clone();
                        async move {
                            tokio::time::sleep(Duration::from_millis(after)).await;
                            let t = Instant::now();
                            let v = timed(dl.load_one(k)).await;
                            (t, Instant::now(), v)
                        }
                    };
                    let a = tokio::spawn(call(1, 0));
                    let b = tokio::spawn(call(if same { 1 } else { 2 }, 30));
                    let (a, b) = (a.await.unwrap(), b.await.unwrap());
                    let log = log.lock().unwrap().clone();
                    (delay, same, a, b, log)
                })
            })
            .collect();
        join_all(hs).await
    });
    let mut best = Duration::MAX;
    for o in outs {
        let Ok((delay, same, a, b, log)) = o else {
            c.violation("window-time:crash", json!({"panic": last_panic()}));
            continue;
        };
        let det = || json!({"delay_ms": delay.as_millis() as u64, "loads": show(&log), "second_call_after_ms": b.0.duration_since(a.0).as_millis() as u64, "same_key": same,
            "first_load_after_ms": log.first().map(|l| l.start.duration_since(a.0).as_millis() as u64)});
        c.check(a.2.is_ok() && b.2.is_ok(), "window-time:caller-left-waiting", det);
        if let Some(l) = log.first() {
            c.check(l.start + Duration::from_millis(2) >= a.0 + delay, "window-time:closed-early", det);
            if b.0 + Duration::from_millis(20) < l.start {
                c.check(log.len() == 1 && l.keys.len() == if same { 1 } else { 2 }, "window-time:not-shared", det);
                c.count("timed_windows", 1);
            }
            best = best.min((a.1 - a.0).saturating_sub(delay));
        }
        c.case(&(same, log.len(), delay), true);
        c.sample(det);
    }
    c.check(best < Duration::from_millis(100), "window-time:every-caller-waits-too-long", || json!({"least_extra_ms": best.as_millis() as u64}));
    // a full batch does not wait for the window
    let waits: Vec<(Duration, bool)> = rt.block_on(async {
        let mut v = vec![];
        for i in 0..c.n(6, 40) {
            let dl = Arc::new(DataLoader::new(Rec::new(seed ^ i as u64)).delay(Duration::from_secs(30)).max_batch_size(3));
            let t = Instant::now();
            let ok = tokio::time::timeout(Duration::from_secs(10), join_all((0..3u32).map(|k| dl.load_one(k)))).await.is_ok();
            v.push((t.elapsed(), ok));
        }
        v
    });
    for (w, ok) in &waits {
        c.check(*ok, "window-time:full-batch-waits-for-the-window", || json!({"waited_ms": w.as_millis() as u64}));
        c.case(&("full", ok), true);
    }
}
