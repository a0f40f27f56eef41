//! C02: in-flight deduplication is single-flight, faithful and cancellation-safe.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::json;
use tailcall::core::data_loader::{Dedupe, DedupeResult};
use tokio::time::Instant;

use crate::common::*;
use crate::mock::{self, URes, Upstream};

#[derive(Clone, Debug)]
struct Comp {
    id: u64,
    key: u32,
    by: usize,
    start: Instant,
    end: Option<Instant>,
    /// dropped or panicked before finishing
    lost: Option<Instant>,
}

#[derive(Clone, Default)]
struct Log(Arc<Mutex<Vec<Comp>>>);

struct Guard {
    log: Log,
    id: u64,
}
impl Log {
    fn start(&self, next: &AtomicU64, key: u32, by: usize) -> Guard {
        let id = next.fetch_add(1, Ordering::SeqCst) + 1;
        self.0.lock().unwrap().push(Comp { id, key, by, start: Instant::now(), end: None, lost: None });
        Guard { log: self.clone(), id }
    }
}
impl Guard {
    fn finish(&self) {
        let mut l = self.log.0.lock().unwrap();
        l.iter_mut().find(|c| c.id == self.id).unwrap().end = Some(Instant::now());
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        let mut l = self.log.0.lock().unwrap_or_else(|e| e.into_inner());
        let c = l.iter_mut().find(|c| c.id == self.id).unwrap();
        if c.end.is_none() {
            c.lost = Some(Instant::now());
        }
    }
}

/// (key, computation id); Err carries the same so that failures are attributable too.
type Out = Result<(u32, u64), (u32, u64)>;

#[derive(Clone, Debug)]
struct Call {
    i: usize,
    key: u32,
    call: Instant,
    ret: Option<Instant>,
    out: Option<Out>,
    cancelled: Option<Instant>,
}

enum D {
    R(DedupeResult<u32, (u32, u64), (u32, u64)>),
    P(Dedupe<u32, Out>),
}
impl D {
    async fn go<F, Fut>(&self, k: &u32, f: F) -> Out
    where
        F: FnOnce() -> Fut,
        Fut: std::future::Future<Output = Out>,
    {
        match self {
            D::R(d) => d.dedupe(k, f).await,
            D::P(d) => d.dedupe(k, f).await,
        }
    }
}

fn show(calls: &[Call], log: &[Comp], t0: Instant) -> serde_json::Value {
    let ms = |t: Instant| t.saturating_duration_since(t0).as_micros() as f64 / 1000.0;
    json!({
        "calls": calls.iter().map(|c| json!({"caller": c.i, "key": c.key, "at": ms(c.call), "ret": c.ret.map(ms), "cancelled": c.cancelled.map(ms), "out": format!("{:?}", c.out)})).collect::<Vec<_>>(),
        "computations": log.iter().map(|c| json!({"id": c.id, "key": c.key, "by": c.by, "start": ms(c.start), "end": c.end.map(ms), "lost": c.lost.map(ms)})).collect::<Vec<_>>(),
    })
}

/// Clauses that hold whatever the timing.
fn judge(c: &C, sec: &str, persist: bool, calls: &[Call], log: &[Comp], t0: Instant) {
    let input = || show(calls, log, t0);
    let mut keys: BTreeMap<u32, Vec<&Comp>> = BTreeMap::new();
    for x in log {
        keys.entry(x.key).or_default().push(x);
    }
    for (k, xs) in keys.iter_mut() {
        xs.sort_by_key(|x| x.start);
        for w in xs.windows(2) {
            let e = w[0].end.or(w[0].lost);
            c.check(e.is_some_and(|e| e <= w[1].start), &format!("{sec}:two-in-flight"), || json!({"key": k, "ids": [w[0].id, w[1].id], "input": input()}));
        }
        if persist {
            let done: Vec<u64> = xs.iter().filter(|x| x.end.is_some()).map(|x| x.id).collect();
            c.check(done.len() <= 1, &format!("{sec}:persisted-computed-again"), || json!({"key": k, "input": input()}));
        }
    }
    for k in calls {
        match &k.out {
            None => {
                c.check(k.cancelled.is_some(), &format!("{sec}:caller-stranded"), || json!({"caller": k.i, "input": input()}));
            }
            Some(o) => {
                let (key, id) = match o { Ok(x) | Err(x) => *x };
                let Some(x) = log.iter().find(|x| x.id == id) else {
                    c.violation(&format!("{sec}:unknown-result"), input());
                    continue;
                };
                c.check(key == k.key && x.key == k.key, &format!("{sec}:result-of-another-key"), || json!({"caller": k.i, "input": input()}));
                c.check(x.end.is_some_and(|e| Some(e) <= k.ret), &format!("{sec}:result-before-end"), || json!({"caller": k.i, "input": input()}));
                if !persist {
                    // delivered to somebody before this caller even asked
                    let delivered = calls.iter().filter(|y| matches!(y.out, Some(Ok(v) | Err(v)) if v.1 == id)).filter_map(|y| y.ret).min();
                    c.check(delivered.is_none_or(|d| d >= k.call), &format!("{sec}:stale-result"), || json!({"caller": k.i, "input": input()}));
                }
            }
        }
    }
}

pub fn run(c: &C) {
    c.rule("one case = one history of callers on one deduplicator (arrivals, completions, cancellations, panics at chosen instants of virtual time, or free-running threads); non-trivial = some caller joined a computation it did not start, or a computation was lost; distinct by the recorded history shape");
    c.section("virtual-time", virtual_time);
    c.section("threads", threads);
    c.section("gateway", gateway);
    c.floor("joined", 500);
    c.floor("lost_computations", 50);
    c.floor("takeovers", 20);
    c.floor("gateway_joined", 40);
}

fn virtual_time(c: &C) {
    let mut r = c.rng("vt");
    for n in 0..c.n(400, 6000) {
        let persist = r.bool();
        let d = Arc::new(if r.bool() { D::R(DedupeResult::new(persist)) } else { D::P(Dedupe::new(*r.pick(&[1usize, 2, 16]), persist)) });
        let wide = n % 20 == 11;
        let nk = if wide { 1 } else { r.range(1, 3) };
        let ncall = if wide { r.range(40, 300) } else { r.range(2, 14) };
        let panics = r.chance(1, 4);
        let cancels = r.chance(2, 3);
        let log = Log::default();
        let next = Arc::new(AtomicU64::new(0));
        // arrivals at 0 mod 4, cancellations at 1 mod 4, durations 2 mod 4: no ties between kinds
        let plan: Vec<(u32, u64, u64, Option<u64>, bool, bool)> = (0..ncall)
            .map(|_| {
                let at = 4 * r.below(12) as u64;
                let dur = 4 * r.below(10) as u64 + 2;
                let cancel = (cancels && r.chance(2, 5)).then(|| at + 4 * r.below(8) as u64 + 1);
                (r.below(nk) as u32, at, dur, cancel, panics && r.chance(1, 4), r.chance(1, 4))
            })
            .collect();
        let rt = rt_paused();
        let t0 = rt.block_on(async { Instant::now() });
        let calls: Vec<Call> = rt.block_on(async {
            let mut hs = vec![];
            for (i, p) in plan.iter().cloned().enumerate() {
                let (d, log, next) = (d.clone(), log.clone(), next.clone());
                let rec: Arc<Mutex<Call>> = Arc::new(Mutex::new(Call { i, key: p.0, call: t0, ret: None, out: None, cancelled: None }));
                let rec2 = rec.clone();
                let h = tokio::spawn(async move {
                    tokio::time::sleep_until(t0 + Duration::from_millis(p.1)).await;
                    rec2.lock().unwrap().call = Instant::now();
                    let out = d
                        .go(&p.0, || async {
                            let g = log.start(&next, p.0, i);
                            tokio::time::sleep(Duration::from_millis(p.2)).await;
                            if p.4 {
                                panic!("planned");
                            }
                            g.finish();
                            if p.5 { Err((p.0, g.id)) } else { Ok((p.0, g.id)) }
                        })
                        .await;
                    let mut rec = rec2.lock().unwrap();
                    rec.ret = Some(Instant::now());
                    rec.out = Some(out);
                });
                if let Some(at) = p.3 {
                    let ab = h.abort_handle();
                    let rec = rec.clone();
                    tokio::spawn(async move {
                        tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
                        let mut x = rec.lock().unwrap();
                        if x.out.is_none() {
                            x.cancelled = Some(Instant::now());
                            ab.abort();
                        }
                    });
                }
                hs.push((h, rec, p.4));
            }
            let mut all = vec![];
            for (mut h, rec, _) in hs {
                // far beyond every planned instant: still waiting means waiting for ever
                let r = tokio::time::timeout(Duration::from_secs(3600), &mut h).await;
                let mut k = rec.lock().unwrap().clone();
                match r {
                    Ok(Err(e)) if e.is_panic() => k.cancelled = Some(Instant::now()),
                    Err(_) => h.abort(),
                    _ => {}
                }
                all.push(k);
            }
            all
        });
        let log = log.0.lock().unwrap().clone();
        judge(c, "virtual", persist, &calls, &log, t0);
        // clauses that need exact time
        for k in &calls {
            let input = || json!({"persist": persist, "caller": k.i, "history": show(&calls, &log, t0)});
            let Some(o) = &k.out else { continue };
            let id = match o { Ok(x) | Err(x) => x.1 };
            let Some(x) = log.iter().find(|x| x.id == id) else { continue };
            let e = x.end.unwrap();
            c.check(k.ret == Some(e.max(k.call)), "virtual:late-delivery", input);
            // joined exactly the computation in flight at arrival, when it completed
            if let Some(f) = log.iter().find(|f| f.key == k.key && f.start < k.call && f.end.is_some_and(|e| e > k.call)) {
                c.check(f.id == id, "virtual:did-not-join", input);
            }
            if x.by != k.i {
                c.count("joined", 1);
            }
        }
        // a lost computation is taken over at once by somebody still interested
        for x in log.iter().filter(|x| x.lost.is_some()) {
            c.count("lost_computations", 1);
            let at = x.lost.unwrap();
            let waiting = calls.iter().any(|k| k.key == x.key && k.i != x.by && k.call < at && k.out.is_some() && k.ret.unwrap() > at);
            if waiting {
                c.count("takeovers", 1);
                c.check(log.iter().any(|y| y.key == x.key && y.start == at && y.id != x.id), "virtual:no-takeover", || show(&calls, &log, t0));
            }
        }
        c.case(&show(&calls, &log, t0).to_string(), log.len() < calls.len());
        if n < 2 {
            c.sample(|| show(&calls, &log, t0));
        }
    }
}

fn threads(c: &C) {
    let mut r = c.rng("th");
    let rt = rt_multi(6);
    for n in 0..c.n(40, 600) {
        let persist = r.bool();
        let d = Arc::new(if r.bool() { D::R(DedupeResult::new(persist)) } else { D::P(Dedupe::new(1, persist)) });
        let log = Log::default();
        let next = Arc::new(AtomicU64::new(0));
        let nk = r.range(1, 4);
        let clients = if n % 12 == 5 { r.range(40, 90) } else { r.range(4, 24) };
        let per = if n % 12 == 5 { 3 } else { r.range(3, 12) };
        let aborts = r.bool();
        let t0 = rt.block_on(async { Instant::now() });
        let calls: Vec<Call> = rt.block_on(async {
            let mut hs = vec![];
            for i in 0..clients {
                let (d, log, next) = (d.clone(), log.clone(), next.clone());
                let mut r = r.fork();
                hs.push(tokio::spawn(async move {
                    let mut out = vec![];
                    for _ in 0..per {
                        let key = r.below(nk) as u32;
                        let (d2, log2, next2) = (d.clone(), log.clone(), next.clone());
                        let spin = r.below(4);
                        let us = r.next() % 400;
                        let bad = r.chance(1, 4);
                        let call = Instant::now();
                        let mut h = tokio::spawn(async move {
                            let o = d2
                                .go(&key, || async move {
                                    let g = log2.start(&next2, key, i);
                                    match spin {
                                        0 => {}
                                        1 => tokio::task::yield_now().await,
                                        _ => tokio::time::sleep(Duration::from_micros(us)).await,
                                    }
                                    g.finish();
                                    if bad { Err((key, g.id)) } else { Ok((key, g.id)) }
                                })
                                .await;
                            (o, Instant::now())
                        });
                        let mut k = Call { i, key, call, ret: None, out: None, cancelled: None };
                        if aborts && r.chance(1, 3) {
                            if r.bool() {
                                tokio::time::sleep(Duration::from_micros(r.next() % 800)).await;
                            } else {
                                tokio::task::yield_now().await;
                            }
                            h.abort();
                        }
                        match tokio::time::timeout(Duration::from_secs(20), &mut h).await {
                            Ok(Ok((o, t))) => {
                                k.out = Some(o);
                                k.ret = Some(t);
                            }
                            Ok(Err(_)) => k.cancelled = Some(Instant::now()),
                            Err(_) => {}
                        }
                        out.push(k);
                    }
                    out
                }));
            }
            let mut all = vec![];
            for h in hs {
                all.extend(h.await.unwrap());
            }
            all
        });
        let log = log.0.lock().unwrap().clone();
        judge(c, "threads", persist, &calls, &log, t0);
        let joined = calls.iter().filter(|k| k.out.as_ref().is_some_and(|o| { let id = match o { Ok(x) | Err(x) => x.1 }; log.iter().any(|x| x.id == id && x.by != k.i) })).count();
        c.count("joined", joined as u64);
        c.count("lost_computations", log.iter().filter(|x| x.lost.is_some()).count() as u64);
        c.case(&(n, log.len(), joined), joined > 0);
    }
}

/// The same guarantee seen through the running gateway.
fn gateway(c: &C) {
    const SDL: &str = r#"
schema @server(port: 8000) { query: Query mutation: Mutation }
type Query {
  u(id: Int!): U @http(url: "http://up/u", query: [{key: "id", value: "{{.args.id}}"}], dedupe: true)
  n(id: Int!): U @http(url: "http://up/n", query: [{key: "id", value: "{{.args.id}}"}])
}
type Mutation { m(id: Int!): U @http(url: "http://up/m", method: POST, body: "{{.args.id}}", dedupe: true) }
type U { id: Int n: Int }
"#;
    let mut r = c.rng("gw");
    for n in 0..c.n(60, 600) {
        let rt = rt_paused();
        rt.block_on(async {
            let ctr = Arc::new(AtomicU64::new(0));
            let ctr2 = ctr.clone();
            let fails = r.chance(1, 4);
            let up = Upstream::new(move |q| {
                let n = ctr2.fetch_add(1, Ordering::SeqCst) + 1;
                let id: i64 = q.q("id").unwrap_or_else(|| q.body_str()).parse().unwrap_or(-1);
                if fails && n % 5 == 0 {
                    return URes::fail(&format!("boom-{id}-{n}")).delay_ms(10);
                }
                URes::json(json!({"id": id, "n": n})).delay_ms(10)
            });
            let app = match mock::app(SDL, mock::runtime(up.clone())) {
                Ok(a) => a,
                Err(e) => return c.violation("gateway:start", json!(e)),
            };
            let t0 = Instant::now();
            let mut hs = vec![];
            let plan: Vec<(usize, i64, u64, Option<u64>)> = (0..r.range(3, 14)).map(|_| (r.below(if n % 3 == 0 { 3 } else { 1 }), r.below(3) as i64, 4 * r.below(5) as u64, r.chance(1, 16).then(|| 4 * r.below(8) as u64 + 1))).collect();
            for (i, (kind, id, at, cancel)) in plan.clone().into_iter().enumerate() {
                let app = app.clone();
                let h = tokio::spawn(async move {
                    tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
                    let q = match kind {
                        0 => format!("{{ u(id: {id}) {{ id n }} }}"),
                        1 => format!("{{ n(id: {id}) {{ id n }} }}"),
                        _ => format!("mutation {{ m(id: {id}) {{ id n }} }}"),
                    };
                    let r = mock::query(&app, &q).await;
                    (r, Instant::now())
                });
                if let Some(at) = cancel {
                    let a = h.abort_handle();
                    tokio::spawn(async move {
                        tokio::time::sleep_until(t0 + Duration::from_millis(at)).await;
                        a.abort();
                    });
                }
                hs.push((i, kind, id, at, cancel, h));
            }
            let mut shown = vec![];
            for (i, kind, id, at, cancel, mut h) in hs {
                let got = tokio::time::timeout(Duration::from_secs(600), &mut h).await;
                match got {
                    Err(_) => c.violation("gateway:stranded", json!({"plan": plan, "request": i})),
                    Ok(Err(e)) => {
                        c.check(e.is_cancelled() && cancel.is_some(), "gateway:crashed", || json!({"plan": plan, "request": i, "panic": last_panic()}));
                    }
                    Ok(Ok((res, t))) => {
                        let f = ["u", "n", "m"][kind];
                        let d = res.data();
                        let v = &d[f];
                        let e = res.errors();
                        let done = (t - t0).as_millis() as u64;
                        shown.push(json!({"request": i, "kind": f, "id": id, "at": at, "done": done, "answer": v}));
                        if e.is_empty() {
                            c.check(v["id"] == json!(id), "gateway:result-of-another-key", || json!({"plan": plan, "request": i, "body": res.json()}));
                            // freshness: the upstream call behind the answer ended no earlier than the request arrived
                            c.check(done >= at + if kind == 0 { 1 } else { 10 }, "gateway:stale", || json!({"plan": plan, "request": i, "body": res.json(), "done": done}));
                        } else {
                            let m = e[0]["message"].as_str().unwrap_or("").to_string();
                            c.check(m.contains(&format!("boom-{id}-")), "gateway:error-of-another-key", || json!({"plan": plan, "request": i, "body": res.json()}));
                        }
                    }
                }
            }
            // single flight at the upstream: per deduplicated id, calls never overlap
            let log = up.take();
            let mut per: BTreeMap<String, Vec<Instant>> = BTreeMap::new();
            for q in log.iter().filter(|q| q.path() == "/u") {
                per.entry(q.q("id").unwrap_or_default()).or_default().push(q.at);
            }
            let any_cancel = plan.iter().any(|p| p.3.is_some());
            for (id, ts) in &per {
                for w in ts.windows(2) {
                    c.check(any_cancel || w[1] - w[0] >= Duration::from_millis(10), "gateway:two-in-flight", || json!({"plan": plan, "id": id, "requests": shown}));
                }
            }
            if !any_cancel {
                let nq = plan.iter().filter(|p| p.0 == 1).count();
                let _ = nq;
                let us = plan.iter().filter(|p| p.0 == 0).count() as u64;
                let calls = per.values().map(|v| v.len() as u64).sum::<u64>();
                c.check(calls <= us, "gateway:too-many-calls", || json!({"plan": plan}));
                c.count("gateway_joined", us - calls.min(us));
                // mutations are never merged
                let ms = plan.iter().filter(|p| p.0 == 2).count();
                c.check(log.iter().filter(|q| q.path() == "/m").count() == ms, "gateway:mutation-merged", || json!({"plan": plan}));
            }
            c.case(&plan, true);
            if n < 1 {
                c.sample(|| json!(shown));
            }
        });
    }
}
