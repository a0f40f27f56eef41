//! C04: the upstream HTTP cache stores and returns responses faithfully.
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

use http_cache::HttpVersion;
use http_cache_reqwest::{CacheManager, HttpResponse};
use http_cache_semantics::CachePolicy;
use serde_json::{json, Value};
use tailcall::cli::runtime::NativeHttp;
use tailcall::core::blueprint::Upstream as UpstreamCfg;
use tailcall::core::HttpIO;
use tailcall_http_cache::HttpCacheManager;

use crate::common::*;
use crate::mock::{URes, Upstream, Wire};

pub fn run(c: &C) {
    c.rule("one case = one read of a cache history (puts, overwrites, deletes, clears over a small key set) or one request of a client history against a recording server; non-trivial = the key or URL had been stored before; distinct by (history, position)");
    c.assume("freshness lifetimes of at least 60 s do not elapse during a history and those of 0 s have always elapsed");
    c.section("manager", manager);
    c.section("manager-threads", manager_threads);
    c.section("client", client);
    c.section("client-bound", client_bound);
    c.section("transport", transport);
    c.floor("stored_reads", 300);
    c.floor("client_reads", 150);
}

fn gen_response(r: &mut Rng, id: u64) -> HttpResponse {
    let mut headers = HashMap::new();
    for k in r.subset(&["content-type", "etag", "x-a", "x-b", "set-cookie", "age", "date", "cache-control", "vary"], 1, 2) {
        headers.insert(k.to_string(), r.pick(&["", "a", "max-age=5", "text/plain; charset=utf-8", "é", "W/\"1\"", "a, b"]).to_string());
    }
    let mut body = format!("{id}:").into_bytes();
    for _ in 0..r.below(40) {
        body.push(r.next() as u8);
    }
    if r.chance(1, 10) {
        body.clear();
    }
    // sizes beyond what one buffer or one packet holds
    if r.chance(1, 40) {
        let n = *r.pick(&[1000usize, 8192, 65_535, 65_536, 70_000, 300_000]);
        if !body.is_empty() { let b = r.next() as u8; body.resize(n, b); }
        for i in 0..r.below(40) { headers.insert(format!("x-many-{i}"), "v".repeat(r.below(300))); }
    }
    headers.insert("x-id".into(), id.to_string());
    HttpResponse {
        body,
        headers,
        status: *r.pick(&[200u16, 201, 203, 204, 206, 300, 301, 304, 404, 410, 500, 503]),
        url: url::Url::parse(*r.pick(&["http://h/", "http://h:8080/a/b?c=d&e=%20", "https://u:p@h/x#f", "http://[::1]/é"])).unwrap(),
        version: *r.pick(&[HttpVersion::Http09, HttpVersion::Http10, HttpVersion::Http11, HttpVersion::H2, HttpVersion::H3]),
    }
}

fn gen_policy(r: &mut Rng) -> CachePolicy {
    let mut rq = http::Request::builder().method(*r.pick(&["GET", "HEAD", "POST"])).uri(*r.pick(&["http://h/a", "http://h/b?x=1"]));
    if r.bool() {
        rq = rq.header("accept", *r.pick(&["a", "b"]));
    }
    let mut rs = http::Response::builder().status(*r.pick(&[200u16, 404, 301]));
    rs = rs.header("cache-control", *r.pick(&["max-age=0", "max-age=60", "no-store", "private, max-age=9", "s-maxage=5, max-age=1", "no-cache", "immutable"]));
    if r.bool() {
        rs = rs.header("vary", "accept");
    }
    if r.bool() {
        rs = rs.header("etag", *r.pick(&["\"1\"", "W/\"2\""]));
    }
    CachePolicy::new(&rq.body(()).unwrap(), &rs.body(()).unwrap())
}

fn show(r: &HttpResponse, p: &CachePolicy) -> Value {
    let h: BTreeMap<_, _> = r.headers.iter().collect();
    json!({"status": r.status, "headers": h, "version": format!("{:?}", r.version), "url": r.url.as_str(), "body": if r.body.len() < 400 { json!(r.body) } else { json!([r.body.len(), h64(&r.body)]) }, "policy": serde_json::to_value(p).unwrap_or_default()})
}

const KEYS: &[&str] = &["GET:http://h/a", "GET:http://h/b", "get:http://h/a", "GET:http://h/a ", "", "GET:http://h/a?x=1", "k", "K", "ключ", "POST:http://h/a"];

fn manager(c: &C) {
    let rt = rt_single();
    let mut r = c.rng("mgr");
    for n in 0..c.n(150, 2500) {
        let cap = *r.pick(&[1u64, 2, 3, 5, 10, 42, 300]);
        let m = if cap == 42 && r.bool() { HttpCacheManager::default() } else { HttpCacheManager::new(cap) };
        let mut model: BTreeMap<&str, Value> = BTreeMap::new();
        // long addresses, and many of them
        let long: Vec<String> = (0..if r.chance(1, 15) { 120 } else { 3 }).map(|i| format!("GET:http://h/{}?{i}={}", "seg/".repeat(r.below(60)), "x".repeat(r.below(3) * r.below(2000)))).collect();
        let keys: Vec<&str> = KEYS.iter().copied().chain(long.iter().map(|s| s.as_str())).collect();
        let steps = if keys.len() > 100 { 180 } else { r.range(5, 40) as usize };
        let mut evictable = false;
        let mut trace = vec![];
        rt.block_on(async {
            for s in 0..steps {
                let k = *r.pick(&keys);
                match r.below(8) {
                    0..=2 => {
                        let resp = gen_response(&mut r, (n as u64) << 20 | s as u64);
                        let pol = gen_policy(&mut r);
                        let want = show(&resp, &pol);
                        trace.push(json!(["put", k, resp.status]));
                        match m.put(k.to_string(), resp, pol.clone()).await {
                            Ok(back) => {
                                c.check(show(&back, &pol) == want, "manager:put-returns-another-response", || json!({"trace": trace, "want": want, "got": show(&back, &pol)}));
                            }
                            Err(e) => c.violation("manager:put-failed", json!({"trace": trace, "error": e.to_string()})),
                        }
                        model.insert(k, want);
                        if model.len() as u64 > cap {
                            evictable = true;
                        }
                        // what was just stored is there
                        match m.get(k).await {
                            Ok(Some((b, p))) => {
                                c.check(show(&b, &p) == model[k], "manager:stored-and-returned-differ", || json!({"trace": trace, "want": model[k], "got": show(&b, &p)}));
                            }
                            other => c.violation("manager:just-stored-is-missing", json!({"trace": trace, "cap": cap, "err": other.is_err()})),
                        }
                    }
                    3 => {
                        trace.push(json!(["delete", k]));
                        if m.delete(k).await.is_err() {
                            c.violation("manager:delete-failed", json!(trace));
                        }
                        model.remove(k);
                    }
                    4 if r.chance(1, 6) => {
                        trace.push(json!(["clear"]));
                        if m.clear().await.is_err() {
                            c.violation("manager:clear-failed", json!(trace));
                        }
                        model.clear();
                        evictable = false;
                    }
                    _ => {
                        trace.push(json!(["get", k]));
                        let got = m.get(k).await;
                        let det = |g: Value| json!({"trace": trace, "cap": cap, "want": model.get(k), "got": g});
                        match (got, model.get(k)) {
                            (Err(e), _) => c.violation("manager:read-failed", det(json!(e.to_string()))),
                            (Ok(None), None) => {}
                            (Ok(None), Some(_)) => {
                                c.check(evictable, "manager:stored-entry-lost", || det(Value::Null));
                            }
                            (Ok(Some((b, p))), None) => c.violation("manager:value-for-a-key-not-stored", det(show(&b, &p))),
                            (Ok(Some((b, p))), Some(w)) => {
                                let g = show(&b, &p);
                                c.check(&g == w, "manager:stored-and-returned-differ", || det(g.clone()));
                                c.count("stored_reads", 1);
                            }
                        }
                        c.case(&trace_key(&trace), model.contains_key(k));
                    }
                }
                let held = m.cache.iter().count() as u64;
                c.check(held <= cap, "manager:more-entries-than-configured", || json!({"cap": cap, "held": held, "trace": trace}));
                if !evictable {
                    c.check(held as usize == model.len(), "manager:wrong-number-of-entries", || json!({"cap": cap, "held": held, "live": model.len(), "trace": trace}));
                }
                c.max("largest_held", held);
            }
        });
        c.sample(|| json!({"cap": cap, "trace": trace}));
    }
}

fn trace_key(t: &[Value]) -> String {
    json!(t).to_string()
}

/// Per-key values from concurrent writers: a read returns a value whose store had begun and that was
/// not wholly replaced or deleted before the read began.
fn manager_threads(c: &C) {
    let mut r = c.rng("mthr");
    for round in 0..c.n(10, 120) {
        let rt = rt_multi(4);
        let m = Arc::new(HttpCacheManager::new(64));
        let clock = Arc::new(AtomicU64::new(1));
        // (key, id or 0 for delete, start, end)
        let log: Arc<Mutex<Vec<(usize, u64, u64, u64)>>> = Default::default();
        let reads: Arc<Mutex<Vec<(usize, Option<u64>, bool, u64, u64)>>> = Default::default();
        let seeds: Vec<u64> = (0..6).map(|_| r.next()).collect();
        rt.block_on(async {
            let hs: Vec<_> = seeds.into_iter().enumerate().map(|(t, seed)| {
                let (m, clock, log, reads) = (m.clone(), clock.clone(), log.clone(), reads.clone());
                tokio::spawn(async move {
                    let mut r = Rng::new(seed);
                    for s in 0..40u64 {
                        let k = r.below(3);
                        let key = KEYS[k];
                        match r.below(5) {
                            0..=1 => {
                                let id = (t as u64 + 1) << 32 | s;
                                let resp = gen_response(&mut r, id);
                                let pol = gen_policy(&mut r);
                                let a = clock.fetch_add(1, Ordering::SeqCst);
                                m.put(key.into(), resp, pol).await.ok();
                                let b = clock.fetch_add(1, Ordering::SeqCst);
                                log.lock().unwrap().push((k, id, a, b));
                            }
                            2 if r.chance(1, 3) => {
                                let a = clock.fetch_add(1, Ordering::SeqCst);
                                m.delete(key).await.ok();
                                let b = clock.fetch_add(1, Ordering::SeqCst);
                                log.lock().unwrap().push((k, 0, a, b));
                            }
                            _ => {
                                let a = clock.fetch_add(1, Ordering::SeqCst);
                                let got = m.get(key).await.ok().flatten();
                                let b = clock.fetch_add(1, Ordering::SeqCst);
                                let id = got.as_ref().and_then(|g| g.0.headers.get("x-id")).and_then(|x| x.parse().ok());
                                let torn = got.as_ref().is_some_and(|g| !g.0.body.is_empty() && !g.0.body.starts_with(format!("{}:", id.unwrap_or(0)).as_bytes()));
                                reads.lock().unwrap().push((k, id, torn, a, b));
                            }
                        }
                        if r.chance(1, 4) {
                            tokio::task::yield_now().await;
                        }
                    }
                })
            }).collect();
            for h in hs {
                if h.await.is_err() {
                    c.violation("manager-threads:crash", json!({"panic": last_panic()}));
                }
            }
        });
        let log = log.lock().unwrap().clone();
        for (k, id, torn, a, b) in reads.lock().unwrap().iter() {
            let cand = |w: &(usize, u64, u64, u64)| w.0 == *k && w.2 < *b && !log.iter().any(|o| o.0 == *k && o.2 > w.3 && o.3 < *a);
            let none_ok = !log.iter().any(|w| w.0 == *k && w.1 != 0 && w.3 < *a) || log.iter().any(|w| w.1 == 0 && cand(w))
                // never stored before the read, or deleted
                ;
            let ok = match id {
                None => none_ok,
                Some(id) => log.iter().any(|w| w.1 == *id && cand(w)),
            };
            c.check(ok && !torn, "manager-threads:impossible-read", || json!({"key": KEYS[*k], "read": id, "torn": torn, "interval": [a, b], "writes": log.iter().filter(|w| w.0 == *k).map(|w| json!([w.1, w.2, w.3])).collect::<Vec<_>>()}));
            c.case(&(round, a, b, id), id.is_some());
            if id.is_some() { c.count("stored_reads", 1); }
        }
    }
}

fn client_for(cache: u64) -> NativeHttp {
    let mut u = UpstreamCfg::default();
    u.http_cache = cache;
    NativeHttp::init(&u, &Default::default())
}

async fn fetch(cl: &NativeHttp, method: &str, url: &str, headers: &[(&str, &str)], body: Option<Vec<u8>>) -> Result<(u16, BTreeMap<String, Vec<String>>, Vec<u8>), String> {
    let mut rq = reqwest::Request::new(method.parse().unwrap(), url.parse().unwrap());
    for (k, v) in headers {
        rq.headers_mut().append(reqwest::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
    }
    if let Some(b) = body {
        *rq.body_mut() = Some(b.into());
    }
    let res = cl.execute(rq).await.map_err(|e| format!("{e:#}"))?;
    let mut h: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in res.headers.iter() {
        h.entry(k.as_str().to_string()).or_default().push(String::from_utf8_lossy(v.as_bytes()).into_owned());
    }
    Ok((res.status.as_u16(), h, res.body.to_vec()))
}

/// What the server's own caching policy allows.
#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    Fresh,
    Never,
    Revalidate,
    ByAccept,
}

const PATHS: &[(&str, &str, P)] = &[
    ("/fresh", "max-age=600", P::Fresh),
    ("/fresh2", "public, max-age=86400", P::Fresh),
    ("/smax", "s-maxage=600, max-age=0", P::Fresh),
    ("/nostore", "no-store", P::Never),
    ("/nostore2", "no-store, max-age=600", P::Never),
    ("/none", "", P::Never),
    ("/zero", "max-age=0", P::Revalidate),
    ("/nocache", "no-cache, max-age=600", P::Revalidate),
    ("/private", "private, max-age=600", P::Never),
    ("/vary", "max-age=600", P::ByAccept),
];

fn client(c: &C) {
    let rt = rt_multi(2);
    let mut r = c.rng("client");
    rt.block_on(async {
        for h in 0..c.n(48, 400) {
            let ctr = Arc::new(AtomicU64::new(0));
            let c2 = ctr.clone();
            let up = Upstream::new(move |q| {
                let Some((_, cc, p)) = PATHS.iter().find(|p| p.0 == q.path()) else { return URes::status(404) };
                let n = c2.fetch_add(1, Ordering::SeqCst) + 1;
                if *p == P::Revalidate && q.header("if-none-match").is_some() {
                    return URes::status(304).header("etag", "\"v1\"").header("cache-control", cc);
                }
                let mut res = URes::bytes(format!("{}|{}|{}|{}|{}|{n}", q.method, q.path(), q.url.query().unwrap_or(""), q.header("accept").unwrap_or(""), q.body_str()));
                if !cc.is_empty() { res = res.header("cache-control", cc); }
                if *p == P::Revalidate { res = res.header("etag", "\"v1\""); }
                if *p == P::ByAccept { res = res.header("vary", "accept"); }
                res.header("x-n", &n.to_string())
            });
            let w = Wire::start(up.clone());
            let cl = client_for(if h % 6 == 5 { 0 } else { 64 });
            let cached = h % 6 != 5;
            // identity -> sequence number last answered
            let mut last: BTreeMap<String, u64> = BTreeMap::new();
            let mut trace = vec![];
            for _ in 0..r.range(6, 20) {
                let (path, _, pol) = *r.pick(PATHS);
                let qs = *r.pick(&["", "?a=1", "?a=2"]);
                let method = if r.chance(1, 6) { "POST" } else { "GET" };
                let acc = *r.pick(&["text/a", "text/b"]);
                let body = (method == "POST").then(|| r.pick(&["x", "y"]).to_string());
                let before = ctr.load(Ordering::SeqCst);
                let seen0 = up.seen();
                let res = fetch(&cl, method, &w.url(&format!("{path}{qs}")), &[("accept", acc)], body.clone().map(|b| b.into_bytes())).await;
                let fresh = ctr.load(Ordering::SeqCst) - before;
                let reached = up.seen() - seen0;
                trace.push(json!([method, path, qs, acc, reached]));
                let det = || json!({"trace": trace, "cached_client": cached, "result": format!("{res:?}")});
                let Ok((st, hs, b)) = &res else {
                    c.violation("client:request-failed", det());
                    continue;
                };
                let text = String::from_utf8_lossy(b).into_owned();
                let parts: Vec<&str> = text.split('|').collect();
                let id = format!("{method} {path}{qs}");
                if parts.len() != 6 || *st != 200 {
                    c.violation("client:response-altered", det());
                    continue;
                }
                let n: u64 = parts[5].parse().unwrap_or(0);
                c.check(hs.get("x-n").map(|v| v.as_slice()) == Some(&[n.to_string()]), "client:headers-and-body-of-different-responses", det);
                // an answer is for this method, URL and body
                let same = parts[0] == method && parts[1] == path && parts[2] == qs.trim_start_matches('?') && parts[4] == body.clone().unwrap_or_default();
                c.check(same, "client:answer-to-another-request", det);
                if pol == P::ByAccept {
                    c.check(parts[3] == acc, "client:varying-response-shared", det);
                }
                let reused = n <= before;
                if !cached || method == "POST" || pol == P::Never {
                    c.check(!reused && reached == 1, "client:reused-what-must-not-be", det);
                } else if pol == P::Revalidate {
                    c.check(reached == 1, "client:not-revalidated", det);
                    if reused { c.check(last.get(&id) == Some(&n), "client:stale-response", det); c.count("revalidated", 1); }
                } else if pol == P::Fresh {
                    match last.get(&id) {
                        Some(l) => { c.check(reused && reached == 0 && l == &n, "client:fresh-response-not-reused", det); c.count("reused", 1); }
                        None => { c.check(!reused && fresh == 1, "client:answer-from-nowhere", det); }
                    }
                }
                c.count("client_reads", 1);
                c.case(&trace_key(&trace), last.contains_key(&id));
                if method == "GET" { last.insert(id, n); } else {
                    // a successful unsafe request invalidates what is stored for the URL
                    last.remove(&format!("GET {path}{qs}"));
                    if cached {
                        let q = format!("{path}{qs}");
                        // learn whether it was invalidated: the next GET may go either way
                        let before = ctr.load(Ordering::SeqCst);
                        if let Ok((_, _, b)) = fetch(&cl, "GET", &w.url(&q), &[("accept", acc)], None).await {
                            let t = String::from_utf8_lossy(&b).into_owned();
                            let n: u64 = t.rsplit('|').next().and_then(|x| x.parse().ok()).unwrap_or(0);
                            let _ = before;
                            last.insert(format!("GET {q}"), n);
                        }
                    }
                }
            }
            c.sample(|| json!(trace));
        }
    });
}

/// At most the configured number of responses is kept.
fn client_bound(c: &C) {
    let rt = rt_multi(2);
    rt.block_on(async {
        for cap in [1u64, 2, 3, 5, 8] {
            let ctr = Arc::new(AtomicU64::new(0));
            let c2 = ctr.clone();
            let up = Upstream::new(move |q| {
                c2.fetch_add(1, Ordering::SeqCst);
                URes::bytes(q.path().to_string()).header("cache-control", "max-age=600")
            });
            let w = Wire::start(up);
            let cl = client_for(cap);
            for i in 0..cap + 4 {
                fetch(&cl, "GET", &w.url(&format!("/u{i}")), &[], None).await.ok();
            }
            let first = ctr.load(Ordering::SeqCst);
            let mut hits = 0;
            for i in 0..cap + 4 {
                let b = ctr.load(Ordering::SeqCst);
                let r = fetch(&cl, "GET", &w.url(&format!("/u{i}")), &[], None).await;
                c.check(r.as_ref().is_ok_and(|r| r.2 == format!("/u{i}").into_bytes()), "client-bound:wrong-response", || json!(format!("{r:?}")));
                if ctr.load(Ordering::SeqCst) == b { hits += 1; }
            }
            c.check(first == cap + 4, "client-bound:first-requests-answered-from-nowhere", || json!({"cap": cap, "requests": cap + 4, "reached": first}));
            c.check(hits <= cap, "client-bound:more-kept-than-configured", || json!({"cap": cap, "hits": hits}));
            // a working set within the bound is kept
            for i in 0..cap { fetch(&cl, "GET", &w.url(&format!("/w{i}")), &[], None).await.ok(); }
            let b = ctr.load(Ordering::SeqCst);
            for i in 0..cap { fetch(&cl, "GET", &w.url(&format!("/w{i}")), &[], None).await.ok(); }
            let refetched = ctr.load(Ordering::SeqCst) - b;
            c.check(refetched == 0, "client-bound:working-set-not-kept", || json!({"cap": cap, "refetched": refetched}));
            c.case(&cap, true);
        }
    });
}

/// The native client puts exactly the request on the wire and returns exactly the response.
fn transport(c: &C) {
    let rt = rt_multi(2);
    let mut r = c.rng("tr");
    rt.block_on(async {
        let plan: Arc<Mutex<Option<URes>>> = Default::default();
        let p2 = plan.clone();
        let up = Upstream::new(move |_| p2.lock().unwrap().clone().unwrap());
        let w = Wire::start(up.clone());
        let mut ucfg = UpstreamCfg::default();
        ucfg.user_agent = "agent/7".into();
        let plain = NativeHttp::init(&ucfg, &Default::default());
        ucfg.http_cache = 8;
        let cached = NativeHttp::init(&ucfg, &Default::default());
        for i in 0..c.n(80, 800) {
            let cl = if r.bool() { &plain } else { &cached };
            let method = *r.pick(&["GET", "POST", "PUT", "PATCH", "DELETE"]);
            let status = *r.pick(&[200u16, 200, 200, 201, 202, 400, 401, 404, 429, 500, 503]);
            let body: Vec<u8> = (0..r.below(60)).map(|_| r.next() as u8).collect();
            let mut res = URes::bytes(body.clone()).with_status(status).header("x-r", "e; v").header("x-i", &i.to_string());
            if r.bool() { res = res.header("set-cookie", "a=1").header("set-cookie", "b=2"); }
            let cookies = res.headers.iter().filter(|h| h.0 == "set-cookie").count();
            *plan.lock().unwrap() = Some(res);
            let path = r.pick(&["/a", "/a%20b/c", "/a?x=1&y=%26&x=2", "/?q=%C3%A9", "//d", "/a/?"]).to_string();
            let rb: Option<Vec<u8>> = (method != "GET").then(|| (0..r.below(30)).map(|_| r.next() as u8).collect());
            let hv = r.string(&["a", "B", " x", ";", "\"", ","], 6).trim().to_string();
            up.take();
            let got = fetch(cl, method, &w.url(&path), &[("x-h", &hv), ("x-m", "1"), ("x-m", "2")], rb.clone()).await;
            let log = up.take();
            let det = || json!({"method": method, "path": path, "status": status, "sent": log.iter().map(|l| l.show()).collect::<Vec<_>>(), "got": format!("{got:?}")});
            if !c.check(log.len() == 1, "transport:not-exactly-one-request", det) { continue; }
            let q = &log[0];
            let ok = q.method == method && q.url.as_str() == url::Url::parse(&w.url(&path)).unwrap().as_str() && q.header("x-h") == Some(hv.as_str())
                && q.headers.iter().filter(|h| h.0 == "x-m").map(|h| h.1.as_str()).collect::<Vec<_>>() == ["1", "2"] && q.body == rb.clone().unwrap_or_default()
                && q.header("user-agent") == Some("agent/7");
            c.check(ok, "transport:request-altered", det);
            match &got {
                Ok((st, hs, b)) => {
                    c.check(status < 400 && *st == status && *b == body && hs.get("x-i") == Some(&vec![i.to_string()]) && hs.get("x-r") == Some(&vec!["e; v".to_string()])
                        && hs.get("set-cookie").map(|v| v.len()).unwrap_or(0) == if std::ptr::eq(cl, &plain) { cookies } else { hs.get("set-cookie").map(|v| v.len()).unwrap_or(0) }, "transport:response-altered", det);
                }
                Err(e) => {
                    c.check(status >= 400 && e.contains(&status.to_string()), "transport:failure-not-reported", det);
                    c.check(!e.contains(&format!("127.0.0.1:{}", w.port)), "transport:error-discloses-url", det);
                }
            }
            c.case(&(method, status, &path, body.len()), true);
        }
        // header values the cache has to carry as well
        for (cl, name) in [(&plain, "plain"), (&cached, "cached")] {
            *plan.lock().unwrap() = Some(URes::bytes("x").header("x-r", "é"));
            let got = fetch(cl, "GET", &w.url("/h1"), &[], None).await;
            let ok = got.as_ref().is_ok_and(|g| g.1.get("x-r") == Some(&vec!["é".to_string()]));
            c.check(ok, &format!("transport:non-ascii-response-header:{name}"), || json!({"client": name, "got": format!("{got:?}")}));
            *plan.lock().unwrap() = Some(URes::bytes("x").header("set-cookie", "a=1").header("set-cookie", "b=2"));
            let got = fetch(cl, "GET", &w.url("/h2"), &[], None).await;
            let ok = got.as_ref().is_ok_and(|g| g.1.get("set-cookie") == Some(&vec!["a=1".to_string(), "b=2".into()]));
            c.check(ok, &format!("transport:repeated-response-header:{name}"), || json!({"client": name, "got": format!("{got:?}")}));
            c.case(&("hdr", name), true);
        }
        // a slow upstream is given up on after the configured time, not before
        let mut u = UpstreamCfg::default();
        u.timeout = 1;
        let cl = NativeHttp::init(&u, &Default::default());
        for (ms, fails) in [(200u64, false), (6000, true)] {
            *plan.lock().unwrap() = Some(URes::bytes("x").delay_ms(ms));
            let t = std::time::Instant::now();
            let got = fetch(&cl, "GET", &w.url("/slow"), &[], None).await;
            let el = t.elapsed().as_millis() as u64;
            c.check(got.is_err() == fails, "transport:timeout-not-honoured", || json!({"upstream_ms": ms, "timeout_ms": 1000, "took_ms": el, "got": format!("{got:?}")}));
            c.case(&("slow", ms), true);
        }
        // an upstream that hangs up mid-air is an error
        *plan.lock().unwrap() = Some(URes::fail("x"));
        let got = fetch(&plain, "GET", &w.url("/drop"), &[], None).await;
        c.check(got.is_err(), "transport:dropped-connection-not-reported", || json!(format!("{got:?}")));
    });
}
