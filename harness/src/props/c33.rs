//! C33: the settings of the server and of the upstream client take effect.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use async_graphql_value::ConstValue;
use serde_json::{json, Map, Value};
use tailcall::cli::server::Server;
use tailcall::core::blueprint::{Blueprint, Http};
use tailcall::core::WorkerIO;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::merge_right::MergeRight;
use tailcall::core::config::{Config, ConfigModule, Source};
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock;

pub fn run(c: &C) {
    c.rule("one case = one configuration with a random subset of settings read in one format, one request to a real server started with random settings, or one upstream call made by the real client with random settings; non-trivial = a setting differs from its default or its effect was requested; distinct by (settings, request)");
    c.assume("settings whose effect is only in the operating system's or the HTTP library's hands (TCP and HTTP/2 keep-alive, idle connections, pipeline flushing, number of workers) are followed up to the values the server and client are built from");
    c.section("settings", settings);
    c.section("listening", listening);
    c.section("client", client);
    c.section("timeouts", timeouts);
    c.section("scripts", scripts);
    c.section("tls", tls);
    c.floor("settings-set", 1000);
    c.floor("settings-default", 1000);
    c.floor("servers", 8);
    c.floor("upstream-calls", 20);
    c.floor("timeouts", 4);
    c.floor("scripts", 8);
}

// ------------------------------------------------------------------ settings
struct S {
    at: &'static str,
    default: Value,
    make: fn(&mut Rng) -> Value,
    /// what the gateway is built from; `None` when read from the configuration only
    get: fn(&Blueprint, &Config) -> Value,
    /// the value expected from the one written
    want: fn(&Value) -> Value,
}
fn same(v: &Value) -> Value { v.clone() }
fn sorted(v: &Value) -> Value { let mut x: Vec<String> = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect(); x.sort(); x.dedup(); json!(x) }
fn flag(r: &mut Rng) -> Value { json!(r.bool()) }
fn num(r: &mut Rng) -> Value { json!(*r.pick(&[1u64, 2, 5, 7, 59, 60, 61, 100, 1000, 86400, 4_000_000])) }
fn text(r: &mut Rng) -> Value { json!(*r.pick(&["a", "Tailcall/1.0", "Mozilla/5.0 (X11; Linux)", "x y", "1", "true", "a\"b", "é", ""])) }
fn kvs(r: &mut Rng) -> Value { let n = r.below(6); let mut m = BTreeMap::new(); for _ in 0..n { m.insert(*r.pick(&["k", "K", "a b", "apiKey", "1", "é"]), text(r)); } Value::Array(m.into_iter().map(|(k, v)| json!({"key": k, "value": v})).collect()) }
fn names(r: &mut Rng) -> Value { let n = r.range(1, 4); Value::Array((0..n).map(|_| json!(*r.pick(&["authorization", "x-a", "x-b", "Accept", "X-Tenant-Id"]))).collect()) }
fn path(r: &mut Rng) -> Value { json!(*r.pick(&["/status", "/graphql", "/health", "/q", "/a/b", "/x-1", "/status/"])) }

fn all() -> Vec<S> {
    macro_rules! s { ($at:literal, $d:expr, $make:expr, $get:expr) => { S { at: $at, default: json!($d), make: $make, get: $get, want: same } }; ($at:literal, $d:expr, $make:expr, $get:expr, $want:expr) => { S { at: $at, default: json!($d), make: $make, get: $get, want: $want } } }
    vec![
        s!("server.apolloTracing", false, flag, |b, _| json!(b.server.enable_apollo_tracing)),
        s!("server.batchRequests", false, flag, |b, _| json!(b.server.enable_batch_requests)),
        s!("server.globalResponseTimeout", 0, num, |b, _| json!(b.server.global_response_timeout)),
        s!("server.hostname", "127.0.0.1", |r| json!(*r.pick(&["localhost", "LocalHost", "127.0.0.1", "0.0.0.0", "127.0.0.9", "10.1.2.3", "::1", "::"])), |b, _| json!(b.server.hostname.to_string()), |v| if v.as_str().unwrap().eq_ignore_ascii_case("localhost") { json!("127.0.0.1") } else { v.clone() }),
        s!("server.introspection", true, flag, |b, _| json!(b.server.enable_introspection)),
        s!("server.enableFederation", false, flag, |_, c| json!(c.server.get_enable_federation())),
        s!("server.pipelineFlush", true, flag, |b, _| json!(b.server.pipeline_flush)),
        s!("server.port", 8000, |r| json!(*r.pick(&[1u16, 80, 443, 3000, 8000, 8001, 65535])), |b, _| json!(b.server.port)),
        s!("server.queryValidation", false, flag, |b, _| json!(b.server.enable_query_validation)),
        s!("server.responseValidation", false, flag, |b, _| json!(b.server.enable_response_validation)),
        s!("server.showcase", false, flag, |b, _| json!(b.server.enable_showcase)),
        s!("server.vars", json!({}), kvs, |b, _| json!(b.server.vars), |v| Value::Object(v.as_array().unwrap().iter().map(|x| (x["key"].as_str().unwrap().to_string(), x["value"].clone())).collect::<BTreeMap<_, _>>().into_iter().collect())),
        s!("server.version", "HTTP1", |_| json!("HTTP1"), |b, _| json!(match b.server.http { Http::HTTP1 => "HTTP1", _ => "HTTP2" })),
        s!("server.workers", Value::Null, |r| json!(r.range(1, 64)), |b, c| if c.server.workers.is_some() { json!(b.server.worker) } else if b.server.worker > 0 { Value::Null } else { json!("none") }),
        s!("server.routes", json!(["/status", "/graphql"]), |r| { let (a, b) = (path(r), path(r)); match r.below(3) { 0 => json!({"status": a}), 1 => json!({"graphQL": b}), _ => json!({"status": a, "graphQL": b}) } },
            |b, _| json!([b.server.routes.status(), b.server.routes.graphql()]), |v| json!([v.get("status").cloned().unwrap_or(json!("/status")), v.get("graphQL").cloned().unwrap_or(json!("/graphql"))])),
        s!("server.headers.cacheControl", false, flag, |b, _| json!(b.server.enable_cache_control_header)),
        s!("server.headers.setCookies", false, flag, |b, _| json!(b.server.enable_set_cookie_header)),
        s!("server.headers.experimental", json!([]), |r| { let n = r.range(1, 3); Value::Array((0..n).map(|_| json!(*r.pick(&["x-a", "X-B", "x-experimental"]))).collect()) },
            |b, _| { let mut x: Vec<String> = b.server.experimental_headers.iter().map(|h| h.to_string()).collect(); x.sort(); json!(x) }, |v| { let mut x: Vec<String> = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_lowercase()).collect(); x.sort(); x.dedup(); json!(x) }),
        s!("server.headers.custom", json!([]), |r| { let n = r.below(5); Value::Array((0..n).map(|_| json!({"key": *r.pick(&["x-a", "x-b", "server", "x-c"]), "value": *r.pick(&["1", "v w", ""])})).collect()) },
            |b, _| { let mut x: Vec<Value> = b.server.response_headers.iter().map(|(k, v)| json!([k.as_str(), v.to_str().unwrap()])).collect(); x.sort_by_key(|x| x.to_string()); json!(x) },
            |v| { let mut m: Vec<(String, String)> = vec![]; for x in v.as_array().unwrap() { let (k, v) = (x["key"].as_str().unwrap().to_string(), x["value"].as_str().unwrap().to_string()); m.push((k, v)) } let mut x: Vec<Value> = m.into_iter().map(|(k, v)| json!([k, v])).collect(); x.sort_by_key(|x| x.to_string()); json!(x) }),
        s!("upstream.allowedHeaders", json!([]), names, |b, _| json!(b.upstream.allowed_headers), sorted),
        s!("upstream.batch", Value::Null, |r| { let mut m = Map::new(); if r.bool() { m.insert("delay".into(), json!(r.below(50))); } if r.bool() { m.insert("maxSize".into(), json!(r.range(1, 2000))); } if r.bool() { m.insert("headers".into(), names(r)); } Value::Object(m) },
            |b, _| match &b.upstream.batch { None => Value::Null, Some(x) => json!([x.delay, x.max_size, x.headers]) },
            |v| json!([v.get("delay").cloned().unwrap_or(json!(0)), v.get("maxSize").cloned().unwrap_or(json!(100)), v.get("headers").map(sorted).unwrap_or(json!([]))])),
        s!("upstream.connectTimeout", 60, num, |b, _| json!(b.upstream.connect_timeout)),
        s!("upstream.timeout", 60, num, |b, _| json!(b.upstream.timeout)),
        s!("upstream.httpCache", 0, num, |b, _| json!(b.upstream.http_cache)),
        s!("upstream.http2Only", false, flag, |b, _| json!(b.upstream.http2_only)),
        s!("upstream.keepAliveInterval", 60, num, |b, _| json!(b.upstream.keep_alive_interval)),
        s!("upstream.keepAliveTimeout", 60, num, |b, _| json!(b.upstream.keep_alive_timeout)),
        s!("upstream.keepAliveWhileIdle", false, flag, |b, _| json!(b.upstream.keep_alive_while_idle)),
        s!("upstream.poolMaxIdlePerHost", 60, num, |b, _| json!(b.upstream.pool_max_idle_per_host)),
        s!("upstream.poolIdleTimeout", 60, num, |b, _| json!(b.upstream.pool_idle_timeout)),
        s!("upstream.proxy", Value::Null, |r| json!({"url": *r.pick(&["http://p:1", "http://10.0.0.1:3128/"])}), |b, _| b.upstream.proxy.as_ref().map(|p| json!({"url": p.url})).unwrap_or(Value::Null)),
        s!("upstream.tcpKeepAlive", 5, num, |b, _| json!(b.upstream.tcp_keep_alive)),
        s!("upstream.userAgent", "Tailcall/1.0", text, |b, _| json!(b.upstream.user_agent)),
        s!("upstream.verifySSL", true, flag, |b, _| json!(b.upstream.verify_ssl)),
        s!("upstream.onRequest", Value::Null, |r| json!(*r.pick(&["f", "onRequest"])), |b, _| json!(b.upstream.on_request)),
    ]
}
/// Writes a value as a GraphQL literal.
fn lit(k: &str, v: &Value) -> String {
    match v {
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {}", lit(k, v))).collect::<Vec<_>>().join(", ")),
        Value::Array(x) => format!("[{}]", x.iter().map(|v| lit("", v)).collect::<Vec<_>>().join(", ")),
        Value::String(s) if k == "version" => s.clone(),
        v => v.to_string(),
    }
}
fn set(root: &mut Value, at: &str, v: Value) {
    let mut cur = root;
    for k in at.split('.') { cur = cur.as_object_mut().unwrap().entry(k).or_insert_with(|| json!({})) }
    *cur = v;
}

fn sdl_of(cfg: &Value, rest: &str) -> String {
    let dir = |k: &str| match cfg.get(k).and_then(|x| x.as_object()) { Some(m) if !m.is_empty() => format!(" @{k}({})", m.iter().map(|(k, v)| format!("{k}: {}", lit(k, v))).collect::<Vec<_>>().join(", ")), _ => String::new() };
    format!("schema{}{} {{ query: Query }}\n{rest}", dir("server"), dir("upstream"))
}

fn settings(c: &C) {
    let mut r = c.rng("settings");
    let all = all();
    for n in 0..c.n(300, 6000) {
        let mut cfg = json!({});
        let mut want: Vec<(&S, Value, bool)> = vec![];
        let (num_, den) = *r.pick(&[(1, 12), (1, 3), (2, 3), (1, 1)]);
        for s in &all {
            if r.chance(num_, den) {
                let v = (s.make)(&mut r);
                want.push((s, (s.want)(&v), true));
                set(&mut cfg, s.at, v);
            } else {
                want.push((s, s.default.clone(), false));
            }
        }
        let sdl = sdl_of(&cfg, "type Query { a: Int @expr(body: 1) }\n");
        let first = match Config::from_sdl(&sdl).to_result() { Ok(x) => x, Err(e) => { c.violation("settings:refused", json!({"sdl": sdl, "error": e.to_string()})); continue } };
        // the other formats describe the server and upstream only: the schema is added by merging
        let mut doc = cfg.clone();
        for k in ["server", "upstream"] { doc.as_object_mut().unwrap().entry(k).or_insert_with(|| json!({})); }
        let types = || Config::from_sdl("schema { query: Query }\ntype Query { a: Int @expr(body: 1) }\n").to_result().unwrap();
        let with = |x: anyhow::Result<Config>| x.map(|x| if n % 2 == 0 { x.merge_right(types()) } else { types().merge_right(x) }).map_err(|e| e.to_string());
        let reread: Vec<(&str, Result<Config, String>)> = vec![
            ("sdl", Ok(first.clone())),
            ("sdl-merged", with(Ok(first))),
            ("json", with(Config::from_source(Source::Json, &doc.to_string()))),
            ("yaml", with(Config::from_source(Source::Yml, &serde_yaml_ng::to_string(&doc).unwrap()))),
        ];
        // as written, and merged with a configuration that says nothing
        for (fmt, cf) in reread {
            let cf = match cf { Ok(x) => x, Err(e) => { c.violation(&format!("settings:refused-{fmt}"), json!({"config": doc, "error": e})); continue } };
            let m = ConfigModule::from(cf.clone());
            let b = match Blueprint::try_from(&m) { Ok(x) => x, Err(e) => { c.violation("settings:blueprint-refused", json!({"sdl": sdl, "error": e.to_string()})); continue } };
            for (s, w, given) in &want {
                let got = (s.get)(&b, &cf);
                c.count(if *given { "settings-set" } else { "settings-default" }, 1);
                c.check(got == *w, &format!("settings:{}", if *given { "value" } else { "default" }), || json!({"setting": s.at, "format": fmt, "got": got, "want": w, "config": cfg}));
            }
            c.case(&(n, fmt, &sdl), want.iter().any(|x| x.2));
        }
        if n == 0 { c.sample(|| json!({"config": cfg})); }
    }
}

// ------------------------------------------------------------------ servers
fn free_port() -> u16 { TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port() }

struct Up { port: u16, host: String, handle: Option<tokio::task::JoinHandle<anyhow::Result<()>>> }
impl Drop for Up { fn drop(&mut self) { if let Some(h) = self.handle.take() { h.abort() } } }
async fn start(m: ConfigModule, host: &str, port: u16) -> Result<Up, String> {
    let mut s = Server::new(m);
    let up = s.server_up_receiver();
    let h = tokio::spawn(s.start());
    match tokio::time::timeout(Duration::from_secs(30), up).await {
        Ok(Ok(())) => Ok(Up { port, host: host.into(), handle: Some(h) }),
        Ok(Err(_)) => Err(match h.await { Ok(Err(e)) => format!("{e:#}"), x => format!("{x:?}") }),
        Err(_) => { h.abort(); Err("no answer".into()) }
    }
}
/// One HTTP/1 exchange on a fresh connection.
fn talk(host: &str, port: u16, method: &str, path: &str, body: &str) -> Result<(u16, String), String> {
    let mut s = TcpStream::connect((host, port)).map_err(|e| e.to_string())?;
    s.set_read_timeout(Some(Duration::from_secs(20))).ok();
    write!(s, "{method} {path} HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nConnection: close\r\nContent-Length: {}\r\n\r\n{body}", body.len()).map_err(|e| e.to_string())?;
    let mut out = vec![];
    s.read_to_end(&mut out).map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&out).into_owned();
    let (h, b) = t.split_once("\r\n\r\n").ok_or("no head")?;
    let code = h.split(' ').nth(1).and_then(|x| x.parse().ok()).ok_or("no status")?;
    let b = if h.to_lowercase().contains("transfer-encoding: chunked") { b.split("\r\n").skip(1).step_by(2).collect::<String>() } else { b.to_string() };
    Ok((code, b))
}
async fn ask(up: &Up, method: &'static str, path: &str, body: &str) -> Result<(u16, String), String> {
    let (h, p, path, body) = (up.host.clone(), up.port, path.to_string(), body.to_string());
    tokio::task::spawn_blocking(move || talk(&h, p, method, &path, &body)).await.unwrap()
}

fn listening(c: &C) {
    std::env::set_var("TAILCALL_LOG_LEVEL", "error");
    let rt = rt_multi(4);
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let mut r = c.rng("listening");
        for _ in 0..c.n(12, 150) {
            let port = free_port();
            let host = *r.pick(&["127.0.0.1", "localhost", "LOCALHOST", "127.0.0.2", "127.1.2.3", "0.0.0.0"]);
            let reach = match host { "127.0.0.2" | "127.1.2.3" => host, _ => "127.0.0.1" };
            let status = r.chance(1, 2).then(|| *r.pick(&["/health", "/a/b", "/ready"]));
            let gql = r.chance(1, 2).then(|| *r.pick(&["/q", "/api/graphql", "/x"]));
            let (batch, intro, flush) = (r.bool(), r.bool(), r.bool());
            let mut cfg = json!({"server": {"port": port, "hostname": host, "batchRequests": batch, "introspection": intro, "pipelineFlush": flush, "workers": r.range(1, 4)}});
            let mut routes = Map::new();
            if let Some(x) = status { routes.insert("status".into(), json!(x)); }
            if let Some(x) = gql { routes.insert("graphQL".into(), json!(x)); }
            if !routes.is_empty() { cfg["server"]["routes"] = Value::Object(routes); }
            let sdl = sdl_of(&cfg, "type Query { a: Int @expr(body: 7) }\n");
            let m = match mock::module(&sdl) { Ok(m) => m, Err(e) => { c.violation("listening:refused", json!({"sdl": sdl, "error": format!("{e:?}")})); continue } };
            let up = match start(m.clone(), reach, port).await {
                Ok(x) => x,
                Err(e) if e.to_lowercase().contains("in use") => { c.count("port-taken", 1); continue }
                Err(e) => { c.violation("listening:not-started", json!({"sdl": sdl, "error": e})); continue }
            };
            c.count("servers", 1);
            let (sp, gp) = (status.unwrap_or("/status"), gql.unwrap_or("/graphql"));
            let det = |what: &str, got: &Result<(u16, String), String>| json!({"sdl": sdl, "request": what, "got": format!("{got:?}")});
            let js = |x: &Result<(u16, String), String>| x.as_ref().ok().and_then(|x| serde_json::from_str::<Value>(&x.1).ok());
            let a = ask(&up, "GET", sp, "").await;
            c.check(matches!(&a, Ok((200, _))) && js(&a) == Some(json!({"message": "ready"})), "listening:status", || det("status", &a));
            let a = ask(&up, "POST", gp, "{\"query\":\"{ a }\"}").await;
            c.check(matches!(&a, Ok((200, _))) && js(&a) == Some(json!({"data": {"a": 7}})), "listening:graphql", || det("graphql", &a));
            if gql.is_some() {
                let a = ask(&up, "POST", "/graphql", "{\"query\":\"{ a }\"}").await;
                c.check(matches!(&a, Ok((404, _))), "listening:default-route-still-there", || det("POST /graphql", &a));
            }
            if status.is_some() {
                let a = ask(&up, "GET", "/status", "").await;
                c.check(matches!(&a, Ok((404, _))), "listening:default-status-still-there", || det("GET /status", &a));
            }
            let a = ask(&up, "POST", gp, "[{\"query\":\"{ a }\"},{\"query\":\"{ b: a }\"}]").await;
            let list = js(&a) == Some(json!([{"data": {"a": 7}}, {"data": {"b": 7}}]));
            c.check(list == batch, "listening:batch", || det("list of queries", &a));
            let a = ask(&up, "POST", gp, "{\"query\":\"{ __schema { queryType { name } } }\"}").await;
            let seen = js(&a).is_some_and(|x| x["data"]["__schema"]["queryType"]["name"] == "Query");
            c.check(seen == intro, "listening:introspection", || det("introspection", &a));
            // only on its own address
            if reach != "127.0.0.1" {
                let p = port;
                let other = tokio::task::spawn_blocking(move || talk("127.0.0.1", p, "GET", "/status", "")).await.unwrap();
                c.check(!matches!(&other, Ok((200, b)) if b.contains("ready")), "listening:other-address", || det("on 127.0.0.1", &other));
            } else if host == "0.0.0.0" {
                let (p, sp) = (port, sp.to_string());
                let other = tokio::task::spawn_blocking(move || talk("127.0.0.3", p, "GET", &sp, "")).await.unwrap();
                c.check(matches!(&other, Ok((200, _))), "listening:all-addresses", || det("on 127.0.0.3", &other));
            }
            // a second server on the same address says so
            let e = start(m.clone(), reach, port).await;
            c.check(matches!(&e, Err(e) if e.to_lowercase().contains("in use")), "listening:second-server", || json!({"sdl": sdl, "got": e.as_ref().map(|_| "started").map_err(|e| e.clone())}));
            drop(e);
            let a = ask(&up, "POST", gp, "{\"query\":\"{ a }\"}").await;
            c.check(matches!(&a, Ok((200, _))), "listening:first-server-lost", || det("after a second start", &a));
            c.case(&sdl, true);
            c.sample(|| json!({"sdl": sdl}));
        }
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

// ------------------------------------------------------------------ upstream side
#[derive(Clone, Debug)]
struct Seen { version: String, target: String, headers: Vec<(String, String)> }
struct Rec { port: u16, log: Arc<Mutex<Vec<Seen>>>, conns: Arc<Mutex<usize>>, task: tokio::task::JoinHandle<()> }
impl Drop for Rec { fn drop(&mut self) { self.task.abort() } }
/// An HTTP server that records what reaches it; `/slow/<ms>` answers late.
async fn recorder() -> Rec {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    l.set_nonblocking(true).unwrap();
    let port = l.local_addr().unwrap().port();
    let log: Arc<Mutex<Vec<Seen>>> = Default::default();
    let conns: Arc<Mutex<usize>> = Default::default();
    let (l2, c2) = (log.clone(), conns.clone());
    let mk = hyper::service::make_service_fn(move |_| {
        *c2.lock().unwrap() += 1;
        let log = l2.clone();
        async move {
            Ok::<_, std::convert::Infallible>(hyper::service::service_fn(move |q: hyper::Request<hyper::Body>| {
                let log = log.clone();
                async move {
                    log.lock().unwrap().push(Seen { version: format!("{:?}", q.version()), target: q.uri().to_string(), headers: q.headers().iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect() });
                    if let Some(ms) = q.uri().path().strip_prefix("/slow/").and_then(|x| x.parse().ok()) { tokio::time::sleep(Duration::from_millis(ms)).await }
                    Ok::<_, std::convert::Infallible>(hyper::Response::builder().header("content-type", "application/json").body(hyper::Body::from("{\"v\": 1}")).unwrap())
                }
            }))
        }
    });
    let s = hyper::Server::from_tcp(l).unwrap().serve(mk);
    Rec { port, log, conns, task: tokio::spawn(async move { s.await.ok(); }) }
}

fn client(c: &C) {
    std::env::set_var("TAILCALL_LOG_LEVEL", "error");
    let rt = rt_multi(4);
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let mut r = c.rng("client");
        for _ in 0..c.n(14, 200) {
            let (up, proxy) = (recorder().await, recorder().await);
            let ua = r.chance(2, 3).then(|| *r.pick(&["a", "Mozilla/5.0 (X11; Linux)", "agent x", "Tailcall/9"]));
            let through = r.chance(1, 3);
            let h2 = !through && r.chance(1, 3);
            let mut cfg = json!({"server": {"port": 8000}, "upstream": {"timeout": 30}});
            if let Some(x) = ua { cfg["upstream"]["userAgent"] = json!(x); }
            if through { cfg["upstream"]["proxy"] = json!({"url": format!("http://127.0.0.1:{}", proxy.port)}); }
            if h2 { cfg["upstream"]["http2Only"] = json!(true); }
            let target = if through && r.bool() { "http://nowhere.invalid".to_string() } else { format!("http://127.0.0.1:{}", up.port) };
            let hdr = r.chance(1, 4).then(|| "own-agent");
            let sdl = sdl_of(&cfg, &format!("type V {{ v: Int }}\ntype Query {{ x(a: Int): V @http(url: \"{target}/p\", query: [{{key: \"a\", value: \"{{{{.args.a}}}}\"}}]{}) }}\n", hdr.map(|h| format!(", headers: [{{key: \"user-agent\", value: \"{h}\"}}]")).unwrap_or_default()));
            let m = match mock::module(&sdl) { Ok(m) => m, Err(e) => { c.violation("client:refused", json!({"sdl": sdl, "error": format!("{e:?}")})); continue } };
            let bp = match Blueprint::try_from(&m) { Ok(x) => x, Err(e) => { c.violation("client:refused", json!({"sdl": sdl, "error": e.to_string()})); continue } };
            let rt = tailcall::cli::runtime::init(&bp);
            let app = Arc::new(tailcall::core::app_context::AppContext::new(bp, rt, Default::default()));
            for k in 0..2 {
                let res = mock::query(&app, &format!("{{ x(a: {k}) {{ v }} }}")).await;
                let (here, there) = (up.log.lock().unwrap().split_off(0), proxy.log.lock().unwrap().split_off(0));
                let det = || json!({"sdl": sdl, "answer": res.text(), "upstream": format!("{here:?}"), "proxy": format!("{there:?}")});
                c.count("upstream-calls", 1);
                c.check(res.data() == json!({"x": {"v": 1}}), "client:answer", det);
                let (hit, idle) = if through { (&there, &here) } else { (&here, &there) };
                c.check(hit.len() == 1 && idle.is_empty(), if through { "client:proxy-bypassed" } else { "client:calls" }, det);
                if let Some(s) = hit.first() {
                    let want = hdr.unwrap_or(ua.unwrap_or("Tailcall/1.0"));
                    let got: Vec<&str> = s.headers.iter().filter(|h| h.0 == "user-agent").map(|h| h.1.as_str()).collect();
                    c.check(got == vec![want], "client:user-agent", det);
                    c.check(s.version == if h2 { "HTTP/2.0" } else { "HTTP/1.1" }, "client:http-version", det);
                    if through { c.check(s.target == format!("{target}/p?a={k}"), "client:proxied-target", det); }
                }
            }
            // connections are kept for later calls
            let n = *(if through { &proxy } else { &up }).conns.lock().unwrap();
            c.max("connections-per-two-calls", n as u64);
            c.case(&(ua, through, h2, hdr, &target[..12]), ua.is_some() || through || h2);
        }
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

fn timeouts(c: &C) {
    std::env::set_var("TAILCALL_LOG_LEVEL", "error");
    let rt = rt_multi(4);
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let one = |timeout: Option<u64>, slow: u64, late: bool| {
            let c = c.clone();
            async move {
                let up = recorder().await;
                let mut cfg = json!({"server": {"port": 8000}, "upstream": {"connectTimeout": 20}});
                if let Some(t) = timeout { cfg["upstream"]["timeout"] = json!(t); }
                let sdl = sdl_of(&cfg, &format!("type V {{ v: Int }}\ntype Query {{ x: V @http(url: \"http://127.0.0.1:{}/slow/{slow}\") ok: V @http(url: \"http://127.0.0.1:{}/p\") }}\n", up.port, up.port));
                let bp = match mock::module(&sdl).map(|m| Blueprint::try_from(&m)) { Ok(Ok(x)) => x, e => { c.violation("timeouts:refused", json!({"sdl": sdl, "error": format!("{:?}", e.map(|_| ()))})); return } };
                let rt = tailcall::cli::runtime::init(&bp);
                let app = Arc::new(tailcall::core::app_context::AppContext::new(bp, rt, Default::default()));
                let t0 = Instant::now();
                let res = mock::query(&app, "{ x { v } }").await;
                let took = t0.elapsed();
                let det = || json!({"timeout_s": timeout, "answers_after_ms": slow, "took_ms": took.as_millis() as u64, "answer": res.text()});
                c.count("timeouts", 1);
                c.case(&(timeout, slow), late);
                if late {
                    c.check(!res.errors().is_empty(), "timeouts:no-error", det);
                    c.check(took < Duration::from_millis(slow), "timeouts:waited-for-the-answer", det);
                    c.check(took >= Duration::from_millis(timeout.unwrap_or(60) * 1000 - 100), "timeouts:too-early", det);
                } else {
                    c.check(res.data() == json!({"x": {"v": 1}}), "timeouts:answer-in-time-lost", det);
                }
                // the next call isn't affected
                let res = mock::query(&app, "{ ok { v } }").await;
                c.check(res.data() == json!({"ok": {"v": 1}}), "timeouts:later-call", || json!({"answer": res.text()}));
            }
        };
        let mut r = c.rng("timeouts");
        let a = 60_000 + r.below(1000) as u64;
        let b = 20_000 + r.below(1000) as u64;
        futures_util::join!(one(Some(1), a, true), one(Some(2), b, true), one(Some(30), 300, false), one(None, 1500, false), one(Some(20), 2200, false));
    });
    rt.shutdown_timeout(Duration::from_secs(2));
}

const BUSY: &str = r#"
function spin(ms) { const t = Date.now(); while (Date.now() - t < ms) {} }
function busy(x) { spin(JSON.parse(x).ms); return x }
function caught(x) { try { spin(JSON.parse(x).ms) } catch (e) {} return x }
function deep(x) { const o = JSON.parse(x); [1, 2, 3].sort(() => { spin(o.ms); return 0 }); return x }
function hook({ request }) { spin(Number(request.headers["x-ms"] || 0)); return { request } }
"#;

/// Scripts get the time they are given: no more, no less, and the next call starts anew.
fn scripts(c: &C) {
    let rt = rt_multi(4);
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let mut jobs = vec![];
        let mut r = c.rng("scripts");
        // (timeout, time the script needs, field)
        let mut plan: Vec<(Option<u64>, u64, &'static str)> = vec![(None, 1200, "busy"), (None, 300, "hook"), (Some(20_000), 400, "deep"), (Some(20_000), 600, "hook"), (Some(20_000), 0, "busy")];
        for f in ["busy", "caught", "deep", "hook"] { plan.push((Some(1500 + r.below(300) as u64), 40_000 + r.below(5000) as u64, f)) }
        for (timeout, ms, field) in plan {
            let c = c.clone();
            jobs.push(async move {
                let opt = timeout.map(|t| format!(", script: {{timeout: {t}}}")).unwrap_or_default();
                let sdl = format!("schema @server(port: 8000{opt}) @upstream(allowedHeaders: [\"x-ms\"]) @link(id: \"t\", src: \"t.js\", type: Script) {{ query: Query }}\ntype O {{ ms: Int }}\ntype Query {{ busy: O @js(name: \"busy\") caught: O @js(name: \"caught\") deep: O @js(name: \"deep\") hook: O @http(url: \"http://u.test/ms\", onRequest: \"hook\") plain: O @http(url: \"http://u.test/plain\") }}\n");
                let up = mock::Upstream::new(|_q: &mock::UReq| mock::URes::json(json!({"ms": 7})));
                let mut env = mock::runtime(up);
                env.file = Arc::new(mock::Files(Mutex::new(std::collections::HashMap::from([("app.graphql".to_string(), sdl.clone()), ("t.js".to_string(), BUSY.to_string())]))));
                let m = match ConfigReader::init(env.clone()).read("app.graphql").await { Ok(m) => m, Err(e) => { c.violation("scripts:refused", json!({"sdl": sdl, "error": format!("{e:#}")})); return } };
                let bp = match Blueprint::try_from(&m) { Ok(b) => b, Err(e) => { c.violation("scripts:refused", json!({"sdl": sdl, "error": e.to_string()})); return } };
                let Some(script) = bp.server.script.clone() else { c.violation("scripts:none", json!({"sdl": sdl})); return };
                let worker = tailcall::cli::javascript::init_worker_io::<ConstValue, ConstValue>(script.clone());
                env.cmd_worker = Some(tailcall::cli::javascript::init_worker_io::<tailcall::core::worker::Event, tailcall::core::worker::Command>(script.clone()));
                env.worker = Some(worker.clone());
                let app = Arc::new(tailcall::core::app_context::AppContext::new(bp, env, Default::default()));
                let late = timeout.is_some_and(|t| t < ms);
                // a script without a value fails at once and doesn't leave its clock running
                let run = |field: &'static str, ms: u64| {
                    let (app, worker) = (app.clone(), worker.clone());
                    async move {
                        if field == "hook" {
                            let r = match mock::send(&app, "POST", "/graphql", &[("x-ms", &ms.to_string()), ("content-type", "application/json")], json!({"query": "{ hook { ms } }"}).to_string().as_str()).await { Ok(r) => r, Err(e) => return Err(e) };
                            if r.errors().is_empty() { Ok(r.data()) } else { Err(r.text()) }
                        } else {
                            let v = json!({"ms": ms});
                            match worker.call(field, ConstValue::from_json(v).unwrap()).await { Ok(Some(v)) => Ok(v.into_json().unwrap()), Ok(None) => Ok(Value::Null), Err(e) => Err(format!("{e}")) }
                        }
                    }
                };
                let want = |ms: u64| if field == "hook" { json!({"hook": {"ms": 7}}) } else { json!({"ms": ms}) };
                for round in 0..2 {
                    let t0 = Instant::now();
                    let got = tokio::time::timeout(Duration::from_secs(35), run(field, ms)).await;
                    let took = t0.elapsed();
                    let det = || json!({"script_timeout_ms": timeout, "script_needs_ms": ms, "function": field, "took_ms": took.as_millis() as u64, "round": round, "result": format!("{got:?}")});
                    c.count("scripts", 1);
                    c.case(&("script", timeout, ms, field, round), timeout.is_some());
                    if late {
                        if !c.check(matches!(&got, Ok(Err(_))), "scripts:not-stopped", det) { return }
                        c.check(took + Duration::from_millis(20) >= Duration::from_millis(timeout.unwrap()), "scripts:stopped-early", det);
                    } else {
                        c.check(matches!(&got, Ok(Ok(v)) if *v == want(ms)), "scripts:stopped-in-time", det);
                    }
                    // a pause between calls isn't counted
                    if late && round == 0 { tokio::time::sleep(Duration::from_millis(timeout.unwrap())).await }
                    let next = run(field, 0).await;
                    c.check(next == Ok(want(0)), "scripts:later-call", || json!({"script_timeout_ms": timeout, "function": field, "result": format!("{next:?}")}));
                    let plain = mock::query(&app, "{ plain { ms } }").await;
                    c.check(plain.data() == json!({"plain": {"ms": 7}}), "scripts:other-fields", || json!({"answer": plain.text()}));
                }
            });
        }
        futures_util::future::join_all(jobs).await;

        // the time a whole query is given
        let up = mock::Upstream::new(|_q: &mock::UReq| mock::URes::json(json!({"ms": 7})).delay_ms(2500));
        let sdl = "schema @server(port: 8000, globalResponseTimeout: 300) { query: Query }\ntype O { ms: Int }\ntype Query { slow: O @http(url: \"http://u.test/slow\") }\n";
        match mock::app(sdl, mock::runtime(up)) {
            Ok(app) => {
                let t0 = Instant::now();
                let res = mock::query(&app, "{ slow { ms } }").await;
                let took = t0.elapsed();
                c.case(&"response-timeout", true);
                c.check(!res.errors().is_empty() || res.data() != json!({"slow": {"ms": 7}}) || took < Duration::from_millis(1500), "timeouts:response-timeout-ignored", || json!({"sdl": sdl, "took_ms": took.as_millis() as u64, "answer": res.text()}));
            }
            Err(e) => c.violation("timeouts:refused", json!({"sdl": sdl, "error": e})),
        }
    });
    rt.shutdown_timeout(Duration::from_secs(1));
}

fn tls(c: &C) {
    std::env::set_var("TAILCALL_LOG_LEVEL", "error");
    let dir: PathBuf = std::env::temp_dir().join(format!("tc-verif-c33-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join("cert.pem"), include_str!("../../data/cert.pem")).unwrap();
    std::fs::write(dir.join("key.pem"), include_str!("../../data/key.pem")).unwrap();
    let rt = rt_multi(4);
    let (c2, d2) = (c.clone(), dir.clone());
    rt.block_on(async move {
        let (c, dir) = (&c2, &d2);
        let port = free_port();
        let sdl = format!("schema @server(port: {port}, hostname: \"127.0.0.1\", version: HTTP2) @link(id: \"c\", src: \"cert.pem\", type: Cert) @link(id: \"k\", src: \"key.pem\", type: Key) {{ query: Query }}\ntype Query {{ v: Int @expr(body: 1) }}\n");
        let f = dir.join("h2.graphql");
        std::fs::write(&f, &sdl).unwrap();
        let reader = ConfigReader::init(tailcall::cli::runtime::init(&Blueprint::default()));
        let m = match reader.read(f.to_str().unwrap().to_string()).await { Ok(m) => m, Err(e) => { c.violation("tls:refused", json!({"sdl": sdl, "error": format!("{e:#}")})); return } };
        let up = match start(m, "127.0.0.1", port).await { Ok(x) => x, Err(e) => { c.violation("tls:not-started", json!({"sdl": sdl, "error": e})); return } };
        c.count("servers", 1);
        // plain text isn't answered there
        let a = ask(&up, "GET", "/status", "").await;
        c.check(!matches!(&a, Ok((200, _))), "tls:plain-text-answered", || json!({"got": format!("{a:?}")}));
        // another gateway is its client
        for verify in [Some(false), Some(true), None] {
            let mut cfg = json!({"server": {"port": 8000}, "upstream": {"timeout": 20}});
            if let Some(v) = verify { cfg["upstream"]["verifySSL"] = json!(v); }
            let sdl = sdl_of(&cfg, &format!("type M {{ message: String }}\ntype Query {{ x: M @http(url: \"https://127.0.0.1:{port}/status\") g: Int @graphQL(url: \"https://127.0.0.1:{port}/graphql\", name: \"v\") }}\n"));
            let bp = match mock::module(&sdl).map(|m| Blueprint::try_from(&m)) { Ok(Ok(x)) => x, _ => { c.violation("tls:refused", json!({"sdl": sdl})); continue } };
            let rt = tailcall::cli::runtime::init(&bp);
            let app = Arc::new(tailcall::core::app_context::AppContext::new(bp, rt, Default::default()));
            let res = mock::query(&app, "{ x { message } g }").await;
            c.count("upstream-calls", 1);
            c.case(&("tls", verify), true);
            if verify == Some(false) { c.check(res.data() == json!({"x": {"message": "ready"}, "g": 1}), "tls:answer", || json!({"answer": res.text()})); }
            else { c.check(!res.errors().is_empty() && !res.text().contains("ready"), "tls:unverified-certificate-accepted", || json!({"verifySSL": verify, "answer": res.text()})); }
        }
        // without a certificate or a key HTTP/2 doesn't start
        for (links, what) in [("", "neither"), (" @link(id: \"c\", src: \"cert.pem\", type: Cert)", "no key"), (" @link(id: \"k\", src: \"key.pem\", type: Key)", "no certificate")] {
            let sdl = format!("schema @server(port: {}, version: HTTP2){links} {{ query: Query }}\ntype Query {{ v: Int @expr(body: 1) }}\n", free_port());
            std::fs::write(&f, &sdl).unwrap();
            let reader = ConfigReader::init(tailcall::cli::runtime::init(&Blueprint::default()));
            let ok = match reader.read(f.to_str().unwrap().to_string()).await { Ok(m) => Blueprint::try_from(&m).is_ok(), Err(_) => false };
            c.check(!ok, "tls:started-without", || json!({"missing": what}));
            c.case(&("tls", what), true);
        }
    });
    rt.shutdown_timeout(Duration::from_secs(2));
    for f in ["cert.pem", "key.pem", "h2.graphql"] { std::fs::remove_file(dir.join(f)).ok(); }
    std::fs::remove_dir(&dir).ok();
}
