// C23
//! C23: scripts see what is sent, what they return is what happens, and their failures stay their own.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use async_graphql_value::ConstValue;
use serde_json::{json, Map, Value};
use tailcall::cli::javascript::init_worker_io;
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::{Blueprint, Script};
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::rest::EndpointSet;
use tailcall::core::{worker, WorkerIO};

use crate::common::*;
use crate::mock::{self, Files, Res, UReq, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one value given to a script, one request a hook handled, one misbehaving script or one of many requests at once; non-trivial = the value is a list or an object, or the request has a body, repeated parameters or a plan that changes it; distinct by value, request and plan");
    c.assume("scripts terminate; a script's view of a request shows one value per query parameter (the last) and repeated headers joined by \", \", bodies and headers as UTF-8 text; numbers in scripts are doubles; the status of a response made by a script matters for redirects only; JSON texts are compared as values");
    c.section("values", values);
    c.section("errors", errors);
    c.section("views", views);
    c.section("gateway", gateway);
    c.section("fields", fields);
    c.section("misbehaving", misbehaving);
    c.section("crowd", crowd);
    for (k, n) in [("values", 1500), ("values-at-once", 300), ("script-failures", 30), ("views", 1000), ("seen", 60), ("passed", 100), ("changed", 60), ("responded", 40), ("redirected", 30), ("endless", 5), ("binary-kept", 5), ("repeated-kept", 20), ("fields", 60), ("misbehaved", 80), ("crowd-good", 100), ("crowd-bad", 50)] { c.floor(k, n) }
}

const SCRIPT: &str = r#"
var calls = 0;
var kept = [];
function echo(v) { return v }
function trip(v) { return JSON.stringify(JSON.parse(v)) }
function wrap(v) { return JSON.stringify({ w: JSON.parse(v) }) }
function keys(v) { return JSON.stringify(Object.keys(JSON.parse(v)).sort()) }
function kind(v) { var x = JSON.parse(v); return JSON.stringify([typeof v, x === null ? "null" : Array.isArray(x) ? "list" : typeof x]) }
function next(v) { calls += 1; return JSON.stringify({ n: calls, t: JSON.parse(v) }) }
function throws(v) { throw new Error("on purpose") }
function throwsText(v) { throw "on purpose" }
function nothingAtAll(v) { }
function number(v) { return 5 }
function object(v) { return { a: 1 } }
function text(v) { return "not json" }
function empty(v) { return "" }
function two(v) { return "1 2" }
function forever(v) { return forever(v) + "" }
async function later(v) { return v }
var notAFunction = "x";

function plan(request) { return JSON.parse(request.headers["x-plan"] || "{}") }
function pass({ request }) { return { request } }
function nothing({ request }) { }
function nullish({ request }) { return null }
function copied({ request }) { return { request: JSON.parse(JSON.stringify(request)) } }
function see({ request }) { return { response: { status: 200, headers: { "x-res": "seen" }, body: JSON.stringify({ saw: request }) } } }
function tag({ request }) { request.headers["x-tag"] = "default"; return { request } }
function change({ request }) {
  var p = plan(request);
  for (var k in p.query || {}) { if (p.query[k] === null) delete request.uri.query[k]; else request.uri.query[k] = p.query[k] }
  for (var k in p.headers || {}) { if (p.headers[k] === null) delete request.headers[k]; else request.headers[k] = p.headers[k] }
  for (var k of ["path", "host", "scheme", "port"]) if (p[k] !== undefined) request.uri[k] = p[k];
  if (p.method) request.method = p.method;
  if (p.body !== undefined) request.body = p.body;
  return { request };
}
function respond({ request }) { return { response: plan(request).response } }
function redirect({ request }) {
  var p = plan(request), m = request.uri.path.match(/hop\/(\d+)$/), at = m ? +m[1] : 0;
  if (p.endless) return { response: { status: 302, headers: { location: "/hop/" + (at + 1) }, body: "" } };
  if (at < p.hops.length) return { response: { status: p.status, headers: { location: p.hops[at] }, body: "" } };
  if (p.last) return { response: { status: 200, headers: {}, body: p.last } };
  return p.silent ? undefined : { request };
}
// none of these returns something that can be sent
function badThrows() { throw new TypeError("bad") }
function badNumber() { return 7 }
function badText() { return "request" }
function badEmpty() { return {} }
function badOther({ request }) { return { req: request } }
function badRequest() { return { request: 1 } }
function badMethod({ request }) { request.method = "A B"; return { request } }
function badNoMethod({ request }) { delete request.method; return { request } }
function badNoUri({ request }) { delete request.uri; return { request } }
function badScheme({ request }) { request.uri.scheme = "ftp"; return { request } }
function badPort({ request }) { request.uri.port = 99999; return { request } }
function badHost({ request }) { request.uri.host = "a b"; return { request } }
function badHeaderName({ request }) { request.headers["a b"] = "1"; return { request } }
function badHeaderValue({ request }) { request.headers["x-a"] = "1\n2"; return { request } }
function badHeaders({ request }) { request.headers = 3; return { request } }
function badQuery({ request }) { request.uri.query = "a=1"; return { request } }
function badBody({ request }) { request.body = { a: 1 }; return { request } }
function badStatus() { return { response: { status: 9, headers: {}, body: "1" } } }
function badStatusText() { return { response: { status: "ok", headers: {}, body: "1" } } }
function badNoStatus() { return { response: { headers: {}, body: "1" } } }
function badJson() { return { response: { status: 200, headers: {}, body: "{\"a\":" } } }
function badResponseHeaders() { return { response: { status: 200, headers: { "a b": "1" }, body: "1" } } }
function badResponse() { return { response: "x" } }
async function badLater({ request }) { return { request } }
function badDeep(x) { return badDeep(x) || 1 }
"#;

const BAD: &[&str] = &["badThrows", "badNumber", "badText", "badEmpty", "badOther", "badRequest", "badMethod", "badNoMethod", "badNoUri", "badScheme", "badPort", "badHost", "badHeaderName", "badHeaderValue", "badHeaders", "badQuery", "badBody", "badStatus", "badStatusText", "badNoStatus", "badJson", "badResponseHeaders", "badResponse", "badLater", "badDeep", "missing", "notAFunction"];
const BAD_BODY: &[&str] = &["throws", "throwsText", "nothingAtAll", "number", "object", "text", "empty", "two", "forever", "later", "missing", "notAFunction"];

fn script() -> Script { Script { source: SCRIPT.into(), timeout: None } }
type Js = Arc<dyn WorkerIO<ConstValue, ConstValue>>;
fn js() -> Js { init_worker_io::<ConstValue, ConstValue>(script()) }
fn cv(v: &Value) -> ConstValue { ConstValue::from_json(v.clone()).unwrap() }
fn jv(v: &ConstValue) -> Value { v.clone().into_json().unwrap() }

/// Numbers as a script sees them
fn doubles(v: &Value) -> Value {
    match v {
        Value::Number(n) => match n.as_i64() {
            Some(i) => json!(i % 9007199254740992),
            None => { let f = n.as_f64().unwrap() % 9007199254740992.0; if f.fract() == 0.0 { json!(f as i64) } else { json!(f) } }
        },
        Value::Array(xs) => xs.iter().map(doubles).collect(),
        Value::Object(o) => o.iter().map(|(k, v)| (k.clone(), doubles(v))).collect::<Map<_, _>>().into(),
        v => v.clone(),
    }
}
fn kind(v: &Value) -> &'static str { match v { Value::Null => "null", Value::Bool(_) => "boolean", Value::Number(_) => "number", Value::String(_) => "string", Value::Array(_) => "list", Value::Object(_) => "object" } }

/// texts that are hard to carry from one language to another
const HARD: &[&str] = &["", "\"", "\\", "\\u0041", "\n\r\t", "\u{0}", "\u{7f}", "\u{1}", "é", "日本", "🦀", "\u{2028}", "\u{fffd}", "\u{feff}", "`${1}`", "');", "</script>", "null", "1", "{}", "__proto__", "constructor", "a.b", " "];
fn hard(r: &mut Rng) -> Value {
    let mut v = short_floats(gen_json(r, 4));
    fn go(r: &mut Rng, v: &mut Value) {
        match v {
            Value::String(s) => if r.bool() { *s = r.string(HARD, 4) },
            Value::Number(n) => if r.chance(1, 3) { *n = (*r.pick(&[0i64, -1, 1, 4294967296, 2147483648, -2147483649, 9007199254740991, -9007199254740991])).into() },
            Value::Array(xs) => xs.iter_mut().for_each(|x| go(r, x)),
            Value::Object(o) => {
                let old = std::mem::take(o);
                for (k, mut x) in old {
                    go(r, &mut x);
                    // `JSON.parse` keeps "__proto__" as a plain property
                    o.insert(if r.chance(1, 4) { r.string(HARD, 2) } else { k }, x);
                }
            }
            _ => {}
        }
    }
    go(r, &mut v);
    doubles(&v)
}

fn values(c: &C) {
    let mut r = c.rng("values");
    let w = js();
    let rt = rt_multi(4);
    for _ in 0..c.n(3000, 60_000) {
        let v = hard(&mut r);
        let f = *r.pick(&["echo", "trip", "wrap", "kind", "keys"]);
        if f == "keys" && !v.is_object() { continue }
        c.case(&(f, v.to_string()), v.is_array() || v.is_object());
        let want = match f {
            "wrap" => json!({ "w": v }),
            "kind" => json!(["string", kind(&v)]),
            // sorted by UTF-16 units
            "keys" => { let mut k: Vec<&String> = v.as_object().unwrap().keys().collect(); k.sort_by_key(|k| k.encode_utf16().collect::<Vec<_>>()); json!(k) }
            _ => v.clone(),
        };
        let got = rt.block_on(w.call(f, cv(&v)));
        c.count("values", 1);
        let show = || json!({"function": f, "value": v, "got": format!("{got:?}")});
        match &got {
            Ok(Some(x)) => { c.eq(&jv(x), &want, &format!("values:{f}"), show); }
            _ => { c.violation(&format!("values:failed:{f}"), show()); }
        }
    }
    // failures in between change nothing
    for round in 0..c.n(4, 60) {
        for f in BAD_BODY {
            let v = hard(&mut r);
            c.case(&(f, round, v.to_string()), true);
            c.count("script-failures", 1);
            match rt.block_on(w.call(f, cv(&v))) {
                Err(e) => { c.check(!e.to_string().is_empty(), "values:silent-error", || json!(f)); }
                Ok(x) => { c.violation(&format!("values:malformed-accepted:{f}"), json!({"value": v, "got": format!("{x:?}")})); }
            }
            let got = rt.block_on(w.call("trip", cv(&v)));
            c.check(matches!(&got, Ok(Some(x)) if jv(x) == v), "values:after-failure", || json!({"after": f, "value": v, "got": format!("{got:?}")}));
        }
    }
    // from many tasks at once: each call is evaluated once and gets its own result
    for round in 0..c.n(6, 100) {
        let w = js();
        let n = r.range(20, 120);
        let got: Vec<(Value, bool, Result<Value, String>)> = rt.block_on(async {
            let mut hs = vec![];
            for i in 0..n {
                let (w, bad) = (w.clone(), r.chance(1, 5));
                let f = if bad { *r.pick(&["throws", "number", "forever", "missing"]) } else { "next" };
                let t = json!({"id": i, "x": hard(&mut r)});
                hs.push(tokio::spawn(async move { let x = w.call(f, cv(&t)).await; (t, bad, x.map(|x| x.map(|x| jv(&x)).unwrap_or(Value::Null)).map_err(|e| e.to_string())) }));
            }
            let mut out = vec![];
            for h in hs { out.push(h.await.unwrap()) }
            out
        });
        let mut ns = BTreeSet::new();
        let good = got.iter().filter(|g| !g.1).count();
        for (t, bad, x) in &got {
            c.case(&(round, t.to_string()), true);
            c.count("values-at-once", 1);
            match x {
                Ok(x) if !*bad => { c.eq(&x["t"], t, "values:mixed-up", || json!({"round": round})); ns.insert(x["n"].as_u64().unwrap_or(0)); }
                Err(_) if *bad => {}
                _ => { c.violation("values:at-once", json!({"given": t, "bad": bad, "got": format!("{x:?}")})); }
            }
        }
        c.check(ns == (1..=good as u64).collect(), "values:state-of-script", || json!({"round": round, "calls": good, "counted": ns}));
    }
}

fn errors(c: &C) {
    use worker::Error as E;
    let mut r = c.rng("errors");
    let mut texts = BTreeSet::new();
    for _ in 0..c.n(200, 2000) {
        let (a, b) = (format!("a{}", r.below(1 << 30)), format!("b{}", r.below(1 << 30)));
        let serde = serde_json::from_str::<Value>(&format!("{}{{", " ".repeat(r.below(50)))).unwrap_err();
        let st = serde.to_string();
        let all: Vec<(E, Vec<&str>)> = vec![
            (E::SerdeJson(Arc::new(serde)), vec![&st]),
            (E::CLI(a.clone()), vec![&a]),
            (E::InvalidFunction(a.clone()), vec![&a]),
            (E::Rquickjs(a.clone()), vec![&a]),
            (E::DeserializeFailed(a.clone()), vec![&a]),
            (E::GlobalThisNotInitialised(a.clone()), vec![&a]),
            (E::FunctionValueParseError(a.clone(), b.clone()), vec![&a, &b]),
            (E::from(anyhow::anyhow!("{a}")), vec![&a]),
        ];
        for (e, parts) in &all {
            c.case(&e.to_string(), true);
            let (d, g) = (e.to_string(), format!("{e:?}"));
            c.check(parts.iter().all(|p| d.contains(p) && g.contains(p)), "errors:text", || json!({"display": d, "debug": g, "has to name": parts}));
            let ir = tailcall::core::ir::Error::from(e.clone()).to_string();
            c.check(parts.iter().all(|p| ir.contains(p)), "errors:reported", || json!({"error": ir, "has to name": parts}));
        }
    }
    for e in [E::InitializationFailed, E::Communication, E::RequestCloneFailed, E::JsRuntimeStopped, E::RuntimeNotInitialized] {
        c.check(texts.insert(e.to_string()), "errors:same-text", || json!(e.to_string()));
    }
}

// ---------------------------------------------------------------- the view of a request
fn view(q: &UReq) -> Value {
    let mut headers: BTreeMap<String, String> = BTreeMap::new();
    for (k, v) in &q.headers { headers.entry(k.clone()).and_modify(|x| { x.push_str(", "); x.push_str(v) }).or_insert(v.clone()); }
    let query: BTreeMap<String, String> = q.query().into_iter().collect();
    json!({
        "uri": {"path": q.url.path(), "query": query, "scheme": q.url.scheme(), "host": q.url.host_str(), "port": q.url.port()},
        "method": q.method, "headers": headers, "body": if q.body.is_empty() { Value::Null } else { json!(q.body_str()) },
    })
}
/// What a script leaves out and what it has as null are the same
fn tidy(mut v: Value) -> Value {
    for k in ["port", "host"] { if v["uri"].get(k).is_none() { v["uri"][k] = Value::Null } }
    if v.get("body").is_none() || v["body"] == "" { v["body"] = Value::Null }
    v
}

fn views(c: &C) {
    let mut r = c.rng("views");
    for _ in 0..c.n(2000, 40_000) {
        let mut u = url::Url::parse(&format!("{}://{}{}", r.pick(&["http", "https"]), r.pick(&["u.test", "localhost", "127.0.0.1", "[::1]", "a.b.c"]), r.pick(&["", ":81", ":443", ":80"]))).unwrap();
        u.set_path(&format!("/{}", r.string(&["a", "/", "é", " ", "%2F", "?", "#", ".", "+", "b"], 5)));
        // one value per parameter, as far as the view goes
        let pairs: BTreeMap<String, String> = (0..r.below(4)).map(|_| (r.string(&["a", "é", " ", "&", "=", "+", "%", "b", "[]", "#"], 3), r.string(&["1", "&", "=", "é", " ", "+", "%20", "?", "#", "🦀"], 4))).collect();
        if !pairs.is_empty() { u.query_pairs_mut().extend_pairs(&pairs); }
        c.case(&u.to_string(), !pairs.is_empty());
        c.count("views", 1);
        let v = worker::Uri::from(&u);
        c.check(v.path == u.path() && v.query == pairs && v.host.as_deref() == u.host_str() && v.port == u.port() && (v.scheme == worker::Scheme::Https) == (u.scheme() == "https"), "views:parts", || json!({"url": u.as_str(), "view": format!("{v:?}")}));
        let back = url::Url::parse(&v.to_string());
        c.check(back.as_ref().is_ok_and(|b| same_url(b, &u)), "views:back", || json!({"url": u.as_str(), "printed": v.to_string(), "view": format!("{v:?}")}));
    }
}
fn pairs(u: &url::Url) -> Vec<(String, String)> { let mut p: Vec<(String, String)> = u.query_pairs().into_owned().collect(); p.sort(); p }
fn same_url(a: &url::Url, b: &url::Url) -> bool {
    a.scheme() == b.scheme() && a.host_str() == b.host_str() && a.port() == b.port() && a.path() == b.path() && pairs(a) == pairs(b)
}

// ---------------------------------------------------------------- the gateway
const HOOKS: &[&str] = &["plain", "pass", "nothing", "nullish", "copied", "see", "see", "change", "respond", "redirect", "pass_wrap", "change_wrap", "respond_wrap", "redirect_wrap", "wrap"];
const METHODS: &[&str] = &["GET", "POST", "PUT", "PATCH", "DELETE"];

fn config(default_hook: bool) -> String {
    let mut q = String::new();
    for m in METHODS {
        for h in HOOKS {
            let mut extra = String::new();
            let (on, body) = match *h { "wrap" => ("plain", true), h => (h.trim_end_matches("_wrap"), h.ends_with("_wrap")) };
            if on != "plain" { extra += &format!(", onRequest: \"{on}\"") }
            if body { extra += ", onResponseBody: \"wrap\"" }
            let b = if *m == "GET" { "" } else { ", body: \"{{.args.b}}\"" };
            q += &format!("  {}_{h}(p: String!, a: String, l: [String], x: String, b: JSON): JSON @http(url: \"http://u.test/d/{{{{.args.p}}}}\", method: {m}, query: [{{key: \"a\", value: \"{{{{.args.a}}}}\"}}, {{key: \"l\", value: \"{{{{.args.l}}}}\"}}, {{key: \"fix\", value: \"1&2\"}}], headers: [{{key: \"x-a\", value: \"{{{{.args.x}}}}\"}}, {{key: \"x-fix\", value: \"f\"}}]{b}{extra})\n", m.to_lowercase());
        }
    }
    let obj = "obj: Obj @http(url: \"http://u.test/obj\")\n  objs: [Obj] @http(url: \"http://u.test/objs\")\n  top: JSON @js(name: \"trip\")\n";
    let bad: String = BAD.iter().map(|b| format!("  {b}: JSON @http(url: \"http://u.test/bad\", onRequest: \"{b}\")\n")).chain(BAD_BODY.iter().map(|b| format!("  body_{b}: JSON @http(url: \"http://u.test/bad\", onResponseBody: \"{b}\")\n  js_{b}: JsBad{b} @http(url: \"http://u.test/obj\")\n"))).collect();
    let jsbad: String = BAD_BODY.iter().map(|b| format!("type JsBad{b} {{ id: Int x: JSON @js(name: \"{b}\") }}\n")).collect();
    let kid = |n: &str, on: &str| format!("  {n}: JSON @http(url: \"http://u.test/kid\", query: [{{key: \"id\", value: \"{{{{.value.id}}}}\"}}], batchKey: [\"id\"]{on})\n  {n}Post: JSON @http(url: \"http://u.test/kids\", method: POST, body: {{id: \"{{{{.value.id}}}}\", k: \"c\"}}, batchKey: [\"id\"]{on})\n");
    format!("schema @server(port: 8000, headers: {{experimental: [\"x-res\"], setCookies: true, cacheControl: true}}) @upstream(allowedHeaders: [\"x-plan\", \"x-in\", \"x-bin\", \"authorization\"], batch: {{delay: 1, maxSize: 100}}{}) @link(id: \"t\", src: \"t.js\", type: Script) {{ query: Query }}\ntype Query {{\n{q}  {obj}{bad}}}\ntype Obj {{ id: Int v: JSON same: JSON @js(name: \"trip\") wrapped: JSON @js(name: \"wrap\") ks: JSON @js(name: \"keys\")\n{}{}}}\n{jsbad}", if default_hook { ", onRequest: \"tag\"" } else { "" }, kid("kid", ""), kid("kidHooked", ", onRequest: \"pass\""))
}

fn build(sdl: &str, up: Arc<Upstream>) -> Result<Arc<AppContext>, String> {
    let mut rt = mock::runtime(up);
    rt.file = Arc::new(Files(Mutex::new(HashMap::from([("app.graphql".to_string(), sdl.to_string()), ("t.js".to_string(), SCRIPT.to_string())]))));
    let rt2 = rt.clone();
    let bp = std::thread::spawn(move || rt_single().block_on(async move {
        let m = ConfigReader::init(rt2).read("app.graphql").await.map_err(|e| format!("{e:#}"))?;
        Blueprint::try_from(&m).map_err(|e| format!("{e}"))
    })).join().map_err(|_| last_panic())??;
    let script = bp.server.script.clone().ok_or("no script")?;
    rt.cmd_worker = Some(init_worker_io::<worker::Event, worker::Command>(script.clone()));
    rt.worker = Some(init_worker_io::<ConstValue, ConstValue>(script));
    Ok(Arc::new(AppContext::new(bp, rt, EndpointSet::default())))
}

#[derive(Clone, Debug, Hash)]
struct Call { method: &'static str, p: String, a: Option<String>, l: Vec<String>, x: String, b: Option<String>, headers: Vec<(String, Vec<u8>)> }

const TEXT: &[&str] = &["a", "b c", "é", "&", "=", "+", "%20", "?x", "#", "/", "日", "\"", "\\", "1"];
fn call(r: &mut Rng) -> Call {
    let mut headers = vec![];
    if r.bool() { for _ in 0..r.range(1, 3) { headers.push(("x-in".to_string(), r.string(&["a", "b", ", ", " c", "é", "=", "\""], 3).trim().as_bytes().to_vec())) } }
    if r.chance(1, 4) { headers.push(("x-bin".to_string(), vec![b'v', 0xff, 0xe9, b'x'])) }
    if r.chance(1, 3) { headers.push(("authorization".to_string(), format!("Bearer {}", r.below(1000)).into_bytes())) }
    let method = *r.pick(METHODS);
    Call {
        method,
        p: r.string(&["a", "b c", "é", "%2F", "x", "1"], 3) + "z",
        a: r.chance(2, 3).then(|| r.string(TEXT, 4)),
        l: (0..r.below(4)).map(|_| r.string(TEXT, 2)).collect(),
        x: r.string(&["a", "b", "1", "-", "=", ";"], 4),
        b: (method != "GET" && r.chance(3, 4)).then(|| hard(r).to_string()),
        headers,
    }
}

async fn send(app: &Arc<AppContext>, call: &Call, hook: &str, plan: &Value) -> Result<Res, String> {
    let f = format!("{}_{hook}", call.method.to_lowercase());
    let q = format!("query($p: String!, $a: String, $l: [String], $x: String, $b: JSON) {{ x: {f}(p: $p, a: $a, l: $l, x: $x, b: $b) }}");
    let mut vars = json!({"p": call.p, "l": call.l, "x": call.x});
    if let Some(a) = &call.a { vars["a"] = json!(a) }
    if let Some(b) = &call.b { vars["b"] = serde_json::from_str(b).unwrap() }
    let body = json!({"query": q, "variables": vars}).to_string();
    let mut req = hyper::Request::builder().method("POST").uri("http://localhost:8000/graphql").header("content-type", "application/json");
    for (k, v) in &call.headers { req = req.header(k.as_str(), hyper::header::HeaderValue::from_bytes(v).map_err(|e| e.to_string())?) }
    if !plan.is_null() { req = req.header("x-plan", ascii(&plan.to_string())) }
    mock::send_raw(app, req.body(hyper::Body::from(body)).map_err(|e| e.to_string())?).await
}
fn ascii(s: &str) -> String {
    let mut out = String::new();
    for ch in s.chars() { if ch.is_ascii() && ch != '\u{7f}' { out.push(ch) } else { let mut b = [0; 2]; for u in ch.encode_utf16(&mut b) { out += &format!("\\u{u:04x}") } } }
    out
}

/// The answer tells the request apart from all others
fn answer(q: &UReq) -> URes {
    URes::json(json!({"u": format!("{:x}", h64(&(q.url.as_str(), &q.method, &q.body))), "list": [1, null, "é"], "n": null})).header("x-res", "up").header("cache-control", "max-age=77").header("set-cookie", "s=up")
}
fn upstream() -> Arc<Upstream> {
    Upstream::new(|q| match q.path() {
        "/obj" => URes::json(json!({"id": 7, "v": {"b": [1, 2.5, "x"], "a": null, "é\"": "\u{2028}"}})),
        "/objs" => URes::json(json!((0..q.q("n").and_then(|n| n.parse().ok()).unwrap_or(6)).map(|i: i64| json!({"id": i, "v": [i, "t", {"k": i}]})).collect::<Vec<_>>())),
        "/kid" => URes::json(json!(q.qs("id").iter().map(|i| json!({"id": i.parse::<i64>().unwrap_or(-1), "kid": format!("k{i}")})).collect::<Vec<_>>())),
        "/kids" => { let b = q.body_json(); URes::json(json!(match b { Value::Array(xs) => xs, x => vec![x] }.iter().map(|x| json!({"id": x["id"].as_str().and_then(|s| s.parse::<i64>().ok()).map(|x| json!(x)).unwrap_or(x["id"].clone()), "kid": format!("p{}", x["k"].as_str().unwrap_or("?"))})).collect::<Vec<_>>())) }
        _ => answer(q),
    })
}

fn same_request(a: &UReq, b: &UReq) -> bool { a.method == b.method && a.url == b.url && a.body == b.body && sorted(&a.headers) == sorted(&b.headers) }
fn sorted(h: &[(String, String)]) -> Vec<(String, String)> { let mut h = h.to_vec(); h.sort_by(|a, b| a.0.cmp(&b.0)); h }

/// Random changes and the request they make of the view
fn changes(r: &mut Rng, base: &UReq) -> (Value, Value) {
    let mut plan = json!({});
    let mut want = view(base);
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let k = r.pick(&["a", "l", "fix", "new", "é k"]).to_string();
            let v = if r.chance(1, 3) { Value::Null } else { json!(r.string(TEXT, 4)) };
            plan["query"][&k] = v;
        }
        for (k, v) in plan["query"].as_object().unwrap().clone() { if v.is_null() { want["uri"]["query"].as_object_mut().unwrap().remove(&k); } else { want["uri"]["query"][k] = v } }
    }
    if r.chance(1, 2) {
        for _ in 0..r.range(1, 3) {
            let k = r.pick(&["x-a", "x-fix", "x-new", "x-in", "authorization"]).to_string();
            let v = if r.chance(1, 3) { Value::Null } else { json!(r.string(&["a", "b", "1", "=", ", ", "x y"], 3).trim()) };
            plan["headers"][&k] = v;
        }
        for (k, v) in plan["headers"].as_object().unwrap().clone() { if v.is_null() { want["headers"].as_object_mut().unwrap().remove(&k); } else { want["headers"][k] = v } }
    }
    if r.chance(1, 3) { let p = format!("/n/{}", r.string(&["a", "b", "/", "-", "1"], 4)); plan["path"] = json!(p); want["uri"]["path"] = json!(p); }
    if r.chance(1, 4) { let h = *r.pick(&["v.test", "localhost", "10.0.0.1"]); plan["host"] = json!(h); want["uri"]["host"] = json!(h); }
    if r.chance(1, 4) { let p = r.range(1000, 65535); plan["port"] = json!(p); want["uri"]["port"] = json!(p); }
    if r.chance(1, 5) { plan["scheme"] = json!("https"); want["uri"]["scheme"] = json!("https"); }
    if r.chance(1, 4) { let m = *r.pick(METHODS); plan["method"] = json!(m); want["method"] = json!(m); }
    if r.chance(1, 3) { let b = r.string(HARD, 4); plan["body"] = json!(b); want["body"] = if b.is_empty() { Value::Null } else { json!(b) }; }
    (plan, want)
}

fn gateway(c: &C) {
    let mut r = c.rng("gateway");
    let up = upstream();
    let rt = rt_multi(2);
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for tagged in [false, true] {
            let app = match build(&config(tagged), up.clone()) { Ok(a) => a, Err(e) => { c.violation("gateway:refused", json!({"error": e})); continue } };
            for _ in 0..c.n(500, 8000) {
                let k = call(&mut r);
                // what is sent when no script is in the way
                let _ = up.take();
                let plan0 = Value::Null;
                let hook = *r.pick(&["pass", "nothing", "nullish", "copied", "see", "see", "change", "change_wrap", "respond", "respond_wrap", "redirect", "redirect_wrap", "pass_wrap", "wrap", "change", "redirect", "respond"]);
                let res0 = match send(&app, &k, "plain", &plan0).await { Ok(x) => x, Err(e) => { c.violation("gateway:failed", json!({"call": format!("{k:?}"), "error": e})); continue } };
                let log0 = up.take();
                if log0.len() != 1 || !res0.errors().is_empty() { c.violation("gateway:plain", json!({"call": format!("{k:?}"), "calls": log0.len(), "answer": res0.json()})); continue }
                let mut base = log0[0].clone();
                if tagged {
                    c.check(base.header("x-tag") == Some("default"), "gateway:default-hook", || json!({"call": format!("{k:?}"), "sent": base.show()}));
                    base.headers.retain(|h| h.0 != "x-tag");
                }
                let plain_data = res0.data()["x"].clone();
                let wrapped = hook == "wrap" || hook.ends_with("_wrap");
                let wrap = |v: Value| if wrapped { json!({ "w": v }) } else { v };
                let nontrivial = k.b.is_some() || k.l.len() > 1 || k.headers.len() > 1;
                let show = |plan: &Value, res: &Res, log: &[UReq]| json!({"call": format!("{k:?}"), "hook": hook, "plan": plan, "without script": base.show(), "sent": log.iter().map(|q| q.show()).collect::<Vec<_>>(), "answer": res.json()});
                macro_rules! go { ($plan:expr) => {{ match send(&app, &k, hook, $plan).await { Ok(x) => (x, up.take()), Err(e) => { c.violation("gateway:failed", json!({"call": format!("{k:?}"), "hook": hook, "error": e})); continue } } }} }
                match hook {
                    "pass" | "nothing" | "nullish" | "copied" | "pass_wrap" | "wrap" => {
                        let (res, log) = go!(&Value::Null);
                        c.case(&(&k, hook, tagged), nontrivial);
                        c.count("passed", 1);
                        if k.headers.iter().any(|h| h.0 == "x-bin") { c.count("binary-kept", 1) }
                        if k.l.len() > 1 { c.count("repeated-kept", 1) }
                        let mut want = base.clone();
                        if tagged && hook == "wrap" { want = log0[0].clone() }
                        c.check(log.len() == 1 && same_request(&log[0], &want), &format!("gateway:not-passed:{hook}"), || show(&Value::Null, &res, &log));
                        c.eq(&res.json(), &json!({"data": {"x": wrap(plain_data.clone())}}), &format!("gateway:data:{hook}"), || show(&Value::Null, &res, &log));
                        for h in ["x-res", "cache-control", "set-cookie"] { c.check(res.all(h) == res0.all(h), "gateway:headers-of-response", || json!({"header": h, "got": res.all(h), "want": res0.all(h), "hook": hook})); }
                    }
                    "see" => {
                        let (res, log) = go!(&Value::Null);
                        c.case(&(&k, hook, tagged), nontrivial);
                        c.count("seen", 1);
                        c.check(log.is_empty(), "gateway:called-anyway", || show(&Value::Null, &res, &log));
                        c.eq(&tidy(res.data()["x"]["saw"].clone()), &view(&base), "gateway:view", || show(&Value::Null, &res, &log));
                        c.check(res.header("x-res") == Some("seen"), "gateway:header-of-script", || show(&Value::Null, &res, &log));
                    }
                    "change" | "change_wrap" => {
                        let (plan, mut want) = changes(&mut r, &base);
                        let (res, log) = go!(&plan);
                        want["headers"]["x-plan"] = json!(ascii(&plan.to_string()));
                        c.case(&(&k, plan.to_string(), tagged), true);
                        c.count("changed", 1);
                        c.check(log.len() == 1 && {
                            let mut got = view(&log[0]);
                            // A default port isn't written
                            if got["uri"]["port"].is_null() { want["uri"]["port"] = Value::Null }
                            got == want
                        }, "gateway:changed", || json!({"want": want, "all": show(&plan, &res, &log)}));
                        if let Some(q) = log.first() {
                            // what the script left alone is as it was
                            if plan.get("query").is_none() && ["path", "host", "port", "scheme"].iter().all(|k| plan.get(*k).is_none()) { c.check(q.url == base.url, "gateway:url-touched", || show(&plan, &res, &log)); }
                            for name in ["x-in", "x-bin", "x-a", "authorization"] {
                                if plan["headers"].get(name).is_none() {
                                    let all = |q: &UReq| q.headers.iter().filter(|h| h.0 == name).map(|h| h.1.clone()).collect::<Vec<_>>();
                                    c.check(all(q) == all(&base), "gateway:header-touched", || json!({"header": name, "all": show(&plan, &res, &log)}));
                                }
                            }
                            let d: Value = serde_json::from_slice(&answer(q).body).unwrap();
                            c.eq(&res.json(), &json!({"data": {"x": wrap(d)}}), "gateway:data:changed", || show(&plan, &res, &log));
                        }
                    }
                    "respond" | "respond_wrap" => {
                        let v = hard(&mut r);
                        let hv = r.string(&["a", "b", "1", "=", "x y"], 3).trim().to_string();
                        let (body, want) = match r.below(6) { 0 => (json!(""), Value::Null), 1 => (Value::Null, Value::Null), _ => (json!(v.to_string()), v.clone()) };
                        let status = *r.pick(&[200, 201, 203, 299]);
                        let mut plan = json!({"response": {"status": status, "headers": {"x-res": hv, "set-cookie": "s=js", "x-hidden": "h", "cache-control": "max-age=33"}, "body": body}});
                        if r.chance(1, 6) { plan["response"].as_object_mut().unwrap().remove("body"); }
                        let want = if plan["response"].get("body").is_none() { Value::Null } else { want };
                        let (res, log) = go!(&plan);
                        c.case(&(&k, plan.to_string(), tagged), true);
                        c.count("responded", 1);
                        c.check(log.is_empty(), "gateway:called-anyway", || show(&plan, &res, &log));
                        c.eq(&res.json(), &json!({"data": {"x": wrap(want)}}), "gateway:data:responded", || show(&plan, &res, &log));
                        c.check(res.header("x-res") == Some(hv.as_str()) && res.header("set-cookie") == Some("s=js") && res.header("x-hidden").is_none() && res.header("cache-control").is_some_and(|x| x.contains("max-age=33")), "gateway:header-of-script", || json!({"headers": res.headers, "all": show(&plan, &res, &log)}));
                    }
                    _ => {
                        let mut plan = json!({});
                        let mut url = base.url.clone();
                        let endless = r.chance(1, 5);
                        if endless { plan["endless"] = json!(true) } else {
                            let n = r.range(1, 6);
                            let mut hops = vec![];
                            for i in 1..=n {
                                let loc = match r.below(6) {
                                    0 => format!("/hop/{i}"),
                                    1 => format!("/x/hop/{i}?z={i}&a=1%262"),
                                    2 => format!("http://v.test/hop/{i}"),
                                    3 => format!("https://w.test:444/q/hop/{i}?k=v"),
                                    4 => format!("//o.test/hop/{i}"),
                                    _ => format!("../../hop/{i}"),
                                };
                                let mut t = url.join(&loc).unwrap();
                                if t.query().is_none() && t.origin() == url.origin() { t.set_query(url.query()) }
                                url = t;
                                hops.push(loc);
                            }
                            plan["hops"] = json!(hops);
                            plan["status"] = json!(r.pick(&[301, 302]));
                            if r.chance(1, 4) { plan["silent"] = json!(true) }
                            if r.chance(1, 4) { plan["last"] = json!("{\"last\":1}") }
                        }
                        let (res, log) = go!(&plan);
                        c.case(&(&k, plan.to_string(), tagged), true);
                        if endless {
                            c.count("endless", 1);
                            c.check(log.is_empty() && !res.errors().is_empty() && res.data().is_null(), "gateway:endless", || show(&plan, &res, &log));
                            continue;
                        }
                        c.count("redirected", 1);
                        if plan.get("last").is_some() {
                            c.check(log.is_empty(), "gateway:called-anyway", || show(&plan, &res, &log));
                            c.eq(&res.json(), &json!({"data": {"x": wrap(json!({"last": 1}))}}), "gateway:data:redirected", || show(&plan, &res, &log));
                            continue;
                        }
                        let mut want = base.clone();
                        want.url = url;
                        want.headers.push(("x-plan".into(), ascii(&plan.to_string())));
                        c.check(log.len() == 1 && same_request(&log[0], &want), "gateway:redirected", || json!({"want": want.show(), "all": show(&plan, &res, &log)}));
                        let d: Value = serde_json::from_slice(&answer(&want).body).unwrap();
                        c.eq(&res.json(), &json!({"data": {"x": wrap(d)}}), "gateway:data:redirected", || show(&plan, &res, &log));
                    }
                }
            }
        }
    });
}

/// Fields computed by scripts and fields loaded in batches that hooks let pass
fn fields(c: &C) {
    let mut r = c.rng("fields");
    let rt = rt_multi(2);
    let c2 = c.clone();
    let n = c.n(25, 400);
    rt.block_on(async move {
        let c = &c2;
        let data: Arc<Mutex<Vec<Value>>> = Arc::default();
        let d2 = data.clone();
        let plain = upstream();
        let up = Upstream::new(move |q| match q.path() { "/obj" => URes::json(d2.lock().unwrap()[0].clone()), "/objs" => URes::json(json!(*d2.lock().unwrap())), _ => (plain.handler)(q) });
        let app = match build(&config(false), up.clone()) { Ok(a) => a, Err(e) => { c.violation("fields:refused", json!({"error": e})); return } };
        for _ in 0..n {
            let objs: Vec<Value> = (0..r.range(1, 6)).map(|i| json!({"id": i, "v": hard(&mut r), "more": hard(&mut r)})).collect();
            *data.lock().unwrap() = objs.clone();
            let _ = up.take();
            let res = mock::query(&app, "{ objs { id v same wrapped ks kid kidHooked kidPost kidHookedPost } obj { id same } top }").await;
            let log = up.take();
            let ks = |o: &Value| { let mut k: Vec<&String> = o.as_object().unwrap().keys().collect(); k.sort(); json!(k) };
            let want = json!({"data": {
                "objs": objs.iter().map(|o| json!({"id": o["id"], "v": o["v"], "same": o, "wrapped": {"w": o}, "ks": ks(o), "kid": {"id": o["id"], "kid": format!("k{}", o["id"])}, "kidHooked": {"id": o["id"], "kid": format!("k{}", o["id"])}, "kidPost": {"id": o["id"], "kid": "pc"}, "kidHookedPost": {"id": o["id"], "kid": "pc"}})).collect::<Vec<_>>(),
                "obj": {"id": objs[0]["id"], "same": objs[0]}, "top": null,
            }});
            c.case(&json!(objs).to_string(), true);
            c.count("fields", objs.len() as u64 * 3);
            let show = || json!({"objects": objs, "calls": log.iter().map(|q| q.show()).collect::<Vec<_>>()});
            c.eq(&res.json(), &want, "fields:data", show);
            // both of each kind are loaded in as many calls
            for (path, sig) in [("/kid", "fields:batches"), ("/kids", "fields:batches-post")] {
                let n = log.iter().filter(|q| q.path() == path).count();
                c.check(n <= 2 * objs.len() && n >= 2, sig, show);
            }
        }
    });
}

fn misbehaving(c: &C) {
    let mut r = c.rng("misbehaving");
    let up = upstream();
    let rt = rt_multi(2);
    let c2 = c.clone();
    let n = c.n(2, 20);
    rt.block_on(async move {
        let c = &c2;
        let app = match build(&config(false), up.clone()) { Ok(a) => a, Err(e) => { c.violation("misbehaving:refused", json!({"error": e})); return } };
        for round in 0..n {
            let mut all: Vec<(String, bool)> = BAD.iter().map(|b| (b.to_string(), false)).chain(BAD_BODY.iter().flat_map(|b| [(format!("body_{b}"), true), (format!("js_{b}"), true)])).collect();
            r.shuffle(&mut all);
            for (f, calls) in all {
                let _ = up.take();
                let sel = if f.starts_with("js_") { " { id x }" } else { "" };
                let res = mock::query(&app, &format!("{{ x: {f}{sel} }}")).await;
                let log = up.take();
                c.case(&(&f, round), true);
                c.count("misbehaved", 1);
                let show = || json!({"function": f, "answer": res.json(), "calls": log.iter().map(|q| q.show()).collect::<Vec<_>>()});
                c.check(res.status == 200 && !res.errors().is_empty() && res.data().is_null(), &format!("misbehaving:accepted:{f}"), show);
                c.check(log.len() == calls as usize, "misbehaving:calls", show);
                c.check(res.errors().iter().all(|e| e["message"].as_str().is_some_and(|m| !m.is_empty())), "misbehaving:no-message", show);
                // and the gateway goes on
                let k = call(&mut r);
                let ok = send(&app, &k, "pass", &Value::Null).await;
                let log = up.take();
                c.check(ok.as_ref().is_ok_and(|x| x.errors().is_empty()) && log.len() == 1, "misbehaving:afterwards", || json!({"after": f, "call": format!("{k:?}"), "answer": ok.as_ref().ok().map(|x| x.json())}));
            }
        }
    });
}

/// Many requests at once, some with failing scripts
fn crowd(c: &C) {
    let mut r = c.rng("crowd");
    let rt = rt_multi(4);
    let c2 = c.clone();
    let rounds = c.n(4, 60);
    rt.block_on(async move {
        let c = &c2;
        let up = upstream();
        let app = match build(&config(false), up.clone()) { Ok(a) => a, Err(e) => { c.violation("crowd:refused", json!({"error": e})); return } };
        for round in 0..rounds {
            let n = r.range(30, 80);
            let mut hs = vec![];
            for i in 0..n {
                let app = app.clone();
                if r.chance(1, 3) {
                    let f = if r.bool() { r.pick(BAD).to_string() } else { format!("body_{}", r.pick(BAD_BODY)) };
                    hs.push(tokio::spawn(async move { let res = mock::query(&app, &format!("{{ x: {f} }}")).await; (None, f, res) }));
                } else {
                    let hook = *r.pick(&["respond", "respond_wrap", "change", "see", "pass"]);
                    let token = json!({"t": format!("{round}-{i}-{}", r.below(1 << 20))});
                    let plan = match hook { "change" => json!({"query": {"token": token["t"]}, "body": token.to_string()}), _ => json!({"response": {"status": 200, "headers": {"x-res": token["t"]}, "body": token.to_string()}}) };
                    let k = Call { method: "POST", p: token["t"].as_str().unwrap().to_string(), a: None, l: vec![], x: token["t"].as_str().unwrap().to_string(), b: Some(token.to_string()), headers: vec![] };
                    hs.push(tokio::spawn(async move { let res = send(&app, &k, hook, &plan).await.unwrap(); (Some(token), hook.to_string(), res) }));
                }
            }
            for h in hs {
                let (token, hook, res) = match h.await { Ok(x) => x, Err(e) => { c.violation("crowd:panic", json!({"error": e.to_string(), "panic": last_panic()})); continue } };
                let show = || json!({"hook": hook, "token": token, "answer": res.json(), "round": round});
                match &token {
                    None => { c.count("crowd-bad", 1); c.case(&(round, &hook), true); c.check(!res.errors().is_empty() && res.data().is_null(), "crowd:accepted", show); }
                    Some(t) => {
                        c.count("crowd-good", 1);
                        c.case(&t.to_string(), true);
                        let x = &res.data()["x"];
                        let ts = t["t"].as_str().unwrap();
                        let good = res.errors().is_empty() && match hook.as_str() {
                            "respond" => x == t && res.header("x-res") == Some(ts),
                            "respond_wrap" => x == &json!({ "w": t }) && res.header("x-res") == Some(ts),
                            "see" => x["saw"]["headers"]["x-a"] == *ts && x["saw"]["uri"]["path"].as_str().is_some_and(|p| p.ends_with(ts)) && x["saw"]["body"].as_str().is_some_and(|b| serde_json::from_str::<Value>(b).ok().as_ref() == Some(t)),
                            _ => up.log.lock().unwrap().iter().any(|q| q.path().ends_with(ts) && x["u"] == format!("{:x}", h64(&(q.url.as_str(), &q.method, &q.body))) && (hook == "pass" || q.q("token").as_deref() == Some(ts))),
                        };
                        c.check(good, &format!("crowd:{hook}"), show);
                    }
                }
            }
            let _ = up.take();
        }
    });
}
