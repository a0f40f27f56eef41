//! C08: upstream requests carry exactly what the configuration and the data say.
use std::collections::BTreeMap;

use serde_json::{json, Value};
use tailcall::core::config::{Encoding, KeyValue, KeyValues, URLQuery};
use tailcall::core::endpoint::Endpoint;
use tailcall::core::http::{BodyBatching, DataLoaderRequest, Method, QueryBatching, RequestTemplate};
use tailcall::core::mustache::Mustache;
use tailcall::core::Transform;
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock::{self, TCtx, UReq, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one upstream request built from a configured template and data (directly or through a running gateway), or one value passed through the configuration types that describe requests; distinct by template and data; non-trivial = data flows into the request");
    c.assume("a base URL parameter without a value is dropped when the URL is rebuilt; a client header on the allow list replaces a configured header of the same name; header values outside printable ASCII cannot be sent and are left out");
    c.section("parts", parts);
    c.section("template", template);
    c.section("batching", batching);
    c.section("gateway", gateway);
    c.section("paths", paths);
    c.section("graphql", graphql);
    c.floor("requests_compared", 500);
    c.floor("gateway_requests", 150);
    c.floor("hostile_values", 150);
}

const HOSTILE: &[&str] = &["&", "=", "+", "%", "#", "?", "/", "..", ";", "%26", "%00", "a&admin=1", " ", "\"", "\\", "'", "é", "日本", "<", "{", "}", ",", "|", "\t", "\n", "@", ":", "a", "b", "1", "true", "{{x}}", "^", "`", "$", "[", "]", "\u{1}"];

fn hostile(r: &mut Rng) -> String {
    r.string(HOSTILE, 6)
}

fn scalar_text(v: &Value) -> Option<String> {
    match v {
        Value::String(s) => Some(s.clone()),
        Value::Number(n) => Some(n.to_string()),
        Value::Bool(b) => Some(b.to_string()),
        _ => None,
    }
}

fn any_text(v: &Value) -> String {
    match v { Value::Null => String::new(), Value::String(s) => s.clone(), v => v.to_string() }
}

/// one configured parameter with the value its template denotes
fn expand(key: &str, v: &Value, out: &mut Vec<(String, String)>) {
    match v {
        Value::Array(l) if !l.is_empty() => l.iter().for_each(|x| expand(key, x, out)),
        v => out.push((key.to_string(), scalar_text(v).unwrap_or_default())),
    }
}

#[derive(Clone, Debug)]
enum Tm { Lit(String), Expr(String), Mixed(Vec<(bool, String)>) }
impl Tm {
    fn text(&self) -> String {
        match self {
            Tm::Lit(s) => s.clone(),
            Tm::Expr(e) => format!("{{{{.{e}}}}}"),
            Tm::Mixed(v) => v.iter().map(|(e, s)| if *e { format!("{{{{.{s}}}}}") } else { s.clone() }).collect(),
        }
    }
    /// None: nothing to send
    fn value(&self, ctx: &Value) -> Option<Value> {
        let at = |p: &str| ctx.pointer(&format!("/{}", p.replace('.', "/"))).cloned();
        match self {
            Tm::Lit(s) => Some(Value::String(s.clone())),
            Tm::Expr(e) => at(e),
            Tm::Mixed(v) => {
                let t: String = v.iter().map(|(e, s)| if *e { at(s).map(|v| any_text(&v)).unwrap_or_default() } else { s.clone() }).collect();
                (!t.is_empty()).then_some(Value::String(t))
            }
        }
    }
}

const LITS: &[&str] = &["c", "v1", "x-", "_y", "a.b", "page", "z,w", "t:1", "e;", "F=", "Up"];
fn gen_tm(r: &mut Rng, exprs: &[&str]) -> Tm {
    match r.below(6) {
        0 => Tm::Lit(r.pick(LITS).to_string()),
        1 => {
            let n = r.range(2, 4);
            let mut v: Vec<(bool, String)> = vec![];
            for i in 0..n {
                let e = if i > 0 && !v[i - 1].0 { true } else { r.bool() };
                v.push(if e { (true, r.pick(exprs).to_string()) } else { (false, r.pick(LITS).to_string()) });
            }
            if v.iter().all(|x| !x.0) { v.push((true, r.pick(exprs).to_string())); }
            Tm::Mixed(v)
        }
        _ => Tm::Expr(r.pick(exprs).to_string()),
    }
}

fn gen_data(r: &mut Rng) -> Value {
    let h = |r: &mut Rng| if r.chance(2, 3) { hostile(r) } else { r.pick(&["alpha", "42", "x y", ""]).to_string() };
    json!({
        "s": h(r), "t": h(r), "n": r.next() as i64 / 1000, "f": (r.below(1000) as f64) / 8.0 + 0.5, "b": r.bool(),
        "l": (0..r.below(4)).map(|_| Value::String(h(r))).collect::<Vec<_>>(),
        "k": [1, r.below(50), true],
        "o": {"in": h(r), "num": r.below(99)},
    })
}
const EXPRS: &[&str] = &["s", "t", "n", "f", "b", "l", "k", "o.in", "o.num", "missing", "o.none"];

fn ascii_header(s: &str) -> bool {
    s.bytes().all(|b| b >= 32 && b != 127 || b == b'\t')
}

fn parts(c: &C) {
    for (m, name) in [(Method::GET, "GET"), (Method::POST, "POST"), (Method::PUT, "PUT"), (Method::PATCH, "PATCH"), (Method::DELETE, "DELETE"), (Method::HEAD, "HEAD"), (Method::OPTIONS, "OPTIONS"), (Method::CONNECT, "CONNECT"), (Method::TRACE, "TRACE")] {
        c.check(m.clone().to_hyper().as_str() == name, "method:hyper", || json!({"m": name, "got": m.clone().to_hyper().as_str()}));
        c.check(m.to_string() == name, "method:display", || json!(name));
        c.check(serde_json::to_value(&m).ok() == Some(json!(name)), "method:serialize", || json!(name));
        c.check(serde_json::from_value::<Method>(json!(name)).ok().as_ref() == Some(&m), "method:deserialize", || json!(name));
        c.case(&name, true);
    }
    for bad in ["get", "", "POST ", "UPDATE", "Get", "QUERY"] {
        c.check(serde_json::from_value::<Method>(json!(bad)).is_err(), "method:unknown-accepted", || json!(bad));
    }
    c.check(Method::default() == Method::GET, "method:default", || json!(null));
    let mut r = c.rng("parts");
    for _ in 0..c.n(300, 5000) {
        // one parameter of a request in the configuration
        let q = URLQuery { key: hostile(&mut r), value: hostile(&mut r), skip_empty: *r.pick(&[None, Some(true), Some(false)]) };
        let v = serde_json::to_value(&q).unwrap();
        let mut want = json!({"key": q.key, "value": q.value});
        if let Some(s) = q.skip_empty { want["skipEmpty"] = json!(s); }
        c.check(v == want, "url-query:serialized", || json!({"got": v, "want": want}));
        c.check(serde_json::from_value::<URLQuery>(want.clone()).ok() == Some(q.clone()), "url-query:deserialized", || want.clone());
        // key/value lists: a map, later entries win
        let n = r.below(6);
        let list: Vec<KeyValue> = (0..n).map(|_| KeyValue { key: r.pick(&["a", "b", "C", "", "d e"]).to_string(), value: hostile(&mut r) }).collect();
        let as_json = json!(list.iter().map(|k| json!({"key": k.key, "value": k.value})).collect::<Vec<_>>());
        let mut m = BTreeMap::new();
        for k in &list { m.insert(k.key.clone(), k.value.clone()); }
        let kv: KeyValues = match serde_json::from_value(as_json.clone()) { Ok(k) => k, Err(e) => { c.violation("key-values:refused", json!({"in": as_json, "e": e.to_string()})); continue; } };
        c.check(kv.0 == m, "key-values:read", || json!({"in": as_json, "got": format!("{kv:?}")}));
        c.check(serde_json::to_value(&list).unwrap() == as_json, "key-value:written", || as_json.clone());
        let back = serde_json::to_value(&kv).unwrap();
        let wb = json!(m.iter().map(|(k, v)| json!({"key": k, "value": v})).collect::<Vec<_>>());
        c.check(back == wb, "key-values:written", || json!({"got": back, "want": wb}));
        let fi: KeyValues = list.iter().map(|k| (k.key.clone(), k.value.clone())).collect();
        c.check(fi == kv, "key-values:from-iter", || as_json.clone());
        // header templates: every name kept, in order; every illegal name reported
        let hs: Vec<KeyValue> = (0..r.below(5)).map(|_| KeyValue { key: r.pick(&["x-a", "X-B", "accept", "bad name", "é", "", "a:b", "ok_1", "x-a"]).to_string(), value: r.pick(&["v", "{{.args.a}}", "p-{{.env.X}}-s", "", "é", "v;", "{{.args.a}};", " v ", "v,", "a=b; {{.vars.x}} ", "V", "v:", "{{.args.a}}."]).to_string() }).collect();
        let legal = |k: &str| !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b));
        let bad: Vec<&KeyValue> = hs.iter().filter(|k| !legal(&k.key)).collect();
        let det = || json!(hs.iter().map(|k| (k.key.clone(), k.value.clone())).collect::<Vec<_>>());
        match tailcall::core::helpers::headers::to_mustache_headers(&hs).to_result() {
            Ok(got) => {
                let g: Vec<(String, Mustache)> = got.into_iter().map(|(n, m)| (n.as_str().to_string(), m)).collect();
                let w: Vec<(String, Mustache)> = hs.iter().map(|k| (k.key.to_ascii_lowercase(), Mustache::parse(&k.value))).collect();
                c.check(bad.is_empty(), "headers:illegal-name-accepted", det);
                c.check(g == w, "headers:templates", || json!({"in": det(), "got": format!("{g:?}")}));
            }
            Err(e) => {
                let n = e.as_vec().len();
                c.check(!bad.is_empty(), "headers:legal-name-refused", det);
                c.check(n == bad.len(), "headers:not-every-illegal-name-reported", || json!({"in": det(), "reported": n, "want": bad.len()}));
                for (b, cause) in bad.iter().zip(e.as_vec()) {
                    c.check(cause.trace.iter().any(|t| *t == b.key), "headers:error-without-name", || json!({"name": b.key, "trace": format!("{:?}", cause.trace)}));
                }
            }
        }
        let u = r.string(&["http://", "a", "/", "{{.env.X}}", ":", "8", "?", "q=1", "{{args.id}}", " ", "é"], 7);
        c.check(tailcall::core::helpers::url::to_url(&u).to_result().ok() == Some(Mustache::parse(&u)), "url:template", || json!(u));
        c.case(&(u, as_json.to_string()), n > 0);
    }
}

/// The template applied to plain data.
fn template(c: &C) {
    let mut r = c.rng("template");
    for _ in 0..c.n(500, 12000) {
        let ctx = gen_data(&mut r);
        let methods = [Method::GET, Method::POST, Method::PUT, Method::DELETE, Method::PATCH];
        let method = r.pick(&methods).clone();
        let base: Vec<(&str, &str)> = (0..r.below(3)).map(|_| *r.pick(&[("b", "1"), ("q", "x y"), ("amp", "a&b"), ("plus", "a+b"), ("pct", "100%"), ("s", "base")])).collect();
        let enc = |s: &str| -> String { url::form_urlencoded::byte_serialize(s.as_bytes()).collect() };
        let segs = r.string(&["/users", "/v1", "/a-b", "/x.json"], 3);
        let mut u = format!("http://host{}.test:{}{}", r.below(3), r.range(80, 90), segs);
        let path_expr = r.chance(1, 3);
        if path_expr { u.push_str("/{{.o.num}}"); }
        for (i, (k, v)) in base.iter().enumerate() { u.push(if i == 0 { '?' } else { '&' }); u.push_str(&format!("{k}={}", enc(v))); }
        let qs: Vec<(String, Tm, bool)> = (0..r.below(5)).map(|_| (r.pick(&["a", "b", "ids[]", "q", "user_id", "x.y", "s"]).to_string(), gen_tm(&mut r, EXPRS), r.bool())).collect();
        let hs: Vec<(String, Tm)> = { let mut names = vec!["x-one", "x-two", "authorization", "accept"]; r.shuffle(&mut names); names.truncate(r.below(4)); names.into_iter().map(|n| (n.to_string(), gen_tm(&mut r, &["n", "b", "s", "o.num", "missing"]))).collect() };
        let ep = Endpoint::new(u.clone()).method(method.clone()).query(qs.iter().map(|(k, t, s)| (k.clone(), t.text(), *s)).collect());
        // bodies
        let bodies = [
            (Some(json!({"a": "{{.s}}", "n": ["{{.n}}", 5, null], "k": {"t": "<{{.t}}|{{.o.in}}>"}})), 1),
            (Some(json!("{{.o}}")), 2), (Some(json!("{{.l}}")), 3), (Some(json!({"fixed": "v"})), 4), (None, 0),
        ];
        let (body, kind) = r.pick(&bodies).clone();
        let form = kind == 1 && r.chance(1, 4);
        let body = if form { Some(json!({"a": "{{.s}}", "k": "<{{.t}}|{{.o.in}}>", "c": "1"})) } else { body };
        let mut ep = ep.body(body.clone()).encoding(if form { Encoding::ApplicationXWwwFormUrlencoded } else { Encoding::ApplicationJson });
        ep = ep.headers(hs.iter().map(|(k, t)| (http::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), http::HeaderValue::from_str(&t.text()).unwrap())).collect());
        let t = match RequestTemplate::try_from(ep) { Ok(t) => t, Err(e) => { c.violation("template:refused", json!({"url": u, "e": format!("{e:#}")})); continue; } };
        let mut tc = TCtx::new(ctx.clone());
        let ctx_headers: Vec<(&str, &str)> = r.subset(&[("x-client", "c1"), ("tenant", "t 1")], 1, 2);
        for (k, v) in &ctx_headers { tc.headers.insert(http::header::HeaderName::from_static(k), http::HeaderValue::from_static(v)); }
        let det = |got: Value| json!({"url": u, "query": format!("{qs:?}"), "headers": format!("{hs:?}"), "body": body, "ctx": ctx, "got": got});
        c.note_case(det(json!(null)).to_string());
        let req = match guard(|| t.to_request(&tc)) { Err(p) => { c.violation("template:panic", json!({"p": p, "in": det(json!(null))})); continue; } Ok(Err(e)) => { c.violation("template:error", det(json!(format!("{e:#}")))); continue; } Ok(Ok(d)) => d.into_request() };
        let url = req.url();
        c.check(req.method().as_str() == method.to_string(), "template:method", || det(json!(req.method().as_str())));
        let want_path = format!("{}{}", if segs.is_empty() && !path_expr { "/" } else { &segs }, if path_expr { format!("/{}", ctx["o"]["num"]) } else { String::new() });
        c.check(url.path() == want_path && u.starts_with(&format!("http://{}:{}", url.host_str().unwrap_or(""), url.port_or_known_default().unwrap_or(0))) || url.port().is_none() && url.path() == want_path, "template:host-or-path", || det(json!(url.as_str())));
        let mut want: Vec<(String, String)> = base.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
        let mut hostiles = 0;
        for (k, tm, skip) in &qs {
            match tm.value(&ctx) {
                None | Some(Value::Null) => if !*skip { want.push((k.clone(), String::new())) },
                Some(v) => { expand(k, &v, &mut want); if any_text(&v).contains(['&', '%', '+', '#', '=']) { hostiles += 1; } }
            }
        }
        let got: Vec<(String, String)> = url.query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        c.check(got == want, "template:query-parameters", || json!({"want": want, "in": det(json!(url.as_str()))}));
        c.check(url.fragment().is_none(), "template:fragment", || det(json!(url.as_str())));
        let mut wh: BTreeMap<String, String> = BTreeMap::new();
        for (k, tm) in &hs {
            let v = tm.value(&ctx).map(|v| any_text(&v)).unwrap_or_default();
            if ascii_header(&v) { wh.insert(k.clone(), v); }
        }
        if method != Method::GET { wh.insert("content-type".into(), if form { "application/x-www-form-urlencoded" } else { "application/json" }.into()); }
        for (k, v) in &ctx_headers { wh.insert(k.to_string(), v.to_string()); }
        let gh: BTreeMap<String, String> = req.headers().iter().map(|(k, v)| (k.to_string(), String::from_utf8_lossy(v.as_bytes()).into_owned())).collect();
        c.check(gh == wh, "template:headers", || json!({"want": wh, "got": gh, "in": det(json!(null))}));
        let gb = req.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned());
        let tx = |p: &str| any_text(ctx.pointer(p).unwrap());
        let both = format!("<{}|{}>", tx("/t"), tx("/o/in"));
        if form {
            let got: Vec<(String, String)> = url::form_urlencoded::parse(gb.clone().unwrap_or_default().as_bytes()).map(|(a, b)| (a.to_string(), b.to_string())).collect();
            let want = vec![("a".to_string(), tx("/s")), ("k".into(), both), ("c".into(), "1".into())];
            c.check(got == want, "template:form-body", || det(json!({"got": gb, "want": want})));
        } else {
            let want = match kind {
                1 => Some(json!({"a": tx("/s"), "n": [tx("/n"), 5, null], "k": {"t": both}})),
                2 => Some(ctx["o"].clone()), 3 => Some(ctx["l"].clone()), 4 => body.clone(), _ => None,
            };
            let got: Option<Value> = gb.as_ref().map(|b| serde_json::from_str(b).unwrap_or(json!({"not json": b})));
            c.check(got == want, "template:json-body", || det(json!({"got": gb, "want": want})));
        }
        c.count("requests_compared", 1);
        c.count("hostile_values", hostiles);
        c.case(&format!("{u}{qs:?}{hs:?}{ctx}"), !qs.is_empty());
        c.sample(|| det(json!(url.as_str())));
    }
}

/// Grouped requests: the union of what the single requests ask for.
fn batching(c: &C) {
    let mut r = c.rng("batching");
    for _ in 0..c.n(200, 4000) {
        let n = r.below(5);
        let with_other = r.bool();
        let reqs: Vec<(Vec<(String, String)>, Option<String>)> = (0..n).map(|_| {
            let mut q: Vec<(String, String)> = (0..r.below(3)).map(|_| ("id".to_string(), hostile(&mut r))).collect();
            if with_other { q.push(("z".into(), "1".into())); }
            (q, r.bool().then(|| json!({"id": r.below(100), "t": hostile(&mut r)}).to_string()))
        }).collect();
        let dls: Vec<DataLoaderRequest> = reqs.iter().map(|(q, b)| {
            let mut u = url::Url::parse("http://up.test/x").unwrap();
            if !q.is_empty() { u.query_pairs_mut().extend_pairs(q); }
            let mut rq = reqwest::Request::new(reqwest::Method::POST, u);
            if let Some(b) = b { rq.body_mut().replace(b.clone().into()); }
            DataLoaderRequest::new(rq, Default::default())
        }).collect();
        let refs: Vec<&DataLoaderRequest> = dls.iter().collect();
        let base = || { let mut q = reqwest::Request::new(reqwest::Method::POST, "http://up.test/base?keep=1".parse().unwrap()); q.headers_mut().insert("x-h", http::HeaderValue::from_static("v")); q };
        let det = || json!(reqs.iter().map(|(q, b)| json!({"q": q, "b": b})).collect::<Vec<_>>());
        let key = if r.chance(3, 4) { Some("id") } else { None };
        let got = QueryBatching::new(&refs, key).transform(base()).to_result().unwrap();
        let mut want = vec![("keep".to_string(), "1".to_string())];
        for (q, _) in &reqs { want.extend(q.iter().filter(|p| key.map(|k| p.0 == k).unwrap_or(true)).cloned()); }
        let gq: Vec<(String, String)> = got.url().query_pairs().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        c.check(gq == want, "batching:query", || json!({"got": gq, "want": want, "in": det()}));
        c.check(got.url().path() == "/base" && got.headers().get("x-h").map(|v| v == "v").unwrap_or(false) && got.headers().len() == 1 && got.method() == reqwest::Method::POST, "batching:query-changes-more", || json!({"got": got.url().as_str()}));
        let got = BodyBatching::new(&refs).transform(base()).to_result().unwrap();
        let mut want: Vec<Value> = reqs.iter().filter_map(|(_, b)| b.as_ref()).map(|b| serde_json::from_str(b).unwrap()).collect();
        let bytes = got.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec());
        if want.is_empty() {
            c.check(bytes.is_none(), "batching:body-invented", det);
        } else {
            let mut g: Vec<Value> = bytes.as_ref().and_then(|b| serde_json::from_slice(b).ok()).unwrap_or_default();
            let k = |v: &Value| v.to_string();
            g.sort_by_key(k);
            want.sort_by_key(k);
            c.check(g == want, "batching:bodies", || json!({"got": bytes.map(|b| String::from_utf8_lossy(&b).into_owned()), "want": want}));
        }
        c.check(got.url().as_str() == "http://up.test/base?keep=1", "batching:body-changes-url", det);
        c.case(&det().to_string(), n > 1);
    }
}

fn gateway(c: &C) {
    let mut r = c.rng("gateway");
    let rt = rt_paused();
    const EX: &[&str] = &["args.s", "args.n", "args.l", "args.o", "args.b", "args.inp.t", "args.inp.k", "value.ps", "value.pn", "env.E", "vars.v", "headers.tenant"];
    for _ in 0..c.n(60, 900) {
        let exprs: Vec<&str> = EX.to_vec();
        let non_null: Vec<&str> = EX.iter().copied().filter(|e| *e != "args.o").collect();
        let qs: Vec<(String, Tm, bool)> = (0..r.range(1, 4)).map(|_| (r.pick(&["a", "b", "ids[]", "q"]).to_string(), gen_tm(&mut r, &exprs), r.bool())).collect();
        let hs: Vec<(String, Tm)> = { let mut names = vec!["x-one", "x-two"]; names.truncate(r.below(3)); names.into_iter().map(|n| (n.to_string(), gen_tm(&mut r, &["args.n", "args.s", "value.pn", "vars.v", "headers.tenant", "args.b"]))).collect() };
        let method = *r.pick(&["GET", "POST", "PUT", "DELETE", "PATCH"]);
        let form = method != "GET" && r.chance(1, 4);
        let bt: Vec<Tm> = (0..2).map(|_| gen_tm(&mut r, &["args.s", "args.n", "value.ps", "args.b", "vars.v", "args.inp.t", "args.o"])).collect();
        let has_body = method != "GET";
        let whole = has_body && !form && r.chance(1, 4);
        let lit = |s: &str| serde_json::to_string(s).unwrap();
        let body = if !has_body { String::new() } else if whole { ", body: \"{{.args.inp}}\"".into() } else { format!(", body: {{a: {}, k: {}{}}}", lit(&bt[0].text()), lit(&bt[1].text()), if form { "" } else { ", d: {e: [1, \"x\", true]}" }) };
        let with_allowed = r.bool();
        let sdl = format!(
            "schema @server(port: 8000, vars: [{{key: \"v\", value: \"va&r+1\"}}]) @upstream(allowedHeaders: [{}\"X-Allow\"]) {{ query: Query }}\ninput I {{ t: String! k: [Int!]! }}\ntype Query {{ p: P @http(url: \"http://p.test/p\") }}\ntype P {{ ps: String! pn: Int! g(s: String!, n: Int!, l: [String!]!, o: String, b: Boolean!, inp: I!): JSON @http(url: \"http://up.test/v1/{{{{.args.n}}}}/z?fixed=a%26b\", method: {method}, query: [{}], headers: [{}]{body}{}) }}",
            if with_allowed { "\"tenant\", " } else { "" },
            qs.iter().map(|(k, t, s)| format!("{{key: {}, value: {}, skipEmpty: {s}}}", lit(k), lit(&t.text()))).collect::<Vec<_>>().join(", "),
            hs.iter().map(|(k, t)| format!("{{key: {}, value: {}}}", lit(k), lit(&t.text()))).collect::<Vec<_>>().join(", "),
            if form { ", encoding: ApplicationXWwwFormUrlencoded" } else { "" },
        );
        let _ = &non_null;
        for _ in 0..4 {
            let h = |r: &mut Rng| if r.chance(3, 4) { hostile(r) } else { "plain".to_string() };
            let (ps, pn) = (h(&mut r), r.below(999) as i64);
            let args = {
                let mut a = json!({"s": h(&mut r), "n": r.below(9999) as i64, "l": (0..r.range(1, 3)).map(|_| json!(h(&mut r))).collect::<Vec<_>>(), "b": r.bool(), "inp": {"t": h(&mut r), "k": [1, r.below(9)]}});
                a["o"] = if r.bool() { json!(h(&mut r)) } else { Value::Null };
                a
            };
            let parent = json!({"ps": ps, "pn": pn});
            let p2 = parent.clone();
            let up = Upstream::new(move |u: &UReq| if u.url.host_str() == Some("p.test") { URes::json(p2.clone()) } else { URes::json(json!({"ok": 1})) });
            let app = match mock::app(&sdl, mock::runtime_env(up.clone(), &[("E", "en&v=1")])) { Ok(a) => a, Err(e) => { c.violation("gateway:config", json!({"sdl": sdl, "e": e})); break; } };
            let tenant = r.pick(&["t-1", "a b", "x&y=1"]).to_string();
            let sent = [("tenant", tenant.as_str()), ("x-allow", "yes"), ("x-secret", "no"), ("x-one-more", "no"), ("cookie", "c=1")];
            let q = "query($s: String!, $n: Int!, $l: [String!]!, $o: String, $b: Boolean!, $inp: I!) { p { g(s: $s, n: $n, l: $l, o: $o, b: $b, inp: $inp) } }";
            let res = rt.block_on(mock::gql(&app, json!({"query": q, "variables": args}), &sent));
            let log = up.take();
            let det = || json!({"sdl": sdl, "args": args, "parent": parent, "tenant": tenant, "response": res.text(), "upstream": log.iter().map(|u| u.show()).collect::<Vec<_>>()});
            c.note_case(format!("{sdl} {args}"));
            let mine: Vec<&UReq> = log.iter().filter(|u| u.url.host_str() == Some("up.test")).collect();
            if !c.check(mine.len() == 1 && log.len() == 2, "gateway:requests", det) { continue; }
            let u = mine[0];
            let mut ctx = json!({"args": args, "value": parent, "env": {"E": "en&v=1"}, "vars": {"v": "va&r+1"}, "headers": {}});
            if with_allowed { ctx["headers"]["tenant"] = json!(tenant); }
            c.check(u.method == method, "gateway:method", det);
            c.check(u.path() == format!("/v1/{}/z", args["n"]) && u.url.scheme() == "http" && u.url.port().is_none(), "gateway:url", det);
            let mut want = vec![("fixed".to_string(), "a&b".to_string())];
            for (k, tm, skip) in &qs {
                match tm.value(&ctx) {
                    None | Some(Value::Null) => if !*skip { want.push((k.clone(), String::new())) },
                    Some(v) => expand(k, &v, &mut want),
                }
            }
            // an argument that is explicitly null: sent empty or skipped like an absent one, but the same way throughout
            let got = u.query();
            c.check(got == want, "gateway:query-parameters", || json!({"want": want, "got": got, "in": det()}));
            let mut wh: BTreeMap<String, String> = BTreeMap::new();
            for (k, tm) in &hs {
                let v = tm.value(&ctx).map(|v| any_text(&v)).unwrap_or_default();
                if ascii_header(&v) { wh.insert(k.clone(), v); }
            }
            if method != "GET" { wh.insert("content-type".into(), if form { "application/x-www-form-urlencoded" } else { "application/json" }.into()); }
            wh.insert("x-allow".into(), "yes".into());
            if with_allowed { wh.insert("tenant".into(), tenant.clone()); }
            let gh: BTreeMap<String, String> = u.headers.iter().cloned().collect();
            c.check(gh == wh && gh.len() == u.headers.len(), "gateway:headers", || json!({"want": wh, "in": det()}));
            let (a, k) = (bt[0].value(&ctx).map(|v| any_text(&v)).unwrap_or_default(), bt[1].value(&ctx).map(|v| any_text(&v)).unwrap_or_default());
            if !has_body {
                c.check(u.body.is_empty(), "gateway:body-invented", det);
            } else if form {
                let got: Vec<(String, String)> = url::form_urlencoded::parse(&u.body).map(|(a, b)| (a.to_string(), b.to_string())).collect();
                c.check(got == vec![("a".to_string(), a), ("k".to_string(), k)], "gateway:form-body", det);
            } else {
                let want = if whole { args["inp"].clone() } else { json!({"a": a, "k": k, "d": {"e": [1, "x", true]}}) };
                c.check(u.body_json() == want, "gateway:json-body", || json!({"want": want, "in": det()}));
            }
            c.count("gateway_requests", 1);
            c.count("hostile_values", want.iter().filter(|p| p.1.contains(['&', '%', '+', '#', '='])).count() as u64);
            c.case(&format!("{sdl}{args}{parent}"), true);
            c.sample(det);
        }
    }
}

/// A client's text in the path must stay one path segment of the same host.
fn paths(c: &C) {
    let rt = rt_paused();
    let sdl = "schema @server(port: 8000) { query: Query }\ntype Query { f(s: String!): JSON @http(url: \"http://up.test/users/{{.args.s}}/profile\") }";
    let up = Upstream::new(|_| URes::json(json!({"ok": 1})));
    let app = mock::app(sdl, mock::runtime(up.clone())).unwrap();
    let mut r = c.rng("paths");
    let mut one = |s: &str| {
        let res = rt.block_on(mock::gql(&app, json!({"query": "query($s: String!) { f(s: $s) }", "variables": {"s": s}}), &[]));
        let log = up.take();
        let det = || json!({"s": s, "response": res.text(), "upstream": log.iter().map(|u| u.show()).collect::<Vec<_>>()});
        c.case(&format!("path {s}"), true);
        if log.len() != 1 { c.check(log.is_empty() && !res.errors().is_empty(), "path:requests", det); return; }
        let u = &log[0];
        c.check(u.url.host_str() == Some("up.test") && u.url.scheme() == "http" && u.url.username().is_empty(), "path:host-changed", det);
        let dec = |p: &str| -> String { let mut out = vec![]; let b = p.as_bytes(); let mut i = 0; while i < b.len() { if b[i] == b'%' && i + 2 < b.len() + 0 && p.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok()).is_some() { out.push(u8::from_str_radix(&p[i + 1..i + 3], 16).unwrap()); i += 3; } else { out.push(b[i]); i += 1; } } String::from_utf8_lossy(&out).into_owned() };
        let segs: Vec<String> = u.path().split('/').skip(1).map(dec).collect();
        let ok = segs == vec!["users".to_string(), s.to_string(), "profile".to_string()] && u.url.query().is_none() && u.url.fragment().is_none();
        let class = if s.contains('?') { "question-mark" } else if s.contains('#') { "hash" } else if s.contains('/') || s.contains('\\') { "slash" } else if s.contains("..") || s == "." || s.to_ascii_lowercase().contains("%2e") { "dots" } else if s.contains('%') { "percent" } else if s.contains(['\t', '\n', '\r']) { "control" } else { "other" };
        c.check(ok, &format!("path:value-changes-structure:{class}"), det);
        c.count("path_values", 1);
    };
    for s in ["plain", "a b", "é", "日本", "a&b=c", "a+b", "a;b", "a:b", "user@host", "a,b", "~x", "a'b", "(x)", "\"q\"", "<t>", "[1]", "a|b", "^", "`", "$1", "{x}", "a?admin=1", "a#frag", "x/y", "a\\b", "..", "%2e%2e", "a%2Fb", "50%", "x\ty", "x\ny"] { one(s); }
    for _ in 0..c.n(60, 600) { let s = r.string(&["a", "B", "9", "-", "_", "~", " ", "é", "&", "=", "+", ";", ":", "@", ",", "!", "$", "'", "(", "*", "|", "<", "\""], 6); if !s.is_empty() && !s.ends_with(' ') { one(&s); } }
}

/// Documents sent to GraphQL upstreams: the client's text stays one string.
fn graphql(c: &C) {
    let mut r = c.rng("graphql");
    let rt = rt_paused();
    let sdl = "schema @server(port: 8000) @upstream(allowedHeaders: [\"x-allow\"]) { query: Query }\ninput I { t: String! k: [Int!] e: String }\ntype R { id: Int name: String tag(x: String): String }\ntype Query { f(s: String!, n: Int!, i: I, l: [String!]): R @graphQL(url: \"http://up.test/graphql\", name: \"remote\", args: [{key: \"s\", value: \"{{.args.s}}\"}, {key: \"n\", value: \"{{.args.n}}\"}, {key: \"i\", value: \"{{.args.i}}\"}, {key: \"l\", value: \"{{.args.l}}\"}], headers: [{key: \"x-h\", value: \"h-{{.args.n}}\"}]) }";
    let up = Upstream::new(|_| URes::json(json!({"data": {"remote": {"id": 1, "name": "n"}}})));
    let app = mock::app(sdl, mock::runtime(up.clone())).unwrap();
    for _ in 0..c.n(120, 2000) {
        let s = if r.chance(4, 5) { r.string(HOSTILE, 7) } else { r.pick(&["\") { id } #", "\\", "\"\"\"", "\n}", "x\\\"y"]).to_string() };
        let l: Vec<String> = (0..r.range(1, 3)).map(|_| hostile(&mut r)).collect();
        let vars = json!({"s": s, "n": r.below(1000), "i": {"t": hostile(&mut r), "k": [1, 2]}, "l": l});
        let res = rt.block_on(mock::gql(&app, json!({"query": "query($s: String!, $n: Int!, $i: I, $l: [String!]) { f(s: $s, n: $n, i: $i, l: $l) { id name } }", "variables": vars}), &[("x-allow", "1"), ("x-deny", "1")]));
        let log = up.take();
        let det = || json!({"vars": vars, "response": res.text(), "upstream": log.iter().map(|u| u.show()).collect::<Vec<_>>()});
        if !c.check(log.len() == 1, "graphql:requests", det) { continue; }
        let u = &log[0];
        c.check(u.method == "POST" && u.url.as_str() == "http://up.test/graphql", "graphql:target", det);
        let mut hs: Vec<String> = u.headers.iter().map(|h| format!("{}={}", h.0, h.1)).collect();
        hs.sort();
        c.check(hs == vec!["content-type=application/json".to_string(), "x-allow=1".into(), format!("x-h=h-{}", vars["n"])], "graphql:headers", det);
        let q = u.body_json()["query"].as_str().unwrap_or("").to_string();
        let doc = match async_graphql::parser::parse_query(&q) { Ok(d) => d, Err(e) => { c.violation("graphql:document-invalid", json!({"e": e.to_string(), "in": det()})); continue; } };
        let op = doc.operations.iter().next().map(|(_, o)| o.node.clone());
        let ok = op.map(|o| {
            let sel = &o.selection_set.node.items;
            if sel.len() != 1 { return false; }
            let async_graphql::parser::types::Selection::Field(f) = &sel[0].node else { return false };
            let args: BTreeMap<String, Value> = f.node.arguments.iter().map(|(k, v)| (k.node.to_string(), v.node.clone().into_const().and_then(|v| v.into_json().ok()).unwrap_or(json!("?")))).collect();
            let sub: Vec<String> = f.node.selection_set.node.items.iter().map(|s| match &s.node { async_graphql::parser::types::Selection::Field(f) => f.node.name.node.to_string(), _ => "?".into() }).collect();
            f.node.name.node == "remote" && sub == ["id", "name"] && json!(args) == vars
        }).unwrap_or(false);
        c.check(ok, "graphql:document-differs", det);
        c.count("graphql_documents", 1);
        c.case(&format!("gql{vars}"), true);
    }
}
