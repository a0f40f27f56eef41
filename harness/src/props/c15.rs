//! C15: REST endpoints accept and bind exactly the requests they describe.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use async_graphql::parser::types::Type;
use serde_json::{json, Map, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::rest::{EndpointSet, Unchecked};
use tailcall::core::rest::{Path, QueryParams, TypeMap};

use crate::common::*;
use crate::mock::{self, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one request against one set of endpoints (or one path / query string against one pattern); non-trivial = the request has the right number of segments for some endpoint; distinct by pattern set and request");
    c.assume("empty path segments are skipped; parameters are written as Rust parses i64 / finite f64 / bool; of a repeated query parameter the last counts; a query parameter that doesn't parse makes the request not match");
    c.section("paths", paths);
    c.section("queries", queries);
    c.section("declarations", declarations);
    c.section("gateway", gateway);
    c.floor("matched", 300);
    c.floor("rejected", 300);
    c.floor("served", 150);
    c.floor("not-found", 100);
}

const TYPES: &[&str] = &["String", "Int", "Float", "Boolean"];

#[derive(Clone, Debug, Hash)]
enum Seg { Lit(String), Par(String, String) }

fn parse(t: &str, s: &str) -> Option<Value> {
    match t {
        "String" => Some(json!(s)),
        "Int" => {
            let b = s.strip_prefix(['+', '-']).unwrap_or(s);
            if b.is_empty() || !b.bytes().all(|x| x.is_ascii_digit()) { return None }
            s.parse::<i128>().ok().filter(|v| *v >= i64::MIN as i128 && *v <= i64::MAX as i128).map(|v| json!(v as i64))
        }
        "Float" => {
            let b = s.strip_prefix(['+', '-']).unwrap_or(s);
            if !b.starts_with(|x: char| x.is_ascii_digit() || x == '.') { return None }
            s.parse::<f64>().ok().filter(|v| v.is_finite()).map(|v| json!(v))
        }
        _ => match s { "true" => Some(json!(true)), "false" => Some(json!(false)), _ => None },
    }
}
fn unpct(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        let h = |x: u8| (x as char).to_digit(16).map(|d| d as u8);
        if b[i] == b'%' && i + 2 < b.len() + 0 && h(b[i + 1]).is_some() && h(b[i + 2]).is_some() { out.push(h(b[i + 1]).unwrap() * 16 + h(b[i + 2]).unwrap()); i += 3; }
        else { out.push(b[i]); i += 1; }
    }
    String::from_utf8(out).ok()
}
fn pct(s: impl AsRef<str>, all: bool) -> String {
    s.as_ref().bytes().map(|b| if !all && (b.is_ascii_alphanumeric() || b"-_.~+:@!".contains(&b)) { (b as char).to_string() } else { format!("%{b:02X}") }).collect()
}

/// reference: bindings, or no match
fn want(segs: &[Seg], path: &str) -> Option<BTreeMap<String, Value>> {
    let parts: Vec<&str> = path.split('/').filter(|s| !s.is_empty()).collect();
    if parts.len() != segs.len() { return None }
    let mut m = BTreeMap::new();
    for (s, p) in segs.iter().zip(parts) {
        let d = unpct(p)?;
        match s {
            Seg::Lit(l) => if *l != d && l != p { return None },
            Seg::Par(n, t) => { m.insert(n.clone(), parse(t, &d)?); }
        }
    }
    Some(m)
}

const LITS: &[&str] = &["user", "users", "User", "a", "api", "v1", "1", "true", "é", "a b", "a%20b", "post.json", "$", "x-y"];
const VALS: &[&str] = &["1", "0", "-3", "+7", "007", "42", "2147483648", "9223372036854775807", "9223372036854775808", "1.5", "-0.25", "1e3", "true", "false", "True", "nan", "NaN", "inf", "a", "user", "é", "a b", "a/b", "", " ", "1 ", "0x1", "null", "x?y", "100%", "$a", "{{.args}}", "a\"b", "1.5f", "2F", "1.5d", "1_0", "1.", ".5", "1f32", "-0", "1e400", "TRUE", "1,5", "0b1", "1L", "t", "yes", "\u{661}"];

fn gen_segs(r: &mut Rng) -> Vec<Seg> {
    let n = r.below(4) + r.below(2);
    (0..n).map(|i| if r.bool() { Seg::Lit(r.pick(LITS).to_string()) } else { Seg::Par(format!("p{i}"), r.pick(TYPES).to_string()) })
        .map(|s| match s { Seg::Lit(l) if l == "$" => Seg::Lit("d".into()), s => s }).collect()
}
fn gen_path(r: &mut Rng, segs: &[Seg]) -> String {
    let mut parts: Vec<String> = segs.iter().map(|s| match s {
        Seg::Lit(l) if r.chance(9, 10) => { let all = r.chance(1, 8); if l.contains('%') { l.clone() } else { pct(l, all) } }
        Seg::Lit(_) => pct(r.pick(LITS), false),
        Seg::Par(_, t) if r.chance(2, 3) => { let ok: Vec<&&str> = VALS.iter().filter(|v| !v.is_empty() && parse(t, v).is_some()).collect(); let v = *r.pick(&ok); let all = r.chance(1, 8); pct(v, all) }
        Seg::Par(..) => { let all = r.chance(1, 8); pct(r.pick(VALS), all) }
    }).collect();
    if r.chance(1, 8) { parts.pop(); }
    if r.chance(1, 10) { let k = r.below(parts.len() + 1); parts.insert(k, r.pick(&["x", "api", "1", "", "%FF", "%"]).to_string()); }
    if r.chance(1, 20) && !parts.is_empty() { parts.remove(0); }
    let mut s = String::new();
    for p in &parts { s.push('/'); if r.chance(1, 20) { s.push('/'); } s += p; }
    if r.chance(1, 8) || s.is_empty() { s.push('/'); }
    s
}
fn pattern(r: &mut Rng, segs: &[Seg]) -> String {
    let mut s: String = segs.iter().map(|s| match s { Seg::Lit(l) => format!("/{l}"), Seg::Par(n, _) => format!("/${n}") }).collect();
    if s.is_empty() || r.chance(1, 10) { s.push('/'); }
    if r.chance(1, 20) { s.insert(0, '/'); }
    s
}
fn tmap(ts: &[(String, String)], r: &mut Rng) -> TypeMap {
    TypeMap::new(ts.iter().map(|(n, t)| (n.clone(), Type::new(&format!("{t}{}", if r.bool() { "!" } else { "" })).unwrap())).collect())
}
fn vars(v: &async_graphql::Variables) -> BTreeMap<String, Value> { v.iter().map(|(k, v)| (k.to_string(), v.clone().into_json().unwrap())).collect() }

fn paths(c: &C) {
    let mut r = c.rng("paths");
    for _ in 0..c.n(800, 20000) {
        let segs = gen_segs(&mut r);
        let ts: Vec<(String, String)> = segs.iter().filter_map(|s| match s { Seg::Par(n, t) => Some((n.clone(), t.clone())), _ => None }).collect();
        let pat = pattern(&mut r, &segs);
        let p = match Path::parse(&tmap(&ts, &mut r), &pat) { Ok(p) => p, Err(e) => { c.violation("path:parse", json!({"pattern": pat, "error": e.to_string()})); continue } };
        c.eq(&p.as_str().to_string(), &pat, "path:text", || json!({"pattern": pat}));
        for _ in 0..6 {
            let req = gen_path(&mut r, &segs);
            let w = want(&segs, &req);
            c.case(&(&pat, &ts, &req), req.split('/').filter(|s| !s.is_empty()).count() == segs.len());
            c.count(if w.is_some() { "matched" } else { "rejected" }, 1);
            let got = p.matches(&req).map(|v| vars(&v));
            c.eq(&got, &w, "path:match", || json!({"pattern": pat, "types": ts, "path": req}));
        }
    }
}

fn queries(c: &C) {
    let mut r = c.rng("qry");
    for _ in 0..c.n(800, 20000) {
        let n = r.below(4);
        let ps: Vec<(String, String, String)> = (0..n).map(|i| (r.pick(&["q", "Q", "x y", "é", "id"]).to_string() + &i.to_string(), format!("v{i}"), r.pick(TYPES).to_string())).collect();
        // a variable that happens to be called like the key has nothing to do with it
        let mut ts: Vec<(String, String)> = ps.iter().map(|p| (p.0.clone(), p.2.clone())).collect();
        ts = ts.into_iter().map(|(k, _)| (k, r.pick(TYPES).to_string())).filter(|_| true).collect(); ts.extend(ps.iter().map(|p| (p.1.clone(), p.2.clone())));
        let tm = tmap(&ts, &mut r);
        let q = match QueryParams::try_from_map(&tm, ps.iter().map(|p| (p.0.clone(), p.1.clone())).collect()) { Ok(q) => q, Err(e) => { c.violation("query:parse", json!({"params": ps, "error": e.to_string()})); continue } };
        for _ in 0..4 {
            let mut req = BTreeMap::new();
            for p in &ps { if r.chance(3, 4) { let ok: Vec<&&str> = VALS.iter().filter(|v| parse(&p.2, v).is_some()).collect(); req.insert(p.0.clone(), if r.chance(5, 6) { r.pick(&ok).to_string() } else { r.pick(VALS).to_string() }); } }
            for _ in 0..r.below(3) { req.entry(r.pick(&["other", "v0", "V0", "q", ""]).to_string()).or_insert_with(|| r.pick(VALS).to_string()); }
            let mut w = Some(BTreeMap::new());
            for p in &ps { if let Some(v) = req.get(&p.0) { match (parse(&p.2, v), &mut w) { (Some(v), Some(m)) => { m.insert(p.1.clone(), v); } _ => w = None } } }
            c.case(&(&ps, &req), !ps.is_empty());
            c.count(if w.is_some() { "matched" } else { "rejected" }, 1);
            let got = q.matches(req.clone()).map(|v| vars(&v));
            c.eq(&got, &w, "query:match", || json!({"params": ps, "request": req}));
        }
    }
}

/// which declarations are accepted at all
fn declarations(c: &C) {
    let mut r = c.rng("decl");
    let bad = [
        ("query Q($a: Int) @rest(method: GET) { f }", "no path"),
        ("query Q($a: Int) @rest(path: \"/x\") { f }", "no method"),
        ("query Q @rest(method: GET, path: \"/x/$a\") { f }", "undeclared path variable"),
        ("query Q($b: Int) @rest(method: GET, path: \"/x/$a\") { f }", "undeclared path variable"),
        ("query Q($a: [Int]) @rest(method: GET, path: \"/x/$a\") { f }", "list parameter"),
        ("query Q($a: ID) @rest(method: GET, path: \"/x/$a\") { f }", "unsupported type"),
        ("query Q($a: Foo!) @rest(method: GET, path: \"/x/$a\") { f }", "unsupported type"),
        ("query Q($a: [Int]) @rest(method: GET, path: \"/x\", query: {a: $a}) { f }", "list parameter"),
        ("query Q @rest(method: GET, path: \"/x\", query: {a: $a}) { f }", "undeclared query variable"),
        ("query Q @rest(method: FOO, path: \"/x\") { f }", "unknown method"),
        ("query Q @rest(method: GET, path: \"/x\" { f }", "syntax"),
    ];
    for (d, why) in bad {
        c.case(&d, true);
        c.count("bad-declarations", 1);
        c.check(EndpointSet::<Unchecked>::try_new(d).is_err(), "declaration:accepted", || json!({"doc": d, "why": why}));
    }
    for _ in 0..c.n(150, 2000) {
        let segs = gen_segs(&mut r);
        let pat = pattern(&mut r, &segs);
        let vs: String = segs.iter().filter_map(|s| match s { Seg::Par(n, t) => Some(format!("${n}: {t} ")), _ => None }).collect();
        let m = *r.pick(METHODS);
        let other = r.bool();
        let doc = format!("query Q($z: [Foo] {vs}) @rest(method: {m}, path: {}) {{ f }} {}", json!(pat), if other { "query R { f }" } else { "" });
        c.case(&doc, true);
        match EndpointSet::<Unchecked>::try_new(&doc) {
            Ok(s) => {
                c.eq(&s.get_endpoints().len(), &1, "declaration:count", || json!({"doc": doc}));
                if let Some(e) = s.get_endpoints().first() {
                    c.eq(&e.get_path().as_str().to_string(), &pat, "declaration:path", || json!({"doc": doc}));
                    c.eq(&e.get_method().to_string(), &m.to_string(), "declaration:method", || json!({"doc": doc}));
                }
            }
            Err(e) => { c.violation("declaration:rejected", json!({"doc": doc, "error": e.to_string()})); }
        }
    }
}

const METHODS: &[&str] = &["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS"];

#[derive(Clone, Debug)]
struct Ep { tag: usize, method: String, segs: Vec<Seg>, query: Vec<(String, String, String, Option<&'static str>)>, body: bool, text: String }

const SDL: &str = r#"schema @server(port: 8000) { query: Query }
type Query { f(tag: Int!, i0: Int, i1: Int, i2: Int, i3: Int, i4: Int, s0: String, s1: String, s2: String, s3: String, s4: String, f0: Float, f1: Float, f2: Float, f3: Float, f4: Float, b0: Boolean, b1: Boolean, b2: Boolean, b3: Boolean, b4: Boolean, qi: Int, qs: String, qf: Float, qb: Boolean, j: JSON): JSON
  @http(url: "http://u/x", method: POST, body: "{{.args}}") }
"#;

fn small(t: &str, v: &Value) -> bool { t != "Int" || v.as_i64().map(|n| n >= i32::MIN as i64 && n <= i32::MAX as i64).unwrap_or(false) }

fn gen_ep(r: &mut Rng, tag: usize, like: Option<&Ep>) -> Ep {
    let mut segs = match like { Some(e) if r.chance(2, 3) => e.segs.clone(), _ => gen_segs(r) };
    if like.is_some() { for s in segs.iter_mut() { if r.chance(1, 2) { *s = if r.bool() { Seg::Lit(r.pick(&["1", "true", "user", "a"]).to_string()) } else { Seg::Par(String::new(), r.pick(TYPES).to_string()) }; } } }
    for (i, s) in segs.iter_mut().enumerate() { if let Seg::Par(n, t) = s { *n = format!("{}{i}", &t[..1].to_lowercase()); } }
    let mut query = vec![];
    for (v, t) in [("qi", "Int"), ("qs", "String"), ("qf", "Float"), ("qb", "Boolean")] {
        if r.chance(1, 3) { query.push((r.pick(&["k", "q", "filter"]).to_string() + v, v.to_string(), t.to_string(), if r.chance(1, 3) { Some(match t { "Int" => "5", "String" => "\"d\"", "Float" => "2.5", _ => "true" }) } else { None })); }
    }
    let method = match like { Some(e) if r.chance(3, 4) => e.method.clone(), _ => r.pick(METHODS).to_string() };
    let body = method != "GET" && r.chance(1, 3);
    let mut defs = String::new();
    let mut args = format!("tag: {tag}");
    for s in &segs { if let Seg::Par(n, t) = s { defs += &format!("${n}: {t}! "); args += &format!(" {n}: ${n}"); } }
    for (_, v, t, d) in &query { defs += &format!("${v}: {t}{} ", d.map(|d| format!(" = {d}")).unwrap_or_default()); args += &format!(" {v}: ${v}"); }
    if body { defs += "$j: JSON "; args += " j: $j"; }
    let mut dir = format!("method: {method}, path: {}", json!(pattern(r, &segs)));
    if !query.is_empty() { dir += &format!(", query: {{{}}}", query.iter().map(|q| format!("{}: ${}", q.0, q.1)).collect::<Vec<_>>().join(", ")); }
    if body { dir += ", body: $j"; }
    let defs = if defs.is_empty() { String::new() } else { format!("({defs})") };
    let text = match r.below(6) {
        0 => format!("query Z{}x{tag}{defs} @rest({dir}) {{ ...F{tag} }}\nfragment F{tag} on Query {{ f({args}) }}\n", r.below(1000)),
        1 => format!("fragment F{tag} on Query {{ ...G{tag} }}\nquery Z{}x{tag}{defs} @rest({dir}) {{ ... on Query {{ ...F{tag} }} }}\nfragment G{tag} on Query {{ f({args}) }}\n", r.below(1000)),
        _ => format!("query Z{}x{tag}{defs} @rest({dir}) {{ f({args}) }}\n", r.below(1000)),
    };
    Ep { tag, method, segs, query, body, text }
}

fn accept(e: &Ep, method: &str, path: &str, query: &[(String, String)]) -> Option<BTreeMap<String, Value>> {
    if e.method != method { return None }
    let mut m = want(&e.segs, path)?;
    for (k, v, t, d) in &e.query {
        match query.iter().rev().find(|q| q.0 == *k) {
            Some(q) => { m.insert(v.clone(), parse(t, &q.1)?); }
            None => if let Some(d) = d { m.insert(v.clone(), serde_json::from_str(d).unwrap()); },
        }
    }
    Some(m)
}

fn gateway(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("gw");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(400, 6000) {
            let up = Upstream::new(|q| URes::json(json!({"echo": q.body_json()})));
            let mut eps: Vec<Ep> = vec![];
            let many = if r.chance(1, 12) { 14 } else { r.range(1, 4) };
            for t in 0..many { let like = if eps.is_empty() { None } else { Some(r.pick(&eps).clone()) }; eps.push(gen_ep(&mut r, t, like.as_ref())); }
            let mut doc: String = String::new();
            for e in &eps {
                doc += &e.text;
                // operations without an endpoint and fragments may stand between
                if r.chance(1, 8) { doc += &format!("query P{}x{} {{ f(tag: 99) }}\n", r.below(1000), e.tag) }
            }
            if r.chance(1, 4) { doc = doc.replace('\n', " ") }
            let rt = mock::runtime(up.clone());
            let m = mock::module(SDL).unwrap();
            let bp = mock::blueprint(&m).unwrap();
            let set = match EndpointSet::<Unchecked>::try_new(&doc) { Ok(s) => s, Err(e) => { c.violation("declaration:rejected", json!({"doc": doc, "error": e.to_string()})); continue } };
            let set = match set.into_checked(&bp, rt.clone()).await { Ok(s) => s, Err(e) => { c.violation("declaration:check", json!({"doc": doc, "error": e.to_string()})); continue } };
            up.take();
            let app = Arc::new(AppContext::new(bp, rt, set));
            for _ in 0..8 {
                let e = r.pick(&eps).clone();
                let path = gen_path(&mut r, &e.segs);
                let mut query: Vec<(String, String)> = vec![];
                for q in &e.query { if r.chance(2, 3) { let ok: Vec<&&str> = VALS.iter().filter(|v| parse(&q.2, v).map(|x| small(&q.2, &x)).unwrap_or(false)).collect(); query.push((q.0.clone(), if r.chance(7, 8) { r.pick(&ok).to_string() } else { r.pick(VALS).to_string() })); } }
                if r.chance(1, 4) { query.push((r.pick(&["tag", "j", "qi", "zz", "i0", "s0"]).to_string(), "9".into())); }
                let method = if r.chance(7, 8) { e.method.clone() } else { r.pick(METHODS).to_string() };
                let jbody = short_floats(gen_json(&mut r, 2));
                let mut hit = None;
                for e in &eps { if let Some(m) = accept(e, &method, &path, &query) { hit = Some((e, m)); break } }
                // GraphQL's own range of Int isn't this property's business
                if let Some((e, m)) = &hit {
                    let big = m.values().any(|v| v.as_i64().map(|n| n > i32::MAX as i64 || n < i32::MIN as i64).unwrap_or(false));
                    let _ = e;
                    if big { continue }
                }
                let qs = if query.is_empty() { String::new() } else { format!("?{}", query.iter().map(|(k, v)| format!("{}={}", pct(k, false), pct(v, false).replace('+', "%2B"))).collect::<Vec<_>>().join("&")) };
                let prefix = if r.chance(1, 20) { *r.pick(&["", "/apix", "/API", "/x/api", "/graphqlapi"]) } else { "/api" };
                let uri = format!("http://g{prefix}{path}{qs}");
                let send_body = hit.as_ref().map(|(e, _)| e.body).unwrap_or(false) || r.chance(1, 4);
                let body = if send_body { jbody.to_string() } else { String::new() };
                let Ok(req) = http::Request::builder().method(method.as_str()).uri(&uri).body(hyper::Body::from(body.clone())) else { continue };
                let info = || json!({"endpoints": doc, "method": method, "uri": uri, "body": body});
                c.case(&(&doc, &method, &uri, &body), true);
                let res = match mock::send_raw(&app, req).await { Ok(r) => r, Err(e) => { c.violation("gateway:no-answer", json!({"request": info(), "error": e})); continue } };
                let log = up.take();
                if prefix != "/api" {
                    c.count("off-prefix", 1);
                    let p = format!("{prefix}{path}");
                    if p == "/api" || p.starts_with("/api/") { continue }
                    let health = method == "GET" && p == "/status";
                    c.check(log.is_empty() && (res.status == 404 || health), "gateway:off-prefix", || json!({"request": info(), "status": res.status, "calls": log.len()}));
                    continue;
                }
                match hit {
                    None => {
                        c.count("not-found", 1);
                        c.eq(&res.status, &404, "gateway:not-found", info);
                        c.check(log.is_empty(), "gateway:call-without-match", info);
                    }
                    Some((e, mut m)) => {
                        c.count("served", 1);
                        if eps.iter().filter(|e| accept(e, &method, &path, &query).is_some()).count() > 1 { c.count("overlapping-endpoints", 1); }
                        m.insert("tag".into(), json!(e.tag));
                        if e.body { m.insert("j".into(), jbody.clone()); }
                        c.eq(&res.status, &200, "gateway:status", || json!({"request": info(), "answer": res.text()}));
                        if !c.check(log.len() == 1, "gateway:calls", || json!({"request": info(), "calls": log.len(), "answer": res.text()})) { continue }
                        let got: Map<String, Value> = log[0].body_json().as_object().cloned().unwrap_or_default();
                        let strip = |m: &mut dyn Iterator<Item = (String, Value)>| m.filter(|x| !x.1.is_null()).map(|(k, v)| (k, norm(&v))).collect::<BTreeMap<_, _>>();
                        let g = strip(&mut got.into_iter());
                        let w = strip(&mut m.into_iter());
                        c.eq(&g, &w, "gateway:bindings", info);
                        // one selected field: the answer is its value
                        if method != "HEAD" { c.eq(&norm(&res.json()), &norm(&json!({"echo": log[0].body_json()})), "gateway:answer", info); }
                        let names: BTreeSet<&String> = g.keys().collect();
                        c.max("variables-bound", names.len() as u64);
                    }
                }
            }
        }
    });
}
/// numbers by value: 1000.0 and 1000 are one
fn norm(v: &Value) -> Value {
    match v {
        Value::Number(n) => n.as_f64().filter(|_| n.is_f64()).map(|f| if f.fract() == 0.0 && f.abs() < 1e15 { json!(f as i64) } else { json!(f) }).unwrap_or(v.clone()),
        Value::Array(a) => a.iter().map(norm).collect(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), norm(v))).collect()),
        v => v.clone(),
    }
}
