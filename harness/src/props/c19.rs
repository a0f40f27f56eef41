//! C19: cross-origin headers follow the configured policy exactly.
use std::collections::BTreeMap;

use serde_json::{json, Value};

use crate::common::*;
use crate::mock::{self, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one request (method, path, origin, preflight headers) against one policy; non-trivial = the request carries an Origin; distinct by policy and request");
    c.assume("lists that contain `*` among other entries are not judged together with credentials; an empty access-control-expose-headers value is the same as none");
    c.section("policies", policies);
    c.section("no-policy", no_policy);
    c.section("refused", refused);
    c.floor("preflights", 150);
    c.floor("ordinary", 300);
    c.floor("origin-allowed", 150);
    c.floor("origin-refused", 150);
    c.floor("policies-refused", 30);
}

const ORIGINS: &[&str] = &["https://a.example", "http://a.example", "https://a.example:8443", "https://b.example", "null", "https://A.example", "https://a.example.evil.org", "https://xa.example", "https://tailcall.run", "https://a.exampl", "*", "", "https://a.example/", "https://a.example, https://b.example"];
const METHODS: &[&str] = &["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"];
const HEADERS: &[&str] = &["content-type", "x-a", "X-B", "authorization", "*", "x-c"];

#[derive(Clone, Debug, Default)]
struct Pol { creds: Option<bool>, headers: Vec<String>, methods: Vec<String>, origins: Vec<String>, pn: Option<bool>, expose: Vec<String>, age: Option<usize>, vary: Option<Vec<String>> }

fn strs(r: &mut Rng, xs: &[&str], max: usize) -> Vec<String> { let n = r.below(max + 1); let mut v: Vec<&str> = xs.to_vec(); r.shuffle(&mut v); v.truncate(n); v.iter().map(|s| s.to_string()).collect() }

fn gen(r: &mut Rng) -> Pol {
    let lone = |v: Vec<String>| v;
    Pol {
        creds: *r.pick(&[None, Some(true), Some(false)]),
        headers: lone(strs(r, HEADERS, 3)),
        methods: strs(r, METHODS, 4),
        origins: match r.below(8) { 0 | 1 => vec!["*".into()], 2 => { let mut v = strs(r, &ORIGINS[..9], 3); let i = r.below(v.len() + 1); v.insert(i, "*".into()); v } _ => strs(r, &ORIGINS[..9], 3) },
        pn: *r.pick(&[None, Some(true), Some(false)]),
        expose: strs(r, HEADERS, 2),
        age: if r.bool() { Some(r.below(100000)) } else { None },
        vary: if r.bool() { None } else { Some(strs(r, &["origin", "x-v", "Accept"], 3)) },
    }
}
fn sdl(p: &Pol, custom: bool) -> String {
    let mut f = vec![];
    if let Some(b) = p.creds { f.push(format!("allowCredentials: {b}")); }
    if !p.headers.is_empty() { f.push(format!("allowHeaders: {}", json!(p.headers))); }
    if !p.methods.is_empty() { f.push(format!("allowMethods: [{}]", p.methods.join(", "))); }
    if !p.origins.is_empty() { f.push(format!("allowOrigins: {}", json!(p.origins))); }
    if let Some(b) = p.pn { f.push(format!("allowPrivateNetwork: {b}")); }
    if !p.expose.is_empty() { f.push(format!("exposeHeaders: {}", json!(p.expose))); }
    if let Some(n) = p.age { f.push(format!("maxAge: {n}")); }
    if let Some(v) = &p.vary { f.push(format!("vary: {}", json!(v))); }
    format!("schema @server(port: 8000, headers: {{{} cors: {{{}}}}}) {{ query: Query }}\ntype Query {{ n: Int @http(url: \"http://u/n\") }}",
        if custom { "custom: [{key: \"vary\", value: \"x-custom\"}, {key: \"x-own\", value: \"1\"}]," } else { "" }, f.join(", "))
}
/// credentials with a wildcard anywhere it counts; None = not judged
fn usable(p: &Pol) -> Option<bool> {
    if p.creds != Some(true) { return Some(true) }
    let star = |v: &[String]| v.iter().any(|s| s == "*");
    if p.methods.is_empty() || p.origins.iter().any(|o| o == "*") || p.headers == ["*"] || p.expose == ["*"] { return Some(false) }
    if star(&p.headers) || star(&p.expose) { return None }
    Some(true)
}

fn cors_headers(res: &mock::Res) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in &res.headers { if k.starts_with("access-control-") || k == "vary" { if v.is_empty() && k == "access-control-expose-headers" { continue } m.entry(k.clone()).or_default().push(v.clone()); } }
    if let Some(v) = m.get_mut("vary") { v.sort(); }
    m
}

fn want(p: &Pol, method: &str, origin: Option<&str>, pn: Option<&str>, custom: bool) -> BTreeMap<String, Vec<String>> {
    let mut m = BTreeMap::new();
    let mut put = |k: &str, v: String| { m.insert(format!("access-control-{k}"), vec![v]); };
    let any = p.origins.iter().any(|o| o == "*");
    if let Some(o) = origin { if any || p.origins.iter().any(|x| x == o) { put("allow-origin", o.into()); } }
    if p.creds == Some(true) { put("allow-credentials", "true".into()); }
    if p.pn == Some(true) && pn == Some("true") { put("allow-private-network", "true".into()); }
    if method == "OPTIONS" {
        put("allow-methods", if p.methods.is_empty() { "*".into() } else { p.methods.join(", ") });
        if !p.headers.is_empty() { put("allow-headers", p.headers.join(", ")); }
        if let Some(a) = p.age { put("max-age", a.to_string()); }
    } else if !p.expose.is_empty() { put("expose-headers", p.expose.join(", ")); }
    let vary = p.vary.clone().unwrap_or(vec!["origin".into(), "access-control-request-method".into(), "access-control-request-headers".into()]);
    let mut vs = vec![];
    if !vary.is_empty() { vs.push(vary.join(", ")); }
    if custom && method != "OPTIONS" { vs.push("x-custom".into()); }
    vs.sort();
    if !vs.is_empty() { m.insert("vary".into(), vs); }
    m
}

/// (method, path, body)
fn target(r: &mut Rng) -> (&'static str, &'static str, &'static str) {
    match r.below(8) {
        0 | 1 => ("OPTIONS", *r.pick(&["/graphql", "/status", "/api/x", "/nope"]), ""),
        2 => ("OPTIONS", "/graphql", r#"{"query":"{ n }"}"#),
        3 | 4 => ("POST", "/graphql", r#"{"query":"{ n }"}"#),
        5 => ("POST", "/graphql", r#"{"query":"{ nope"#),
        6 => ("GET", "/status", ""),
        _ => (*r.pick(&["GET", "DELETE", "PUT", "HEAD"]), *r.pick(&["/nope", "/api/none", "/"]), ""),
    }
}

fn policies(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("pol");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(700, 12000) {
            let p = gen(&mut r);
            let custom = r.chance(1, 4);
            let text = sdl(&p, custom);
            let up = Upstream::new(|_| URes::json(json!(7)));
            let app = mock::app(&text, mock::runtime(up.clone()));
            match (usable(&p), &app) {
                (Some(false), _) => {
                    c.case(&text, true);
                    c.count("policies-refused", 1);
                    c.check(app.is_err(), "policy:wildcard-with-credentials", || json!({"sdl": text}));
                    continue;
                }
                (Some(true), Err(e)) => { c.violation("policy:rejected", json!({"sdl": text, "error": e})); continue }
                (None, Err(_)) => continue,
                _ => {}
            }
            let app = app.unwrap();
            for _ in 0..8 {
                let (method, path, body) = target(&mut r);
                let mut hs: Vec<(String, String)> = vec![("content-type".into(), "application/json".into())];
                let origin: Option<String> = if r.chance(1, 8) { None } else if r.bool() && !p.origins.is_empty() { Some(r.pick(&p.origins).replace('*', "https://any.example")) } else { Some(r.pick(ORIGINS).to_string()) };
                if let Some(o) = &origin { hs.push(("origin".into(), o.clone())); }
                let pn = if r.chance(1, 3) { Some(*r.pick(&["true", "false", "TRUE"])) } else { None };
                if let Some(p) = pn { hs.push(("access-control-request-private-network".into(), p.into())); }
                if r.bool() { hs.push(("access-control-request-method".into(), r.pick(METHODS).to_string())); hs.push(("access-control-request-headers".into(), r.pick(HEADERS).to_string())); }
                let hv: Vec<(&str, &str)> = hs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
                let info = || json!({"sdl": text, "method": method, "path": path, "headers": hs});
                c.case(&(&text, method, path, body, &hs), origin.is_some());
                up.take();
                let res = match mock::send(&app, method, path, &hv, body).await { Ok(r) => r, Err(e) => { c.violation("no-answer", json!({"request": info(), "error": e})); continue } };
                let calls = up.take().len();
                c.count(if method == "OPTIONS" { "preflights" } else { "ordinary" }, 1);
                let w = want(&p, method, origin.as_deref(), pn, custom && res.header("x-own").is_some());
                c.count(if w.contains_key("access-control-allow-origin") { "origin-allowed" } else { "origin-refused" }, 1);
                c.eq(&cors_headers(&res), &w, if method == "OPTIONS" { "preflight:headers" } else { "ordinary:headers" }, info);
                if method == "OPTIONS" {
                    c.check(calls == 0 && res.body.is_empty() && res.status < 300, "preflight:executed", || json!({"request": info(), "calls": calls, "answer": res.text(), "status": res.status}));
                } else if (method, path) == ("POST", "/graphql") && body.ends_with('}') {
                    c.check(res.data() == json!({"n": 7}) && calls == 1, "ordinary:answer", || json!({"request": info(), "answer": res.text()}));
                    if custom { c.eq(&res.header("x-own"), &Some("1"), "ordinary:own-header", info); }
                }
            }
        }
    });
}

fn no_policy(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("nopol");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let up = Upstream::new(|_| URes::json(json!(7)));
        let app = mock::app("schema @server(port: 8000) { query: Query }\ntype Query { n: Int @http(url: \"http://u/n\") }", mock::runtime(up.clone())).unwrap();
        for _ in 0..c.n(150, 2000) {
            let (method, path, body) = target(&mut r);
            let origin = *r.pick(&["https://tailcall.run", "http://tailcall.run", "https://a.example", "https://tailcall.run.evil", "null", "https://TAILCALL.run", "https://x.tailcall.run", "tailcall.run"]);
            let info = || json!({"method": method, "path": path, "origin": origin});
            c.case(&(method, path, body, origin), true);
            c.count("no-policy", 1);
            let res = match mock::send(&app, method, path, &[("origin", origin)], body).await { Ok(r) => r, Err(e) => { c.violation("no-answer", json!({"request": info(), "error": e})); continue } };
            let h = cors_headers(&res);
            if origin == "https://tailcall.run" || origin == "http://tailcall.run" {
                // the playground: always the one https origin
                c.eq(&h.get("access-control-allow-origin"), &Some(&vec!["https://tailcall.run".to_string()]), "playground:origin", info);
                c.check(!h.contains_key("access-control-allow-credentials"), "playground:credentials", info);
            } else {
                c.eq(&h, &BTreeMap::new(), "no-policy:headers", || json!({"request": info(), "got": format!("{h:?}")}));
            }
        }
    });
}

/// values that can't be header values are reported, not sent
fn refused(c: &C) {
    let up = Upstream::new(|_| URes::json(Value::Null));
    let mut r = c.rng("ref");
    let rt = rt_paused();
    let _g = rt.enter();
    for _ in 0..c.n(40, 400) {
        let mut p = Pol { creds: Some(r.bool()), methods: vec!["GET".into()], origins: vec!["https://a.example".into()], ..Default::default() };
        let bad = "x\ny".to_string();
        let at = r.below(4);
        match at { 0 => p.headers.push(bad), 1 => p.origins.push(bad), 2 => p.expose.push(bad), _ => p.vary = Some(vec!["origin".into(), bad]) }
        let text = sdl(&p, false);
        c.case(&text, true);
        c.check(mock::app(&text, mock::runtime(up.clone())).is_err(), "policy:invalid-value", || json!({"sdl": text, "at": at}));
    }
}
