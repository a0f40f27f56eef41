//! C20: only permitted headers cross the gateway, and response headers are accurate.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::config::KeyValue;
use tailcall::core::helpers::headers::to_mustache_headers;
use tailcall::core::rest::{EndpointSet, Unchecked};
use tailcall::core::config::verif as hooks;
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock::{self, TCtx, UReq, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one client request (its headers, the fields it asks for, how it arrives) against one configuration and one set of upstream answers; non-trivial = the request reaches an upstream; distinct by all of these");
    c.assume("an upstream answer without cache-control puts no bound on the response; a response without cache-control says nothing about reuse; no-store counts as no-cache; a malformed or stale age counts as 0; headers of upstream answers that failed are not judged; a client header that is also configured may have either value; authorization of a configuration with authentication is not judged here (C18)");
    c.section("traffic", traffic);
    c.section("policies", policies);
    c.section("templates", templates);
    c.section("settings", settings);
    c.section("memoized", memoized);
    c.floor("upstream-requests", 1000);
    c.floor("forwarded-headers", 400);
    c.floor("withheld-headers", 2000);
    c.floor("cache-headers-compared", 200);
    c.floor("cookies-forwarded", 60);
    c.floor("responses-with-errors", 60);
    c.floor("experimental-forwarded", 60);
    c.floor("rest-responses", 100);
    c.floor("batched-responses", 60);
}

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Kind { Get, Post, Gql, Batched, Call, Put }
#[derive(Clone, Debug, Default)]
struct Ans { cc: Vec<String>, cookies: Vec<String>, x: Vec<(String, String)>, fail: u8 }
#[derive(Clone, Debug)]
struct F { kind: Kind, conf: Vec<(String, String)>, answers: Vec<Ans> }
#[derive(Clone, Debug)]
struct W { cc: Option<bool>, cookies: Option<bool>, custom: Vec<(String, String)>, exp: Vec<String>, allowed: Vec<String>, batch: bool, many: bool, fields: Vec<F> }

const NAMES: &[&str] = &["x-a", "x-b", "authorization", "cookie", "x-tenant", "x-a-b", "user-agent", "accept-language", "x-secret", "content-type", "referer"];
const XS: &[&str] = &["x-exp", "x-rate", "x-secret-up", "x-other"];

fn mixed(r: &mut Rng, s: &str) -> String { match r.below(3) { 0 => s.to_string(), 1 => s.to_uppercase(), _ => s.chars().map(|c| if r.bool() { c.to_ascii_uppercase() } else { c }).collect() } }

fn gen_cc(r: &mut Rng) -> Vec<String> {
    let one = |r: &mut Rng| -> String {
        let mut d: Vec<String> = vec![];
        let age = |r: &mut Rng| *r.pick(&["60", "60", "10", "3600", "0", "1", "\"30\"", "4294967295", "2147483648", "x", "-5"]);
        for _ in 0..r.range(1, 3) {
            let t = match r.below(9) { 0..=3 => format!("max-age={}", age(r)), 4 => "private".into(), 5 => "public".into(), 6 => r.pick(&["no-cache", "no-store"]).to_string(), 7 => format!("s-maxage={}", age(r)), _ => r.pick(&["must-revalidate", "immutable", "stale-if-error=60"]).to_string() };
            d.push(if r.chance(1, 8) { mixed(r, &t) } else { t });
        }
        d.join(*r.pick(&[", ", ",", " , "]))
    };
    match r.below(6) { 0 => vec![], 1 => vec![one(r), one(r)], 2 | 3 => vec![format!("max-age={}", r.range(1, 9999))], _ => vec![one(r)] }
}
fn gen_ans(r: &mut Rng) -> Ans {
    let cookie = |r: &mut Rng| format!("{}={}{}", r.pick(&["sid", "user", "t"]), r.below(1000), r.pick(&["", "; Path=/", "; HttpOnly; Max-Age=3"]));
    Ans {
        cc: gen_cc(r),
        cookies: match r.below(6) { 0 | 1 => vec![cookie(r)], 2 => vec![cookie(r), cookie(r)], _ => vec![] },
        x: r.subset(XS, 1, 3).into_iter().map(|n| (mixed(r, n), format!("v{}", r.below(1000)))).collect(),
        fail: if r.chance(1, 12) { 1 + r.below(3) as u8 } else { 0 },
    }
}
fn gen_world(r: &mut Rng) -> W {
    let flag = |r: &mut Rng| *r.pick(&[None, Some(true), Some(true), Some(false)]);
    let mut fields = vec![];
    for _ in 0..r.range(1, 4) {
        let kind = *r.pick(&[Kind::Get, Kind::Get, Kind::Post, Kind::Gql, Kind::Batched, Kind::Call, Kind::Put]);
        let mut conf = vec![];
        if r.chance(1, 3) { let n = *r.pick(&["x-conf", "x-a", "x-key"]); conf.push((mixed(r, n), r.pick(&["const", "a b", "{{.env.TOKEN}}"]).to_string())); }
        if r.chance(1, 3) { conf.push(("x-copy".into(), format!("{{{{.headers.{}}}}}", r.pick(&["authorization", "cookie", "referer"])))); }
        fields.push(F { kind, conf, answers: (0..2).map(|_| gen_ans(r)).collect() });
    }
    W {
        cc: flag(r), cookies: flag(r),
        custom: r.subset(&["x-own", "X-Two", "server", "x-own"], 1, 3).into_iter().enumerate().map(|(i, n)| (n.to_string(), format!("c{i}"))).collect(),
        exp: r.subset(&XS[..2], 1, 2).into_iter().map(|n| mixed(r, n)).collect(),
        allowed: r.subset(NAMES, 1, 3).into_iter().map(|n| mixed(r, n)).collect(),
        batch: r.chance(1, 3), many: r.chance(1, 3), fields,
    }
}
fn sdl(w: &W) -> String {
    let kv = |xs: &[(String, String)]| xs.iter().map(|(k, v)| format!("{{key: {}, value: {}}}", json!(k), json!(v))).collect::<Vec<_>>().join(", ");
    let mut h = vec![];
    if let Some(b) = w.cc { h.push(format!("cacheControl: {b}")); }
    if let Some(b) = w.cookies { h.push(format!("setCookies: {b}")); }
    if !w.custom.is_empty() { h.push(format!("custom: [{}]", kv(&w.custom))); }
    if !w.exp.is_empty() { h.push(format!("experimental: {}", json!(w.exp))); }
    let mut s = format!("schema @server(port: 8000, headers: {{{}}}{}) @upstream(allowedHeaders: {}{}) {{ query: Query }}\n", h.join(", "), if w.many { ", batchRequests: true" } else { "" }, json!(w.allowed), if w.batch { ", batch: {delay: 1, maxSize: 10}" } else { "" });
    if h.is_empty() { s = s.replace(", headers: {}", ""); }
    s += "type Query {\n";
    let mut t = String::new();
    for (i, f) in w.fields.iter().enumerate() {
        let hd = if f.conf.is_empty() { String::new() } else { format!(", headers: [{}]", kv(&f.conf)) };
        s += &match f.kind {
            Kind::Get => format!("  f{i}: A @http(url: \"http://up/f{i}\"{hd})\n"),
            Kind::Post => format!("  f{i}: A @http(url: \"http://up/f{i}\", method: POST, body: \"b\"{hd})\n"),
            Kind::Put => format!("  f{i}: A @http(url: \"http://up/f{i}\", method: PUT{hd})\n"),
            Kind::Gql => format!("  f{i}: A @graphQL(url: \"http://up/f{i}\", name: \"f{i}\"{hd})\n"),
            Kind::Call => format!("  base{i}: A @http(url: \"http://up/f{i}\"{hd})\n  f{i}: A @call(steps: [{{query: \"base{i}\"}}])\n"),
            Kind::Batched => { t += &format!("type L{i} {{ id: Int!  p: A @http(url: \"http://up/p{i}\", query: [{{key: \"id\", value: \"{{{{.value.id}}}}\"}}], batchKey: [\"id\"]{hd}) }}\n"); format!("  f{i}: [L{i}] @http(url: \"http://up/f{i}\"{hd})\n") }
        };
    }
    if !w.batch { t = t.replace(", batchKey: [\"id\"]", ""); }
    s + "}\ntype A { id: Int  v: Int }\n" + &t
}
/// the paths a field leads to
fn paths(w: &W, i: usize) -> Vec<(String, usize)> { if w.fields[i].kind == Kind::Batched { vec![(format!("/f{i}"), 0), (format!("/p{i}"), 1)] } else { vec![(format!("/f{i}"), 0)] } }

fn upstream(w: &W) -> Arc<Upstream> {
    let w = w.clone();
    Upstream::new(move |q: &UReq| {
        let p = q.path().to_string(); let i: usize = p[2..].parse().unwrap_or(0); let second = p.starts_with("/p");
        let Some(f) = w.fields.get(i) else { return URes::status(404) };
        let a = &f.answers[second as usize];
        let body = match (f.kind, second) {
            (Kind::Gql, _) => json!({"data": {format!("f{i}"): {"id": 1, "v": 7}}}),
            (Kind::Batched, false) => json!([{"id": 1}, {"id": 2}]),
            (Kind::Batched, true) if w.batch => json!([{"id": 1, "v": 3}, {"id": 2, "v": 4}]),
            _ => json!({"id": 1, "v": 5}),
        };
        let mut res = match a.fail { 0 => URes::json(body), 1 => URes::status(500), 2 => URes::bytes("{nope"), _ => URes::fail("connection refused") };
        for v in &a.cc { res = res.header("Cache-Control", v); }
        for v in &a.cookies { res = res.header("Set-Cookie", v); }
        for (k, v) in &a.x { res = res.header(k, v); }
        res
    })
}

// what the answers allow: (age: -1 = never without asking, None = nothing said; private)
fn meaning(lines: &[String]) -> (Option<i64>, bool) {
    let mut age: Option<i64> = None; let mut private = false; let mut never = false;
    for d in lines.iter().flat_map(|l| l.split(',')) {
        let (n, v) = d.split_once('=').unwrap_or((d, ""));
        match n.trim().to_lowercase().as_str() {
            "private" => private = true,
            "no-cache" | "no-store" => never = true,
            "max-age" | "s-maxage" => { let s = v.trim().trim_matches('"').parse::<u64>().map(|x| x.min(i32::MAX as u64) as i64).unwrap_or(0); age = Some(age.map_or(s, |a| a.min(s))); }
            _ => {}
        }
    }
    (if never { Some(-1) } else { age }, private)
}
fn want_cc(anss: &[&Ans]) -> Option<String> {
    let mut age: Option<i64> = None; let mut private = false;
    for a in anss { let (g, p) = meaning(&a.cc); private |= p; if let Some(g) = g { age = Some(age.map_or(g, |x| x.min(g))); } }
    let mut s = vec![];
    match age { Some(-1) => s.push("no-cache".to_string()), Some(n) if n > 0 => s.push(format!("max-age={n}")), _ => {} }
    if private { s.push("private".into()); }
    (!s.is_empty()).then(|| s.join(", "))
}

fn app(w: &W, up: Arc<Upstream>) -> Result<Arc<AppContext>, String> {
    let rt = mock::runtime_env(up, &[("TOKEN", "t0k")]);
    let m = mock::module(&sdl(w)).map_err(|e| format!("{e:?}"))?;
    let ops: String = (0..w.fields.len()).map(|i| format!("query r{i} @rest(path: \"/r{i}\", method: GET) {{ f{i} {{ id {} }} }}\n", if w.fields[i].kind == Kind::Batched { "p { v }" } else { "v" })).collect();
    let bp = mock::blueprint(&m).map_err(|e| format!("{e:?}"))?;
    let set = futures_util::FutureExt::now_or_never(EndpointSet::<Unchecked>::try_new(&ops).map_err(|e| e.to_string())?.into_checked(&bp, rt.clone())).ok_or("pending")?.map_err(|e| e.to_string())?;
    Ok(Arc::new(AppContext::new(bp, rt, set)))
}

fn traffic(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("traffic");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for n in 0..c.n(400, 6000) {
            let w = gen_world(&mut r);
            let up = upstream(&w);
            let app = match app(&w, up.clone()) { Ok(a) => a, Err(e) => { c.violation("harness:app", json!({"error": e, "sdl": sdl(&w)})); continue } };
            for _ in 0..4 {
                // the client's headers
                let mut hs: Vec<(String, String)> = vec![];
                for name in r.subset(NAMES, 1, 2) { if name == "content-type" { continue } for _ in 0..if r.chance(1, 5) { 2 } else { 1 } { hs.push((mixed(&mut r, name), r.pick(&["one", "Bearer abc", "a=b; c=d", "caf\u{e9}", "x,y", "  "]).trim().to_string())); } }
                if r.chance(1, 6) { hs.push(("content-type".into(), "application/json".into())); }
                let idx: Vec<usize> = (0..w.fields.len()).collect();
                let mut pick = r.subset(&idx, 2, 3); if pick.is_empty() { pick.push(0); }
                let rest = r.chance(1, 4); if rest { pick.truncate(1); }
                let sel = |i: usize| format!("f{i} {{ id {} }}", if w.fields[i].kind == Kind::Batched { "p { v }" } else { "v" });
                let many = w.many && !rest && r.bool();
                let (method, uri, body) = if rest { ("GET", format!("/api/r{}", pick[0]), String::new()) }
                    else if many { ("POST", "/graphql".into(), json!(pick.iter().map(|i| json!({"query": format!("{{ {} }}", sel(*i))})).collect::<Vec<_>>()).to_string()) }
                    else { ("POST", "/graphql".into(), json!({"query": format!("{{ {} }}", pick.iter().map(|i| sel(*i)).collect::<Vec<_>>().join(" "))}).to_string()) };
                let malformed = !rest && r.chance(1, 15);
                let body = if malformed { body[..body.len() - 1].to_string() } else { body };
                c.case(&(sdl(&w), format!("{:?}", w.fields), &hs, &uri, &body), !malformed);
                up.take();
                let hv: Vec<(&str, &str)> = hs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
                let res = mock::send(&app, method, &uri, &hv, body.as_bytes()).await;
                let res = match res { Ok(x) => x, Err(e) => { c.violation("no-answer", json!({"error": e, "sdl": sdl(&w), "uri": uri, "body": body})); continue } };
                let seen = up.take();
                let wit = |x: Value| json!({"sdl": sdl(&w), "client headers": hs, "request": [method, uri, body], "answers": format!("{:?}", w.fields), "response headers": res.headers, "response": res.text(), "upstream saw": seen.iter().map(|q| q.show()).collect::<Vec<_>>(), "detail": x});
                if n % 60 == 0 { c.sample(|| wit(Value::Null)); }
                // towards the upstream
                let allowed: BTreeSet<String> = w.allowed.iter().map(|s| s.to_lowercase()).collect();
                for q in &seen {
                    c.count("upstream-requests", 1);
                    let i: usize = q.path()[2..].parse().unwrap_or(0);
                    let f = &w.fields[i];
                    let mut got: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for (k, v) in &q.headers { got.entry(k.to_lowercase()).or_default().push(v.clone()); }
                    let mut client: BTreeMap<String, Vec<String>> = BTreeMap::new();
                    for (k, v) in &hs { client.entry(k.to_lowercase()).or_default().push(v.clone()); }
                    let mut conf: BTreeMap<String, String> = BTreeMap::new();
                    for (k, v) in &f.conf {
                        let v = if v == "{{.env.TOKEN}}" { "t0k".to_string() } else if let Some(n) = v.strip_prefix("{{.headers.").and_then(|v| v.strip_suffix("}}")) { if allowed.contains(n) { match client.get(n) { Some(x) if x.len() > 1 || !x[0].is_ascii() => continue, Some(x) => x[0].clone(), None => String::new() } } else { String::new() } } else { v.clone() };
                        conf.insert(k.to_lowercase(), v);
                    }
                    for (k, vs) in &client {
                        if k == "content-type" { continue }
                        if allowed.contains(k) {
                            let ok = got.get(k) == Some(vs) || conf.get(k).is_some_and(|v| got.get(k) == Some(&vec![v.clone()]));
                            c.count("forwarded-headers", 1);
                            c.check(ok, "forwarded:changed", || wit(json!({"header": k, "sent": vs, "arrived": got.get(k), "at": q.path()})));
                        } else { c.count("withheld-headers", 1); }
                    }
                    for (k, vs) in &got {
                        if k == "content-type" {
                            let fine = vs.len() == 1 && (vs[0] == "application/json" || (allowed.contains(k) && client.get(k) == Some(vs)));
                            c.check(fine, "sent:content-type", || wit(json!({"values": vs, "at": q.path()}))); continue
                        }
                        if allowed.contains(k) && client.contains_key(k) { continue }
                        if k == "x-copy" && f.conf.iter().any(|x| x.0 == "x-copy") && !conf.contains_key("x-copy") { continue } // several values to copy
                        match conf.get(k) {
                            Some(v) => { c.check(vs.len() == 1 && vs[0].trim() == v.trim(), "sent:configured-value", || wit(json!({"header": k, "want": v, "got": vs, "at": q.path()}))); }
                            None => c.violation("sent:not-permitted", wit(json!({"header": k, "values": vs, "at": q.path()}))),
                        }
                    }
                    for (k, v) in &conf { if !v.is_empty() { c.check(got.contains_key(k), "sent:configured-missing", || wit(json!({"header": k, "want": v, "at": q.path()}))); } }
                }
                // towards the client
                let failed = res.status != 200 || malformed || { let j = res.json(); match &j { Value::Array(v) if many => v.iter().any(|x| !x["errors"].is_null()), j => !rest && !j["errors"].is_null() } };
                if failed { c.count("responses-with-errors", 1); }
                if rest { c.count("rest-responses", 1); } if many { c.count("batched-responses", 1); }
                for (k, v) in &w.custom { c.check(res.all(&k.to_lowercase()).contains(&v.as_str()), "response:custom-missing", || wit(json!({"header": k}))); }
                let anss: Vec<&Ans> = pick.iter().flat_map(|i| paths(&w, *i).into_iter().map(|(_, a)| &w.fields[*i].answers[a]).collect::<Vec<_>>()).collect();
                let called: Vec<&Ans> = if malformed { vec![] } else { anss.clone() };
                if !malformed && !failed { c.check(called.iter().all(|a| a.fail == 0), "failure-hidden", || wit(Value::Null)); }
                // no other header of an upstream, and none for which there is no reason
                let exp: BTreeSet<String> = w.exp.iter().map(|s| s.to_lowercase()).collect();
                for (k, _) in &res.headers {
                    let fine = ["content-type", "cache-control", "set-cookie"].contains(&k.as_str()) || exp.contains(k) || w.custom.iter().any(|x| x.0.eq_ignore_ascii_case(k));
                    c.check(fine, "response:unexpected-header", || wit(json!({"header": k})));
                }
                let cc = res.all("cache-control");
                if failed || w.cc != Some(true) { c.check(cc.is_empty(), if failed { "cache-control:on-errors" } else { "cache-control:not-enabled" }, || wit(json!(cc))); }
                else {
                    let want = want_cc(&called);
                    c.count("cache-headers-compared", 1);
                    c.check(cc.iter().map(|s| s.to_string()).collect::<Vec<_>>() == want.iter().cloned().collect::<Vec<_>>(), "cache-control:value", || wit(json!({"got": cc, "want": want})));
                }
                if w.cookies != Some(true) { c.check(res.all("set-cookie").is_empty(), "cookies:not-enabled", || wit(Value::Null)); }
                else if !failed {
                    // one answer per call: the members of a list are loaded one by one without batching
                    let mut want: Vec<String> = vec![];
                    for q in &seen { let i: usize = q.path()[2..].parse().unwrap_or(0); let a = &w.fields[i].answers[q.path().starts_with("/p") as usize]; want.extend(a.cookies.iter().cloned()); }
                    let got: Vec<String> = res.all("set-cookie").iter().map(|s| s.to_string()).collect();
                    let (mut a, mut b) = (got.clone(), want.clone()); a.sort(); b.sort();
                    let shared = w.batch && pick.iter().any(|i| w.fields[*i].kind == Kind::Batched && !w.fields[*i].answers[1].cookies.is_empty());
                    if want.len() <= 1 && !shared { c.check(a == b, "cookies:value", || wit(json!({"got": got, "want": want}))); if want.len() == 1 { c.count("cookies-forwarded", 1); } }
                    else if a != b {
                        // several cookies: known to be joined; still nothing that isn't a cookie of an upstream, and never none
                        let mut left = got.join("; "); let mut any = false;
                        let mut by_len = want.clone(); by_len.sort_by_key(|x| std::cmp::Reverse(x.len()));
                        for x in &by_len { if left.contains(x.as_str()) { left = left.replace(x.as_str(), ""); any = true; } }
                        c.check(any && left.replace("; ", "").trim().is_empty(), "cookies:value", || wit(json!({"got": got, "want": want})));
                        c.violation("cookies:several-joined", wit(json!({"got": got, "want": want})));
                    }
                }
                if !failed { for e in &exp {
                    let vals: BTreeSet<&str> = called.iter().flat_map(|a| a.x.iter().filter(|x| x.0.eq_ignore_ascii_case(e)).map(|x| x.1.as_str())).collect();
                    let got = res.all(e);
                    if vals.is_empty() { c.check(got.is_empty(), "experimental:unexpected", || wit(json!(e))); }
                    else { c.count("experimental-forwarded", 1); c.check(got.len() == 1 && vals.contains(got[0]), "experimental:missing", || wit(json!({"header": e, "got": got, "want one of": vals}))); }
                } }
            }
        }
    });
}

/// One field, one answer: every way to write the header.
fn policies(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("policies");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(300, 6000) {
            let w = W { cc: Some(true), cookies: Some(true), custom: vec![], exp: vec![], allowed: vec![], batch: false, many: false, fields: (0..2).map(|_| F { kind: Kind::Get, conf: vec![], answers: vec![Ans { cc: gen_cc(&mut r), ..Default::default() }] }).collect() };
            let app = match app(&w, upstream(&w)) { Ok(a) => a, Err(e) => { c.violation("harness:app", json!({"error": e})); continue } };
            for (q, a) in [("{ f0 { id } }", vec![0]), ("{ f0 { id } f1 { id } }", vec![0, 1]), ("{ a: f1 { id } f0 { v } }", vec![0, 1])] {
                c.case(&(format!("{:?}", w.fields), q), true);
                let res = mock::query(&app, q).await;
                let want = want_cc(&a.iter().map(|i: &usize| &w.fields[*i].answers[0]).collect::<Vec<_>>());
                c.eq(&res.header("cache-control").map(|s| s.to_string()), &want, "cache-control:value", || json!({"upstream": w.fields.iter().map(|f| f.answers[0].cc.clone()).collect::<Vec<_>>(), "query": q}));
                c.count("cache-headers-compared", 1);
            }
        }
    });
}

fn token(s: &str) -> bool { !s.is_empty() && s.bytes().all(|b| b.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&b)) }

/// Configured headers become templates under the same names.
fn templates(c: &C) {
    let mut r = c.rng("templates");
    for _ in 0..c.n(3000, 60000) {
        let xs: Vec<KeyValue> = (0..r.below(5)).map(|_| KeyValue { key: if r.chance(5, 6) { let n = *r.pick(NAMES); mixed(&mut r, n) } else { r.string(&["a", "X", "-", " ", "é", ":", "_", "", "!", "\n"], 4) }, value: r.string(&["a", "{{.headers.x}}", "{{.value.n}}", " ", "\"", "é", "{{.env.T}}", "{", "}}"], 4) }).collect();
        let input = || json!(xs.iter().map(|k| [&k.key, &k.value]).collect::<Vec<_>>());
        c.case(&input().to_string(), !xs.is_empty());
        let bad: Vec<&str> = xs.iter().filter(|k| !token(&k.key)).map(|k| k.key.as_str()).collect();
        match to_mustache_headers(&xs).to_result() {
            Ok(hs) => {
                if !c.check(bad.is_empty(), "templates:accepted", input) { continue }
                c.count("header-lists", 1);
                if !c.check(hs.len() == xs.len(), "templates:count", input) { continue }
                let ctx = TCtx::new(json!({"headers": {"x": "HX"}, "value": {"n": 5}, "env": {"T": "tt"}}));
                for ((n, m), k) in hs.iter().zip(&xs) {
                    c.check(n.as_str() == k.key.to_lowercase(), "templates:name", input);
                    let want = tailcall::core::mustache::Mustache::parse(&k.value);
                    c.check(m.render(&ctx) == want.render(&ctx) && m == &want, "templates:value", input);
                }
            }
            Err(e) => {
                if !c.check(!bad.is_empty(), "templates:refused", || json!({"input": input(), "error": e.to_string()})) { continue }
                let causes = e.as_vec();
                c.check(causes.len() == bad.len() && causes.iter().zip(&bad).all(|(x, b)| x.trace.iter().any(|t| t.to_string() == **b)), "templates:error-names-header", || json!({"input": input(), "error": e.to_string()}));
                c.count("header-lists-refused", 1);
            }
        }
    }
    c.floor("header-lists", 500); c.floor("header-lists-refused", 100);
}

/// The settings say what was configured, and nothing is on by default.
fn settings(c: &C) {
    let mut r = c.rng("settings");
    for _ in 0..c.n(500, 5000) {
        let mut m = serde_json::Map::new();
        let cc = *r.pick(&[None, Some(true), Some(false)]); let ck = *r.pick(&[None, Some(true), Some(false)]);
        if let Some(b) = cc { m.insert("cacheControl".into(), json!(b)); }
        if let Some(b) = ck { m.insert("setCookies".into(), json!(b)); }
        let custom: Vec<Value> = (0..r.below(3)).map(|i| json!({"key": format!("x-{i}"), "value": r.pick(&["a", "", "b c"])})).collect();
        if !custom.is_empty() { m.insert("custom".into(), json!(custom)); }
        let exp = r.subset(&["X-C", "x-a", "x-b"], 1, 2); if !exp.is_empty() { m.insert("experimental".into(), json!(exp)); }
        let cors = r.bool(); if cors { m.insert("cors".into(), json!({"allowOrigins": ["*"]})); }
        let j = Value::Object(m);
        c.case(&j.to_string(), true);
        let h: hooks::Headers = match serde_json::from_value(j.clone()) { Ok(h) => h, Err(e) => { c.violation("settings:refused", json!({"input": j, "error": e.to_string()})); continue } };
        c.check(h.enable_cache_control() == (cc == Some(true)), "settings:cache-control", || j.clone());
        c.check(h.set_cookies() == (ck == Some(true)), "settings:cookies", || j.clone());
        c.check(h.get_cors().is_some() == cors, "settings:cors", || j.clone());
        let back = serde_json::to_value(&h).unwrap_or_default();
        let norm = |v: &Value| { let mut v = v.clone(); if let Some(x) = v.get_mut("cors") { *x = json!(true); } v };
        c.check(norm(&back) == norm(&j), "settings:written", || json!({"input": j, "output": back}));
    }
}

/// Responses that are partly built from values obtained for an earlier request.
fn memoized(c: &C) {
    let rt = rt_paused();
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let up = || Upstream::new(|q: &UReq| { let r = URes::json(json!({"id": 1, "v": 2})).delay_ms(50); if q.path() == "/f0" { r.header("cache-control", "private, max-age=10") } else { r.header("cache-control", "max-age=60") } });
        let head = "schema @server(port: 8000, headers: {cacheControl: true}) { query: Query }\ntype A { id: Int v: Int }\n";
        let sdl = format!("{head}type Query {{ f0: A @http(url: \"http://up/f0\") @cache(maxAge: 100000000) f1: A @http(url: \"http://up/f1\") }}");
        let app = mock::app(&sdl, mock::runtime(up())).unwrap();
        for i in 0..2 {
            c.case(&("cached", i), true);
            let res = mock::query(&app, "{ f0 { id } f1 { id } }").await;
            c.check(res.header("cache-control") == Some("max-age=10, private"), if i == 0 { "cache-control:value" } else { "memoized:cached-field" }, || json!({"sdl": sdl, "request": i, "headers": res.headers}));
        }
        let sdl = format!("{head}type Query {{ f0: A @http(url: \"http://up/f0\", dedupe: true) f1: A @http(url: \"http://up/f1\") }}");
        let app = mock::app(&sdl, mock::runtime(up())).unwrap();
        let rs = futures_util::future::join_all([mock::query(&app, "{ f0 { id } f1 { id } }"), mock::query(&app, "{ f0 { v } f1 { id } }")]).await;
        for (i, res) in rs.iter().enumerate() {
            c.case(&("shared", i), true);
            c.check(res.header("cache-control") == Some("max-age=10, private"), if i == 0 { "cache-control:value" } else { "memoized:shared-call" }, || json!({"sdl": sdl, "request": i, "headers": res.headers}));
        }
    });
}
