//! C05: only identical upstream requests are coalesced.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use serde_json::{json, Value};
use tailcall::core::config::GraphQLOperationType;
use tailcall::core::endpoint::Endpoint;
use tailcall::core::http::{DataLoaderRequest, Method, RequestTemplate};
use tailcall::core::ir::model::CacheKey;
use tailcall::core::mustache::Mustache;
use tailcall_hasher::TailcallHasher;

use crate::common::*;
use crate::mock::{self, TCtx, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one pair of request keys compared, one block of hashed inputs, one pair of template renderings, or one burst of gateway requests; non-trivial = the two differ in exactly one aspect or in listing order only; distinct by (pair, aspect)");
    c.assume("64-bit hash equality is the request identity by design; accidental collisions are negligible at these sample sizes");
    c.section("keys", keys);
    c.section("hasher", hasher);
    c.section("templates", templates);
    c.section("graphql-templates", gql_templates);
    c.section("gateway", gateway);
    c.section("gateway-graphql", gateway_graphql);
    c.floor("equal_pairs", 150);
    c.floor("unequal_pairs", 300);
    c.floor("hashed_inputs", 200_000);
}

#[derive(Clone, Debug, PartialEq)]
struct Spec {
    method: &'static str,
    url: String,
    headers: Vec<(String, String)>,
    body: Option<Vec<u8>>,
    sig: Vec<String>,
    batching: Option<String>,
}

const NAMES: &[&str] = &["authorization", "x-tenant", "accept", "x-a", "x-ab", "b"];

fn gen_spec(r: &mut Rng) -> Spec {
    Spec {
        method: *r.pick(&["GET", "POST"]),
        url: format!("http://{}/{}{}", r.pick(&["h", "h2", "h:81"]), r.pick(&["", "a", "a/", "a/b", "a/b/", "a//b", "ab", "A", "a%2Fb"]), r.pick(&["", "?x=1", "?x=2", "?x=1&y=2", "?y=2&x=1", "?", "#f", "?x=1&x=2", "?x=2&x=1", "?x=", "?X=1", "?x=1/"])),
        headers: {
            let mut h: Vec<(String, String)> = r.subset(NAMES, 1, 2).into_iter().map(|n| (n.to_string(), r.pick(&["", "a", "b", "ab", "x-a", "A", "\"a\""]).to_string())).collect();
            // several values of one header, and many headers
            if r.chance(1, 4) { for _ in 0..r.range(1, 3) { if let Some(n) = h.first().map(|x| x.0.clone()) { h.push((n, r.pick(&["a", "b", "c"]).to_string())) } } }
            if r.chance(1, 12) { for k in 0..r.range(8, 40) { h.push((format!("x-more-{k}"), format!("{k}"))) } }
            h
        },
        body: r.bool().then(|| if r.chance(1, 6) { let mut b = vec![b'z'; *r.pick(&[1000, 5000, 70000])]; *b.last_mut().unwrap() = *r.pick(&[b'1', b'2']); b } else { r.pick(&["", "x", "y", "xy", "{\"a\":1}", "{\"a\": 1}", "xx-a", " x", "x\n"]).as_bytes().to_vec() }),
        sig: r.subset(NAMES, 2, 3).into_iter().map(|s| s.to_string()).collect(),
        batching: r.bool().then(|| r.pick(&["1", "2", "", " ", "null", "{\"a\": 1}"]).to_string()),
    }
}

fn build(s: &Spec) -> DataLoaderRequest {
    let mut q = reqwest::Request::new(s.method.parse().unwrap(), s.url.parse().unwrap());
    for (k, v) in &s.headers {
        q.headers_mut().append(reqwest::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
    }
    if let Some(b) = &s.body {
        *q.body_mut() = Some(b.clone().into());
    }
    DataLoaderRequest::new(q, s.sig.iter().cloned().collect::<BTreeSet<_>>()).with_batching_value(s.batching.clone())
}

/// The identity the property prescribes.
fn ident(s: &Spec) -> (String, Option<Vec<u8>>, BTreeMap<String, Vec<String>>) {
    let sig: BTreeSet<&String> = s.sig.iter().collect();
    let mut h = BTreeMap::new();
    for (k, v) in &s.headers {
        if sig.contains(k) {
            h.entry(k.clone()).or_insert_with(Vec::new).push(v.clone());
        }
    }
    (url::Url::parse(&s.url).unwrap().to_string(), s.body.clone(), h)
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn same_request(a: &reqwest::Request, s: &Spec) -> bool {
    a.method().as_str() == s.method
        && a.url().as_str() == url::Url::parse(&s.url).unwrap().as_str()
        && a.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec()) == s.body
        && a.headers().len() == s.headers.len()
        && s.headers.iter().all(|(k, _)| a.headers().get_all(k).iter().map(|x| x.as_bytes()).eq(s.headers.iter().filter(|x| x.0 == *k).map(|x| x.1.as_bytes())))
}

fn keys(c: &C) {
    let mut r = c.rng("keys");
    for _ in 0..c.n(700, 12000) {
        let a = gen_spec(&mut r);
        let mut b = if r.chance(1, 8) { gen_spec(&mut r) } else { a.clone() };
        let aspect = r.below(9);
        match aspect {
            0 => r.shuffle(&mut b.sig),
            1 => r.shuffle(&mut b.headers),
            2 => b.url = gen_spec(&mut r).url,
            3 => b.body = gen_spec(&mut r).body,
            4 => {
                if let Some(h) = b.headers.first_mut() { h.1 = r.pick(&["", "a", "b", "zz"]).to_string() }
            }
            5 => { b.headers.pop(); }
            6 => {
                // a value moved from one header to another
                if b.headers.len() >= 2 { let t = b.headers[0].1.clone(); b.headers[0].1 = b.headers[1].1.clone(); b.headers[1].1 = t; }
            }
            7 => b.sig = gen_spec(&mut r).sig,
            _ => {}
        }
        b.method = a.method;
        let (ka, kb) = (build(&a), build(&b));
        let want = ident(&a) == ident(&b);
        let det = || json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "want_same": want});
        // whether the order of one header's values matters is left open
        let sorted = |s: &Spec| { let mut i = ident(s); i.2.values_mut().for_each(|v| v.sort()); i };
        if !want && sorted(&a) == sorted(&b) { c.count("reordered_values", 1); continue }
        let (e1, e2) = (ka == kb, kb == ka);
        c.check(e1 == e2, "keys:equality-not-symmetric", det);
        c.check(e1 == want, if want { "keys:identical-requests-kept-apart" } else { "keys:different-requests-coalesced" }, det);
        if e1 {
            c.check(hash_of(&ka) == hash_of(&kb), "keys:equal-but-hashed-differently", det);
        }
        c.count(if want { "equal_pairs" } else { "unequal_pairs" }, 1);
        // carrying the request
        let k2 = ka.clone();
        c.check(k2 == ka && hash_of(&k2) == hash_of(&ka), "keys:clone-differs", det);
        c.check(same_request(&ka.to_request(), &a) && same_request(&k2.to_request(), &a), "keys:request-altered", || json!({"spec": format!("{a:?}"), "got": format!("{:?}", k2.to_request())}));
        c.check(k2.batching_value() == a.batching.as_ref() && ka.batching_value() == a.batching.as_ref(), "keys:batching-value-altered", det);
        c.check(k2.headers() == &a.sig.iter().cloned().collect::<BTreeSet<_>>(), "keys:significant-headers-altered", det);
        c.check(ka.method().as_str() == a.method && ka.url().as_str() == url::Url::parse(&a.url).unwrap().as_str(), "keys:deref-differs", det);
        c.case(&(format!("{a:?}{b:?}"), aspect), want || aspect < 8);
        c.sample(det);
    }
    // as map keys: lookups find exactly the identical request
    for _ in 0..c.n(20, 300) {
        let specs: Vec<Spec> = (0..40).map(|_| { let mut s = gen_spec(&mut r); s.method = "GET"; s.sig = vec!["authorization".into(), "x-tenant".into()]; s }).collect();
        let mut m: HashMap<DataLoaderRequest, usize> = HashMap::new();
        let mut model: HashMap<_, usize> = HashMap::new();
        for (i, s) in specs.iter().enumerate() {
            m.entry(build(s)).or_insert(i);
            model.entry(ident(s)).or_insert(i);
        }
        c.check(m.len() == model.len(), "keys:map-size", || json!({"got": m.len(), "want": model.len()}));
        for s in &specs {
            c.check(m.get(&build(s)) == model.get(&ident(s)), "keys:map-lookup", || json!(format!("{s:?}")));
        }
        c.case(&format!("{specs:?}"), true);
    }
}

fn th(parts: &[&[u8]]) -> u64 {
    let mut h = TailcallHasher::default();
    for p in parts {
        h.write(p);
    }
    h.finish()
}

fn hasher(c: &C) {
    let mut r = c.rng("hash");
    let mut seen: HashMap<u64, Vec<u8>> = HashMap::new();
    let mut inputs: HashSet<Vec<u8>> = HashSet::new();
    let words = ["http://h/", "authorization", "Bearer ", "{\"query\":\"", "tenant", "?id="];
    let n = c.n(260_000, 2_000_000);
    let mut i = 0u64;
    while inputs.len() < n {
        i += 1;
        // realistic texts that differ little: same prefix, same length, same suffix, permuted
        let mut v = match i % 4 {
            0 => format!("{}{}", r.pick(&words), i).into_bytes(),
            1 => format!("{:08}{}", i, r.pick(&words)).into_bytes(),
            2 => { let mut b = b"the same long prefix of forty characters:".to_vec(); b.extend_from_slice(&i.to_le_bytes()); b }
            _ => { let mut b = i.to_be_bytes().to_vec(); b.extend_from_slice(b" and then a common long suffix of the text"); b }
        };
        if r.chance(1, 50) { v.push(r.next() as u8); }
        if !inputs.insert(v.clone()) { continue; }
        let mut h = TailcallHasher::default();
        v.hash(&mut h);
        let x = h.finish();
        if let Some(o) = seen.insert(x, v.clone()) {
            c.violation("hasher:distinct-inputs-collide", json!({"a": String::from_utf8_lossy(&o), "b": String::from_utf8_lossy(&v), "hash": x}));
        }
        c.count("hashed_inputs", 1);
    }
    // every byte and every chunk counts; nothing but the input counts
    for k in 0..c.n(2000, 20000) {
        let len = r.range(1, 70);
        let mut v: Vec<u8> = (0..len).map(|_| r.next() as u8).collect();
        let a = th(&[&v]);
        c.check(a == th(&[&v.clone()]), "hasher:not-a-function-of-the-input", || json!(v.clone()));
        let at = r.below(len);
        let old = v[at];
        v[at] ^= 1 << r.below(8);
        c.check(a != th(&[&v]), "hasher:a-byte-is-ignored", || json!({"length": len, "at": at}));
        v[at] = old;
        // typed values
        let (s, t) = (r.string(&["a", "b"], 5), r.string(&["a", "b"], 5));
        let mk = |x: &str, y: &str| { let mut h = TailcallHasher::default(); x.hash(&mut h); y.hash(&mut h); h.finish() };
        let whole = format!("{s}{t}");
        for cut in 0..=whole.len() {
            let (x, y) = whole.split_at(cut);
            let eq = mk(x, y) == mk(&s, &t);
            c.check(eq == (x == s && y == t), "hasher:boundary-between-values-ignored", || json!([s, t, x, y]));
        }
        let n = r.next();
        let hn = |n: u64| { let mut h = TailcallHasher::default(); n.hash(&mut h); h.finish() };
        c.check(hn(n) != hn(n ^ (1 << r.below(64))), "hasher:a-bit-of-a-number-is-ignored", || json!(n));
        c.case(&(k % 500, len), true);
    }
}

#[derive(Clone, Debug)]
struct TSpec {
    method: &'static str,
    path: String,
    query: Vec<(String, String, bool)>,
    headers: Vec<(String, String)>,
    body: Option<Value>,
}

fn gen_t(r: &mut Rng) -> TSpec {
    TSpec {
        method: *r.pick(&["GET", "POST", "PUT"]),
        path: format!("http://h/{}", r.pick(&["a", "{{.args.id}}", "a/{{.args.id}}/{{.value.k}}", "{{.value.k}}", "b?z=1"])),
        query: (0..r.below(3)).map(|i| (format!("q{i}"), r.pick(&["{{.args.id}}", "{{.value.k}}", "c", "{{.args.name}}", "{{.args.l}}"]).to_string(), r.bool())).collect(),
        headers: r.subset(&["x-a", "x-b"], 1, 2).into_iter().map(|n| (n.to_string(), r.pick(&["{{.args.id}}", "{{.args.name}}", "c"]).to_string())).collect(),
        body: r.chance(1, 2).then(|| r.pick(&[json!("{{.args.body}}"), json!({"a": "{{.args.id}}"}), json!({"k": "{{.value.k}}", "n": 1})]).clone()),
    }
}

fn mk_t(t: &TSpec) -> RequestTemplate {
    let mut e = Endpoint::new(t.path.clone()).query(t.query.clone()).body(t.body.clone());
    e.method = match t.method { "GET" => Method::GET, "POST" => Method::POST, _ => Method::PUT };
    for (k, v) in &t.headers {
        e.headers.append(http::header::HeaderName::from_bytes(k.as_bytes()).unwrap(), v.parse().unwrap());
    }
    RequestTemplate::try_from(e).unwrap()
}

fn gen_ctx(r: &mut Rng) -> TCtx {
    let mut x = TCtx::new(json!({
        "args": {"id": r.below(3), "name": *r.pick(&["n", "m", ""]), "l": *r.pick(&[&[1][..], &[1, 2], &[]]), "body": {"z": r.below(2)}},
        "value": {"k": *r.pick(&["u", "v"]), "other": r.below(9)},
    }));
    for n in r.subset(&["authorization", "x-c"], 1, 2) {
        x.headers.append(n, r.pick(&["t1", "t2"]).parse().unwrap());
    }
    x
}

/// The complete request as it would be sent.
fn sent(t: &RequestTemplate, x: &TCtx) -> String {
    let q = t.to_request(x).unwrap().into_request();
    let hs: Vec<String> = q.headers().iter().map(|(k, v)| format!("{k}={}", v.to_str().unwrap())).collect();
    format!("{} {} {:?} {:?}", q.method(), q.url(), hs, q.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned()))
}

fn templates(c: &C) {
    let mut r = c.rng("tmpl");
    for _ in 0..c.n(500, 8000) {
        let (ta, mut tb) = { let t = gen_t(&mut r); (t.clone(), t) };
        let (a, mut b) = (gen_ctx(&mut r), gen_ctx(&mut r));
        let aspect = r.below(6);
        match aspect {
            0 => b = TCtx { value: a.value.clone(), headers: a.headers.clone(), selection: None },
            1 => { b.value = a.value.clone(); }
            2 => { b.headers = a.headers.clone(); }
            3 => { b = TCtx { value: a.value.clone(), headers: a.headers.clone(), selection: None }; tb = gen_t(&mut r); }
            4 => { b = TCtx { value: a.value.clone(), headers: a.headers.clone(), selection: None }; tb.method = *r.pick(&["GET", "POST", "PUT"]); }
            _ => { b = TCtx { value: a.value.clone(), headers: a.headers.clone(), selection: None }; b.value["value"]["other"] = json!(77); }
        }
        let (ra, rb) = (mk_t(&ta), mk_t(&tb));
        let (sa, sb) = (sent(&ra, &a), sent(&rb, &b));
        let (ia, ib) = (ra.cache_key(&a), rb.cache_key(&b));
        let same = sa == sb;
        let det = || json!({"a": sa, "b": sb, "templates": [format!("{ta:?}"), format!("{tb:?}")]});
        if ia.is_some() && ib.is_some() {
            // templates that write the same request differently may have different identities
            if !same { c.check(ia != ib, "templates:different-requests-have-one-identity", det); c.count("unequal_pairs", 1); }
            else if aspect == 0 || aspect == 5 { c.check(ia == ib, "templates:same-request-has-two-identities", det); c.count("equal_pairs", 1); }
        } else {
            c.violation("templates:no-identity", det());
        }
        c.check(ra.cache_key(&a) == ia, "templates:identity-not-stable", det);
        c.case(&(sa.clone(), sb.clone(), aspect), true);
        c.sample(det);
    }
}

fn gql_templates(c: &C) {
    use tailcall::core::graphql::RequestTemplate as G;
    let mut r = c.rng("gtmpl");
    for _ in 0..c.n(300, 4000) {
        let gen = |r: &mut Rng| (
            r.pick(&["http://g/q", "http://g2/q"]).to_string(),
            r.bool(),
            r.pick(&["user", "post"]).to_string(),
            r.pick(&["{{.args.id}}", "{{.value.k}}", "5"]).to_string(),
            r.pick(&["{{.args.name}}", "c"]).to_string(),
        );
        let sa = gen(&mut r);
        let mut sb = sa.clone();
        let (mut a, mut b) = (gen_ctx(&mut r), gen_ctx(&mut r));
        a.selection = Some(r.pick(&["{ id }", "{ id name }"]).to_string());
        b.selection = a.selection.clone();
        let aspect = r.below(6);
        let copy = |a: &TCtx| TCtx { value: a.value.clone(), headers: a.headers.clone(), selection: a.selection.clone() };
        match aspect {
            0 => b = copy(&a),
            1 => b.value = a.value.clone(),
            2 => b.headers = a.headers.clone(),
            3 => { b = copy(&a); sb = gen(&mut r); }
            4 => { b = copy(&a); b.selection = Some("{ name }".into()); }
            _ => { b = copy(&a); sb.0 = "http://g3/q".into(); }
        }
        let mk = |s: &(String, bool, String, String, String)| {
            let kv = vec![serde_json::from_value(json!({"key": "id", "value": s.3})).unwrap()];
            let hs = vec![(http::header::HeaderName::from_static("x-h"), Mustache::parse(&s.4))];
            G::new(s.0.clone(), if s.1 { &GraphQLOperationType::Query } else { &GraphQLOperationType::Mutation }, &s.2, Some(&kv), hs, serde_json::from_value::<()>(Value::Null).map(|_| Default::default()).unwrap()).unwrap()
        };
        let send = |t: &G, x: &TCtx| {
            let q = t.to_request(x).unwrap();
            let hs: Vec<String> = q.headers().iter().map(|(k, v)| format!("{k}={}", v.to_str().unwrap())).collect();
            format!("{} {} {:?} {:?}", q.method(), q.url(), hs, q.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned()))
        };
        let (ta, tb) = (mk(&sa), mk(&sb));
        let (qa, qb) = (send(&ta, &a), send(&tb, &b));
        let (ia, ib) = (ta.cache_key(&a), tb.cache_key(&b));
        let det = || json!({"a": qa, "b": qb});
        if qa != qb { c.check(ia.is_none() || ia != ib, "graphql-templates:different-requests-have-one-identity", det); c.count("unequal_pairs", 1); }
        else { c.check(ia == ib, "graphql-templates:same-request-has-two-identities", det); c.count("equal_pairs", 1); }
        c.case(&(qa.clone(), qb.clone()), true);
    }
}

fn gateway(c: &C) {
    let mut r = c.rng("gw");
    for _ in 0..c.n(40, 500) {
        let batch = r.bool();
        let dedupe = r.bool();
        let sdl = format!(r#"
schema @server(port: 8000) @upstream(allowedHeaders: ["tenant", "noise"]{}) {{ query: Query }}
type Query {{
  u(id: Int!, tag: String): V @http(url: "http://up/u/{{{{.args.id}}}}", query: [{{key: "tag", value: "{{{{.args.tag}}}}"}}]{d})
  p(id: Int!): V @http(url: "http://up/p", method: POST, body: "{{{{.args.id}}}}"{d})
  w(id: Int!): V @http(url: "http://up/u/{{{{.args.id}}}}"{d})
}}
type V {{ key: String n: Int }}
"#, if batch { r#", batch: {delay: 5, headers: ["tenant"]}"# } else { "" }, d = if dedupe { ", dedupe: true" } else { "" });
        let up = Upstream::new(|q| URes::json(json!({"key": format!("{} {} {} {} {}", q.method, q.url, q.header("tenant").unwrap_or(""), q.header("noise").unwrap_or(""), q.body_str())})).delay_ms(20));
        let rt = rt_multi(2);
        let clients = r.range(1, 4);
        let reqs: Vec<(String, &str, &str, Vec<(String, String)>)> = (0..clients).map(|_| {
            let tenant = *r.pick(&["t1", "t2"]);
            let noise = *r.pick(&["n1", "n2"]);
            let mut want = vec![];
            let sel: Vec<String> = (0..r.range(1, 5)).map(|i| {
                let id = r.below(2);
                match r.below(3) {
                    0 => { let tag = *r.pick(&["a", "b"]); want.push((format!("f{i}"), format!("GET http://up/u/{id}?tag={tag} {tenant} "))); format!("f{i}: u(id: {id}, tag: \"{tag}\") {{ key }}") }
                    1 => { want.push((format!("f{i}"), format!("POST http://up/p {tenant} {{}}{id}"))); format!("f{i}: p(id: {id}) {{ key }}") }
                    _ => { want.push((format!("f{i}"), format!("GET http://up/u/{id} {tenant} "))); format!("f{i}: w(id: {id}) {{ key }}") }
                }
            }).collect();
            (format!("{{ {} }}", sel.join(" ")), tenant, noise, want)
        }).collect();
        let up2 = up.clone();
        let reqs2 = reqs.clone();
        let outs: Vec<mock::Res> = rt.block_on(async {
            let app = mock::app(&sdl, mock::runtime(up2)).unwrap();
            let hs: Vec<_> = reqs2.into_iter().map(|(q, t, n, _)| { let app = app.clone(); tokio::spawn(async move { mock::gql(&app, json!({"query": q}), &[("tenant", t), ("noise", n)]).await }) }).collect();
            let mut v = vec![];
            for h in hs { v.push(h.await.unwrap()); }
            v
        });
        let log = up.take();
        let det = || json!({"batch": batch, "dedupe": dedupe, "requests": reqs.iter().map(|r| json!([r.0, r.1, r.2])).collect::<Vec<_>>(), "upstream": log.iter().map(|l| l.show()).collect::<Vec<_>>(), "answers": outs.iter().map(|o| o.json()).collect::<Vec<_>>()});
        let mut distinct = HashSet::new();
        let mut total = 0;
        for ((_, tenant, noise, want), o) in reqs.iter().zip(&outs) {
            let mut mine = HashSet::new();
            for (f, w) in want {
                let got = o.data()[f]["key"].as_str().unwrap_or("").to_string();
                let norm = |s: &str| s.replace(" n1 ", " ").replace(" n2 ", " ").replace("{}", "").split_whitespace().collect::<Vec<_>>().join(" ");
                c.check(norm(&got) == norm(w), "gateway:answer-of-another-request", || json!({"field": f, "want": w, "got": got, "all": det()}));
                if !batch {
                    c.check(got.contains(noise), "gateway:another-clients-header", || json!({"field": f, "noise": noise, "got": got, "all": det()}));
                }
                let _ = tenant;
                mine.insert(norm(w));
                distinct.insert((norm(w), if batch { "" } else { noise }));
                total += 1;
            }
            let _ = mine;
        }
        // coalescing within a request is exact
        if clients == 1 && (batch || dedupe) {
            // POST requests are batched like the others
            let d: HashSet<_> = distinct.iter().map(|x| x.0.clone()).collect();
            if dedupe || batch {
                c.check(log.len() == d.len(), "gateway:wrong-number-of-upstream-requests", || json!({"want": d.len(), "got": log.len(), "all": det()}));
            }
        } else if clients == 1 {
            c.check(log.len() == total, "gateway:coalesced-without-being-asked", || json!({"want": total, "got": log.len(), "all": det()}));
        } else {
            c.check(log.len() <= total && (dedupe || log.len() >= distinct.iter().map(|x| &x.0).collect::<HashSet<_>>().len()), "gateway:wrong-number-of-upstream-requests", det);
        }
        c.case(&format!("{batch}{dedupe}{reqs:?}"), true);
        c.sample(det);
    }
}

/// Two GraphQL upstreams asked the same query, for two clients, cached and deduplicated.
fn gateway_graphql(c: &C) {
    let sdl = r#"
schema @server(port: 8000) @upstream(allowedHeaders: ["tenant"]) { query: Query }
type Query {
  a: V @graphQL(url: "http://g1/graphql", name: "v", dedupe: true) @cache(maxAge: 60000)
  b: V @graphQL(url: "http://g2/graphql", name: "v", dedupe: true) @cache(maxAge: 60000)
}
type V { key: String }
"#;
    let up = Upstream::new(|q| URes::json(json!({"data": {"v": {"key": format!("{}/{}", q.url.host_str().unwrap(), q.header("tenant").unwrap_or(""))}}})));
    let rt = rt_single();
    let mut r = c.rng("gg");
    for _ in 0..c.n(12, 60) {
        let mut trace = vec![];
        rt.block_on(async {
            let app = mock::app(sdl, mock::runtime(up.clone())).unwrap();
            for _ in 0..6 {
                let t = *r.pick(&["t1", "t2"]);
                let q = *r.pick(&["{ a { key } }", "{ b { key } }", "{ a { key } b { key } }"]);
                let o = mock::gql(&app, json!({"query": q}), &[("tenant", t)]).await;
                trace.push(json!([t, q]));
                for (f, host) in [("a", "g1"), ("b", "g2")] {
                    if q.contains(&format!("{f} {{")) {
                        let got = o.data()[f]["key"].clone();
                        c.check(got == json!(format!("{host}/{t}")), "gateway-graphql:answer-of-another-request", || json!({"trace": trace, "field": f, "want": format!("{host}/{t}"), "got": o.json()}));
                    }
                }
                c.case(&json!(trace).to_string(), true);
            }
        });
    }
    let _ = Arc::new(());
}
