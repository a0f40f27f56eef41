//! C06: batched upstream responses are split correctly among the entities that asked.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use async_graphql_value::ConstValue;
use serde_json::{json, Value};
use tailcall::core::config::group_by::GroupBy;
use tailcall::core::data_loader::Loader;
use tailcall::core::http::{BodyBatching, DataLoaderRequest, HttpDataLoader, QueryBatching};
use tailcall::core::json::JsonLike;
use tailcall::core::Transform;
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock::{self, URes, UReq, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one JSON document grouped by one path, one list of requests merged, one set of keys loaded through the loader, or one list of entities resolved through the gateway with and without grouping; non-trivial = at least two distinct keys or items; distinct by the generated input");
    c.section("group-model", group_model);
    c.section("query-batching", query_batching);
    c.section("body-batching", body_batching);
    c.section("loader", loader);
    c.section("gateway", gateway);
    c.floor("groups_checked", 300);
    c.floor("keys_loaded", 500);
    c.floor("gateway_entities", 60);
}

/// The text under which a key is known: strings as they are, numbers in their shortest decimal form.
fn key_text(v: &Value) -> Option<String> {
    match v {
        Value::String(s) => Some(s.clone()),
        Value::Number(n) => Some(if let Some(i) = n.as_i64() {
            i.to_string()
        } else if let Some(u) = n.as_u64() {
            u.to_string()
        } else {
            format!("{}", n.as_f64().unwrap())
        }),
        _ => None,
    }
}

/// Reference: walk the path (lists at any level are walked element by element); the item is the
/// object that holds the last key of the path.
fn ref_group(v: &Value, path: &[String], out: &mut Vec<(String, Value)>) {
    match v {
        Value::Array(xs) => xs.iter().for_each(|x| ref_group(x, path, out)),
        Value::Object(m) => {
            if let Some(x) = path.first().and_then(|p| m.get(p)) {
                if path.len() == 1 {
                    if let Some(k) = key_text(x) {
                        out.push((k, v.clone()));
                    }
                } else {
                    ref_group(x, &path[1..], out);
                }
            }
        }
        _ => {}
    }
}

fn gen_id(r: &mut Rng) -> Value {
    match r.below(16) {
        0 => json!("a b"),
        1 => json!("ключ"),
        2 => json!("1&2=#"),
        3 => json!("+%41"),
        4 => json!(-7),
        5 => json!(1.5),
        6 => json!(9007199254740993u64 + r.below(3) as u64),
        7 => json!(u64::MAX - r.below(2) as u64),
        8 => json!("x"),
        9 => json!("X"),
        10 => json!("01"),
        11 => json!(format!("{}", r.below(4))),
        12 => json!(i64::MIN + r.below(2) as i64),
        _ => json!(r.below(4)),
    }
}

fn gen_doc(r: &mut Rng, path: &[String], depth: usize) -> Value {
    if r.chance(1, 12) {
        return gen_scalar(r);
    }
    if depth > 0 && r.chance(2, 5) {
        let n = r.below(5);
        return Value::Array((0..n).map(|_| gen_doc(r, path, depth - 1)).collect());
    }
    let mut m = serde_json::Map::new();
    if r.bool() {
        m.insert("tag".into(), json!(r.below(100)));
    }
    if let Some(p) = path.first() {
        if !r.chance(1, 8) {
            let v = if path.len() == 1 {
                match r.below(10) {
                    0 => json!(null),
                    1 => json!([1, 2]),
                    2 => json!({"id": 1}),
                    _ => gen_id(r),
                }
            } else {
                gen_doc(r, &path[1..], depth.max(1))
            };
            m.insert(p.clone(), v);
        }
    }
    m.insert("n".into(), json!(r.below(1000)));
    Value::Object(m)
}

fn group_model(c: &C) {
    let mut r = c.rng("group");
    for _ in 0..c.n(700, 20000) {
        let path: Vec<String> = (0..r.range(1, 3)).map(|_| r.pick(&["id", "a", "user", "userId", "k k"]).to_string()).collect();
        let n = r.below(7);
        let doc = if r.chance(1, 4) { gen_doc(&mut r, &path, 2) } else { Value::Array((0..n).map(|_| gen_doc(&mut r, &path, 1)).collect()) };
        let mut want: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        let mut flat = vec![];
        ref_group(&doc, &path, &mut flat);
        for (k, v) in &flat {
            want.entry(k.clone()).or_default().push(v.clone());
        }
        let det = || json!({"path": path, "doc": doc});
        let got: BTreeMap<String, Vec<Value>> = doc.group_by(&path).into_iter().map(|(k, v)| (k, v.into_iter().cloned().collect())).collect();
        c.eq(&got, &want, "group:serde_json", det);
        let cv = ConstValue::from_json(doc.clone()).unwrap();
        let got: BTreeMap<String, Vec<Value>> = cv.group_by(&path).into_iter().map(|(k, v)| (k, v.into_iter().map(|x| x.clone().into_json().unwrap()).collect())).collect();
        c.eq(&got, &want, "group:const-value", det);
        let text = doc.to_string();
        let bv: serde_json_borrow::Value = serde_json::from_str(&text).unwrap();
        let got: BTreeMap<String, Vec<Value>> = bv
            .group_by(&path)
            .into_iter()
            .map(|(k, v)| (k, v.into_iter().map(|x| serde_json::from_str(&x.to_string()).unwrap()).collect()))
            .collect();
        let want_b: BTreeMap<String, Vec<Value>> = want.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| serde_json::from_str(&serde_json::from_str::<serde_json_borrow::Value>(&x.to_string()).unwrap().to_string()).unwrap()).collect())).collect();
        c.eq(&got, &want_b, "group:borrowed", det);
        c.count("groups_checked", want.len() as u64);
        c.count("items_grouped", flat.len() as u64);
        c.case(&format!("{path:?}{doc}"), want.len() > 1 || flat.len() > 1);
        c.sample(det);
    }
    // the configured path and key
    for _ in 0..c.n(50, 500) {
        let path: Vec<String> = (0..r.below(4)).map(|_| r.pick(&["id", "a", "user"]).to_string()).collect();
        let key = r.bool().then(|| r.pick(&["k", "id", "q"]).to_string());
        let g = GroupBy::new(path.clone(), key.clone());
        let want_path = if path.is_empty() { vec!["id".to_string()] } else { path.clone() };
        let want_key = key.clone().unwrap_or_else(|| want_path.last().unwrap().clone());
        c.check(g.path() == want_path && g.key() == want_key, "group:configured-path-or-key", || json!({"path": path, "key": key, "got": [json!(g.path()), json!(g.key())]}));
    }
}

fn pairs(u: &url::Url) -> Vec<(String, String)> {
    u.query_pairs().map(|(a, b)| (a.into_owned(), b.into_owned())).collect()
}

fn gen_req(r: &mut Rng, method: &str) -> reqwest::Request {
    let mut u = url::Url::parse(&format!("http://h{}/p{}", r.below(2), r.below(2))).unwrap();
    for _ in 0..r.below(4) {
        let v = gen_id(r);
        let v = key_text(&v).unwrap();
        u.query_pairs_mut().append_pair(*r.pick(&["id", "foo", "userId", "ID", "i d", "ids", "id[]", "id", "i", "user_id"]), if r.chance(1, 8) { "" } else { &v });
    }
    let mut q = reqwest::Request::new(method.parse().unwrap(), u);
    if r.bool() {
        q.headers_mut().insert("x-a", r.pick(&["1", "2"]).parse().unwrap());
    }
    if r.chance(2, 3) {
        let b = match r.below(6) { 0 => json!(r.below(3)), 1 => json!(*r.pick(&["", "a", "],[", ","])), 2 => json!([]), _ => json!({"id": gen_id(r), "t": r.below(9)}) };
        *q.body_mut() = Some(b.to_string().into());
    }
    q
}

fn show_req(q: &reqwest::Request) -> Value {
    json!({"method": q.method().as_str(), "url": q.url().as_str(), "headers": format!("{:?}", q.headers()), "body": q.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned())})
}

fn query_batching(c: &C) {
    let mut r = c.rng("qb");
    for _ in 0..c.n(400, 8000) {
        let base = gen_req(&mut r, "GET");
        let others: Vec<DataLoaderRequest> = (0..if r.chance(1, 20) { r.range(20, 120) } else { r.below(5) }).map(|_| DataLoaderRequest::new(gen_req(&mut r, "GET"), BTreeSet::new())).collect();
        let refs: Vec<&DataLoaderRequest> = others.iter().collect();
        let key = r.chance(3, 4).then(|| r.pick(&["id", "userId", "i d", "none"]).to_string());
        let before = show_req(&base);
        let mut want = pairs(base.url());
        for o in &others {
            want.extend(pairs(o.url()).into_iter().filter(|p| key.as_ref().map(|k| *k == p.0).unwrap_or(true)));
        }
        let got = QueryBatching::new(&refs, key.as_deref()).transform(base).to_result().unwrap();
        let det = || json!({"base": before, "others": others.iter().map(|o| o.url().to_string()).collect::<Vec<_>>(), "key": key, "got": show_req(&got)});
        // both orders of the merged parameters are the same request to the upstream; values per key keep their order
        let by = |v: &Vec<(String, String)>| { let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new(); for (k, x) in v { m.entry(k.clone()).or_default().push(x.clone()); } m };
        c.check(by(&pairs(got.url())) == by(&want), "query-batching:parameters", det);
        let mut g2 = show_req(&got);
        let mut b2 = before.clone();
        let strip = |s: &Value| { let mut u = url::Url::parse(s.as_str().unwrap()).unwrap(); u.set_query(None); u.to_string() };
        g2["url"] = json!(strip(&g2["url"]));
        b2["url"] = json!(strip(&b2["url"]));
        c.check(g2 == b2, "query-batching:rest-of-the-request-changed", det);
        if want.is_empty() {
            c.check(got.url().query().unwrap_or("").is_empty(), "query-batching:query-from-nothing", det);
        }
        c.case(&format!("{before}{key:?}{want:?}"), !others.is_empty());
        c.sample(det);
    }
}

fn body_batching(c: &C) {
    let mut r = c.rng("bb");
    for _ in 0..c.n(400, 8000) {
        let base = gen_req(&mut r, "POST");
        let all: Vec<DataLoaderRequest> = (0..if r.chance(1, 20) { r.range(20, 120) } else { r.below(6) }).map(|_| DataLoaderRequest::new(gen_req(&mut r, "POST"), BTreeSet::new())).collect();
        let refs: Vec<&DataLoaderRequest> = all.iter().collect();
        let before = show_req(&base);
        let mut want: Vec<String> = all.iter().filter_map(|o| o.body().and_then(|b| b.as_bytes()).map(|b| serde_json::from_slice::<Value>(b).unwrap().to_string())).collect();
        let got = BodyBatching::new(&refs).transform(base).to_result().unwrap();
        let g = show_req(&got);
        let det = || json!({"base": before, "bodies": want, "got": g});
        if want.is_empty() {
            c.check(g == before, "body-batching:changed-without-bodies", det);
        } else {
            let v: Value = serde_json::from_str(g["body"].as_str().unwrap_or("")).unwrap_or(Value::Null);
            match v.as_array() {
                None => { c.check(false, "body-batching:not-a-list", det); }
                Some(xs) => {
                    let mut xs: Vec<String> = xs.iter().map(|x| x.to_string()).collect();
                    xs.sort();
                    let mut w = want.clone();
                    w.sort();
                    c.check(xs == w, "body-batching:bodies", det);
                }
            }
            let (mut g2, mut b2) = (g.clone(), before.clone());
            g2["body"] = Value::Null;
            b2["body"] = Value::Null;
            c.check(g2 == b2, "body-batching:rest-of-the-request-changed", det);
        }
        want.sort();
        c.case(&format!("{before}{want:?}"), want.len() > 1);
    }
}

/// A document in which the items sit where `path` says.
fn place(items: &[Value], path: &[String], r: &mut Rng) -> Value {
    // items are objects that already hold the last key of the path
    let head = &path[..path.len() - 1];
    let mut inner: Vec<Value> = items.to_vec();
    if head.is_empty() {
        return Value::Array(inner);
    }
    for p in head.iter().rev() {
        // wrap each in an object, or several into one holding a list; order is kept
        let mut out = vec![];
        let mut i = 0;
        while i < inner.len() {
            let n = r.range(1, 3).min(inner.len() - i);
            let chunk = inner[i..i + n].to_vec();
            let v = if n == 1 && r.bool() { chunk[0].clone() } else { Value::Array(chunk) };
            out.push(json!({p.clone(): v, "wrap": i}));
            i += n;
        }
        inner = out;
    }
    Value::Array(inner)
}

fn loader(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("loader");
    for _ in 0..c.n(250, 4000) {
        let post = r.chance(1, 3);
        let is_list = r.bool();
        let path: Vec<String> = match r.below(4) { 0 => vec![], 1 => vec!["userId".into()], 2 => vec!["data".into(), "userId".into()], _ => vec!["a".into(), "b".into(), "id".into()] };
        let key = r.bool().then(|| r.pick(&["id", "user", "q"]).to_string());
        let g = GroupBy::new(path.clone(), key.clone());
        let (gpath, gkey) = (g.path(), g.key().to_string());
        let last = gpath.last().unwrap().clone();
        // the keys asked for, and what the upstream has
        let mut ids: Vec<Value> = vec![];
        for _ in 0..r.range(1, 7) {
            let v = gen_id(&mut r);
            if !ids.iter().any(|i| key_text(i) == key_text(&v)) { ids.push(v); }
        }
        let mut items = vec![];
        for n in 0..r.below(12) {
            let id = if r.chance(2, 3) { r.pick(&ids).clone() } else { gen_id(&mut r) };
            let mut m = serde_json::Map::new();
            m.insert("n".into(), json!(n));
            if !r.chance(1, 15) { m.insert(last.clone(), id); }
            items.push(Value::Object(m));
        }
        let doc = place(&items, &gpath, &mut r);
        let d2 = doc.clone();
        let up = Upstream::new(move |_| URes::json(d2.clone()));
        let loader = HttpDataLoader::new(mock::runtime(up.clone()), Some(g), is_list);
        // two variants that must not be mixed: another parameter, another designated header
        let variants = if r.chance(1, 4) { 2 } else { 1 };
        let vkind = r.below(3);
        let mut keys = vec![];
        let mut asked = vec![];
        let pre = r.bool();
        for id in &ids {
            for v in 0..variants {
                if v == 1 && r.chance(1, 3) { continue; }
                let t = key_text(id).unwrap();
                let path_s = if v == 1 && vkind == 1 { "/other" } else { "/p" };
                let mut u = url::Url::parse(&format!("http://h{path_s}")).unwrap();
                if pre { u.query_pairs_mut().append_pair("foo", "bar"); }
                let mut body = None;
                if post {
                    body = Some(json!({"who": id, "const": "c"}).to_string());
                } else {
                    u.query_pairs_mut().append_pair(&gkey, &t);
                    if v == 1 && vkind == 0 { u.query_pairs_mut().append_pair("lang", "de"); }
                }
                let mut q = reqwest::Request::new(if post { "POST" } else { "GET" }.parse().unwrap(), u);
                if v == 1 && vkind == 2 { q.headers_mut().insert("authorization", "other".parse().unwrap()); } else { q.headers_mut().insert("authorization", "one".parse().unwrap()); }
                if let Some(b) = body { *q.body_mut() = Some(b.into()); }
                let variant = if post && vkind == 0 { 0 } else { v };
                if asked.iter().any(|(a, b, _)| *a == t && *b == variant) { continue; }
                keys.push(DataLoaderRequest::new(q, BTreeSet::from(["authorization".to_string()])).with_batching_value(post.then(|| t.clone())));
                asked.push((t, variant, id.clone()));
            }
        }
        // shuffle keys and asked together
        let mut order: Vec<usize> = (0..keys.len()).collect();
        r.shuffle(&mut order);
        let keys: Vec<DataLoaderRequest> = order.iter().map(|i| keys[*i].clone()).collect();
        let asked: Vec<_> = order.iter().map(|i| asked[*i].clone()).collect();
        let det = || json!({"path": path, "key": key, "post": post, "list": is_list, "asked": asked, "upstream": doc, "requests": up.log.lock().unwrap().iter().map(|u| u.show()).collect::<Vec<_>>()});
        let res = rt.block_on(loader.load(&keys));
        let res = match res {
            Ok(x) => x,
            Err(e) => { c.violation("loader:failed", json!({"error": e.to_string(), "in": det()})); continue; }
        };
        let log = up.log.lock().unwrap().clone();
        let nvar = asked.iter().map(|a| a.1).collect::<BTreeSet<_>>().len();
        c.check(log.len() == nvar, "loader:number-of-requests", || json!({"want": nvar, "in": det()}));
        // each request asks for each of its keys exactly once
        let mut all_asked: Vec<String> = vec![];
        for u in &log {
            let mut ks: Vec<String> = if post {
                u.body_json().as_array().map(|a| a.iter().map(|b| key_text(&b["who"]).unwrap_or_default()).collect()).unwrap_or_default()
            } else { u.qs(&gkey) };
            ks.sort();
            let mut d = ks.clone();
            d.dedup();
            c.check(d == ks, "loader:a-key-is-asked-twice", det);
            let var = |u: &UReq| u.path() == "/other" || u.q("lang").is_some() || u.header("authorization") == Some("other");
            let v = var(u) as usize;
            let mut want: Vec<String> = asked.iter().filter(|a| a.1 == v || nvar == 1).map(|a| a.0.clone()).collect();
            want.sort();
            c.check(ks == want, "loader:keys-asked", || json!({"want": want, "got": ks, "in": det()}));
            if pre && !post { c.check(u.qs("foo") == ["bar"], "loader:other-parameters", det); }
            all_asked.extend(ks);
        }
        let mut flat = vec![];
        ref_group(&doc, &gpath, &mut flat);
        for (k, (t, _, _)) in keys.iter().zip(&asked) {
            let mine: Vec<Value> = flat.iter().filter(|f| f.0 == *t).map(|f| f.1.clone()).collect();
            let want = if is_list { Value::Array(mine) } else { mine.first().cloned().unwrap_or(Value::Null) };
            match res.get(k) {
                Some(Ok(x)) => {
                    let got = x.body.clone().into_json().unwrap();
                    c.check(got == want, "loader:an-entity-got-other-items", || json!({"key": t, "want": want, "got": got, "in": det()}));
                }
                other => { c.check(false, "loader:an-entity-got-no-answer", || json!({"key": t, "got": format!("{:?}", other.map(|r| r.as_ref().map(|_| ()))), "in": det()})); }
            }
            c.count("keys_loaded", 1);
        }
        c.case(&format!("{asked:?}{doc}"), asked.len() > 1);
        c.sample(det);
    }
}

fn gateway(c: &C) {
    let mut r = c.rng("gateway");
    for _ in 0..c.n(60, 800) {
        let rt = rt_paused();
        let post = r.chance(1, 3);
        let is_list = r.bool();
        let string_ids = r.bool();
        let nested = r.chance(1, 3);
        let ty = if string_ids { "String" } else { "Int" };
        let bk = if nested { "[\"owner\", \"id\"]" } else { "[\"ownerId\"]" };
        let qk = if nested { "id" } else { "ownerId" };
        let batching = |on: bool| {
            let b = if on { format!(", batchKey: {bk}") } else { String::new() };
            let src = if post {
                format!("@http(url: \"http://up/things\", method: POST, body: {{{qk}: \"{{{{.value.id}}}}\", c: \"k\"}}{b})")
            } else {
                format!("@http(url: \"http://up/things\", query: [{{key: \"{qk}\", value: \"{{{{.value.id}}}}\"}}, {{key: \"c\", value: \"k\"}}]{b})")
            };
            let list = if is_list { "[Thing]" } else { "Thing" };
            let thing = if nested { "type Thing { id: Int n: Int }".to_string() } else { format!("type Thing {{ n: Int ownerId: {ty} }}") };
            format!("schema @server(port: 8000) @upstream(batch: {{delay: 5, maxSize: 100}}) {{ query: Query }}\ntype Query {{ owners: [Owner] @http(url: \"http://up/owners\") }}\ntype Owner {{ id: {ty}! x: Int things: {list} {src} }}\n{thing}")
        };
        let pool: Vec<Value> = if string_ids {
            ["a", "b", "A", "1", "01", "long-key", "z.z"].iter().map(|s| json!(s)).collect()
        } else {
            vec![json!(1), json!(2), json!(10), json!(-3), json!(2147483647), json!(0)]
        };
        let owners: Vec<Value> = (0..r.range(1, 8)).map(|x| json!({"id": r.pick(&pool), "x": x})).collect();
        let things: Vec<(Value, i32)> = (0..r.below(12)).map(|n| (r.pick(&pool).clone(), n as i32)).collect();
        let dup_unrelated = r.bool();
        let (o2, t2) = (owners.clone(), things.clone());
        let mk_up = || {
            let (o2, t2) = (o2.clone(), t2.clone());
            Upstream::new(move |u: &UReq| {
                if u.path() == "/owners" { return URes::json(json!(o2)); }
                let want: Option<Vec<String>> = if u.method == "POST" {
                    let b = u.body_json();
                    let f = |b: &Value| key_text(&b[qk]).unwrap_or_default();
                    Some(match &b { Value::Array(xs) => xs.iter().map(f).collect(), b => vec![f(b)] })
                } else { Some(u.qs(qk)) };
                let want = want.unwrap();
                let single = u.method == "POST" && !u.body_json().is_array() || u.method != "POST" && want.len() == 1;
                let thing = |t: &(Value, i32)| if nested { json!({"id": t.0, "n": t.1}) } else { json!({"ownerId": t.0, "n": t.1}) };
                let _ = single;
                let items: Vec<Value> = t2.iter().filter(|t| dup_unrelated || want.contains(&key_text(&t.0).unwrap())).map(thing).collect();
                if nested { URes::json(json!(items.into_iter().map(|i| json!({"owner": i})).collect::<Vec<_>>())) } else { URes::json(json!(items)) }
            })
        };
        let up = mk_up();
        let sdl = batching(true);
        let app = match mock::app(&sdl, mock::runtime(up.clone())) { Ok(a) => a, Err(e) => { c.violation("gateway:config", json!({"e": e, "sdl": sdl})); return; } };
        let sel = if nested { "n" } else { "n ownerId" };
        let res = rt.block_on(mock::query(&app, &format!("{{ owners {{ x id things {{ {sel} }} }} }}")));
        let want: Vec<Value> = owners
            .iter()
            .map(|o| {
                let mine: Vec<Value> = things.iter().filter(|t| t.0 == o["id"]).map(|t| if nested { json!({"n": t.1}) } else { json!({"n": t.1, "ownerId": t.0}) }).collect();
                json!({"x": o["x"], "id": o["id"], "things": if is_list { Value::Array(mine) } else { mine.first().cloned().unwrap_or(Value::Null) }})
            })
            .collect();
        let log = up.take();
        let calls: Vec<&UReq> = log.iter().filter(|u| u.path() == "/things").collect();
        let det = || json!({"sdl": sdl, "owners": owners, "things": things, "got": res.text(), "want": want, "requests": calls.iter().map(|u| u.show()).collect::<Vec<_>>()});
        c.check(res.data()["owners"] == json!(want) && res.errors().is_empty(), "gateway:entities-differ-from-their-own-requests", det);
        c.check(calls.len() == 1, "gateway:more-than-one-grouped-request", det);
        for u in &calls {
            let mut ks: Vec<String> = if post { u.body_json().as_array().map(|a| a.iter().map(|b| key_text(&b[qk]).unwrap_or_default()).collect()).unwrap_or_default() } else { u.qs(qk) };
            ks.sort();
            let mut w: Vec<String> = owners.iter().map(|o| key_text(&o["id"]).unwrap()).collect();
            w.sort();
            w.dedup();
            c.check(ks == w, "gateway:each-distinct-key-once", || json!({"asked": ks, "want": w, "in": det()}));
        }
        // the same configuration without grouping: as many requests as distinct keys, the same answers (lists)
        if is_list && !nested && !dup_unrelated {
            let up2 = mk_up();
            let app2 = mock::app(&batching(false), mock::runtime(up2.clone())).unwrap();
            let r2 = rt.block_on(mock::query(&app2, "{ owners { x id things { n ownerId } } }"));
            c.check(r2.data() == res.data(), "gateway:grouping-changes-the-answer", || json!({"without": r2.text(), "in": det()}));
            c.count("compared_without_grouping", 1);
        }
        c.count("gateway_entities", owners.len() as u64);
        c.case(&format!("{sdl}{owners:?}{things:?}"), owners.len() > 1);
        c.sample(det);
    }
    // concurrent clients: arguments and designated headers keep requests apart
    let sdl = "schema @server(port: 8000) @upstream(batch: {delay: 5, headers: [\"x-tenant\"]}, allowedHeaders: [\"x-tenant\"]) { query: Query }\ntype Query { owner(id: Int!, lang: String!): Owner @http(url: \"http://up/owners\", query: [{key: \"id\", value: \"{{.args.id}}\"}, {key: \"lang\", value: \"{{.args.lang}}\"}], batchKey: [\"id\"]) }\ntype Owner { id: Int lang: String tenant: String }";
    for _ in 0..c.n(25, 300) {
        let rt = rt_paused();
        let up = Upstream::new(|u: &UReq| {
            let lang = u.q("lang").unwrap_or_default();
            let t = u.header("x-tenant").unwrap_or("-").to_string();
            URes::json(Value::Array(u.qs("id").iter().map(|i| json!({"id": i.parse::<i64>().unwrap_or(-1), "lang": lang, "tenant": t})).collect()))
        });
        let app = mock::app(sdl, mock::runtime(up.clone())).unwrap();
        let reqs: Vec<(i64, &str, &str)> = (0..r.range(2, 9)).map(|_| (r.below(3) as i64, *r.pick(&["en", "de"]), *r.pick(&["t1", "t2"]))).collect();
        let outs = rt.block_on(async {
            let futs = reqs.iter().map(|(i, l, t)| {
                let app = app.clone();
                async move { mock::gql(&app, json!({"query": format!("{{ owner(id: {i}, lang: \"{l}\") {{ id lang tenant }} }}")}), &[("x-tenant", t)]).await }
            });
            futures_util::future::join_all(futs).await
        });
        let log = up.take();
        let show = || json!({"requests": reqs, "upstream": log.iter().map(|u| u.show()).collect::<Vec<_>>(), "got": outs.iter().map(|o| o.text()).collect::<Vec<_>>()});
        for ((i, l, t), o) in reqs.iter().zip(&outs) {
            c.check(o.data()["owner"] == json!({"id": i, "lang": l, "tenant": t}), "gateway:requests-with-other-arguments-or-headers-merged", show);
        }
        let groups: BTreeSet<_> = reqs.iter().map(|x| (x.1, x.2)).collect();
        c.check(log.len() == groups.len(), "gateway:one-request-per-group", show);
        c.count("concurrent_clients", reqs.len() as u64);
        c.case(&format!("{reqs:?}"), groups.len() > 1);
    }
    let _ = Arc::new(());
}
