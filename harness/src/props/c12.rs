//! C12: merging is associative, right-biased, has an identity and loses nothing.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;

use async_graphql_value::ConstValue;
use indexmap::IndexMap;
use prost_reflect::prost_types::FileDescriptorProto;
use serde_json::{json, Map, Value};
use tailcall::core::config::{self, Config, ConfigModule, Content, Extensions, KeyValue};
use tailcall::core::merge_right::MergeRight;
use tailcall_valid::Validator;

use crate::common::*;

pub fn run(c: &C) {
    c.rule("one case = one triple of values merged pairwise, left-grouped and right-grouped; non-trivial = the sides overlap (a key or setting present on both); distinct by the triple");
    c.assume("JSON/YAML values merge lawfully between documents of one shape (same kind of value under one key); settings whose own default is a list or a number inside a block that is present (batch, routes, vary) count as written there; vars are a map");
    c.section("primitives", primitives);
    c.section("collections", collections);
    c.section("values", values);
    c.section("settings", settings);
    c.section("configs", configs);
    c.section("modules", modules);
    c.floor("triples", 500);
    c.floor("overlapping", 300);
}

/// reference merge for one kind of value
fn laws<T: MergeRight + Clone + PartialEq + Debug>(c: &C, what: &str, a: &T, b: &T, d: &T, empty: Option<&T>, want: Option<&T>) {
    let info = || json!({"what": what, "a": format!("{a:?}"), "b": format!("{b:?}"), "c": format!("{d:?}")});
    c.count("triples", 1);
    let ab = a.clone().merge_right(b.clone());
    if let Some(w) = want { c.eq(&ab, w, &format!("{what}:merge"), info); }
    let l = ab.merge_right(d.clone());
    let r = a.clone().merge_right(b.clone().merge_right(d.clone()));
    c.eq(&l, &r, &format!("{what}:associativity"), info);
    if let Some(e) = empty {
        c.eq(&a.clone().merge_right(e.clone()), a, &format!("{what}:right-identity"), info);
        c.eq(&e.clone().merge_right(a.clone()), a, &format!("{what}:left-identity"), info);
    }
}

fn primitives(c: &C) {
    let mut r = c.rng("prim");
    macro_rules! prim { ($t:ty, $g:expr) => {{
        for _ in 0..c.n(40, 400) {
            let (a, b, d): ($t, $t, $t) = ($g(&mut r), $g(&mut r), $g(&mut r));
            let nm = stringify!($t);
            c.case(&format!("{nm}{a:?}{b:?}{d:?}"), a != b);
            if a != b { c.count("overlapping", 1); }
            laws(c, nm, &a, &b, &d, None, Some(&b));
            let (oa, ob, od) = (Some(a.clone()), Some(b.clone()), Some(d.clone()));
            laws(c, &format!("option<{nm}>"), &oa, &ob, &od, Some(&None), Some(&ob));
            laws(c, &format!("option<{nm}>"), &oa, &None, &od, Some(&None), Some(&oa));
            laws(c, &format!("option<{nm}>"), &None, &ob, &None, Some(&None), Some(&ob));
            c.eq(&tailcall::core::variance::Invariant::unify(a.clone(), b.clone()).to_result().ok(), &Some(b.clone()), "unify", || json!({"type": nm}));
        }
    }}}
    prim!(bool, |r: &mut Rng| r.bool());
    prim!(char, |r: &mut Rng| *r.pick(&['a', 'b', 'é', '\0']));
    prim!(f32, |r: &mut Rng| r.below(9) as f32 - 4.5);
    prim!(f64, |r: &mut Rng| r.below(9) as f64 - 4.5);
    prim!(i16, |r: &mut Rng| r.next() as i16);
    prim!(i32, |r: &mut Rng| r.next() as i32);
    prim!(i64, |r: &mut Rng| r.next() as i64);
    prim!(i8, |r: &mut Rng| r.next() as i8);
    prim!(u16, |r: &mut Rng| r.below(3) as u16);
    prim!(u32, |r: &mut Rng| r.next() as u32);
    prim!(u64, |r: &mut Rng| if r.chance(1, 3) { 0 } else { r.next() });
    prim!(u8, |r: &mut Rng| r.next() as u8);
    prim!(usize, |r: &mut Rng| r.below(3));
    prim!(String, |r: &mut Rng| r.string(&["", "a", "b", " ", "é"], 3));
    prim!(std::num::NonZeroU64, |r: &mut Rng| std::num::NonZeroU64::new(r.range(1, 5) as u64).unwrap());
}

fn ints(r: &mut Rng) -> Vec<u32> { (0..r.below(4)).map(|_| r.below(6) as u32).collect() }
/// values whose merge is neither commutative nor idempotent
fn pairs(r: &mut Rng) -> Vec<(String, Vec<u32>)> {
    let n = r.below(6);
    let mut seen = BTreeSet::new();
    (0..n).filter_map(|_| { let k = r.pick(&["k0", "k1", "k2", "k3", "k4", "", "K0"]).to_string(); seen.insert(k.clone()).then(|| (k, ints(r))) }).collect()
}

fn collections(c: &C) {
    let mut r = c.rng("coll");
    for _ in 0..c.n(1500, 30000) {
        let (a, b, d) = (ints(&mut r), ints(&mut r), ints(&mut r));
        let overlap = a.iter().any(|x| b.contains(x));
        c.case(&(&a, &b, &d), overlap);
        if overlap { c.count("overlapping", 1); }
        let cat: Vec<u32> = a.iter().chain(&b).copied().collect();
        laws(c, "vec", &a, &b, &d, Some(&vec![]), Some(&cat));
        let bs = |v: &Vec<u32>| v.iter().copied().collect::<BTreeSet<_>>();
        laws(c, "btreeset", &bs(&a), &bs(&b), &bs(&d), Some(&BTreeSet::new()), Some(&bs(&cat)));
        let hs = |v: &Vec<u32>| v.iter().copied().collect::<HashSet<_>>();
        laws(c, "hashset", &hs(&a), &hs(&b), &hs(&d), Some(&HashSet::new()), Some(&hs(&cat)));
        laws(c, "option<vec>", &Some(a.clone()), &Some(b.clone()), &Some(d.clone()), Some(&None), Some(&Some(cat)));

        let (a, b, d) = (pairs(&mut r), pairs(&mut r), pairs(&mut r));
        let overlap = a.iter().any(|x| b.iter().any(|y| x.0 == y.0));
        c.case(&(&a, &b, &d), overlap);
        if overlap { c.count("overlapping", 1); }
        // left keys in place, right-only keys appended in the right's order
        let mut want: Vec<(String, Vec<u32>)> = a.clone();
        for (k, v) in &b {
            match want.iter_mut().find(|(x, _)| x == k) { Some((_, w)) => w.extend(v), None => want.push((k.clone(), v.clone())) }
        }
        let bm = |v: &Vec<(String, Vec<u32>)>| v.iter().cloned().collect::<BTreeMap<_, _>>();
        laws(c, "btreemap", &bm(&a), &bm(&b), &bm(&d), Some(&BTreeMap::new()), Some(&bm(&want)));
        let hm = |v: &Vec<(String, Vec<u32>)>| v.iter().cloned().collect::<HashMap<_, _>>();
        laws(c, "hashmap", &hm(&a), &hm(&b), &hm(&d), Some(&HashMap::new()), Some(&hm(&want)));
        let im = |v: &Vec<(String, Vec<u32>)>| v.iter().cloned().collect::<IndexMap<_, _>>();
        laws(c, "indexmap", &im(&a), &im(&b), &im(&d), Some(&IndexMap::new()), Some(&im(&want)));
        let got: Vec<(String, Vec<u32>)> = im(&a).merge_right(im(&b)).into_iter().collect();
        c.eq(&got, &want, "indexmap:order", || json!({"a": a, "b": b}));
        let got: Vec<String> = im(&a).merge_right(im(&b)).merge_right(im(&d)).keys().cloned().collect();
        let got2: Vec<String> = im(&a).merge_right(im(&b).merge_right(im(&d))).keys().cloned().collect();
        c.eq(&got, &got2, "indexmap:order-associativity", || json!({"a": a, "b": b, "c": d}));
        // nested
        let nest = |v: &Vec<(String, Vec<u32>)>| IndexMap::from([("x".to_string(), im(v)), ("y".to_string(), IndexMap::new())]);
        laws(c, "nested", &nest(&a), &nest(&b), &nest(&d), Some(&IndexMap::new()), None);
        // key-value lists: a map, the right's value wins, keys in order, each once
        let kv = |v: &Vec<(String, Vec<u32>)>| v.iter().map(|(k, v)| KeyValue { key: k.clone(), value: format!("{v:?}") }).collect::<Vec<_>>();
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for k in kv(&a).into_iter().chain(kv(&b)) { want.insert(k.key, k.value); }
        let got = config::merge_key_value_vecs(&kv(&a), &kv(&b));
        let want: Vec<KeyValue> = want.into_iter().map(|(key, value)| KeyValue { key, value }).collect();
        c.eq(&got, &want, "key-values", || json!({"a": a, "b": b}));
    }
}

#[derive(Clone)]
enum Shape { Scalar, List, Obj(Vec<(String, Shape)>) }
fn shape(r: &mut Rng, d: usize) -> Shape {
    match r.below(if d == 0 { 2 } else { 4 }) {
        0 => Shape::Scalar,
        1 => Shape::List,
        _ => Shape::Obj((0..r.range(1, 4)).map(|i| (format!("f{i}"), shape(r, d - 1))).collect()),
    }
}
fn inst(r: &mut Rng, s: &Shape) -> Value {
    match s {
        Shape::Scalar => gen_scalar(r),
        Shape::List => Value::Array((0..r.below(3)).map(|_| gen_json(r, 1)).collect()),
        Shape::Obj(fs) => { let mut m = Map::new(); for (k, s) in fs { if r.chance(2, 3) { m.insert(k.clone(), inst(r, s)); } } Value::Object(m) }
    }
}
fn deep(a: &Value, b: &Value) -> Value {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            let mut m = x.clone();
            for (k, v) in y { let w = match m.get(k) { Some(o) => deep(o, v), None => v.clone() }; m.insert(k.clone(), w); }
            Value::Object(m)
        }
        (Value::Array(x), Value::Array(y)) => Value::Array(x.iter().chain(y).cloned().collect()),
        _ => b.clone(),
    }
}

fn values(c: &C) {
    let mut r = c.rng("vals");
    for _ in 0..c.n(1500, 30000) {
        let s = shape(&mut r, 3);
        let (a, b, d) = (inst(&mut r, &s), inst(&mut r, &s), inst(&mut r, &s));
        c.case(&(a.to_string(), b.to_string(), d.to_string()), a.is_object() && b.is_object());
        if a.is_object() { c.count("overlapping", 1); }
        let want = deep(&a, &b);
        let cv = |v: &Value| ConstValue::from_json(v.clone()).unwrap();
        laws(c, "const", &cv(&a), &cv(&b), &cv(&d), None, Some(&cv(&want)));
        let y = |v: &Value| serde_yaml_ng::to_value(v).unwrap();
        laws(c, "yaml", &y(&a), &y(&b), &y(&d), None, Some(&y(&want)));
        if a.is_object() {
            let (e, ey) = (ConstValue::Object(Default::default()), y(&json!({})));
            laws(c, "const", &cv(&a), &cv(&b), &cv(&d), Some(&e), None);
            laws(c, "yaml", &y(&a), &y(&b), &y(&d), Some(&ey), None);
        }
    }
}

// ------------------------------------------------------------------ settings

fn put(r: &mut Rng, m: &mut Map<String, Value>, k: &str, f: impl FnOnce(&mut Rng) -> Value) { if r.chance(1, 2) { let v = f(r); m.insert(k.into(), v); } }
fn num(r: &mut Rng) -> Value { json!(r.below(4)) }
fn bit(r: &mut Rng) -> Value { json!(r.bool()) }
fn txt(r: &mut Rng) -> Value { json!(r.string(&["a", "b", "/", "é"], 3)) }
fn names(r: &mut Rng) -> Value { let v: Vec<&str> = (0..r.below(4)).map(|_| *r.pick(&["x-a", "x-b", "x-c", "X-A"])).collect(); json!(v) }
fn nameset(r: &mut Rng) -> Value { let v: BTreeSet<&str> = (0..r.below(4)).map(|_| *r.pick(&["x-a", "x-b", "x-c", "X-A"])).collect(); json!(v) }
fn kvs(r: &mut Rng) -> Value { let v: Vec<Value> = (0..r.below(4)).map(|_| json!({"key": *r.pick(&["k1", "k2", "k3"]), "value": txt(r)})).collect(); json!(v) }

fn cors(r: &mut Rng) -> Value {
    let mut m = Map::new();
    put(r, &mut m, "allowCredentials", bit);
    put(r, &mut m, "allowHeaders", names);
    put(r, &mut m, "allowMethods", |r| json!(r.subset(&["GET", "POST", "PUT"], 1, 2)));
    put(r, &mut m, "allowOrigins", names);
    put(r, &mut m, "allowPrivateNetwork", bit);
    put(r, &mut m, "exposeHeaders", names);
    put(r, &mut m, "maxAge", num);
    m.insert("vary".into(), names(r));
    Value::Object(m)
}
fn headers(r: &mut Rng) -> Value {
    let mut m = Map::new();
    put(r, &mut m, "cacheControl", bit);
    put(r, &mut m, "custom", kvs);
    put(r, &mut m, "experimental", nameset);
    put(r, &mut m, "setCookies", bit);
    put(r, &mut m, "cors", cors);
    Value::Object(m)
}
fn server(r: &mut Rng) -> Value {
    let mut m = Map::new();
    for k in ["apolloTracing", "batchRequests", "introspection", "enableFederation", "pipelineFlush", "queryValidation", "responseValidation", "showcase"] { put(r, &mut m, k, bit); }
    for k in ["globalResponseTimeout", "port", "workers"] { put(r, &mut m, k, num); }
    put(r, &mut m, "hostname", txt);
    put(r, &mut m, "headers", headers);
    put(r, &mut m, "script", |r| if r.bool() { json!({"timeout": r.below(3)}) } else { json!({"timeout": null}) });
    put(r, &mut m, "vars", kvs);
    put(r, &mut m, "version", |r| json!(*r.pick(&["HTTP1", "HTTP2"])));
    put(r, &mut m, "routes", |r| json!({"status": txt(r), "graphQL": txt(r)}));
    Value::Object(m)
}
fn upstream(r: &mut Rng) -> Value {
    let mut m = Map::new();
    for k in ["connectTimeout", "httpCache", "keepAliveInterval", "keepAliveTimeout", "poolMaxIdlePerHost", "poolIdleTimeout", "tcpKeepAlive", "timeout"] { put(r, &mut m, k, num); }
    for k in ["http2Only", "keepAliveWhileIdle", "verifySSL"] { put(r, &mut m, k, bit); }
    for k in ["onRequest", "userAgent"] { put(r, &mut m, k, txt); }
    put(r, &mut m, "allowedHeaders", nameset);
    put(r, &mut m, "batch", |r| json!({"maxSize": r.range(1, 5), "delay": r.range(1, 5), "headers": nameset(r)}));
    put(r, &mut m, "proxy", |r| json!({"url": txt(r)}));
    Value::Object(m)
}
fn telemetry(r: &mut Rng) -> Value {
    let mut m = Map::new();
    put(r, &mut m, "export", |r| match r.below(3) { 0 => json!({"stdout": {"pretty": r.bool()}}), 1 => json!({"otlp": {"url": txt(r), "headers": kvs(r)}}), _ => json!({"prometheus": {"path": *r.pick(&["/m", "/n"])}}) });
    put(r, &mut m, "requestHeaders", names);
    Value::Object(m)
}

/// what a merge of two settings blocks has to say, on the documents
fn merged(path: &str, a: &Value, b: &Value) -> Value {
    let key = path.rsplit('.').next().unwrap();
    match (a, b) {
        _ if key == "export" => b.clone(),
        (Value::Object(x), Value::Object(y)) => {
            let mut m = x.clone();
            for (k, v) in y {
                let p = format!("{path}.{k}");
                let w = match m.get(k) { Some(o) => merged(&p, o, v), None => v.clone() };
                m.insert(k.clone(), w);
            }
            Value::Object(m)
        }
        (Value::Array(x), Value::Array(y)) => {
            let cat: Vec<Value> = x.iter().chain(y).cloned().collect();
            let set = matches!(key, "allowedHeaders" | "experimental") || path.ends_with("batch.headers");
            if set { let s: BTreeSet<String> = cat.iter().map(|v| v.as_str().unwrap().to_string()).collect(); return json!(s); }
            Value::Array(cat)
        }
        (o, Value::Null) => o.clone(),
        _ => b.clone(),
    }
}
/// vars are a map; nothing is said by an absent or empty setting
fn norm(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut out = Map::new();
            for (k, v) in m {
                let w = if k == "vars" {
                    let mut t = BTreeMap::new();
                    for e in v.as_array().unwrap() { t.insert(e["key"].as_str().unwrap().to_string(), e["value"].clone()); }
                    json!(t)
                } else { norm(v) };
                // defaults are not written
                if (k == "verifySSL" && w == json!(true)) || (k == "pretty" && w == json!(false)) { continue }
                if w.is_null() || (w.is_array() && w.as_array().unwrap().is_empty()) || (k == "vars" && w == json!({})) { continue }
                out.insert(k.clone(), w);
            }
            Value::Object(out)
        }
        v => v.clone(),
    }
}

fn block<T>(c: &C, what: &str, docs: &[Value; 3], merge: impl Fn(T, T) -> T)
where T: serde::Serialize + serde::de::DeserializeOwned + Clone + PartialEq + Debug + Default {
    let info = || json!({"block": what, "a": docs[0], "b": docs[1], "c": docs[2]});
    let t: Vec<T> = docs.iter().filter_map(|d| match serde_json::from_value(d.clone()) { Ok(t) => Some(t), Err(e) => { c.inconclusive(format!("{what}: {e}: {d}")); None } }).collect();
    let [a, b, d] = &t[..] else { return };
    let js = |t: &T| norm(&serde_json::to_value(t).unwrap());
    c.count("triples", 1);
    let overlap = docs[0].as_object().unwrap().keys().any(|k| docs[1].get(k).is_some());
    if overlap { c.count("overlapping", 1); }
    c.case(&(what, docs[0].to_string(), docs[1].to_string(), docs[2].to_string()), overlap);
    for (x, dx) in t.iter().zip(docs) {
        c.eq(&js(x), &norm(dx), &format!("{what}:read"), info);
        c.eq(&js(&merge(x.clone(), T::default())), &js(x), &format!("{what}:right-identity"), info);
        c.eq(&js(&merge(T::default(), x.clone())), &js(x), &format!("{what}:left-identity"), info);
    }
    let ab = merge(a.clone(), b.clone());
    let want = norm(&merged(what, &docs[0], &docs[1]));
    if js(&ab) != want {
        let got = js(&ab);
        let keys: BTreeSet<String> = got.as_object().unwrap().keys().chain(want.as_object().unwrap().keys()).filter(|k| got.get(k) != want.get(k)).cloned().collect();
        c.check(false, &format!("{what}:merge:{}", keys.iter().cloned().collect::<Vec<_>>().join(",")), || json!({"a": docs[0], "b": docs[1], "got": got, "want": want}));
    }
    let l = merge(ab, d.clone());
    let r = merge(a.clone(), merge(b.clone(), d.clone()));
    c.eq(&js(&l), &js(&r), &format!("{what}:associativity"), info);
    c.eq(&js(&l), &norm(&merged(what, &merged(what, &docs[0], &docs[1]), &docs[2])), &format!("{what}:merge3"), info);
}

fn settings(c: &C) {
    let mut r = c.rng("sett");
    for _ in 0..c.n(600, 10000) {
        let d = [server(&mut r), server(&mut r), server(&mut r)];
        block::<config::Server>(c, "server", &d, |a, b| a.merge_right(b));
        let d = [upstream(&mut r), upstream(&mut r), upstream(&mut r)];
        block::<config::Upstream>(c, "upstream", &d, |a, b| a.merge_right(b));
        let d = [telemetry(&mut r), telemetry(&mut r), telemetry(&mut r)];
        block::<config::Telemetry>(c, "telemetry", &d, |a, b| a.merge_right(b));
    }
    // what the server reads after a merge: the right's explicit value, else the left's, else the default
    for _ in 0..c.n(600, 6000) {
        let (mut a, mut b) = (upstream(&mut r), upstream(&mut r));
        for d in [&mut a, &mut b] { if let Some(x) = d.get_mut("batch") { x.as_object_mut().unwrap().remove("headers"); } }
        let (sa, sb) = (server(&mut r), server(&mut r));
        let u = serde_json::from_value::<config::Upstream>(a.clone()).unwrap().merge_right(serde_json::from_value(b.clone()).unwrap());
        let s = serde_json::from_value::<config::Server>(sa.clone()).unwrap().merge_right(serde_json::from_value(sb.clone()).unwrap());
        c.count("effective-settings", 1);
        let pick = |k: &str, d: Value| { let v = if k.starts_with("s.") { let k = &k[2..]; sb.get(k).or(sa.get(k)) } else { b.get(k).or(a.get(k)) }; v.cloned().unwrap_or(d) };
        let got = json!({
            "verifySSL": u.get_verify_ssl(), "connectTimeout": u.get_connect_timeout(), "httpCache": u.get_http_cache_size(), "http2Only": u.get_http_2_only(),
            "keepAliveInterval": u.get_keep_alive_interval(), "keepAliveTimeout": u.get_keep_alive_timeout(), "keepAliveWhileIdle": u.get_keep_alive_while_idle(),
            "poolMaxIdlePerHost": u.get_pool_max_idle_per_host(), "poolIdleTimeout": u.get_pool_idle_timeout(), "tcpKeepAlive": u.get_tcp_keep_alive(), "timeout": u.get_timeout(),
            "userAgent": u.get_user_agent(), "onRequest": u.get_on_request(), "delay": u.get_delay(), "maxSize": u.get_max_size(),
            "s.apolloTracing": s.enable_apollo_tracing(), "s.batchRequests": s.enable_batch_requests(), "s.introspection": s.enable_introspection(), "s.enableFederation": s.get_enable_federation(),
            "s.pipelineFlush": s.get_pipeline_flush(), "s.queryValidation": s.enable_query_validation(), "s.responseValidation": s.enable_http_validation(), "s.showcase": s.enable_showcase(),
            "s.globalResponseTimeout": s.get_global_response_timeout(), "s.port": s.get_port(), "s.hostname": s.get_hostname(), "s.version": s.clone().get_version(),
        });
        let bat = |k: &str, d: u64| b.get("batch").or(a.get("batch")).and_then(|x| x.get(k)).cloned().unwrap_or(json!(d));
        let want = json!({
            "verifySSL": pick("verifySSL", json!(true)), "connectTimeout": pick("connectTimeout", json!(60)), "httpCache": pick("httpCache", json!(0)), "http2Only": pick("http2Only", json!(false)),
            "keepAliveInterval": pick("keepAliveInterval", json!(60)), "keepAliveTimeout": pick("keepAliveTimeout", json!(60)), "keepAliveWhileIdle": pick("keepAliveWhileIdle", json!(false)),
            "poolMaxIdlePerHost": pick("poolMaxIdlePerHost", json!(60)), "poolIdleTimeout": pick("poolIdleTimeout", json!(60)), "tcpKeepAlive": pick("tcpKeepAlive", json!(5)), "timeout": pick("timeout", json!(60)),
            "userAgent": pick("userAgent", json!("Tailcall/1.0")), "onRequest": pick("onRequest", Value::Null), "delay": bat("delay", 0), "maxSize": bat("maxSize", 100),
            "s.apolloTracing": pick("s.apolloTracing", json!(false)), "s.batchRequests": pick("s.batchRequests", json!(false)), "s.introspection": pick("s.introspection", json!(true)), "s.enableFederation": pick("s.enableFederation", json!(false)),
            "s.pipelineFlush": pick("s.pipelineFlush", json!(true)), "s.queryValidation": pick("s.queryValidation", json!(false)), "s.responseValidation": pick("s.responseValidation", json!(false)), "s.showcase": pick("s.showcase", json!(false)),
            "s.globalResponseTimeout": pick("s.globalResponseTimeout", json!(0)), "s.port": pick("s.port", json!(8000)), "s.hostname": pick("s.hostname", json!("127.0.0.1")), "s.version": pick("s.version", json!("HTTP1")),
        });
        if got != want {
            let keys: Vec<&String> = got.as_object().unwrap().keys().filter(|k| got.get(*k) != want.get(*k)).collect();
            c.check(false, &format!("effective:{keys:?}"), || json!({"upstream": [a, b], "server": [sa, sb], "got": got, "want": want}));
        }
    }
}

// ------------------------------------------------------------------ whole configurations

fn sdl(r: &mut Rng) -> String {
    let mut s = String::new();
    let mut dirs = String::new();
    if r.chance(1, 2) { dirs += &format!(" @server(port: {}, vars: [{{key: \"{}\", value: \"{}\"}}])", r.range(1, 4), r.pick(&["a", "b"]), r.below(9)); }
    if r.chance(1, 2) { dirs += &format!(" @upstream(timeout: {}, allowedHeaders: [\"{}\"])", r.range(1, 4), r.pick(&["x-a", "x-b"])); }
    for _ in 0..r.below(3) { dirs += &format!(" @link(src: \"f{}.graphql\", type: Config{})", r.below(3), if r.bool() { format!(", id: \"i{}\"", r.below(2)) } else { String::new() }); }
    if r.chance(1, 3) { dirs += &format!(" @telemetry(export: {{stdout: {{pretty: {}}}}}, requestHeaders: [\"h{}\"])", r.bool(), r.below(3)); }
    s += &format!("schema{dirs} {{ query: {} {} }}\n", r.pick(&["Query", "Query", "Q2"]), if r.bool() { "mutation: M" } else { "" });
    let mut tys = vec!["Query", "A", "B", "M", "Q2"];
    r.shuffle(&mut tys);
    for t in tys.iter().take(r.range(1, 4)) {
        if r.chance(1, 3) { s += &format!("\"\"\"doc {}\"\"\"\n", r.below(5)); }
        let imp = if r.chance(1, 3) { format!(" implements {}", r.pick(&["I1", "I2", "I1 & I2"])) } else { String::new() };
        let mut d = String::new();
        if r.chance(1, 3) { d += &format!(" @cache(maxAge: {})", r.range(1, 5)); }
        if r.chance(1, 4) { d += " @protected"; }
        if r.chance(1, 3) { d += &format!(" @addField(name: \"x{}\", path: [\"a\"])", r.below(3)); }
        if r.chance(1, 3) { d += &format!(" @http(url: \"http://u/{}\")", r.below(3)); }
        s += &format!("type {t}{imp}{d} {{\n");
        for f in r.subset(&["f0", "f1", "f2", "f3"], 2, 3).iter().chain(&["fx"]) {
            let args = if r.chance(1, 3) { format!("(a: Int b: {})", r.pick(&["Int", "String!"])) } else { String::new() };
            s += &format!("  {f}{args}: {} {}\n", r.pick(&["Int", "String!", "[A]", "B"]), if r.bool() { format!("@http(url: \"http://h/{}\")", r.below(4)) } else { String::new() });
        }
        s += "}\n";
    }
    for e in ["E1", "E2"] { if r.chance(1, 2) { s += &format!("enum {e} {{ {} Z }}\n", r.subset(&["V1", "V2", "V3"], 1, 2).join(" ")); } }
    for u in ["U1", "U2"] { if r.chance(1, 2) { s += &format!("union {u} = Z{}\n", r.subset(&["V1", "V2", "V3"], 1, 2).iter().map(|x| format!(" | {x}")).collect::<String>()); } }
    s
}

fn check_config(c: &C, m: &Config, parts: &[&Config], info: &dyn Fn() -> Value) {
    // types: every type and field of either side exactly once, the right-most definition of a field
    let mut names = BTreeSet::new();
    for p in parts { names.extend(p.types.keys().cloned()); }
    c.eq(&m.types.keys().cloned().collect::<BTreeSet<_>>(), &names, "config:types", info);
    for n in &names {
        let defs: Vec<_> = parts.iter().filter_map(|p| p.types.get(n)).collect();
        let Some(t) = m.types.get(n) else { continue };
        let mut fields = BTreeMap::new();
        for d in &defs { for (k, f) in &d.fields { fields.insert(k.clone(), f.clone()); } }
        c.eq(&t.fields, &fields, "config:fields", info);
        c.eq(&t.added_fields, &defs.iter().flat_map(|d| d.added_fields.clone()).collect::<Vec<_>>(), "config:added-fields", info);
        c.eq(&t.implements, &defs.iter().flat_map(|d| d.implements.clone()).collect(), "config:implements", info);
        c.eq(&t.doc, &defs.iter().rev().find_map(|d| d.doc.clone()), "config:doc", info);
        c.eq(&t.cache, &defs.iter().rev().find_map(|d| d.cache.clone()), "config:cache", info);
        c.eq(&t.protected.is_some(), &defs.iter().any(|d| d.protected.is_some()), "config:protected", info);
        let mut res = vec![];
        for d in &defs { for x in d.resolvers.iter() { if !res.contains(x) { res.push(x.clone()); } } }
        c.eq(&t.resolvers.iter().cloned().collect::<Vec<_>>(), &res, "config:resolvers", info);
    }
    let mut un: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut en: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for p in parts {
        for (k, u) in &p.unions { un.entry(k.clone()).or_default().extend(u.types.clone()); }
        for (k, e) in &p.enums { en.entry(k.clone()).or_default().extend(e.variants.iter().map(|v| v.name.clone())); }
    }
    c.eq(&m.unions.iter().map(|(k, u)| (k.clone(), u.types.clone())).collect(), &un, "config:unions", info);
    c.eq(&m.enums.iter().map(|(k, e)| (k.clone(), e.variants.iter().map(|v| v.name.clone()).collect())).collect(), &en, "config:enums", info);
    c.eq(&m.links, &parts.iter().flat_map(|p| p.links.clone()).collect::<Vec<_>>(), "config:links", info);
    c.eq(&m.schema.query, &parts.iter().rev().find_map(|p| p.schema.query.clone()), "config:query-root", info);
    c.eq(&m.schema.mutation, &parts.iter().rev().find_map(|p| p.schema.mutation.clone()), "config:mutation-root", info);
    c.eq(&m.server.port, &parts.iter().rev().find_map(|p| p.server.port), "config:port", info);
    c.eq(&m.upstream.timeout, &parts.iter().rev().find_map(|p| p.upstream.timeout), "config:timeout", info);
    c.eq(&m.telemetry.request_headers, &parts.iter().flat_map(|p| p.telemetry.request_headers.clone()).collect::<Vec<_>>(), "config:request-headers", info);
}

fn configs(c: &C) {
    let mut r = c.rng("conf");
    for _ in 0..c.n(500, 8000) {
        let src: Vec<String> = (0..3).map(|_| sdl(&mut r)).collect();
        let cs: Vec<Config> = src.iter().filter_map(|s| match Config::from_sdl(s).to_result() { Ok(c) => Some(c), Err(e) => { c.inconclusive(format!("sdl: {e}\n{s}")); None } }).collect();
        let [a, b, d] = &cs[..] else { return };
        let info = || json!({"a": src[0], "b": src[1], "c": src[2]});
        let overlap = a.types.keys().any(|k| b.types.contains_key(k));
        c.case(&src, overlap);
        if overlap { c.count("overlapping", 1); }
        c.count("config-triples", 1);
        // vars are compared as a map, their list form is sorted by a merge
        let mut a = a.clone();
        a.server.vars.sort_by(|x, y| x.key.cmp(&y.key));
        laws(c, "config", &a, b, d, Some(&Config::default()), None);
        let ab = a.clone().merge_right(b.clone());
        check_config(c, &ab, &[&a, b], &info);
        check_config(c, &ab.merge_right(d.clone()), &[&a, b, d], &info);
        check_config(c, &b.clone().merge_right(d.clone()).merge_right(a.clone()), &[b, d, &a], &info);
    }
}

fn modules(c: &C) {
    let mut r = c.rng("mods");
    let ext = |r: &mut Rng, tag: usize| {
        let mut e = Extensions::default();
        for i in 0..r.below(4) { let k = format!("p{i}.proto"); e.grpc_file_descriptors.insert(k.clone(), FileDescriptorProto { name: Some(k), package: Some(format!("t{tag}")), ..Default::default() }); }
        if r.bool() { e.script = Some(format!("s{tag}")); }
        for i in 0..r.below(3) { e.htpasswd.push(Content { id: r.bool().then(|| format!("h{i}")), content: format!("{tag}:{i}") }); }
        for i in 0..r.below(3) { e.cert.push(format!("c{tag}{i}").into_bytes().into()); }
        e
    };
    type Flat = (BTreeMap<String, String>, Option<String>, Vec<String>, Vec<Vec<u8>>);
    let flat = |e: &Extensions| -> Flat { (
        e.grpc_file_descriptors.iter().map(|(k, v)| (k.clone(), v.package().to_string())).collect(), e.script.clone(),
        e.htpasswd.iter().map(|c| c.content.clone()).collect(), e.cert.iter().map(|c| c.to_vec()).collect(),
    ) };
    let want = |a: &Flat, b: &Flat| -> Flat {
        let mut m = a.0.clone();
        m.extend(b.0.clone());
        (m, b.1.clone().or(a.1.clone()), [a.2.clone(), b.2.clone()].concat(), [a.3.clone(), b.3.clone()].concat())
    };
    for _ in 0..c.n(300, 4000) {
        let (a, b, d) = (ext(&mut r, 0), ext(&mut r, 1), ext(&mut r, 2));
        let (fa, fb, fd) = (flat(&a), flat(&b), flat(&d));
        let info = || json!({"a": format!("{fa:?}"), "b": format!("{fb:?}"), "c": format!("{fd:?}")});
        c.case(&format!("{fa:?}{fb:?}{fd:?}"), fa.0.keys().any(|k| fb.0.contains_key(k)));
        c.count("triples", 1);
        let w = want(&want(&fa, &fb), &fd);
        c.eq(&flat(&a.clone().merge_right(b.clone()).merge_right(d.clone())), &w, "extensions:left", info);
        c.eq(&flat(&a.clone().merge_right(b.clone().merge_right(d.clone()))), &w, "extensions:right", info);
        c.eq(&flat(&a.clone().merge_right(Extensions::default())), &fa, "extensions:identity", info);
        c.eq(&flat(&Extensions::default().merge_right(a.clone())), &fa, "extensions:identity", info);
        let m = ConfigModule::new(Config::default(), a).merge_extensions(b);
        c.eq(&flat(m.extensions()), &want(&fa, &fb), "extensions:module", info);
    }
}
