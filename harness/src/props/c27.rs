//! C27: generated configurations fit the samples they were generated from.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use serde_json::{json, Map, Value};
use tailcall::core::config::transformer::Preset;
use tailcall::core::config::{self, Config, ConfigModule, Http, Resolver};
use tailcall::core::generator::{GraphQLType, Generator, Input, NameGenerator};
use tailcall::core::helpers::gql_type::{detect_gql_data_type, is_primitive, is_valid_field_name, to_gql_type};
use tailcall::core::http::Method;
use tailcall::core::scalar::Scalar;
use tailcall::core::verif::{AtomicCounter, Count, Counter};
use url::Url;

use crate::common::*;
use crate::mock::*;

pub fn run(c: &C) {
    c.rule("one case = one set of samples (URLs, requests, responses) or protobuf files a configuration is generated from, with one choice of transformers; non-trivial = the samples have nested, missing, null or mixed values, or the URL has variables; distinct by samples and transformers");
    c.assume("without optional transformers, hand-written parts come out as they went in (root types gain the generated fields); optional transformers (merging, shaking, renaming, flattening) may rename and merge types, but what queries return stays the same (flattening changes the shape of the answer by design: only validity is judged with it)");
    c.assume("numeric path segments are decimal numbers without leading zeros; query values are in the form their own type prints (`1.5`, not `1.50`)");
    c.assume("a number is typed Int whatever its fraction (the existing suite pins this; the gateway doesn't check number kinds on output)");
    c.section("samples", samples);
    c.section("hand-written", hand_written);
    c.section("proto", proto);
    c.section("names", names);
    c.section("kinds", kinds);
    c.section("counters", counters);
    c.floor("configs", 150);
    c.floor("answers", 300);
    c.floor("urls-reproduced", 200);
    c.floor("bodies-reproduced", 30);
    c.floor("names", 500);
}

// ---- samples ---------------------------------------------------------------------------

const NAMES: &[&str] = &["id", "name", "date", "int", "user", "users", "data", "type", "email", "query", "a_b", "aB", "url", "node", "nodes", "float", "boolean", "string", "json", "empty", "mutation", "item", "items", "A", "T1", "gen", "M1"];
const BAD: &[&str] = &["a-b", "1", "", "_x", "x.y", "a b", "é"];

#[derive(Clone, Debug, Hash)]
enum Shape { Text, Int, Float, Bool, Null, Any(u64), List(Box<Shape>), Obj(Vec<(String, Shape, bool)>) }

fn shape(r: &mut Rng, d: usize) -> Shape {
    match r.below(if d == 0 { 6 } else { 13 }) {
        0 | 1 => Shape::Text,
        2 => Shape::Int,
        3 => Shape::Float,
        4 => Shape::Bool,
        5 => if r.chance(1, 3) { Shape::Null } else { Shape::Any(r.next()) },
        6..=8 => Shape::List(Box::new(shape(r, d - 1))),
        _ => obj(r, d),
    }
}
fn obj(r: &mut Rng, d: usize) -> Shape {
    let mut v: Vec<(String, Shape, bool)> = vec![];
    let rare = r.chance(1, 12);
    for _ in 0..r.range(0, 4) {
        let k = if rare && r.chance(1, 3) { *r.pick(BAD) } else { *r.pick(NAMES) };
        if v.iter().all(|x| x.0 != k) { let s = if d == 0 { Shape::Int } else { shape(r, d - 1) }; v.push((k.into(), s, r.chance(1, 3))); }
    }
    Shape::Obj(v)
}
fn value(r: &mut Rng, s: &Shape) -> Value {
    if r.chance(1, 14) { return Value::Null }
    if r.chance(1, 30) { return gen_value(r, 2) }
    match s {
        Shape::Text => json!(*r.pick(&["x", "", "Ann", "2020-01-01", "1", "true", "a\"b\\", "日本"])),
        Shape::Int => json!(*r.pick(&[0i64, 1, -7, 42, 3000000000])),
        Shape::Float => json!(*r.pick(&[0.5, -2.25, 1e20])),
        Shape::Bool => json!(r.bool()),
        Shape::Null => Value::Null,
        Shape::Any(_) => gen_value(r, 2),
        Shape::List(s) => (0..r.below(4)).map(|_| value(r, s)).collect(),
        Shape::Obj(fs) => { let mut m = Map::new(); for (k, s, opt) in fs { if *opt && r.chance(1, 3) { continue } m.insert(k.clone(), value(r, s)); } Value::Object(m) }
    }
}
fn gen_value(r: &mut Rng, d: usize) -> Value { let s = shape(r, d); let s = if let Shape::Any(_) = s { Shape::Int } else { s }; value(r, &s) }

#[derive(Clone, Debug)]
struct Sample { url: Url, method: &'static str, req: Value, res: Value, field: String, mutation: bool, headers: Option<BTreeMap<String, String>> }

fn gen_url(r: &mut Rng, i: usize) -> Url {
    let mut s = format!("http://up/e{i}");
    for _ in 0..r.below(4) {
        s.push('/');
        s += *r.pick(&["posts", "users", "12", "7", "0", "3000000000", "70b0be87-d339-4395-8559-204fd368604a", "5-x", "v1", "1a", "a%20b", "a%2Fb", "%FF", "%7B%7Bx", "a.b", "100%25"]);
    }
    if r.bool() {
        let mut q = url::form_urlencoded::Serializer::new(String::new());
        for _ in 0..r.range(1, 4) {
            let k = *r.pick(&["id", "q", "user_id", "userId", "filter[name]", "ids[]", "10", "$top", "", "a.b", "page", "GEN__1", "é"]);
            let n = if r.chance(1, 4) { r.range(2, 3) } else { 1 };
            for _ in 0..n { q.append_pair(k, *r.pick(&["1", "-3", "1.5", "true", "false", "x", "a b&c=d", "", "nan", "inf", "1.2.3", "2020-01-01", "1,2", "1,x", "a, b", "é", "null", "{{.args.q}}"])); }
        }
        s += "?"; s += &q.finish();
    }
    Url::parse(&s).unwrap()
}

fn gen_sample(r: &mut Rng, i: usize, prev: Option<&Sample>) -> Sample {
    let mutation = prev.is_some() && r.chance(1, 3);
    let s = match r.below(10) { 0 => shape(r, 1), 1..=3 => Shape::List(Box::new(obj(r, 3))), _ => obj(r, 3) };
    let mut res = value(r, &s);
    if let Some(p) = prev { if r.chance(1, 3) { res = p.res.clone(); } }
    let post = mutation || r.chance(1, 8);
    let req = if post { let s = if r.chance(1, 4) { shape(r, 2) } else { obj(r, 2) }; let v = value(r, &s); if v.is_string() { json!({}) } else { v } } else { Value::Null };
    let headers = r.chance(1, 4).then(|| [("x-a".to_string(), "1".to_string()), ("authorization".into(), "t".into())].into_iter().take(r.range(1, 2)).collect());
    Sample { url: gen_url(r, i), method: if mutation { *r.pick(&["POST", "PUT", "PATCH"]) } else if post { "POST" } else { "GET" }, req, res, field: format!("{}{i}", r.pick(&["posts", "user", "f", "date", "q_"])), mutation, headers }
}

fn show(s: &[Sample]) -> Value { s.iter().map(|s| json!({"url": s.url.as_str(), "method": s.method, "request": s.req, "response": s.res, "field": s.field, "mutation": s.mutation, "headers": s.headers})).collect() }

fn method(m: &str) -> Method { serde_json::from_value(json!(m)).unwrap() }

fn input(s: &Sample) -> Input { Input::Json { url: s.url.clone(), method: method(s.method), req_body: s.req.clone(), res_body: s.res.clone(), field_name: s.field.clone(), is_mutation: s.mutation, headers: s.headers.clone() } }

#[derive(Clone, Copy, Debug)]
struct Opts { preset: bool, merge: f32, shake: bool, infer: bool, flat: bool, renamed: bool }
impl Opts { fn show(&self) -> Value { json!({"preset": self.preset, "mergeType": self.merge, "treeShake": self.shake, "inferTypeNames": self.infer, "unwrapSingleFieldTypes": self.flat}) } }

fn gen_opts(r: &mut Rng) -> Opts {
    Opts { preset: r.chance(2, 3), merge: *r.pick(&[1.0, 1.0, 0.0, 0.8, 0.5]), shake: r.bool(), infer: r.bool(), flat: r.chance(1, 8), renamed: r.chance(1, 4) }
}

fn generate(inputs: Vec<Input>, o: Opts) -> Result<ConfigModule, String> {
    let g = Generator::default().inputs(inputs);
    let g = if o.renamed { g.query("RootQ".to_string()).mutation(Some("RootM".to_string())) } else { g.mutation(Some("Mutation".to_string())) };
    let g = if o.preset { g.transformers(vec![Box::new(Preset::new().merge_type(o.merge).tree_shake(o.shake).infer_type_names(o.infer).unwrap_single_field_types(o.flat))]) } else { g };
    match guard(|| g.generate(o.preset)) { Ok(Ok(m)) => Ok(m), Ok(Err(e)) => Err(format!("{e:?}")), Err(p) => Err(format!("panic: {p}")) }
}

fn legal(n: &str) -> bool { let mut ch = n.chars(); ch.next().is_some_and(|c| c.is_ascii_alphabetic() || c == '_') && ch.all(|c| c.is_ascii_alphanumeric() || c == '_') && !n.starts_with("__") }

/// Every name in the configuration is legal, known and stands for one thing.
fn check_names(c: &C, cfg: &Config, w: &dyn Fn() -> Value) {
    let mut seen = BTreeSet::new();
    for n in cfg.types.keys().chain(cfg.enums.keys()).chain(cfg.unions.keys()) {
        c.count("names", 1);
        c.check(legal(n), "names:illegal-type", || json!({"name": n, "of": w()}));
        c.check(seen.insert(n.clone()), "names:type-defined-twice", || json!({"name": n, "of": w()}));
    }
    for (n, t) in &cfg.types {
        if Scalar::is_predefined(n) { c.check(t.fields.is_empty(), "names:type-named-as-a-scalar", || json!({"name": n, "of": w()})); }
        for (f, d) in &t.fields {
            c.check(legal(f), "names:illegal-field", || json!({"type": n, "field": f, "of": w()}));
            let known = |t: &str| cfg.contains(t) || Scalar::is_predefined(t);
            c.check(known(d.type_of.name()), "names:unknown-type", || json!({"type": n, "field": f, "of-type": d.type_of.name(), "of": w()}));
            for (a, d) in &d.args {
                c.check(legal(a), "names:illegal-argument", || json!({"type": n, "field": f, "argument": a, "of": w()}));
                c.check(known(d.type_of.name()), "names:unknown-type", || json!({"type": n, "field": f, "argument": a, "of-type": d.type_of.name(), "of": w()}));
            }
        }
    }
}

fn leaf(cfg: &Config, t: &str) -> bool { cfg.enums.contains_key(t) || cfg.types.get(t).map(|t| t.fields.is_empty()).unwrap_or(!cfg.unions.contains_key(t)) }

/// Selects everything the type has; for fields of object types, what the samples have there.
fn select(cfg: &Config, t: &str, vals: &[&Value], d: usize, lost: &mut Vec<String>) -> String {
    if leaf(cfg, t) || d == 0 { return String::new() }
    fn flat<'a>(v: &'a Value, out: &mut Vec<&'a Map<String, Value>>) { match v { Value::Array(a) => a.iter().for_each(|v| flat(v, out)), Value::Object(m) => out.push(m), _ => {} } }
    let mut objs = vec![]; for v in vals { flat(v, &mut objs); }
    let ty = &cfg.types[t];
    for o in &objs { for k in o.keys() { if !ty.fields.contains_key(k) { lost.push(format!("{t}.{k}")); } } }
    let mut out = vec![];
    for (k, f) in &ty.fields {
        let sub: Vec<&Value> = objs.iter().filter_map(|o| o.get(k)).collect();
        if leaf(cfg, f.type_of.name()) { out.push(k.clone()) }
        else { let s = select(cfg, f.type_of.name(), &sub, d - 1, lost); if !s.is_empty() { out.push(format!("{k}{s}")) } }
    }
    // an object type has at least one leaf somewhere; `__typename` keeps the selection legal
    if out.is_empty() { " { __typename }".into() } else { format!(" {{ {} }}", out.join(" ")) }
}

/// Equal, where a missing value and null are the same thing.
fn fits(want: &Value, got: &Value) -> bool {
    match (want, got) {
        (Value::Object(a), Value::Object(b)) => a.iter().all(|(k, v)| fits(v, b.get(k).unwrap_or(&Value::Null))) && b.iter().all(|(k, v)| a.contains_key(k) || v.is_null() || hollow(v) || k == "__typename"),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| fits(a, b)),
        (Value::Number(a), Value::Number(b)) => a == b || a.as_f64() == b.as_f64(),
        (Value::Object(a), Value::Null) => a.is_empty(),
        (a, b) => a == b,
    }
}
fn hollow(v: &Value) -> bool { match v { Value::Object(m) => m.iter().all(|(k, v)| k == "__typename" || v.is_null() || hollow(v)), Value::Null => true, _ => false } }

fn pieces(s: &str) -> Vec<Result<String, String>> {
    let mut out = vec![]; let mut rest = s;
    while let Some(i) = rest.find("{{") {
        let Some(j) = rest[i..].find("}}") else { break };
        if i > 0 { out.push(Ok(rest[..i].to_string())); }
        out.push(Err(rest[i + 2..i + j].trim().trim_start_matches('.').to_string()));
        rest = &rest[i + j + 2..];
    }
    if !rest.is_empty() { out.push(Ok(rest.into())); }
    out
}

/// The values of the template's variables that make it the URL.
fn solve(tmpl: &str, text: &str) -> Option<Vec<(String, String)>> {
    let ps = pieces(tmpl); let mut rest = text; let mut out = vec![];
    for (i, p) in ps.iter().enumerate() {
        match p {
            Ok(l) => rest = rest.strip_prefix(l.as_str())?,
            Err(v) => {
                let end = match ps.get(i + 1) { Some(Ok(l)) => rest.find(l.as_str())?, Some(Err(_)) => return None, None => rest.len() };
                out.push((v.strip_prefix("args.")?.to_string(), rest[..end].to_string())); rest = &rest[end..];
            }
        }
    }
    rest.is_empty().then_some(out)
}

/// A literal of the type that prints as the text.
fn literal(ty: &str, text: &str) -> Option<String> {
    match ty {
        "Int" | "Float" => text.parse::<f64>().ok().filter(|f| f.is_finite() && (ty == "Float" || f.fract() == 0.0) && serde_json::from_str::<Value>(text).is_ok()).map(|_| text.to_string()),
        "Boolean" => (text == "true" || text == "false").then(|| text.to_string()),
        "String" => Some(json!(text).to_string()),
        _ => None,
    }
}

fn http_of(f: &config::Field) -> Option<&Http> { f.resolvers.0.iter().find_map(|r| if let Resolver::Http(h) = r { Some(h) } else { None }) }

/// Checks one sample against the configuration generated from it (and others).
async fn check_sample(c: &C, m: &ConfigModule, s: &Sample, ask: bool, rest: bool, w: &(dyn Fn() -> Value + Sync)) {
    let cfg = m.config();
    let root = if s.mutation { cfg.schema.mutation.clone() } else { cfg.schema.query.clone() };
    let Some(root) = root else { c.violation("generated:no-root-type", json!({"field": s.field, "of": w()})); return };
    let Some(f) = cfg.types.get(&root).and_then(|t| t.fields.get(&s.field)) else { c.violation("generated:no-field", json!({"field": s.field, "of": w()})); return };
    let Some(h) = http_of(f) else { c.violation("generated:no-resolver", json!({"field": s.field, "of": w()})); return };
    let wd = |x: Value| json!({"field": s.field, "detail": x, "sdl": m.to_sdl(), "of": w()});
    let text = &s.url[..url::Position::AfterPath];
    let Some(vars) = solve(&h.url, text) else { c.violation("url:not-reproducible", wd(json!({"template": h.url, "url": text}))); return };
    let mut args = vec![];
    let mut ok = true;
    for (v, t) in &vars {
        let ty = f.args.get(v).map(|a| a.type_of.name().clone()).unwrap_or_default();
        match literal(&ty, t) { Some(l) => args.push(format!("{v}: {l}")), None => { ok = false; c.violation("url:variable-does-not-admit", wd(json!({"argument": v, "type": ty, "text": t}))) } }
    }
    // query parameters: each sampled key has one argument that takes its values
    let mut want_q: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for (k, v) in s.url.query_pairs() { want_q.entry(k.to_string()).or_default().push(v.to_string()); }
    let mut comma = false;
    let mut used = BTreeSet::new();
    let keys: Vec<&String> = h.query.iter().map(|q| &q.key).collect();
    if !c.check(keys.iter().map(|k| k.to_string()).collect::<BTreeSet<_>>() == want_q.keys().cloned().collect::<BTreeSet<_>>() && keys.len() == want_q.len(), "query:parameters", || wd(json!({"got": keys, "want": want_q}))) { ok = false }
    for q in &h.query {
        let ps = pieces(&q.value);
        let a = match ps.as_slice() { [Err(v)] if v.starts_with("args.") => v[5..].to_string(), _ => { ok = false; c.violation("query:template", wd(json!({"key": q.key, "value": q.value}))); continue } };
        if !c.check(used.insert(a.clone()) && !vars.iter().any(|v| v.0 == a), "query:argument-shared", || wd(json!({"key": q.key, "argument": a}))) { ok = false }
        let Some(arg) = f.args.get(&a) else { ok = false; c.violation("query:no-argument", wd(json!({"key": q.key, "argument": a}))); continue };
        let vals = want_q.get(&q.key).cloned().unwrap_or_default();
        let has_comma = vals.iter().any(|v| v.contains(','));
        if vals.len() > 1 { c.check(arg.type_of.is_list(), "query:several-values-in-a-single-one", || wd(json!({"key": q.key, "values": vals}))); }
        comma |= has_comma;
        let parts: Vec<String> = if has_comma && arg.type_of.is_list() { vals.iter().flat_map(|v| v.split(',').map(|x| x.to_string())).collect() } else { vals.clone() };
        let ls: Vec<Option<String>> = parts.iter().map(|v| literal(arg.type_of.name(), if has_comma { v.trim() } else { v })).collect();
        if !c.check(ls.iter().all(|l| l.is_some()), "query:argument-does-not-admit", || wd(json!({"key": q.key, "type": format!("{:?}", arg.type_of), "values": vals}))) { ok = false; continue }
        let ls: Vec<String> = ls.into_iter().flatten().collect();
        args.push(if arg.type_of.is_list() { format!("{a}: [{}]", ls.join(", ")) } else { format!("{a}: {}", ls[0]) });
    }
    // the request body
    let mut variables = json!({}); let mut decl = String::new();
    if !s.req.is_null() || s.mutation {
        let b = h.body.as_ref().and_then(|b| b.as_str()).map(pieces).unwrap_or_default();
        let a = match b.as_slice() { [Err(v)] if v.starts_with("args.") => v[5..].to_string(), _ => { c.violation("body:template", wd(json!({"body": h.body}))); return } };
        let Some(arg) = f.args.get(&a) else { c.violation("body:no-argument", wd(json!({"argument": a}))); return };
        if s.mutation { c.check(!used.contains(&a) && !vars.iter().any(|v| v.0 == a), "body:argument-shared", || wd(json!({"argument": a}))); }
        let mut lost = vec![]; select(cfg, arg.type_of.name(), &[&s.req], 12, &mut lost);
        c.check(lost.is_empty(), "body:field-lost", || wd(json!(lost)));
        decl = format!("($body: {:?})", arg.type_of); args.push(format!("{a}: $body")); variables = json!({"body": s.req});
    }
    if !ok || !ask { return }
    let mut lost = vec![];
    let sel = select(cfg, f.type_of.name(), &[&s.res], 12, &mut lost);
    c.check(lost.is_empty(), "type:field-lost", || wd(json!(lost)));
    let q = format!("{}{decl} {{ {}{}{sel} }}", if s.mutation { "mutation" } else { "query" }, s.field, if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) });
    let res = s.res.clone();
    let up = Upstream::new(move |_| URes::json(res.clone()));
    let app = match app_of(m, runtime(up.clone())) { Ok(a) => a, Err(e) => { c.violation("config:not-servable", wd(json!(e))); return } };
    let hs: Vec<(&str, &str)> = s.headers.iter().flatten().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let got = gql(&app, json!({"query": q, "variables": variables}), &hs).await;
    let calls = up.take();
    if !c.check(calls.len() == 1, "upstream:calls", || wd(json!({"query": q, "calls": calls.iter().map(|u| u.show()).collect::<Vec<_>>(), "got": got.text()}))) { return }
    let u = &calls[0];
    c.check(u.method == s.method, "upstream:method", || wd(json!({"want": s.method, "got": u.show()})));
    c.check(u.path() == s.url.path() && u.url.host_str() == s.url.host_str(), "upstream:path", || wd(json!({"want": s.url.as_str(), "got": u.show()})));
    if !comma {
        let mut gq: BTreeMap<String, Vec<String>> = BTreeMap::new();
        for (k, v) in u.query() { gq.entry(k).or_default().push(v); }
        c.check(gq == want_q, "upstream:query", || wd(json!({"want": want_q, "got": gq, "query": q})));
    }
    c.count("urls-reproduced", 1);
    if rest {
        for (k, v) in &hs { c.check(u.header(k) == Some(v), "upstream:header", || wd(json!({"want": [k, v], "got": u.show()}))); }
    }
    if decl != "" { c.check(fits(&s.req, &u.body_json()), "upstream:body", || wd(json!({"want": s.req, "got": u.body_str()}))); c.count("bodies-reproduced", 1); }
    if s.res.is_object() || s.res.is_array() { c.count("structured-answers", 1); }
    c.count("answers", 1);
    c.check(got.errors().is_empty() && fits(&s.res, &got.data()[s.field.as_str()]), "answer:differs", || wd(json!({"query": q, "sample": s.res, "got": got.json()})));
}

fn gen_samples(r: &mut Rng) -> Vec<Sample> {
    let n = if r.bool() { 1 } else { r.range(2, 4) };
    let mut v: Vec<Sample> = vec![];
    for i in 0..n { let s = gen_sample(r, i, v.last()); v.push(s); }
    v
}

fn samples(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("samples");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for i in 0..c.n(420, 12000) {
            let ss = gen_samples(&mut r);
            let o = gen_opts(&mut r);
            c.case(&(format!("{ss:?}"), o.show().to_string(), o.renamed), true);
            let w = || json!({"samples": show(&ss), "transformers": o.show()});
            let m = match generate(ss.iter().map(input).collect(), o) { Ok(m) => m, Err(e) => { c.violation("generate:failed", json!({"error": e, "of": w()})); continue } };
            c.count("configs", 1);
            let sdl = m.to_sdl();
            if i % 40 == 0 { c.sample(|| json!({"samples": show(&ss), "sdl": sdl})); }
            // the same again, and from a config that was started anew
            match generate(ss.iter().map(input).collect(), o) { Ok(m2) => { c.check(m2.to_sdl() == sdl, "generate:not-deterministic", || json!({"first": sdl, "second": m2.to_sdl(), "of": w()})); } Err(e) => c.violation("generate:not-deterministic", json!({"error": e, "of": w()})) }
            check_names(c, m.config(), &w);
            let read = match module(&sdl) { Ok(m) => m, Err(e) => { c.violation("config:unreadable", json!({"error": format!("{e:?}"), "sdl": sdl, "of": w()})); continue } };
            if let Err(e) = blueprint(&read) { c.violation("config:invalid", json!({"error": format!("{e:?}"), "sdl": sdl, "of": w()})); continue }
            // what is printed is what a user gets: judge that
            for s in &ss { check_sample(c, &read, s, !(o.preset && o.flat), ss.iter().all(|x| x.headers.is_none() || x.headers == s.headers), &w).await; }
        }
    });
}

// ---- hand-written parts ------------------------------------------------------------------

fn hand_written(c: &C) {
    let mut r = c.rng("hand");
    for _ in 0..c.n(60, 2000) {
        let ss = gen_samples(&mut r);
        let mut types = vec![];
        for n in ["Post", "GEN__1", "GEN__2", "GEN__M1", "Data", "User", "T1"] { if r.bool() { types.push(format!("\"\"\"about {n}\"\"\"\ntype {n} @protected {{\n  id: Int! @modify(name: \"key\")\n  x{}: [String!]\n  own: String @expr(body: \"{n}\")\n}}\n", r.below(3))); } }
        if r.bool() { types.push("enum Kind {\n  A\n  B\n}\n".into()); }
        if r.bool() { types.push("input In {\n  a: Int = 3\n  b: [String!]!\n}\n".into()); }
        let refs: String = types.iter().filter(|t| t.contains("type ")).map(|t| { let n = t.split("type ").nth(1).unwrap().split(' ').next().unwrap(); format!("  hand{n}: {n} @http(url: \"http://own/{n}\")\n") }).collect();
        let sdl = format!("schema @server(port: 8123, hostname: \"h\") @upstream(timeout: 7{}) {{ query: Query }}\ntype Query {{\n  hello: String! @expr(body: \"hi\")\n{refs}}}\n{}", if r.bool() { ", allowedHeaders: [\"x-own\"]" } else { "" }, types.join(""));
        let Ok(before) = parse(&sdl) else { c.violation("harness:sdl", json!(sdl)); continue };
        let mut inputs: Vec<Input> = ss.iter().map(input).collect();
        let at = r.below(inputs.len() + 1);
        inputs.insert(at, Input::Config { schema: sdl.clone(), source: config::Source::GraphQL });
        let o = Opts { preset: false, merge: 0.0, shake: false, infer: false, flat: false, renamed: false };
        c.case(&(sdl.clone(), format!("{ss:?}"), at), true);
        let w = || json!({"hand-written": sdl, "at": at, "samples": show(&ss)});
        let m = match generate(inputs, o) { Ok(m) => m, Err(e) => { c.violation("generate:failed", json!({"error": e, "of": w()})); continue } };
        c.count("configs", 1); c.count("hand-written-configs", 1);
        let after = m.config();
        for (n, t) in &before.types {
            let Some(t2) = after.types.get(n) else { c.violation("hand-written:type-gone", json!({"type": n, "of": w()})); continue };
            if n == "Query" { for (k, f) in &t.fields { c.check(t2.fields.get(k) == Some(f), "hand-written:field-changed", || json!({"type": n, "field": k, "sdl": m.to_sdl(), "of": w()})); } }
            else { c.check(t == t2, "hand-written:type-changed", || json!({"type": n, "sdl": m.to_sdl(), "of": w()})); }
        }
        for (n, t) in &before.enums { c.check(after.enums.get(n) == Some(t), "hand-written:enum-changed", || json!({"enum": n, "of": w()})); }
        c.check(after.server == before.server, "hand-written:server-changed", || json!({"sdl": m.to_sdl(), "of": w()}));
        c.check(after.upstream.timeout == before.upstream.timeout, "hand-written:upstream-changed", || json!({"sdl": m.to_sdl(), "of": w()}));
        for h in before.upstream.allowed_headers.iter().flatten() { c.check(after.upstream.allowed_headers.as_ref().is_some_and(|x| x.contains(h)), "hand-written:allowed-header-gone", || json!({"header": h, "sdl": m.to_sdl(), "of": w()})); }
        check_names(c, after, &w);
        c.check(module(&m.to_sdl()).is_ok(), "config:unreadable", || json!({"sdl": m.to_sdl(), "of": w()}));
    }
}

// ---- protobuf files -----------------------------------------------------------------------

#[derive(Clone, Debug)]
enum PT { Scalar(&'static str), Msg(String), Enum(String), Map(&'static str, Box<PT>) }
#[derive(Clone, Debug)]
struct PF { name: String, ty: PT, label: &'static str, oneof: Option<usize>, doc: Option<String> }
#[derive(Clone, Debug)]
struct PM { name: String, doc: Option<String>, fields: Vec<PF>, oneofs: usize, nested: Vec<PM>, enums: Vec<PE> }
#[derive(Clone, Debug)]
struct PE { name: String, doc: Option<String>, values: Vec<(String, Option<String>)> }
#[derive(Clone, Debug)]
struct PS { name: String, methods: Vec<(String, Option<String>, Option<String>, Option<String>)> }
#[derive(Clone, Debug)]
struct PFile { pkg: String, proto2: bool, msgs: Vec<PM>, enums: Vec<PE>, services: Vec<PS>, text: String }

const SCALARS: &[(&str, &str)] = &[("double", "Float"), ("float", "Float"), ("int32", "Int"), ("sint32", "Int"), ("fixed32", "Int"), ("sfixed32", "Int"), ("int64", "Int64"), ("sint64", "Int64"), ("fixed64", "Int64"), ("sfixed64", "Int64"), ("uint32", "UInt32"), ("uint64", "UInt64"), ("bool", "Boolean"), ("string", "String"), ("bytes", "Bytes")];
const MSGS: &[&str] = &["News", "NewsInput", "User", "UserInput", "Date", "Int", "Request", "Post", "Query", "news_list", "Empty2", "JSON"];
const FIELDS: &[(&str, &str)] = &[("id", "id"), ("user_name", "userName"), ("camelCase", "camelCase"), ("news", "news"), ("post_image", "postImage"), ("body", "body"), ("status", "status"), ("tags", "tags"), ("kids", "kids"), ("long_field_name", "longFieldName"), ("data", "data"), ("a1b", "a1b"), ("sha256_sum", "sha256Sum"), ("foo_1", "foo1"), ("URL", "URL"), ("v2_name", "v2Name")];

fn doc(r: &mut Rng) -> Option<String> { r.chance(1, 4).then(|| r.pick(&["about it", "says a \"word\"", "one\n two", "# hash", "x * y", "ends with *", "**bold**", "a/b *"]).to_string()) }

fn gen_enum(r: &mut Rng, scope: &str, i: usize) -> PE {
    let name = format!("{}{i}", r.pick(&["Status", "Kind"]));
    let up: String = scope.replace('.', "_");
    PE { doc: doc(r), values: (0..r.range(1, 4)).map(|k| (format!("{}{name}_{k}", if up.is_empty() { String::new() } else { format!("{up}_") }), None)).collect(), name }
}

fn gen_file(r: &mut Rng) -> PFile {
    let pkg = r.pick(&["", "news", "a.b", "news.v1"]).to_string();
    let proto2 = r.chance(1, 5);
    // names first, so that fields can refer to any of them
    let mut names: Vec<String> = vec![]; let mut enums = vec![];
    for _ in 0..r.range(2, 5) { let n = r.pick(MSGS).to_string(); if !names.contains(&n) && !(pkg.is_empty() && Scalar::is_predefined(&n)) { names.push(n) } }
    if names.is_empty() { names.push("News".into()) }
    for i in 0..r.below(3) { enums.push(gen_enum(r, "", i)); }
    let mut all: Vec<String> = names.clone();
    let mut nested_of: Vec<Vec<String>> = vec![];
    for n in &names { let k: Vec<String> = if r.chance(1, 3) { vec![format!("Inner{}", r.below(2))] } else { vec![] }; for x in &k { all.push(format!("{n}.{x}")); } nested_of.push(k); }
    let enums_all: Vec<String> = enums.iter().map(|e: &PE| e.name.clone()).collect();
    let choosy = r.chance(1, 2).then(|| r.pick(&names).clone());
    let gen_msg = |r: &mut Rng, name: &str, scope: &str, es: &[String]| -> PM {
        let mut own_e = vec![]; let mut es = es.to_vec();
        if r.chance(1, 5) { let e = gen_enum(r, name, 7); es.push(format!("{scope}{name}.{}", e.name)); own_e.push(e); }
        let oneofs = if choosy.as_deref() == Some(name) { r.range(1, 2) } else { 0 };
        let mut fields: Vec<PF> = vec![];
        for (n, _) in r.subset(FIELDS, 1, 3) {
            let ty = match r.below(10) { 0..=2 => PT::Msg(r.pick(&all).clone()), 3 if !es.is_empty() => PT::Enum(r.pick(&es).clone()), 4 => PT::Map(*r.pick(&["string", "int32"]), Box::new(if r.bool() { PT::Scalar(r.pick(SCALARS).0) } else { PT::Msg(r.pick(&all).clone()) })), _ => PT::Scalar(r.pick(SCALARS).0) };
            let oneof = if oneofs > 0 && !matches!(ty, PT::Map(..)) && r.chance(2, 3) { Some(r.below(oneofs)) } else { None };
            let label = if matches!(ty, PT::Map(..)) || oneof.is_some() { "" } else if proto2 { let l = *r.pick(&["optional", "required", "repeated"]); if l == "required" && matches!(ty, PT::Msg(..)) { "optional" } else { l } } else { *r.pick(&["", "", "repeated", "optional"]) };
            fields.push(PF { name: n.into(), ty, label, oneof, doc: doc(r) });
        }
        // a oneof has at least one field
        for o in 0..oneofs { if !fields.iter().any(|f| f.oneof == Some(o)) { fields.push(PF { name: format!("extra{}", ["a", "b"][o]), ty: PT::Scalar("string"), label: "", oneof: Some(o), doc: None }) } }
        PM { name: name.into(), doc: doc(r), fields, oneofs, nested: vec![], enums: own_e }
    };
    let mut msgs = vec![];
    for (n, inner) in names.iter().zip(&nested_of) {
        let mut m = gen_msg(r, n, "", &enums_all);
        for x in inner { m.nested.push(gen_msg(r, x, &format!("{n}."), &enums_all)); }
        msgs.push(m);
    }
    let mut services = vec![];
    for i in 0..r.range(1, 2) {
        let mut ms: Vec<(String, Option<String>, Option<String>, Option<String>)> = vec![];
        for n in r.subset(&["GetNews", "getUser", "List_all", "Add"], 1, 2) { let mut io = || (!r.chance(1, 4)).then(|| r.pick(&all).clone()); let (a, b) = (io(), io()); ms.push((n.to_string(), a, b, doc(r))); }
        if ms.is_empty() { ms.push(("Get".into(), None, Some(names[0].clone()), None)); }
        services.push(PS { name: format!("{}{i}", r.pick(&["NewsService", "Svc"])), methods: ms });
    }
    let mut f = PFile { pkg, proto2, msgs, enums, services, text: String::new() };
    f.text = print(&f);
    f
}

fn print(f: &PFile) -> String {
    let d = |ind: &str, d: &Option<String>| d.as_ref().map(|d| d.lines().map(|l| format!("{ind}// {}\n", l.trim())).collect::<String>()).unwrap_or_default();
    let abs = |n: &str| if f.pkg.is_empty() { format!(".{n}") } else { format!(".{}.{n}", f.pkg) };
    let ty = |t: &PT| -> String { fn go(t: &PT, abs: &dyn Fn(&str) -> String) -> String { match t { PT::Scalar(s) => s.to_string(), PT::Msg(m) | PT::Enum(m) => abs(m), PT::Map(k, v) => format!("map<{k}, {}>", go(v, abs)) } } go(t, &abs) };
    let en = |e: &PE, ind: &str| format!("{}{ind}enum {} {{\n{}{ind}}}\n", d(ind, &e.doc), e.name, e.values.iter().enumerate().map(|(i, (v, dd))| format!("{}{ind}  {v} = {i};\n", d(&format!("{ind}  "), dd))).collect::<String>());
    fn msg(m: &PM, ind: &str, d: &dyn Fn(&str, &Option<String>) -> String, ty: &dyn Fn(&PT) -> String, en: &dyn Fn(&PE, &str) -> String) -> String {
        let i2 = format!("{ind}  ");
        let mut s = format!("{}{ind}message {} {{\n", d(ind, &m.doc), m.name);
        for e in &m.enums { s += &en(e, &i2); }
        for n in &m.nested { s += &msg(n, &i2, d, ty, en); }
        let fl = |i: usize, f: &PF, ind: &str| format!("{}{ind}{}{}{} {} = {};\n", d(ind, &f.doc), f.label, if f.label.is_empty() { "" } else { " " }, ty(&f.ty), f.name, i + 1);
        for (i, f) in m.fields.iter().enumerate() { if f.oneof.is_none() { s += &fl(i, f, &i2); } }
        for o in 0..m.oneofs { s += &format!("{i2}oneof o{o} {{\n"); for (i, f) in m.fields.iter().enumerate() { if f.oneof == Some(o) { s += &fl(i, f, &format!("{i2}  ")); } } s += &format!("{i2}}}\n"); }
        s + &format!("{ind}}}\n")
    }
    let mut s = format!("syntax = \"{}\";\n{}import \"google/protobuf/empty.proto\";\n", if f.proto2 { "proto2" } else { "proto3" }, if f.pkg.is_empty() { String::new() } else { format!("package {};\n", f.pkg) });
    for e in &f.enums { s += &en(e, ""); }
    for m in &f.msgs { s += &msg(m, "", &d, &ty, &en); }
    for sv in &f.services {
        s += &format!("service {} {{\n", sv.name);
        for (n, i, o, dd) in &sv.methods { let io = |x: &Option<String>| x.as_ref().map(|x| abs(x)).unwrap_or(".google.protobuf.Empty".into()); s += &format!("{}  rpc {n}({}) returns ({});\n", d("  ", dd), io(i), io(o)); }
        s += "}\n";
    }
    s
}

struct Mem(String);
impl protox::file::FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<protox::file::File, protox::Error> {
        if name == "x.proto" { return protox::file::File::from_source(name, &self.0) }
        protox::file::GoogleFileResolver::new().open_file(name)
    }
}

fn find_msg<'a>(f: &'a PFile, n: &str) -> &'a PM { match n.split_once('.') { None => f.msgs.iter().find(|m| m.name == n).unwrap(), Some((a, b)) => f.msgs.iter().find(|m| m.name == a).unwrap().nested.iter().find(|m| m.name == b).unwrap() } }
fn find_enum<'a>(f: &'a PFile, n: &str) -> &'a PE {
    match n.rsplit_once('.') { None => f.enums.iter().find(|m| m.name == n).unwrap(), Some((a, b)) => find_msg(f, a).enums.iter().find(|m| m.name == b).unwrap() }
}
fn field_name(n: &str) -> String { FIELDS.iter().find(|x| x.0 == n).map(|x| x.1.to_string()).unwrap_or(n.to_string()) }
fn same_doc(got: &Option<String>, want: &Option<String>) -> bool { let n = |d: &Option<String>| d.as_ref().map(|d| d.lines().map(|l| l.trim()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n")); n(got) == n(want) }

/// Whether a message with alternatives (a `oneof` of several fields) can be part of an argument: these
/// are expanded into operations of their own, which is not what is judged here.
fn choice_in_input(f: &PFile) -> bool {
    let mut todo: Vec<String> = f.services.iter().flat_map(|s| s.methods.iter().filter_map(|m| m.1.clone())).collect();
    let mut seen = BTreeSet::new();
    while let Some(n) = todo.pop() {
        if !seen.insert(n.clone()) { continue }
        let m = find_msg(f, &n);
        if (0..m.oneofs).any(|o| m.fields.iter().filter(|x| x.oneof == Some(o)).count() > 1) { return true }
        fn go(t: &PT, todo: &mut Vec<String>) { match t { PT::Msg(m) => todo.push(m.clone()), PT::Map(_, v) => go(v, todo), _ => {} } }
        for x in &m.fields { go(&x.ty, &mut todo); }
    }
    false
}

/// The configuration's type stands for the message.
fn matches(f: &PFile, cfg: &Config, m: &PM, t: &str, seen: &mut BTreeSet<(String, String)>, bad: &mut Vec<(String, Value)>) {
    if !seen.insert((format!("{m:?}"), t.into())) { return }
    let plain: Vec<&PF> = m.fields.iter().filter(|f| f.oneof.is_none()).collect();
    // every combination of the choices
    let mut combos: Vec<Vec<(&PF, bool)>> = vec![plain.iter().map(|f| (*f, false)).collect()];
    for o in 0..m.oneofs {
        let of: Vec<&PF> = m.fields.iter().filter(|f| f.oneof == Some(o)).collect();
        let mut next = vec![];
        for c in &combos {
            if of.len() == 1 { let mut c = c.clone(); c.push((of[0], false)); next.push(c); continue }
            next.push(c.clone());
            for f in &of { let mut c = c.clone(); c.push((f, true)); next.push(c); }
        }
        combos = next;
    }
    // GraphQL has no types without fields: nothing stands for such an alternative
    if combos.len() > 1 { combos.retain(|c| !c.is_empty()); }
    let members: Vec<String> = match cfg.unions.get(t) { Some(u) => u.types.iter().cloned().collect(), None => vec![t.to_string()] };
    if members.len() != combos.len() { bad.push(("proto:alternatives".into(), json!({"message": m.name, "type": t, "members": members, "alternatives": combos.len()}))); return }
    for c in &combos {
        let want: BTreeSet<String> = c.iter().map(|(f, _)| field_name(&f.name)).collect();
        let Some(n) = members.iter().find(|n| cfg.types.get(*n).is_some_and(|t| t.fields.keys().cloned().collect::<BTreeSet<_>>() == want)) else { bad.push(("proto:message-fields".into(), json!({"message": m.name, "type": t, "members": members.iter().map(|m| json!({"type": m, "fields": cfg.types.get(m).map(|t| t.fields.keys().cloned().collect::<Vec<_>>())})).collect::<Vec<_>>(), "want": want}))); continue };
        let ty = &cfg.types[n];
        if combos.len() == 1 && !same_doc(&ty.doc, &m.doc) { bad.push(("proto:message-doc".into(), json!({"message": m.name, "got": ty.doc, "want": m.doc}))) }
        for (pf, required) in c {
            let fld = &ty.fields[&field_name(&pf.name)];
            let w = |x: Value| json!({"message": m.name, "field": pf.name, "type": format!("{:?}", fld.type_of), "detail": x});
            if !same_doc(&fld.doc, &pf.doc) { bad.push(("proto:field-doc".into(), w(json!({"got": fld.doc, "want": pf.doc})))) }
            if let PT::Map(..) = pf.ty { if format!("{:?}", fld.type_of) != "JSON" { bad.push(("proto:map".into(), w(Value::Null))) } continue }
            if fld.type_of.is_list() != (pf.label == "repeated") { bad.push(("proto:list".into(), w(Value::Null))) }
            if fld.type_of.is_nullable() == (pf.label == "required" || *required) { bad.push(("proto:required".into(), w(Value::Null))) }
            match &pf.ty {
                PT::Scalar(s) => { let want = SCALARS.iter().find(|x| x.0 == *s).unwrap().1; if fld.type_of.name() != want { bad.push(("proto:scalar".into(), w(json!(want)))) } }
                PT::Enum(e) => {
                    let e = find_enum(f, e);
                    match cfg.enums.get(fld.type_of.name()) { None => bad.push(("proto:enum-missing".into(), w(Value::Null))), Some(d) => {
                        let got: BTreeSet<String> = d.variants.iter().map(|v| v.name.lines().last().unwrap_or("").trim().to_string()).collect();
                        let want: BTreeSet<String> = e.values.iter().map(|v| v.0.clone()).collect();
                        if got != want { bad.push(("proto:enum-values".into(), w(json!({"got": got, "want": want})))) }
                        if !same_doc(&d.doc, &e.doc) { bad.push(("proto:enum-doc".into(), w(json!({"got": d.doc, "want": e.doc})))) }
                        for (v, dd) in &e.values { let Some(g) = d.variants.iter().find(|g| g.name.lines().last().unwrap_or("").trim() == v) else { continue }; if let Some(dd) = dd { if !dd.lines().all(|l| g.name.contains(l.trim())) { bad.push(("proto:value-doc".into(), w(json!({"got": g.name, "want": dd})))) } } }
                    } }
                }
                PT::Msg(n) => matches(f, cfg, find_msg(f, n), fld.type_of.name(), seen, bad),
                PT::Map(..) => {}
            }
        }
    }
}

/// Comments on the values of an enum are not taken for values.
fn value_docs(c: &C) {
    for (i, d) in ["about it", "two words"].iter().enumerate() {
        let text = format!("syntax = \"proto3\";\npackage p;\nenum K {{\n  // {d}\n  A = 0;\n  B = 1;\n}}\nmessage M {{\n  K k = 1;\n}}\nservice S {{\n  rpc Get(M) returns (M);\n}}\n");
        c.case(&("value-docs", i), true);
        let mut comp = protox::Compiler::with_file_resolver(Mem(text.clone()));
        comp.include_imports(true).include_source_info(true);
        if let Err(e) = comp.open_file("x.proto") { c.violation("harness:proto", json!({"error": format!("{e:?}"), "text": text})); continue }
        let input = Input::Proto { url: "http://grpc:50051".into(), metadata: tailcall::core::proto_reader::ProtoMetadata { descriptor_set: comp.file_descriptor_set(), path: "x.proto".into() }, connect_rpc: None };
        let o = Opts { preset: false, merge: 0.0, shake: false, infer: false, flat: false, renamed: false };
        match generate(vec![input], o) {
            Err(e) => c.violation("proto:failed", json!({"error": e, "proto": text})),
            Ok(m) => {
                let got = parse(&m.to_sdl()).map(|x| x.enums.values().flat_map(|e| e.variants.iter().map(|v| v.name.clone())).collect::<BTreeSet<_>>());
                c.check(got.as_ref().is_ok_and(|g| g.iter().eq(["A", "B"])), "proto:value-docs", || json!({"sdl": m.to_sdl(), "values when read back": format!("{got:?}"), "proto": text}));
            }
        }
    }
}

fn proto(c: &C) {
    value_docs(c);
    let rt = rt_paused();
    let mut r = c.rng("proto");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for i in 0..c.n(150, 4000) {
            let f = gen_file(&mut r);
            let connect = r.chance(1, 3);
            c.case(&(f.text.clone(), connect), true);
            let mut comp = protox::Compiler::with_file_resolver(Mem(f.text.clone()));
            comp.include_imports(true).include_source_info(true);
            if let Err(e) = comp.open_file("x.proto") { c.violation("harness:proto", json!({"error": format!("{e:?}"), "text": f.text})); continue }
            let set = comp.file_descriptor_set();
            let input = || Input::Proto { url: "http://grpc:50051".into(), metadata: tailcall::core::proto_reader::ProtoMetadata { descriptor_set: set.clone(), path: "x.proto".into() }, connect_rpc: Some(connect) };
            let w = || json!({"proto": f.text, "connectRPC": connect});
            let choice = choice_in_input(&f);
            let o = Opts { preset: r.bool() && !choice, merge: 0.0, shake: r.bool(), infer: false, flat: false, renamed: false };
            let m = match generate(vec![input()], o) { Ok(m) => m, Err(e) => { c.violation("proto:failed", json!({"error": e, "of": w()})); continue } };
            c.count("proto-configs", 1);
            let cfg = m.config();
            if i % 30 == 0 { c.sample(|| json!({"proto": f.text, "sdl": m.to_sdl()})); }
            check_names(c, cfg, &w);
            match generate(vec![input()], o) { Ok(m2) => { c.check(m2.to_sdl() == m.to_sdl(), "proto:not-deterministic", || json!({"first": m.to_sdl(), "second": m2.to_sdl(), "of": w()})); } Err(e) => c.violation("proto:not-deterministic", json!({"error": e, "of": w()})) }
            let ns: Vec<&str> = f.pkg.split('.').filter(|x| !x.is_empty()).collect();
            let q = cfg.types.get("Query").map(|t| t.fields.clone()).unwrap_or_default();
            let n = f.services.iter().map(|s| s.methods.len()).sum::<usize>();
            c.check(q.len() == n, "proto:methods", || json!({"want": n, "got": q.keys().cloned().collect::<Vec<_>>(), "of": w()}));
            for s in &f.services { for (mn, i, o, d) in &s.methods {
                let mut path = ns.clone(); path.push(&s.name);
                let name = format!("GEN__{}__{mn}", path.join("__"));
                let wd = |x: Value| json!({"service": s.name, "method": mn, "detail": x, "sdl": m.to_sdl(), "of": w()});
                let Some(fld) = q.get(&name) else { c.violation("proto:method-missing", wd(json!({"want": name, "got": q.keys().cloned().collect::<Vec<_>>()}))); continue };
                c.count("proto-methods", 1);
                c.check(same_doc(&fld.doc, d), "proto:method-doc", || wd(json!({"got": fld.doc, "want": d})));
                let full = format!("{}.{mn}", path.join("."));
                let (url, meth, body) = match fld.resolvers.0.as_slice() {
                    [Resolver::Grpc(g)] if !connect => (g.url.clone(), g.method.clone(), g.body.clone()),
                    [Resolver::Http(h)] if connect => {
                        c.check(h.headers.iter().any(|k| k.key == "Connect-Protocol-Version" && k.value == "1") && h.method == Method::POST, "proto:connect", || wd(json!({"headers": h.headers.len()})));
                        let (u, me) = h.url.rsplit_once('/').unwrap_or(("", "")); let (u, sv) = u.rsplit_once('/').unwrap_or(("", ""));
                        (u.to_string(), format!("{sv}.{me}"), h.body.clone().filter(|b| *b != json!({})))
                    }
                    x => { c.violation("proto:resolver", wd(json!(format!("{x:?}")))); continue }
                };
                c.check(url == "http://grpc:50051" && meth == full, "proto:target", || wd(json!({"url": url, "method": meth, "want": full})));
                let mut bad = vec![];
                match (i, fld.args.len()) {
                    (None, 0) => { c.check(body.is_none(), "proto:body", || wd(json!(body))); }
                    (Some(i), 1) => {
                        let (a, d) = fld.args.first().unwrap();
                        c.check(body == Some(json!(format!("{{{{.args.{a}}}}}"))), "proto:body", || wd(json!({"body": body, "argument": a})));
                        c.check(!d.type_of.is_nullable() && !d.type_of.is_list(), "proto:argument", || wd(json!(format!("{:?}", d.type_of))));
                        matches(&f, cfg, find_msg(&f, i), d.type_of.name(), &mut BTreeSet::new(), &mut bad);
                    }
                    _ => { c.violation("proto:arguments", wd(json!(fld.args.keys().cloned().collect::<Vec<_>>()))); }
                }
                match o { None => { c.check(fld.type_of.name() == "Empty", "proto:empty", || wd(json!(format!("{:?}", fld.type_of)))); } Some(o) => matches(&f, cfg, find_msg(&f, o), fld.type_of.name(), &mut BTreeSet::new(), &mut bad) }
                for (sig, x) in bad { c.violation(&sig, wd(x)); }
            } }
            // the configuration is one the gateway serves
            let mut rt = runtime(Upstream::new(|_| URes::json(json!({}))));
            rt.file = Arc::new(Files(std::sync::Mutex::new([("x.proto".to_string(), f.text.clone())].into_iter().collect())));
            let sdl = m.to_sdl();
            let cfg2 = match parse(&sdl) { Ok(x) => x, Err(e) => { c.violation("proto:unreadable", json!({"error": format!("{e:?}"), "sdl": sdl, "of": w()})); continue } };
            if f.pkg.is_empty() || choice { continue }
            let res = config::reader::ConfigReader::init(rt).resolve(cfg2, None).await;
            match res { Err(e) => c.violation("proto:unresolved", json!({"error": format!("{e:?}"), "sdl": sdl, "of": w()})), Ok(m2) => { if let Err(e) = blueprint(&m2) { c.violation("proto:invalid", json!({"error": format!("{e:?}"), "sdl": sdl, "of": w()})); } else { c.count("proto-served", 1); } } }
        }
    });
}
// ---- names -------------------------------------------------------------------------------

fn names(c: &C) {
    let mut r = c.rng("names");
    let seg = |r: &mut Rng| r.pick(&["a", "b", "foo", "news", "v1", "Foo", "userList"]).to_string();
    for _ in 0..c.n(3000, 100000) {
        let name = { let n = r.range(1, 3); let sep = *r.pick(&["_", ".", "_"]); (0..n).map(|_| seg(&mut r)).collect::<Vec<_>>().join(sep) };
        let name = if r.chance(1, 8) { r.pick(&["Int", "Date", "JSON", "Empty", "String", "Email", "ID"]).to_string() } else { name };
        let ns: Vec<String> = (0..r.below(4)).map(|_| match r.below(5) { 0 => format!("{}.{}", seg(&mut r), seg(&mut r)), 1 => "".into(), 2 => format!(" {} ", seg(&mut r)), _ => seg(&mut r) }).collect();
        c.case(&(&name, &ns), true);
        c.count("names", 1);
        let g = || { let split = ns.len() / 2; let mut g = GraphQLType::new(&name); for n in &ns[..split] { g = g.push(n); } g.extend(&ns[split..]) };
        let path: Vec<String> = ns.iter().flat_map(|n| n.split('.').map(|x| x.trim().to_string()).collect::<Vec<_>>()).filter(|x| !x.is_empty()).collect();
        let flat = name.replace('.', "_");
        let full = path.iter().cloned().chain([flat.clone()]).collect::<Vec<_>>().join("__");
        let pre = if Scalar::is_predefined(&flat) { "" } else { "GEN__" };
        let w = || json!({"name": name, "namespace": ns});
        let id = path.iter().cloned().chain([flat.clone()]).collect::<Vec<_>>().join(".");
        for (k, got, want) in [("enum", g().into_enum(), format!("{pre}{full}")), ("object", g().into_object_type(), format!("{pre}{full}")), ("method", g().into_method(), format!("GEN__{full}")), ("variant", g().into_enum_variant(), flat.clone())] {
            c.eq(&got.to_string(), &want, &format!("name:{k}"), w);
            c.eq(&got.id(), &id, &format!("id:{k}"), w);
        }
        let f = g().into_field();
        c.eq(&f.id(), &id, "id:field", w);
        let t = f.to_string();
        // a field's name: the same letters and digits in the same order, no separators, words start in upper case but for the first
        let letters = |s: &str| s.chars().filter(|c| c.is_alphanumeric()).flat_map(|c| c.to_lowercase()).collect::<String>();
        c.check(letters(&t) == letters(&name) && legal(&t) && !t.contains('_') && t.starts_with(|c: char| c.is_lowercase()), "name:field", || json!({"of": w(), "got": t}));
        if name.chars().all(|c| c.is_ascii_lowercase() || c == '_' || c == '.') { let want: String = name.split(['_', '.']).enumerate().map(|(i, s)| if i == 0 { s.to_string() } else { s[..1].to_uppercase() + &s[1..] }).collect(); c.eq(&t, &want, "name:camel", w); }
    }
}

// ---- kinds of values ---------------------------------------------------------------------

fn is_int(s: &str) -> bool { let d = s.strip_prefix(['+', '-']).unwrap_or(s); !d.is_empty() && d.len() < 30 && d.bytes().all(|b| b.is_ascii_digit()) && s.parse::<i128>().is_ok_and(|n| n >= i32::MIN as i128 && n <= i32::MAX as i128) }
fn is_float(s: &str) -> bool {
    let d = s.strip_prefix(['+', '-']).unwrap_or(s);
    let (m, e) = match d.find(['e', 'E']) { Some(i) => (&d[..i], Some(&d[i + 1..])), None => (d, None) };
    let digits = |x: &str| x.bytes().all(|b| b.is_ascii_digit());
    let mant = match m.split_once('.') { Some((a, b)) => digits(a) && digits(b) && !(a.is_empty() && b.is_empty()), None => !m.is_empty() && digits(m) };
    mant && e.is_none_or_(|e| { let e = e.strip_prefix(['+', '-']).unwrap_or(e); !e.is_empty() && digits(e) }) && s.parse::<f64>().is_ok_and(|x| x.is_finite())
}
trait NoneOr<T> { fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool; }
impl<T> NoneOr<T> for Option<T> { fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool { match self { None => true, Some(x) => f(x) } } }

fn detect(s: &str) -> &'static str {
    let s = s.trim();
    if is_int(s) { return "Int" } if is_float(s) { return "Float" } if s == "true" || s == "false" { return "Boolean" }
    if !s.contains(',') { return "String" }
    let all: BTreeSet<&str> = s.split(',').map(detect).collect();
    match all.into_iter().collect::<Vec<_>>().as_slice() { [x] => ["Int", "Float", "Boolean", "String"].into_iter().find(|y| y == x).unwrap(), ["Float", "Int"] => "Float", _ => "String" }
}

fn kinds(c: &C) {
    let mut r = c.rng("kinds");
    for _ in 0..c.n(6000, 200000) {
        let s = if r.chance(1, 4) { (0..r.range(2, 9)).map(|_| r.pick(&["1", "1", "2", "1.5", "true", "x", "", " 3"]).to_string()).collect::<Vec<_>>().join(",") } else if r.bool() { r.string(&["1", "0", "23", "-", "+", ".", "e", "E", ",", " ", "true", "a", "inf", "nan"], 6) } else { r.pick(&["2147483647", "2147483648", "-2147483648", "-2147483649", "1e308", "1e309", "infinity", "NaN", "True", "false", " 12 ", "1_000", "0x10", "١", "1,2,", ",", "true,false", "1,2.5", "1,x", "x,1", "99999999999999999999999999999999"]).to_string() };
        c.case(&("d", &s), true);
        c.count("texts", 1);
        c.eq(&detect_gql_data_type(&s).as_str(), &detect(&s), "kind:text", || json!(s));
        let n = r.string(&["a", "Z", "_", "0", "-", "é", " ", "\n", ".", "__"], 4);
        c.case(&("n", &n), true);
        let mut ch = n.chars();
        let want = ch.next().is_some_and(|c| c.is_ascii_alphabetic()) && ch.all(|c| c.is_ascii_alphanumeric() || c == '_');
        c.eq(&is_valid_field_name(&n), &want, "kind:field-name", || json!(n));
        let v = gen_json(&mut r, 2);
        let want = match &v { Value::Null => "JSON", Value::Bool(_) => "Boolean", Value::Number(_) => "Int", Value::String(_) => "String", Value::Array(_) => "List", Value::Object(_) => "Object" };
        c.eq(&to_gql_type(&v).as_str(), &want, "kind:value", || v.clone());
        c.eq(&is_primitive(&v), &!(v.is_array() || v.is_object()), "kind:primitive", || v.clone());
    }
}

// ---- counters ----------------------------------------------------------------------------

fn counters(c: &C) {
    let mut r = c.rng("counters");
    for _ in 0..c.n(20, 400) {
        let (threads, per, start) = (r.range(2, 8), r.range(50, 400), r.below(1000) as u64);
        c.case(&("counter", threads, per, start), true);
        let a: AtomicCounter<u64> = AtomicCounter::default();
        let mut all: Vec<u64> = vec![];
        let mut ordered = true;
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|_| s.spawn(|| (0..per).map(|_| a.next()).collect::<Vec<u64>>())).collect();
            for h in hs { let v = h.join().unwrap(); ordered &= v.windows(2).all(|w| w[0] < w[1]); all.extend(v); }
        });
        all.sort();
        c.count("shared-counts", all.len() as u64);
        let n = all.len() as u64;
        c.check(ordered && all.windows(2).all(|w| w[1] == w[0] + 1), "counter:shared", || json!({"threads": threads, "each": per, "got": all.len(), "distinct": all.iter().collect::<BTreeSet<_>>().len(), "first": all[0], "last": all[(n - 1) as usize]}));
        let b = Counter::new(start);
        let got: Vec<u64> = (0..per).map(|_| b.next()).collect();
        c.check(got.iter().enumerate().all(|(i, x)| *x == start + i as u64), "counter:local", || json!({"start": start, "got": got[..5.min(got.len())]}));
        let p = *r.pick(&["T", "GEN__", ""]);
        let g = NameGenerator::new(p);
        let got: Vec<String> = (0..per).map(|_| g.next()).collect();
        c.check(got.iter().collect::<BTreeSet<_>>().len() == per && got.iter().all(|x| x.starts_with(p)), "counter:names", || json!({"prefix": p, "got": got[..5.min(got.len())]}));
    }
}
