//! C14: configurations survive printing and re-reading in every format.
use std::collections::{BTreeMap, BTreeSet};

use async_graphql::parser::types::{ConstDirective, TypeSystemDefinition};
use async_graphql::Positioned;
use indexmap::IndexMap;
use serde_json::{json, Map, Value};
use tailcall::core::config::verif::{to_const_directive, to_directive};
use tailcall::core::config::{self as cf, Arg, Config, Directive, Enum, Field, KeyValue, KeyValues, Resolver, ResolverSet, RuntimeConfig, Source, SourceError, Type as CType, URLQuery, Union, Variant};
use tailcall::core::directive::DirectiveCodec;
use tailcall::core::document::{print, print_directive};
use tailcall::core::http::Method;
use tailcall::core::json::JsonSchema;
use tailcall::core::Type;
use tailcall_valid::Validator;

use crate::common::*;

pub fn run(c: &C) {
    c.rule("one case = one configuration (or directive, or file name) written and read back in every form it has; non-trivial = it has resolvers, documents, defaults or settings; distinct by configuration");
    c.assume("type definitions have one written form (SDL); settings have three (SDL, JSON, YAML)");
    c.assume("object keys inside SDL literals are GraphQL names; input types are reachable from an argument and used only as input; an interface is implemented by a type");
    c.assume("descriptions of input types and their fields are compared without white space: the existing suite pins their being reflowed to lines of 80 columns; other descriptions are compared up to the indentation of lines, for the same reason");
    c.assume("explicitly written default values and absent ones are the same setting (verifySSL: true, batch.maxSize: 100)");
    c.section("codec", codec);
    c.section("settings", settings);
    c.section("schemas", schemas);
    c.section("raw-directives", raw);
    c.section("key-values", key_values);
    c.section("sources", sources);
    c.section("supporting", supporting);
    c.section("published", published);
    c.floor("codec", 300);
    c.floor("settings", 100);
    c.floor("schemas", 100);
    c.floor("directives-carried", 300);
    c.floor("docs-carried", 100);
    c.floor("sources", 200);
}

// ---------------------------------------------------------------- literals
/// A GraphQL string literal with every special character escaped.
fn qs(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o + "\""
}
fn lit(v: &Value) -> String {
    match v {
        Value::String(s) => qs(s),
        Value::Array(a) => format!("[{}]", a.iter().map(lit).collect::<Vec<_>>().join(", ")),
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {}", lit(v))).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
/// A literal that is to be written as an enum name.
const ENUM: &str = "\u{1}";
fn lit_e(v: &Value) -> String {
    match v {
        Value::String(s) if s.starts_with(ENUM) => s[1..].to_string(),
        Value::Array(a) => format!("[{}]", a.iter().map(lit_e).collect::<Vec<_>>().join(", ")),
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {}", lit_e(v))).collect::<Vec<_>>().join(", ")),
        v => lit(v),
    }
}
fn plain(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(s.trim_start_matches(ENUM)),
        Value::Array(a) => a.iter().map(plain).collect(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
        v => v.clone(),
    }
}
fn dir(name: &str, args: &[(&str, Value)]) -> String {
    if args.is_empty() { return format!("@{name}") }
    format!("@{name}({})", args.iter().map(|(k, v)| format!("{k}: {}", lit_e(v))).collect::<Vec<_>>().join(", "))
}
fn text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => "{{.args.id}}".into(),
        1 => "say \"hi\"".into(),
        2 => "back\\slash \\n".into(),
        3 => "two\nlines".into(),
        4 => "tab\there".into(),
        5 => "é漢字🎉".into(),
        6 => " padded ".into(),
        7 => String::new(),
        8 => "\"\"\"".into(),
        9 => "# not a comment, really".into(),
        10 => "{a: 1}".into(),
        11 => "true".into(),
        12 => "null".into(),
        13 => "12".into(),
        _ => r.string(&["a", "b", "-", "_", " ", ":", "1", "x y", "$", "@", "%20", "/", "'", ","], 6),
    }
}
fn doc(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "first line\nsecond line".into(),
        1 => "first\n\n  indented\nlast".into(),
        2 => "  leading blanks".into(),
        3 => "says \"quoted\"".into(),
        4 => "three \"\"\" quotes".into(),
        5 => "ends with a quote\"".into(),
        6 => "long ".repeat(40).trim_end().into(),
        7 => "é漢字🎉 ".repeat(20).trim_end().into(),
        8 => "back\\slash \\u0041".into(),
        9 => "trailing blank ".into(),
        10 => "    all\n    indented".into(),
        11 => "x\n".into(),
        _ => r.string(&["word ", "more ", "Doc", ".", "of", "#"], 12).trim().to_string() + "z",
    }
}
fn url(r: &mut Rng) -> String { r.pick(&["http://a.b/x", "http://a.b/{{.value.id}}?q=1", "http://h:80/é", "{{.vars.u}}/y", "http://a.b/\"q\""]).to_string() }
fn name(r: &mut Rng) -> String { r.pick(&["a", "userId", "_x", "B2", "type", "input", "query", "on", "enum", "__y", "null_", "fooBarBaz"]).to_string() }
fn body(r: &mut Rng, d: usize) -> Value {
    match r.below(if d == 0 { 6 } else { 9 }) {
        0 => json!(text(r)),
        1 => json!(r.range(0, 1 << 40) as i64 - 500),
        2 => json!((r.range(1, 4000) as f64) / 8.0),
        3 => json!(r.bool()),
        4 => json!("{{.args}}"),
        5 => Value::Null,
        6 | 7 => Value::Object((0..r.below(4)).map(|_| (name(r), body(r, d - 1))).collect()),
        _ => (0..r.below(4)).map(|_| body(r, d - 1)).collect(),
    }
}
fn some_body(r: &mut Rng) -> Value { loop { let b = body(r, 3); if !b.is_null() { return b } } }
fn kvs(r: &mut Rng) -> (Vec<KeyValue>, Value) {
    let v: Vec<(String, String)> = (0..r.range(1, 4)).map(|_| (text(r), text(r))).collect();
    (v.iter().map(|(k, v)| KeyValue { key: k.clone(), value: v.clone() }).collect(), v.iter().map(|(k, v)| json!({"key": k, "value": v})).collect())
}
fn strs(r: &mut Rng) -> Vec<String> { (0..r.range(1, 4)).map(|_| text(r)).collect() }
fn gen_schema(r: &mut Rng, d: usize) -> (JsonSchema, Value) {
    match r.below(if d == 0 { 5 } else { 9 }) {
        0 => (JsonSchema::Str, json!(format!("{ENUM}Str"))),
        1 => (JsonSchema::Num, json!(format!("{ENUM}Num"))),
        2 => (JsonSchema::Bool, json!(format!("{ENUM}Bool"))),
        3 => (JsonSchema::Any, json!("Any")),
        4 => (JsonSchema::Empty, json!("Empty")),
        5 => { let (s, v) = gen_schema(r, d - 1); (JsonSchema::Arr(Box::new(s)), json!({ "Arr": v })) }
        6 => { let (s, v) = gen_schema(r, d - 1); (JsonSchema::Opt(Box::new(s)), json!({ "Opt": v })) }
        7 => { let v: BTreeSet<String> = strs(r).into_iter().collect(); (JsonSchema::Enum(v.clone()), json!({ "Enum": v })) }
        _ => { let f: BTreeMap<String, (JsonSchema, Value)> = (0..r.range(0, 3)).map(|_| (name(r), gen_schema(r, d - 1))).collect();
            (JsonSchema::Obj(f.iter().map(|(k, v)| (k.clone(), v.0.clone())).collect()), json!({ "Obj": f.into_iter().map(|(k, v)| (k, v.1)).collect::<Map<_, _>>() })) }
    }
}

// ---------------------------------------------------------------- directives
type Args = Vec<(&'static str, Value)>;
fn method(r: &mut Rng) -> (Method, &'static str) {
    r.pick(&[(Method::GET, "GET"), (Method::POST, "POST"), (Method::PUT, "PUT"), (Method::PATCH, "PATCH"), (Method::DELETE, "DELETE"), (Method::HEAD, "HEAD"), (Method::OPTIONS, "OPTIONS"), (Method::CONNECT, "CONNECT"), (Method::TRACE, "TRACE")]).clone()
}
fn http(r: &mut Rng) -> (cf::Http, Args) {
    let u = url(r);
    let mut h = cf::Http { url: u.clone(), ..Default::default() };
    let mut a: Args = vec![("url", json!(u))];
    if r.chance(1, 3) { let s = name(r); h.on_request = Some(s.clone()); a.push(("onRequest", json!(s))) }
    if r.chance(1, 3) { let b = some_body(r); h.body = Some(b.clone()); a.push(("body", b)) }
    if r.chance(1, 3) { let f = r.bool(); h.encoding = if f { cf::Encoding::ApplicationXWwwFormUrlencoded } else { cf::Encoding::ApplicationJson }; a.push(("encoding", json!(format!("{ENUM}{}", if f { "ApplicationXWwwFormUrlencoded" } else { "ApplicationJson" })))) }
    if r.chance(1, 3) { let k = strs(r); h.batch_key = k.clone(); a.push(("batchKey", json!(k))) }
    if r.chance(1, 3) { let (k, v) = kvs(r); h.headers = k; a.push(("headers", v)) }
    if r.chance(1, 5) { let (s, v) = gen_schema(r, 2); h.input = Some(s); a.push(("input", v)) }
    if r.chance(1, 5) { let (s, v) = gen_schema(r, 2); h.output = Some(s); a.push(("output", v)) }
    if r.chance(1, 2) { let (m, n) = method(r); h.method = m; a.push(("method", json!(format!("{ENUM}{n}")))) }
    if r.chance(1, 3) {
        let q: Vec<(String, String, Option<bool>)> = (0..r.range(1, 3)).map(|_| (text(r), text(r), *r.pick(&[None, Some(true), Some(false)]))).collect();
        h.query = q.iter().map(|(k, v, s)| URLQuery { key: k.clone(), value: v.clone(), skip_empty: *s }).collect();
        a.push(("query", q.iter().map(|(k, v, s)| { let mut o = json!({"key": k, "value": v}); if let Some(s) = s { o["skipEmpty"] = json!(s) } o }).collect()));
    }
    if r.chance(1, 4) { let d = r.bool(); h.dedupe = Some(d); a.push(("dedupe", json!(d))) }
    if r.chance(1, 4) { let b = some_body(r); h.select = Some(b.clone()); a.push(("select", b)) }
    if r.chance(1, 4) { let s = name(r); h.on_response_body = Some(s.clone()); a.push(("onResponseBody", json!(s))) }
    (h, a)
}
fn grpc(r: &mut Rng) -> (cf::Grpc, Args) {
    let (u, m) = (url(r), "pkg.Svc.Method".to_string());
    let mut g = cf::Grpc { url: u.clone(), method: m.clone(), ..Default::default() };
    let mut a: Args = vec![("url", json!(u)), ("method", json!(m))];
    if r.chance(1, 3) { let b = some_body(r); g.body = Some(b.clone()); a.push(("body", b)) }
    if r.chance(1, 3) { let k = strs(r); g.batch_key = k.clone(); a.push(("batchKey", json!(k))) }
    if r.chance(1, 3) { let (k, v) = kvs(r); g.headers = k; a.push(("headers", v)) }
    if r.chance(1, 4) { let d = r.bool(); g.dedupe = Some(d); a.push(("dedupe", json!(d))) }
    if r.chance(1, 4) { let b = some_body(r); g.select = Some(b.clone()); a.push(("select", b)) }
    if r.chance(1, 4) { let s = name(r); g.on_response_body = Some(s.clone()); a.push(("onResponseBody", json!(s))) }
    (g, a)
}
fn graphql(r: &mut Rng) -> (cf::GraphQL, Args) {
    let (u, n) = (url(r), name(r));
    let mut g = cf::GraphQL { url: u.clone(), name: n.clone(), ..Default::default() };
    let mut a: Args = vec![("url", json!(u)), ("name", json!(n))];
    if r.chance(1, 3) { let (k, v) = kvs(r); g.args = Some(k); a.push(("args", v)) }
    if r.chance(1, 3) { let (k, v) = kvs(r); g.headers = k; a.push(("headers", v)) }
    if r.chance(1, 3) { let b = r.bool(); g.batch = b; a.push(("batch", json!(b))) }
    if r.chance(1, 3) { let b = r.bool(); g.dedupe = b; a.push(("dedupe", json!(b))) }
    (g, a)
}
fn call(r: &mut Rng) -> (cf::Call, Args) {
    let mut steps = vec![];
    let mut js = vec![];
    for _ in 0..r.range(1, 3) {
        let (mut s, mut j) = (cf::Step::default(), json!({}));
        let n = name(r);
        if r.chance(3, 4) { s.query = Some(n.clone()); j["query"] = json!(n) } else { s.mutation = Some(n.clone()); j["mutation"] = json!(n) }
        for _ in 0..r.below(3) { let (k, v) = (name(r), body(r, 2)); j["args"][&k] = v.clone(); s.args.insert(k, v); }
        steps.push(s); js.push(j);
    }
    let mut cl = cf::Call { steps, ..Default::default() };
    let mut a: Args = vec![("steps", json!(js))];
    if r.chance(1, 3) { let d = r.bool(); cl.dedupe = Some(d); a.push(("dedupe", json!(d))) }
    (cl, a)
}
fn expr(r: &mut Rng) -> (cf::Expr, Args) { let b = body(r, 3); (cf::Expr { body: b.clone() }, vec![("body", b)]) }
fn js(r: &mut Rng) -> (cf::JS, Args) { let n = name(r); (cf::JS { name: n.clone() }, vec![("name", json!(n))]) }
fn resolver(r: &mut Rng) -> (Resolver, &'static str, Args) {
    match r.below(6) {
        0 => { let (h, a) = grpc(r); (Resolver::Grpc(h), "grpc", a) }
        1 => { let (h, a) = graphql(r); (Resolver::Graphql(h), "graphQL", a) }
        2 => { let (h, a) = call(r); (Resolver::Call(h), "call", a) }
        3 => { let (h, a) = expr(r); (Resolver::Expr(h), "expr", a) }
        4 => { let (h, a) = js(r); (Resolver::Js(h), "js", a) }
        _ => { let (h, a) = http(r); (Resolver::Http(h), "http", a) }
    }
}
fn cache(r: &mut Rng) -> (cf::Cache, Args) { let n = r.range(1, 1 << 30) as u64; (cf::Cache { max_age: n.try_into().unwrap() }, vec![("maxAge", json!(n))]) }
fn modify(r: &mut Rng) -> (cf::Modify, Args) {
    let (mut m, mut a) = (cf::Modify { name: None, omit: None }, vec![]);
    if r.bool() { let n = name(r); m.name = Some(n.clone()); a.push(("name", json!(n))) }
    if r.bool() { let b = r.bool(); m.omit = Some(b); a.push(("omit", json!(b))) }
    (m, a)
}
fn protected(r: &mut Rng) -> (cf::Protected, Args) { if r.bool() { (cf::Protected { id: None }, vec![]) } else { let v = strs(r); (cf::Protected { id: Some(v.clone()) }, vec![("id", json!(v))]) } }
fn discriminate(r: &mut Rng) -> (cf::Discriminate, Args) { if r.bool() { (cf::Discriminate { field: None }, vec![]) } else { let v = name(r); (cf::Discriminate { field: Some(v.clone()) }, vec![("field", json!(v))]) } }
fn add_field(r: &mut Rng) -> (cf::AddField, Args) { let (n, p) = (name(r), strs(r)); (cf::AddField { name: n.clone(), path: p.clone() }, vec![("name", json!(n)), ("path", json!(p))]) }
fn alias(r: &mut Rng) -> (cf::Alias, Args) { let o: BTreeSet<String> = strs(r).into_iter().collect(); (cf::Alias { options: o.clone() }, vec![("options", json!(o))]) }
fn federation(r: &mut Rng) -> (Directive, String) {
    let n = *r.pick(&["key", "tag", "shareable", "inaccessible", "override", "external", "provides", "requires", "policy", "authenticated", "cost", "listSize", "composeDirective", "interfaceObject", "context", "fromContext", "extends", "requiresScope"]);
    let mut args: IndexMap<String, Value> = IndexMap::new();
    for _ in 0..r.below(4) { let k = name(r); let v = body(r, 2); if !v.is_null() { args.insert(k, v); } }
    let s = if args.is_empty() { format!("@{n}") } else { format!("@{n}({})", args.iter().map(|(k, v)| format!("{k}: {}", lit(v))).collect::<Vec<_>>().join(", ")) };
    (Directive { name: n.into(), arguments: args }, s)
}

/// The directive of `type X <dirs> {a: Int}` read by the parser.
fn parse_dirs(s: &str) -> Option<Vec<Positioned<ConstDirective>>> {
    let doc = async_graphql::parser::parse_schema(format!("type X {s} {{ a: Int }}")).ok()?;
    doc.definitions.into_iter().find_map(|d| match d { TypeSystemDefinition::Type(t) => Some(t.node.directives), _ => None })
}
fn one<T: DirectiveCodec + PartialEq + Clone + std::fmt::Debug>(c: &C, r: &mut Rng, nm: &str, strict: bool, t: T, args: &Args) {
    let src = dir(nm, args);
    let w = |what: &str| json!({ "directive": src, "step": what, "value": format!("{t:?}").chars().take(500).collect::<String>() });
    c.case(&format!("codec{src}"), !args.is_empty());
    c.count("codec", 1);
    c.eq(&T::directive_name(), &nm.to_string(), "codec:name", || w("directive_name"));
    c.eq(&T::trace_name(), &format!("@{nm}"), "codec:trace", || w("trace_name"));
    let Some(ds) = parse_dirs(&src) else { c.violation("codec:harness", w("does not parse")); return };
    let got = T::from_directive(&ds[0].node).to_result();
    if !c.check(got.as_ref().ok() == Some(&t), &format!("codec:read:{nm}"), || json!({ "w": w("read"), "got": format!("{got:?}").chars().take(500).collect::<String>() })) { return }
    // back to a directive, printed and parsed again
    let out = match guard(|| t.to_directive()) { Ok(d) => d, Err(p) => { c.violation("codec:panic", json!({ "w": w("to_directive"), "panic": p })); return } };
    c.eq(&out.name.node.to_string(), &nm.to_string(), "codec:written-name", || w("to_directive"));
    let back = T::from_directive(&out).to_result();
    c.check(back.as_ref().ok() == Some(&t), &format!("codec:write:{nm}"), || json!({ "w": w("to_directive"), "got": format!("{back:?}").chars().take(500).collect::<String>() }));
    let txt = print_directive(&out);
    let again = parse_dirs(&txt).and_then(|d| T::from_directive(&d[0].node).to_result().ok());
    c.check(again.as_ref() == Some(&t), &format!("codec:print:{nm}"), || json!({ "w": w("print"), "text": txt, "got": format!("{again:?}").chars().take(500).collect::<String>() }));
    // found among others, the first of its name
    let others = ["@other", "@deprecated(reason: \"x\")", "@zz(a: 1)"];
    let before = (0..r.below(3)).map(|i| others[i]).collect::<Vec<_>>().join(" ");
    let many = parse_dirs(&format!("{before} {src} @last")).unwrap_or_default();
    let f = T::from_directives(many.iter()).to_result();
    c.check(matches!(&f, Ok(Some(x)) if *x == t), &format!("codec:find:{nm}"), || w("from_directives"));
    let none = parse_dirs(&format!("{before} @last")).unwrap_or_default();
    c.check(matches!(T::from_directives(none.iter()).to_result(), Ok(None)), "codec:find-none", || w("from_directives without it"));
    // an argument it does not have, and arguments of a wrong kind
    if strict && !args.is_empty() {
        let bad = src[..src.len() - 1].to_string() + ", noSuchArgument: 1)";
        let e = parse_dirs(&bad).map(|d| T::from_directive(&d[0].node).to_result());
        c.check(matches!(e, Some(Err(_))), &format!("codec:unknown-argument:{nm}"), || json!({ "directive": bad }));
        if let Some(Err(e)) = e { c.check(e.as_vec().iter().any(|x| x.trace.iter().any(|t| t == &format!("@{nm}"))), "codec:unknown-argument-trace", || json!({ "error": format!("{e:?}") })); }
        c.count("codec-refused", 1);
    }
}
fn codec(c: &C) {
    let mut r = c.rng("s1");
    for _ in 0..c.n(60, 900) {
        macro_rules! go { ($f:ident, $n:literal, $s:literal) => {{ let (t, a) = $f(&mut r); one(c, &mut r, $n, $s, t, &a); }}; }
        go!(http, "http", true);
        go!(grpc, "grpc", true);
        go!(graphql, "graphQL", true);
        go!(call, "call", false);
        go!(expr, "expr", true);
        go!(js, "js", false);
        go!(cache, "cache", true);
        go!(modify, "modify", true);
        go!(protected, "protected", false);
        go!(discriminate, "discriminate", true);
        go!(add_field, "addField", true);
        go!(alias, "alias", false);
        one(c, &mut r, "omit", true, cf::Omit {}, &vec![]);
        let (res, n, a) = resolver(&mut r);
        let src = dir(n, &a);
        let ds = parse_dirs(&src).unwrap_or_default();
        let got = Resolver::from_directives(&ds).to_result();
        c.check(got.as_ref().ok() == Some(&ResolverSet(vec![res.clone()])), "codec:resolver", || json!({ "directive": src, "got": format!("{got:?}") }));
        let d = res.to_directive();
        c.check(d.as_ref().map(|d| d.name.node.to_string()) == Some(n.to_string()) && res.directive_name() == n, "codec:resolver-name", || json!({ "directive": src }));
        // serde form of a set of resolvers
        let set = ResolverSet((0..r.below(4)).map(|_| resolver(&mut r).0).collect());
        let j = serde_json::to_value(&set).unwrap();
        let back = if set.0.len() == 1 { serde_json::from_value::<ResolverSet>(j.clone()) } else { serde_json::from_value::<ResolverSet>(json!({ "resolvers": j })) };
        c.check(back.as_ref().ok() == Some(&set), "codec:resolver-set", || json!({ "json": j, "got": format!("{back:?}") }));
        let sp = json!({ "empty": {} });
        c.check(serde_json::from_value::<ResolverSet>(sp["empty"].clone()).is_ok_and(|s| s.0.is_empty()), "codec:resolver-set-empty", || sp.clone());
    }
}

// ---------------------------------------------------------------- settings
type Sets = Map<String, Value>;
fn put(r: &mut Rng, m: &mut Sets, k: &str, f: impl FnOnce(&mut Rng) -> Value) { if r.chance(1, 3) { let v = f(r); m.insert(k.into(), v); } }
fn e(s: &str) -> Value { json!(format!("{ENUM}{s}")) }
fn num(r: &mut Rng) -> Value { json!(*r.pick(&[1u64, 2, 5, 60, 1000, 65535, 1 << 31])) }
fn flag(r: &mut Rng) -> Value { json!(r.bool()) }
fn jt(r: &mut Rng) -> Value { json!(text(r)) }
fn js_strs(r: &mut Rng) -> Value { json!(strs(r)) }
fn js_kvs(r: &mut Rng) -> Value { kvs(r).1 }
fn server(r: &mut Rng) -> Sets {
    let mut m = Sets::new();
    for k in ["apolloTracing", "batchRequests", "introspection", "enableFederation", "pipelineFlush", "queryValidation", "responseValidation", "showcase"] { put(r, &mut m, k, flag) }
    put(r, &mut m, "globalResponseTimeout", |r| json!(r.range(0, 5000) as i64 - 10));
    put(r, &mut m, "hostname", jt);
    put(r, &mut m, "port", |r| json!(r.range(1, 65535)));
    put(r, &mut m, "workers", |r| json!(r.range(1, 64)));
    put(r, &mut m, "script", |r| json!({ "timeout": r.range(1, 900) }));
    put(r, &mut m, "vars", js_kvs);
    put(r, &mut m, "version", |r| e(*r.pick(&["HTTP1", "HTTP2"])));
    put(r, &mut m, "routes", |r| { let mut o = Sets::new(); put(r, &mut o, "status", jt); put(r, &mut o, "graphQL", jt); json!(o) });
    put(r, &mut m, "headers", |r| {
        let mut o = Sets::new();
        put(r, &mut o, "cacheControl", flag);
        put(r, &mut o, "setCookies", flag);
        put(r, &mut o, "custom", js_kvs);
        put(r, &mut o, "experimental", js_strs);
        put(r, &mut o, "cors", |r| {
            let mut q = Sets::new();
            put(r, &mut q, "allowCredentials", flag);
            put(r, &mut q, "allowPrivateNetwork", flag);
            for k in ["allowHeaders", "allowOrigins", "exposeHeaders", "vary"] { put(r, &mut q, k, |r| if r.chance(1, 6) { json!([]) } else { js_strs(r) }) }
            put(r, &mut q, "allowMethods", |r| (0..r.range(1, 3)).map(|_| e(method(r).1)).collect());
            put(r, &mut q, "maxAge", num);
            json!(q)
        });
        json!(o)
    });
    m
}
fn upstream(r: &mut Rng) -> Sets {
    let mut m = Sets::new();
    for k in ["connectTimeout", "httpCache", "keepAliveInterval", "keepAliveTimeout", "poolMaxIdlePerHost", "poolIdleTimeout", "tcpKeepAlive", "timeout"] { put(r, &mut m, k, num) }
    for k in ["http2Only", "keepAliveWhileIdle"] { put(r, &mut m, k, flag) }
    if r.chance(1, 5) { m.insert("verifySSL".into(), json!(false)); }
    put(r, &mut m, "onRequest", jt);
    put(r, &mut m, "userAgent", jt);
    put(r, &mut m, "allowedHeaders", |r| if r.chance(1, 6) { json!([]) } else { js_strs(r) });
    put(r, &mut m, "proxy", |r| json!({ "url": text(r) }));
    put(r, &mut m, "batch", |r| { let mut o = Sets::new(); put(r, &mut o, "delay", num); put(r, &mut o, "maxSize", num); put(r, &mut o, "headers", js_strs); json!(o) });
    m
}
fn link(r: &mut Rng) -> Sets {
    let mut m = Sets::new();
    put(r, &mut m, "id", jt);
    m.insert("src".into(), jt(r));
    put(r, &mut m, "type", |r| e(*r.pick(&["Config", "Protobuf", "Script", "Cert", "Key", "Operation", "Htpasswd", "Jwks", "Grpc"])));
    put(r, &mut m, "headers", js_kvs);
    put(r, &mut m, "meta", |r| some_body(r));
    put(r, &mut m, "proto_paths", js_strs);
    m
}
fn telemetry(r: &mut Rng) -> Sets {
    let mut m = Sets::new();
    put(r, &mut m, "requestHeaders", js_strs);
    if r.chance(3, 4) {
        let x = match r.below(4) {
            0 => { let mut o = Sets::new(); put(r, &mut o, "pretty", flag); json!({ "stdout": o }) }
            1 => { let mut o = Sets::new(); o.insert("url".into(), json!(url(r))); put(r, &mut o, "headers", js_kvs); json!({ "otlp": o }) }
            2 => { let mut o = Sets::new(); put(r, &mut o, "path", jt); put(r, &mut o, "format", |r| e(*r.pick(&["text", "protobuf"]))); json!({ "prometheus": o }) }
            _ => { let mut o = Sets::new(); o.insert("apiKey".into(), jt(r)); o.insert("graphRef".into(), jt(r)); for k in ["userVersion", "platform", "version"] { put(r, &mut o, k, jt) } json!({ "apollo": o }) }
        };
        m.insert("export".into(), x);
    }
    m
}
struct Set { server: Sets, upstream: Sets, telemetry: Sets, links: Vec<Sets> }
fn gen_set(r: &mut Rng) -> Set { Set { server: server(r), upstream: upstream(r), telemetry: if r.bool() { telemetry(r) } else { Sets::new() }, links: (0..r.below(4)).map(|_| link(r)).collect() } }
impl Set {
    fn json(&self) -> Value {
        let mut o = json!({});
        if !self.server.is_empty() { o["server"] = plain(&json!(self.server)) }
        if !self.upstream.is_empty() { o["upstream"] = plain(&json!(self.upstream)) }
        if !self.telemetry.is_empty() { o["telemetry"] = plain(&json!(self.telemetry)) }
        if !self.links.is_empty() { o["links"] = self.links.iter().map(|l| plain(&json!(l))).collect() }
        o
    }
    fn dirs(&self, r: &mut Rng) -> String {
        let one = |n: &str, m: &Sets| if m.is_empty() { format!("@{n}") } else { format!("@{n}({})", m.iter().map(|(k, v)| format!("{k}: {}", lit_e(v))).collect::<Vec<_>>().join(", ")) };
        let mut v = vec![];
        if !self.server.is_empty() || r.bool() { v.push(one("server", &self.server)) }
        if !self.upstream.is_empty() || r.bool() { v.push(one("upstream", &self.upstream)) }
        if !self.telemetry.is_empty() { v.push(one("telemetry", &self.telemetry)) }
        v.extend(self.links.iter().map(|l| one("link", l)));
        v.join(" ")
    }
}
fn b(m: &Sets, k: &str, d: bool) -> bool { m.get(k).and_then(|v| v.as_bool()).unwrap_or(d) }
fn u(m: &Sets, k: &str, d: u64) -> u64 { m.get(k).and_then(|v| v.as_u64()).unwrap_or(d) }
fn s(m: &Value, k: &str, d: &str) -> String { m.get(k).and_then(|v| v.as_str()).unwrap_or(d).to_string() }
fn set_of(v: Option<&Value>) -> BTreeSet<String> { v.and_then(|v| v.as_array()).map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default() }
fn pairs(v: Option<&Value>) -> Vec<(String, String)> { v.and_then(|v| v.as_array()).map(|a| a.iter().map(|x| (s(x, "key", ""), s(x, "value", ""))).collect()).unwrap_or_default() }

/// What the settings mean, in the model and as read.
fn model_meaning(t: &Set) -> Value {
    let (sv, up) = (&t.server, &t.upstream);
    let hd = sv.get("headers").cloned().unwrap_or(json!({}));
    let hm = hd.as_object().unwrap();
    let rt = sv.get("routes").cloned().unwrap_or(json!({}));
    let bt = up.get("batch").cloned().unwrap_or(json!({}));
    json!({
        "tracing": b(sv, "apolloTracing", false), "batching": b(sv, "batchRequests", false), "introspection": b(sv, "introspection", true), "federation": b(sv, "enableFederation", false),
        "flush": b(sv, "pipelineFlush", true), "qv": b(sv, "queryValidation", false), "rv": b(sv, "responseValidation", false), "showcase": b(sv, "showcase", false),
        "grt": sv.get("globalResponseTimeout").and_then(|v| v.as_i64()).unwrap_or(0), "host": sv.get("hostname").and_then(|v| v.as_str()).unwrap_or("127.0.0.1"), "port": u(sv, "port", 8000),
        "workers": sv.get("workers").cloned(), "version": sv.get("version").map(|v| plain(v)).unwrap_or(json!("HTTP1")), "vars": pairs(sv.get("vars")).into_iter().collect::<BTreeMap<_, _>>(),
        "status": s(&rt, "status", "/status"), "graphql": s(&rt, "graphQL", "/graphql"),
        "cc": b(hm, "cacheControl", false), "cookies": b(hm, "setCookies", false), "custom": pairs(hm.get("custom")), "exp": set_of(hm.get("experimental")),
        "vary": hm.get("cors").map(|c| c.get("vary").cloned().unwrap_or(json!(["origin", "access-control-request-method", "access-control-request-headers"]))),
        "origins": hm.get("cors").map(|c| c.get("allowOrigins").cloned().unwrap_or(json!([]))), "cors_age": hm.get("cors").and_then(|c| c.get("maxAge").cloned()),
        "allowed": set_of(up.get("allowedHeaders")), "connect": u(up, "connectTimeout", 60), "http_cache": u(up, "httpCache", 0), "kai": u(up, "keepAliveInterval", 60), "kat": u(up, "keepAliveTimeout", 60), "kaw": b(up, "keepAliveWhileIdle", false),
        "pmi": u(up, "poolMaxIdlePerHost", 60), "pit": u(up, "poolIdleTimeout", 60), "tcp": u(up, "tcpKeepAlive", 5), "timeout": u(up, "timeout", 60), "h2": b(up, "http2Only", false), "ssl": b(up, "verifySSL", true),
        "on": up.get("onRequest"), "agent": up.get("userAgent").and_then(|v| v.as_str()).unwrap_or("Tailcall/1.0"), "proxy": up.get("proxy").map(|p| s(p, "url", "")),
        "delay": u(bt.as_object().unwrap(), "delay", 0), "max": u(bt.as_object().unwrap(), "maxSize", 100), "bh": set_of(bt.get("headers")),
        "rh": t.telemetry.get("requestHeaders").cloned().unwrap_or(json!([])), "export": t.telemetry.get("export").map(|v| v.as_object().unwrap().keys().next().unwrap().clone()),
        "links": t.links.iter().map(|l| json!([l.get("id"), l["src"], l.get("type").map(plain).unwrap_or(json!("Config")), pairs(l.get("headers")), l.get("meta"), l.get("proto_paths")])).collect::<Vec<_>>(),
    })
}
fn real_meaning(k: &Config) -> Value {
    let (sv, up) = (&k.server, &k.upstream);
    let hd = sv.headers.clone().unwrap_or_default();
    json!({
        "tracing": sv.enable_apollo_tracing(), "batching": sv.enable_batch_requests(), "introspection": sv.enable_introspection(), "federation": sv.get_enable_federation(),
        "flush": sv.get_pipeline_flush(), "qv": sv.enable_query_validation(), "rv": sv.enable_http_validation(), "showcase": sv.enable_showcase(),
        "grt": sv.get_global_response_timeout(), "host": sv.get_hostname(), "port": sv.get_port(), "workers": sv.workers, "version": serde_json::to_value(sv.clone().get_version()).unwrap(), "vars": sv.get_vars(),
        "status": sv.get_routes().status(), "graphql": sv.get_routes().graphql(),
        "cc": sv.enable_cache_control(), "cookies": sv.enable_set_cookies(), "custom": sv.get_response_headers(), "exp": sv.get_experimental_headers(),
        "vary": hd.cors.as_ref().map(|c| c.vary.clone()), "origins": hd.cors.as_ref().map(|c| c.allow_origins.clone()), "cors_age": hd.cors.as_ref().and_then(|c| c.max_age),
        "allowed": up.get_allowed_headers(), "connect": up.get_connect_timeout(), "http_cache": up.get_http_cache_size(), "kai": up.get_keep_alive_interval(), "kat": up.get_keep_alive_timeout(), "kaw": up.get_keep_alive_while_idle(),
        "pmi": up.get_pool_max_idle_per_host(), "pit": up.get_pool_idle_timeout(), "tcp": up.get_tcp_keep_alive(), "timeout": up.get_timeout(), "h2": up.get_http_2_only(), "ssl": up.get_verify_ssl(),
        "on": up.get_on_request(), "agent": up.get_user_agent(), "proxy": up.proxy.as_ref().map(|p| p.url.clone()),
        "delay": up.get_delay(), "max": up.get_max_size(), "bh": up.batch.as_ref().map(|b| b.headers.clone()).unwrap_or_default(),
        "rh": k.telemetry.request_headers, "export": k.telemetry.export.as_ref().map(|x| match x { cf::TelemetryExporter::Stdout(_) => "stdout", cf::TelemetryExporter::Otlp(_) => "otlp", cf::TelemetryExporter::Prometheus(_) => "prometheus", cf::TelemetryExporter::Apollo(_) => "apollo" }),
        "links": k.links.iter().map(|l| json!([l.id, l.src, l.type_of.to_string(), l.headers.clone().unwrap_or_default().iter().map(|h| (h.key.clone(), h.value.clone())).collect::<Vec<_>>(), l.meta, l.proto_paths])).collect::<Vec<_>>(),
    })
}
fn diff(a: &Value, b: &Value) -> Value {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.iter().filter(|(k, v)| y.get(*k) != Some(v)).map(|(k, v)| (k.clone(), json!([v, y.get(k)]))).collect::<Map<_, _>>().into(),
        _ => json!([a, b]),
    }
}
fn settings(c: &C) {
    let mut r = c.rng("s2");
    for _ in 0..c.n(250, 5000) {
        let t = gen_set(&mut r);
        let j = t.json();
        c.case(&format!("set{j}"), j != json!({}));
        c.count("settings", 1);
        let sdl = format!("schema {} {{ query: Query }}\ntype Query {{ a: Int }}\n", t.dirs(&mut r));
        let read = [
            ("sdl", Config::from_source(Source::GraphQL, &sdl).map_err(|e| e.to_string())),
            ("json", Config::from_source(Source::Json, &j.to_string()).map_err(|e| e.to_string())),
            ("pretty-json", Config::from_source(Source::Json, &serde_json::to_string_pretty(&j).unwrap()).map_err(|e| e.to_string())),
            ("yaml", Config::from_source(Source::Yml, &serde_yaml_ng::to_string(&j).unwrap()).map_err(|e| e.to_string())),
        ];
        let want = model_meaning(&t);
        let mut first: Option<RuntimeConfig> = None;
        for (how, k) in read {
            let k = match k { Ok(k) => k, Err(e) => { c.violation(&format!("settings:refused:{how}"), json!({ "settings": j, "sdl": sdl, "error": e })); continue } };
            let got = real_meaning(&k);
            c.check(got == want, &format!("settings:meaning:{how}"), || json!({ "settings": j, "differs": diff(&want, &got) }));
            let rc = RuntimeConfig { server: k.server, upstream: k.upstream, links: k.links, telemetry: k.telemetry };
            match &first { None => first = Some(rc), Some(f) => { c.check(*f == rc, &format!("settings:formats-differ:{how}"), || json!({ "settings": j, "sdl": format!("{f:?}"), how: format!("{rc:?}") })); } }
        }
        let Some(rc) = first else { continue };
        // written in every form and read again
        for (how, txt, back) in [
            ("json", rc.to_json(false), Source::Json), ("pretty-json", rc.to_json(true), Source::Json), ("yaml", rc.to_yaml(), Source::Yml),
        ] {
            let txt = match txt { Ok(t) => t, Err(e) => { c.violation("settings:unwritable", json!({ "how": how, "error": e.to_string(), "settings": j })); continue } };
            let again = RuntimeConfig::from_source(back, &txt);
            c.check(again.as_ref().is_ok_and(|a| *a == rc), &format!("settings:rewrite:{how}"), || json!({ "settings": j, "text": txt, "got": format!("{again:?}").chars().take(1500).collect::<String>(), "want": format!("{rc:?}").chars().take(1500).collect::<String>() }));
        }
        let k = Config::from(rc.clone()).query("Query").types(vec![("Query", CType::default().fields(vec![("a", Field::int())]))]);
        round(c, &k, "settings:print", &json!({ "settings": j }));
        c.sample(|| json!({ "settings": j }));
    }
    // a setting that does not exist is refused in every form
    for k in ["server", "upstream", "telemetry"] {
        let sdl = format!("schema @{k}(noSuchSetting: 1) {{ query: Query }}\ntype Query {{ a: Int }}\n");
        c.check(Config::from_source(Source::GraphQL, &sdl).is_err(), "settings:unknown-accepted", || json!({ "sdl": sdl }));
        let j = json!({ k: { "noSuchSetting": 1 } });
        c.check(Config::from_source(Source::Json, &j.to_string()).is_err(), "settings:unknown-accepted", || j.clone());
        let y = serde_yaml_ng::to_string(&j).unwrap();
        c.check(Config::from_source(Source::Yml, &y).is_err(), "settings:unknown-accepted", || json!({ "yaml": y }));
        c.case(&k, true);
    }
}

/// Documents of inputs are reflowed when printed: compared without white space. Others are compared without indentation.
fn reflowed(mut k: Config) -> Config {
    let ins: Vec<String> = k.input_types().into_iter().collect();
    let f = |d: &mut Option<String>| if let Some(t) = d { t.retain(|c| !c.is_whitespace()) };
    for n in ins { if let Some(t) = k.types.get_mut(&n) { f(&mut t.doc); for x in t.fields.values_mut() { f(&mut x.doc) } } }
    let g = |d: &mut Option<String>| if let Some(t) = d { *t = t.split('\n').map(|l| l.trim_start()).collect::<Vec<_>>().join("\n") };
    for t in k.types.values_mut() { g(&mut t.doc); for x in t.fields.values_mut() { g(&mut x.doc) } }
    k
}
/// Printed, read, and printed again: the same configuration and the same text.
fn round(c: &C, k: &Config, sig: &str, w: &Value) -> bool {
    let before = k.clone();
    let sdl = match guard(|| k.to_sdl()) { Ok(s) => s, Err(p) => { c.violation(&format!("{sig}:panic"), json!({ "w": w, "panic": p })); return false } };
    c.check(*k == before && k.to_sdl() == sdl, &format!("{sig}:unstable"), || json!({ "w": w }));
    match Config::from_sdl(&sdl).to_result() {
        Err(e) => { c.violation(&format!("{sig}:unreadable"), json!({ "w": w, "error": e.to_string(), "sdl": sdl })); false }
        Ok(back) => {
            let part = |a: &Config, b: &Config| -> (String, Value) {
                if a.server != b.server { return ("server".into(), json!([format!("{:?}", a.server), format!("{:?}", b.server)])) }
                if a.upstream != b.upstream { return ("upstream".into(), json!([format!("{:?}", a.upstream), format!("{:?}", b.upstream)])) }
                if a.telemetry != b.telemetry { return ("telemetry".into(), json!([format!("{:?}", a.telemetry), format!("{:?}", b.telemetry)])) }
                if a.links != b.links { return ("links".into(), json!([format!("{:?}", a.links), format!("{:?}", b.links)])) }
                if a.schema != b.schema { return ("schema".into(), json!([format!("{:?}", a.schema), format!("{:?}", b.schema)])) }
                if a.enums != b.enums { return ("enums".into(), json!([format!("{:?}", a.enums), format!("{:?}", b.enums)])) }
                if a.unions != b.unions { return ("unions".into(), json!([format!("{:?}", a.unions), format!("{:?}", b.unions)])) }
                for (n, t) in &a.types {
                    let Some(o) = b.types.get(n) else { return ("type-lost".into(), json!(n)) };
                    if t == o { continue }
                    if t.doc != o.doc { return ("type-doc".into(), json!([n, t.doc, o.doc])) }
                    for (fname, f) in &t.fields {
                        let Some(g) = o.fields.get(fname) else { return ("field-lost".into(), json!([n, fname])) };
                        if f == g { continue }
                        let p = if f.type_of != g.type_of { "field-type" } else if f.doc != g.doc { "field-doc" } else if f.args != g.args { "args" } else if f.default_value != g.default_value { "default" } else if f.resolvers != g.resolvers { "resolvers" } else if f.directives != g.directives { "directives" } else if f.discriminate != g.discriminate { "discriminate" } else if f.modify != g.modify || f.omit != g.omit { "visibility" } else if f.protected != g.protected { "protected" } else { "cache" };
                        return (p.into(), json!([n, fname, format!("{f:?}").chars().take(1500).collect::<String>(), format!("{g:?}").chars().take(1500).collect::<String>()]));
                    }
                    return ("type".into(), json!([n, format!("{t:?}").chars().take(1500).collect::<String>(), format!("{o:?}").chars().take(1500).collect::<String>()]));
                }
                ("added".into(), json!(null))
            };
            let mut ok = true;
            let again = back.to_sdl();
            let (back, k) = (reflowed(back), reflowed(k.clone()));
            if back != k { let (p, d) = part(&k, &back); c.violation(&format!("{sig}:{p}"), json!({ "w": w, "differs": d, "sdl": sdl })); ok = false; }
            let lines = |s: &str| s.split('\n').map(|l| l.trim().to_string()).filter(|l| !l.is_empty()).collect::<Vec<_>>();
            ok &= c.check(lines(&again) == lines(&sdl), &format!("{sig}:not-idempotent"), || json!({ "first": sdl, "second": again }));
            ok
        }
    }
}

// ---------------------------------------------------------------- type definitions
fn ty(r: &mut Rng, names: &[String]) -> Type {
    let mut t = Type::Named { name: r.pick(names).clone(), non_null: r.chance(1, 3) };
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 3]) { t = Type::List { of_type: Box::new(t), non_null: r.chance(1, 3) } }
    t
}
fn ts(t: &Type) -> String { match t { Type::Named { name, non_null } => format!("{name}{}", if *non_null { "!" } else { "" }), Type::List { of_type, non_null } => format!("[{}]{}", ts(of_type), if *non_null { "!" } else { "" }) } }
fn odoc(c: &C, r: &mut Rng, ind: &str, s: &mut String) -> Option<String> {
    if !r.chance(1, 3) { return None }
    c.count("docs-carried", 1);
    let d = doc(r);
    s.push_str(&format!("{ind}{}\n", qs(&d)));
    Some(d)
}
fn gen_field(c: &C, r: &mut Rng, names: &[String], fname: &str, args_of: Option<&[String]>, out: &mut String) -> Field {
    let mut f = Field { ..Default::default() };
    f.doc = odoc(c, r, "  ", out);
    f.type_of = ty(r, names);
    let mut dirs: Vec<String> = vec![];
    let mut args = String::new();
    if let Some(ins) = args_of {
        for i in 0..*r.pick(&[0, 0, 1, 1, 2, 4]) {
            let mut a = Arg { type_of: ty(r, ins), ..Default::default() };
            let n = format!("{}{i}", name(r));
            let mut s = String::new();
            if r.chance(1, 4) { let d = doc(r); s.push_str(&qs(&d)); s.push(' '); a.doc = Some(d); }
            s.push_str(&format!("{n}: {}", ts(&a.type_of)));
            if r.chance(1, 3) { let v = body(r, 2); s.push_str(&format!(" = {}", lit(&v))); a.default_value = Some(v); }
            if r.chance(1, 8) { let (m, ma) = modify(r); s.push_str(&format!(" {}", dir("modify", &ma))); a.modify = Some(m); }
            args.push_str(&format!("{}{s}", if args.is_empty() { "" } else { ", " }));
            f.args.insert(n, a);
        }
        for _ in 0..*r.pick(&[0, 0, 1, 1, 2]) { let (x, n, a) = resolver(r); f.resolvers.0.push(x); dirs.push(dir(n, &a)); }
        if r.chance(1, 8) { let (x, a) = cache(r); f.cache = Some(x); dirs.push(dir("cache", &a)) }
        if r.chance(1, 8) { let (x, a) = discriminate(r); f.discriminate = Some(x); dirs.push(dir("discriminate", &a)) }
        if r.chance(1, 8) { f.omit = Some(cf::Omit {}); dirs.push("@omit".into()) }
        if r.chance(1, 8) { let (x, a) = protected(r); f.protected = Some(x); dirs.push(dir("protected", &a)) }
        for _ in 0..*r.pick(&[0, 0, 0, 1, 2]) { let (d, s) = federation(r); f.directives.push(d); dirs.push(s) }
    }
    if r.chance(1, 6) { let (x, a) = modify(r); f.modify = Some(x); dirs.push(dir("modify", &a)) }
    let mut dflt = String::new();
    if args_of.is_none() {
        if r.chance(1, 3) { let v = body(r, 2); dflt = format!(" = {}", lit(&v)); f.default_value = Some(v); }
        for _ in 0..*r.pick(&[0, 0, 0, 1]) { let (d, s) = federation(r); f.directives.push(d); dirs.push(s) }
    }
    for _ in &dirs { c.count("directives-carried", 1) }
    // unknown directives are not part of a configuration
    if r.chance(1, 10) { dirs.push("@unrelated(x: 1)".into()) }
    out.push_str(&format!("  {fname}{}: {}{dflt} {}\n", if args.is_empty() { String::new() } else { format!("({args})") }, ts(&f.type_of), dirs.join(" ")));
    f
}
fn gen_config(c: &C, r: &mut Rng) -> (Config, String) {
    let mut k = Config::default();
    let mut blocks: Vec<String> = vec![];
    let (nt, ni, nin, ne, nu, ns) = (r.range(1, 5), r.below(3), r.below(3), r.below(3), r.below(3), r.below(3));
    let list = |p: &str, n: usize| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>();
    let (objs, ifs, inputs, enums, unions, scalars) = (list("T", nt), list("I", ni), list("In", nin), list("E", ne), list("U", nu), list("S", ns));
    let prim: Vec<String> = ["Int", "String", "Float", "Boolean", "ID", "JSON", "Email", "Date"].iter().map(|s| s.to_string()).collect();
    let leaf: Vec<String> = prim.iter().chain(&enums).chain(&scalars).cloned().collect();
    let outn: Vec<String> = leaf.iter().chain(&objs).chain(&ifs).chain(&unions).cloned().collect();
    let inn: Vec<String> = leaf.iter().chain(&inputs).cloned().collect();
    for n in &ifs {
        let mut s = String::new();
        let mut t = CType { doc: odoc(c, r, "", &mut s), ..Default::default() };
        let mut dirs = vec![];
        if r.chance(1, 5) { let (x, a) = protected(r); t.protected = Some(x); dirs.push(dir("protected", &a)) }
        if r.chance(1, 5) { let (d, x) = federation(r); t.directives.push(d); dirs.push(x) }
        let up: BTreeSet<String> = if *n == "I1" && r.bool() { ["I0".to_string()].into() } else { BTreeSet::new() };
        s.push_str(&format!("interface {n} {}{} {{\n", if up.is_empty() { "" } else { "implements I0 " }, dirs.join(" ")));
        t.implements = up;
        for i in 0..r.range(1, 3) { let f = format!("{}{i}", name(r)); let x = gen_field(c, r, &outn, &f, Some(&inn), &mut s); t.fields.insert(f, x); }
        s.push_str("}\n");
        k.types.insert(n.clone(), t); blocks.push(s);
    }
    for n in objs.iter().chain(["Query".to_string()].iter()) {
        let mut s = String::new();
        let mut t = CType { doc: odoc(c, r, "", &mut s), ..Default::default() };
        let mut dirs = vec![];
        for _ in 0..*r.pick(&[0, 0, 0, 1, 2]) { let (x, nm, a) = resolver(r); t.resolvers.0.push(x); dirs.push(dir(nm, &a)) }
        if r.chance(1, 6) { let (x, a) = cache(r); t.cache = Some(x); dirs.push(dir("cache", &a)) }
        if r.chance(1, 6) { let (x, a) = protected(r); t.protected = Some(x); dirs.push(dir("protected", &a)) }
        for _ in 0..*r.pick(&[0, 0, 1, 2]) { let (x, a) = add_field(r); t.added_fields.push(x); dirs.push(dir("addField", &a)) }
        for _ in 0..*r.pick(&[0, 0, 1, 2]) { let (d, x) = federation(r); t.directives.push(d); dirs.push(x) }
        for _ in &dirs { c.count("directives-carried", 1) }
        if n == "T0" { t.implements = ifs.iter().cloned().collect(); } else if n != "Query" { t.implements = r.subset(&ifs, 1, 3).into_iter().collect(); }
        let imp = if t.implements.is_empty() { String::new() } else { format!("implements {} ", t.implements.iter().cloned().collect::<Vec<_>>().join(" & ")) };
        s.push_str(&format!("type {n} {imp}{} {{\n", dirs.join(" ")));
        for i in 0..r.range(1, 5) { let f = format!("{}{i}", name(r)); let x = gen_field(c, r, &outn, &f, Some(&inn), &mut s); t.fields.insert(f, x); }
        if n == "Query" && !inputs.is_empty() {
            // every input type is used by an argument
            let mut f = Field { type_of: Type::from("Int".to_string()), ..Default::default() };
            for i in &inputs { f.args.insert(format!("use{i}"), Arg { type_of: Type::from(i.clone()), ..Default::default() }); }
            s.push_str(&format!("  uses({}): Int\n", inputs.iter().map(|i| format!("use{i}: {i}")).collect::<Vec<_>>().join(" ")));
            t.fields.insert("uses".into(), f);
        }
        s.push_str("}\n");
        k.types.insert(n.clone(), t); blocks.push(s);
    }
    for n in &inputs {
        let mut s = String::new();
        let mut t = CType { doc: odoc(c, r, "", &mut s), ..Default::default() };
        let mut dirs = vec![];
        if r.chance(1, 6) { let (x, a) = protected(r); t.protected = Some(x); dirs.push(dir("protected", &a)) }
        s.push_str(&format!("input {n} {} {{\n", dirs.join(" ")));
        for i in 0..r.range(1, 4) { let f = format!("{}{i}", name(r)); let x = gen_field(c, r, &inn, &f, None, &mut s); t.fields.insert(f, x); }
        s.push_str("}\n");
        k.types.insert(n.clone(), t); blocks.push(s);
    }
    for n in &enums {
        let mut s = String::new();
        let d = odoc(c, r, "", &mut s);
        let mut vs = BTreeSet::new();
        s.push_str(&format!("enum {n} {{\n"));
        for i in 0..r.range(1, 4) {
            let nm = format!("V{i}");
            if r.chance(1, 3) { let (a, x) = alias(r); s.push_str(&format!("  {nm} {}\n", dir("alias", &x))); vs.insert(Variant { name: nm, alias: Some(a) }); } else { s.push_str(&format!("  {nm}\n")); vs.insert(Variant { name: nm, alias: None }); }
        }
        s.push_str("}\n");
        k.enums.insert(n.clone(), Enum { variants: vs, doc: d }); blocks.push(s);
    }
    for n in &unions {
        let mut s = String::new();
        let d = odoc(c, r, "", &mut s);
        let mut m = r.subset(&objs, 1, 2); if m.is_empty() { m.push(objs[0].clone()) }
        s.push_str(&format!("union {n} = {}\n", m.join(" | ")));
        k.unions.insert(n.clone(), Union { types: m.into_iter().collect(), doc: d }); blocks.push(s);
    }
    for n in &scalars { k.types.insert(n.clone(), CType::default()); blocks.push(format!("scalar {n}\n")); }
    let st = gen_set(r);
    k.schema.query = Some("Query".into());
    let muta = r.chance(1, 3);
    if muta { k.schema.mutation = Some("T0".into()) }
    r.shuffle(&mut blocks);
    let mut sdl = format!("schema {} {{\n  query: Query\n{}}}\n", st.dirs(r), if muta { "  mutation: T0\n" } else { "" });
    sdl.push_str(&blocks.join("\n"));
    let rc: RuntimeConfig = serde_json::from_value(st.json()).unwrap_or_default();
    (k.with_runtime_config(rc), sdl)
}
fn schemas(c: &C) {
    let mut r = c.rng("s3");
    for i in 0..c.n(260, 5000) {
        let (want, sdl) = gen_config(c, &mut r);
        c.case(&sdl, true);
        c.count("schemas", 1);
        if i < 3 { c.sample(|| json!({ "sdl": sdl })) }
        let got = match Config::from_sdl(&sdl).to_result() { Ok(g) => g, Err(e) => { c.violation("schemas:refused", json!({ "sdl": sdl, "error": e.to_string() })); continue } };
        if got != want {
            for (n, t) in &want.types { let o = got.types.get(n); if Some(t) != o {
                for (fname, f) in &t.fields { let g = o.and_then(|o| o.fields.get(fname)); if g != Some(f) { c.violation("schemas:read-field", json!({ "type": n, "field": fname, "want": format!("{f:?}"), "got": format!("{g:?}") })); } }
                c.violation("schemas:read", json!({ "type": n, "want": format!("{t:?}").chars().take(1000).collect::<String>(), "got": format!("{o:?}").chars().take(1000).collect::<String>() }));
            } }
            c.violation("schemas:read", json!({ "sdl": sdl, "want": format!("{:?} {:?}", want.enums, want.unions), "got": format!("{:?} {:?}", got.enums, got.unions) }));
            continue;
        }
        round(c, &got, "schemas:print", &json!({ "source": sdl }));
        // looking at a configuration does not change it
        let before = got.clone();
        let _ = (got.input_types(), got.output_types(), got.unused_types(), got.interfaces_types_map(), got.n_plus_one(), got.get_all_used_type_names());
        c.check(got == before, "schemas:altered", || json!({ "sdl": sdl }));
    }
}

// ---------------------------------------------------------------- raw directives
fn raw(c: &C) {
    let mut r = c.rng("s4");
    for _ in 0..c.n(400, 6000) {
        let (d, src) = federation(&mut r);
        c.case(&src, !d.arguments.is_empty());
        let Some(p) = parse_dirs(&src) else { c.violation("raw:harness", json!({ "src": src })); continue };
        let got = to_directive(p[0].node.clone()).to_result();
        c.check(got.as_ref().ok() == Some(&d), "raw:read", || json!({ "src": src, "got": format!("{got:?}") }));
        // order of arguments included
        c.check(got.as_ref().is_ok_and(|g| g.arguments.keys().eq(d.arguments.keys())), "raw:order", || json!({ "src": src }));
        let cd = to_const_directive(&d).to_result();
        let Ok(cd) = cd else { c.violation("raw:write", json!({ "src": src })); continue };
        c.check(cd.name.node.as_str() == d.name && cd.arguments.iter().map(|(k, _)| k.node.to_string()).eq(d.arguments.keys().cloned()), "raw:write-names", || json!({ "src": src }));
        let back = to_directive(cd.clone()).to_result();
        c.check(back.as_ref().ok() == Some(&d), "raw:round", || json!({ "src": src, "got": format!("{back:?}") }));
        let txt = print_directive(&cd);
        let again = parse_dirs(&txt).and_then(|p| to_directive(p[0].node.clone()).to_result().ok());
        c.check(again.as_ref() == Some(&d), "raw:print", || json!({ "src": src, "text": txt, "got": format!("{again:?}") }));
        let j = serde_json::to_string(&d).unwrap();
        let s: Result<Directive, _> = serde_json::from_str(&j);
        c.check(s.is_ok_and(|s| s == d), "raw:json", || json!({ "json": j }));
        c.count("raw-directives", 1);
    }
}

fn key_values(c: &C) {
    let mut r = c.rng("s5");
    for _ in 0..c.n(400, 6000) {
        let (k, j) = kvs(&mut r);
        c.case(&format!("kv{j}"), true);
        let want: BTreeMap<String, String> = k.iter().map(|x| (x.key.clone(), x.value.clone())).collect();
        let got: Result<KeyValues, _> = serde_json::from_value(j.clone());
        let Ok(got) = got else { c.violation("kv:read", j); continue };
        c.check(got.0 == want, "kv:read", || json!({ "in": j, "got": format!("{got:?}") }));
        let out = serde_json::to_value(&got).unwrap();
        let exp: Value = want.iter().map(|(k, v)| json!({ "key": k, "value": v })).collect();
        c.eq(&out, &exp, "kv:write", || json!({ "in": j }));
        let y = serde_yaml_ng::to_string(&got).unwrap();
        c.check(serde_yaml_ng::from_str::<KeyValues>(&y).is_ok_and(|b| b == got), "kv:yaml", || json!({ "yaml": y }));
        let b: KeyValues = k.iter().map(|x| (x.key.clone(), x.value.clone())).collect();
        c.check(b == got && want.iter().all(|(k, v)| b.get(k) == Some(v)), "kv:collect", || json!({ "in": j }));
        let q = URLQuery { key: text(&mut r), value: text(&mut r), skip_empty: *r.pick(&[None, Some(true), Some(false)]) };
        let qj = serde_json::to_value(&q).unwrap();
        let mut exp = json!({ "key": q.key, "value": q.value });
        if let Some(s) = q.skip_empty { exp["skipEmpty"] = json!(s) }
        c.eq(&qj, &exp, "kv:url-query", || json!({ "q": format!("{q:?}") }));
        c.check(serde_json::from_value::<URLQuery>(qj).is_ok_and(|b| b == q), "kv:url-query-read", || json!({ "q": format!("{q:?}") }));
        c.count("key-values", 1);
    }
}

// ---------------------------------------------------------------- file names
fn sources(c: &C) {
    let mut r = c.rng("s6");
    let known = [("json", "json"), ("yml", "yml"), ("yaml", "yml"), ("graphql", "graphql"), ("gql", "graphql")];
    let ext = |s: &Source| s.ext();
    for _ in 0..c.n(1200, 20000) {
        let stem = r.string(&["a", "b.", "x-y", "/", "dir/", "é", "json", "graphql.", " ", "http://h/", "..", "yml"], 4);
        let (e, want): (String, Option<&str>) = match r.below(10) {
            0 => ("txt".into(), None),
            1 => (r.pick(&["js", "proto", "md", "jsonc", "json5", "xyaml", "graphqls", "gq", "ym", "yaml2", "", "GQL ", "json~"]).to_string(), None),
            _ => { let (e, w) = *r.pick(&known); let s: String = e.chars().map(|ch| if r.chance(1, 4) { ch.to_ascii_uppercase() } else { ch }).collect(); (s, Some(w)) }
        };
        let n = format!("{stem}n.{e}");
        c.case(&n, true);
        c.count("sources", 1);
        let got = Source::detect(&n);
        c.eq(&got.as_ref().ok().map(ext), &want, "sources:detect", || json!({ "name": n, "got": format!("{got:?}") }));
        if want.is_none() { c.check(matches!(&got, Err(SourceError::UnsupportedFileFormat(x)) if *x == e), "sources:error", || json!({ "name": n, "got": format!("{got:?}") })); }
        let p: Result<Source, _> = e.parse();
        c.eq(&p.as_ref().ok().map(ext), &want, "sources:parse", || json!({ "ext": e }));
        if let Ok(s) = got {
            let m = format!("{stem}n.{}", s.ext());
            c.eq(&Source::detect(&m).ok().as_ref().map(ext), &Some(s.ext()), "sources:ext", || json!({ "name": m }));
            let shown = match s.ext() { "json" => "JSON", "yml" => "YML", _ => "GraphQL" };
            c.eq(&s.to_string(), &shown.to_string(), "sources:shown", || json!({ "name": n }));
        }
        // without an extension the name says nothing
        let bare = format!("{}x", stem.replace('.', ""));
        c.check(matches!(Source::detect(&bare), Err(SourceError::InvalidPath(p)) if p == bare), "sources:no-extension", || json!({ "name": bare }));
    }
}

// ---------------------------------------------------------------- supporting documents
fn supporting(c: &C) {
    let a = print(Config::graphql_schema());
    c.case(&"graphql-schema", true);
    c.check(a == print(Config::graphql_schema()), "supporting:unstable", || json!({}));
    match async_graphql::parser::parse_schema(&a) {
        Err(e) => c.violation("supporting:unreadable", json!({ "error": e.to_string(), "text": a.chars().take(2000).collect::<String>() })),
        Ok(doc) => {
            let names: BTreeSet<String> = doc.definitions.iter().filter_map(|d| match d { TypeSystemDefinition::Directive(d) => Some(d.node.name.node.to_string()), _ => None }).collect();
            for n in ["addField", "alias", "cache", "call", "discriminate", "expr", "graphQL", "grpc", "http", "js", "modify", "omit", "protected"] { c.check(names.contains(n), "supporting:missing", || json!({ "directive": n })); }
            let types: Vec<String> = doc.definitions.iter().filter_map(|d| match d { TypeSystemDefinition::Type(d) => Some(d.node.name.node.to_string()), _ => None }).collect();
            c.check(types.iter().collect::<BTreeSet<_>>().len() == types.len(), "supporting:duplicate", || json!({ "types": types }));
            c.count("supporting", 1);
        }
    }
}
/// The published schema is readable and reading a configuration to publish it leaves it alone.
fn published(c: &C) {
    let mut r = c.rng("s7");
    for _ in 0..c.n(60, 600) {
        let (k, _) = gen_config(c, &mut r);
        // keep what a gateway can publish: plain fields only
        let mut k = Config { server: Default::default(), upstream: Default::default(), links: vec![], telemetry: Default::default(), ..k };
        for t in k.types.values_mut() {
            t.resolvers = Default::default(); t.protected = None; t.added_fields.clear(); t.directives.clear(); t.implements.clear();
            for f in t.fields.values_mut() { f.resolvers = ResolverSet(vec![Resolver::Expr(cf::Expr { body: json!(null) })]); f.modify = None; f.omit = None; f.protected = None; f.directives.clear(); f.args.clear(); f.default_value = None; f.type_of = Type::from("String".to_string()); }
        }
        k.schema.mutation = None;
        let before = k.clone();
        let m = cf::ConfigModule::from(k.clone());
        let Ok(bp) = tailcall::core::blueprint::Blueprint::try_from(&m) else { c.count("unpublishable", 1); continue };
        c.check(m.config() == &before, "published:altered", || json!({ "sdl": before.to_sdl() }));
        let sdl = tailcall::core::print_schema::print_schema(bp.to_schema());
        c.case(&sdl, true);
        // (a description holding three quotes is written unescaped by the GraphQL library: see C26)
        if sdl.contains("three \"\"\"") { c.count("published-triple-quotes", 1); continue }
        let e = async_graphql::parser::parse_schema(&sdl).err();
        c.check(e.is_none(), "published:unreadable", || json!({ "sdl": sdl, "error": e.map(|e| e.to_string()) }));
        c.check(!sdl.contains("@expr") && !sdl.contains("directive @include") && !sdl.contains("directive @skip"), "published:internal", || json!({ "sdl": sdl }));
        c.count("published", 1);
    }
}
