// C21
//! C21: no request or upstream response crashes or hangs the gateway.
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::rest::{EndpointSet, Unchecked};
use tailcall::core::scalar::Scalar;
use tailcall::core::Mustache;

use crate::common::*;
use crate::mock::{self, Files, Res, UReq, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one client request (method, path, headers, body bytes) together with the answers of its upstreams, or one hostile call of a parser; non-trivial = some part of it is malformed; distinct by all of these");
    c.assume("a request answers in time when it completes within 10 s on an idle machine with upstreams that answer at once");
    c.section("client", client);
    c.section("upstream", upstream);
    c.section("rest", rest);
    c.section("nesting", nesting);
    c.section("parsers", parsers);
    c.section("wire", wire);
    for (k, n) in [("requests", 2500), ("malformed-bodies", 500), ("error-responses", 500), ("probes", 2000), ("malformed-answers", 300), ("rest-requests", 300), ("wire-connections", 60), ("child-requests", 20), ("parser-calls", 2000), ("concurrent-groups", 50)] { c.floor(k, n) }
}

// ---------------------------------------------------------------- the gateway under test
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub struct Kind { many: bool, cors: bool, batch: bool, valid: bool }

const PROTO: &str = r#"syntax = "proto3"; package p;
message Id { int32 id = 1; }
message Ids { repeated Id ids = 1; }
message Item { int32 id = 1; string name = 2; repeated Item kids = 3; map<string, int64> m = 4; oneof x { double d = 5; bytes b = 6; } }
message Thing { int32 id = 1; string name = 2; }
message Items { repeated Thing items = 1; }
service S { rpc Get (Id) returns (Item); rpc Many (Ids) returns (Items); }
"#;

fn sdl(k: Kind) -> String {
    let mut s = format!("schema @server(port: 8000, showcase: true, responseValidation: {}{}{}) @upstream(allowedHeaders: [\"x-a\"]{})\n  @link(id: \"p\", src: \"p.proto\", type: Protobuf) @link(id: \"h\", src: \"h\", type: Htpasswd)\n  @telemetry(export: {{prometheus: {{path: \"/metrics\"}}}}) {{ query: Query mutation: Mutation }}\n",
        k.valid, if k.many { ", batchRequests: true" } else { "" }, if k.cors { ", headers: {cors: {allowCredentials: true, allowOrigins: [\"https://a.test\"], allowMethods: [POST]}, setCookies: true, cacheControl: true, experimental: [\"x-up\"]}" } else { ", headers: {setCookies: true, cacheControl: true, experimental: [\"x-up\"]}" },
        if k.batch { ", batch: {delay: 1, maxSize: 50, headers: [\"x-a\"]}" } else { "" });
    s += r#"
enum E { A B }
input Inp { a: Int, s: String!, l: [Inp!], e: E }
type U { id: Int name: String! kids: [U!] e: E n: Node
  one: U @http(url: "http://up.test/u", query: [{key: "id", value: "{{.value.id}}"}], batchKey: ["id"])
  post: U @http(url: "http://up.test/post", method: POST, body: "{\"id\": \"{{.value.id}}\"}") }
interface Node { id: Int }
type NA implements Node { id: Int a: String }
type NB implements Node { id: Int b: [Int] }
union W = NA | NB
type G { id: Int name: String g(x: Int): G }
type D { v: Int d: D l: [D!] }
type Item { id: Int name: String kids: [Item] m: JSON d: Float b: String }
type Items { items: [Item] }
type Thing { id: Int name: String }
type Query {
  probe: Int @expr(body: 7)
  secret: Int @protected @expr(body: 8)
  u(id: Int!): U @http(url: "http://up.test/u", query: [{key: "id", value: "{{.args.id}}"}], batchKey: ["id"])
  us(ids: [Int!], f: Float, s: String, e: E, inp: Inp): [U!] @http(url: "http://up.test/us", query: [{key: "ids", value: "{{.args.ids}}"}, {key: "f", value: "{{.args.f}}"}, {key: "s", value: "{{.args.s}}"}, {key: "e", value: "{{.args.e}}"}])
  path(s: String!): String @http(url: "http://up.test/path/{{.args.s}}")
  host(s: String!): String @http(url: "{{.args.s}}")
  hosts(s: String!): U @http(url: "http://{{.args.s}}/", query: [{key: "id", value: "{{.args.s}}"}])
  head(s: String): JSON @http(url: "http://up.test/head", headers: [{key: "x-h", value: "{{.args.s}}"}])
  n: Node @http(url: "http://up.test/n")
  w: [W] @http(url: "http://up.test/w")
  wd: [W] @http(url: "http://up.test/wd") @discriminate(field: "type")
  raw: JSON @http(url: "http://up.test/raw")
  d: D @http(url: "http://up.test/d")
  g(id: Int!): G @graphQL(url: "http://up.test/gql", name: "g", args: [{key: "id", value: "{{.args.id}}"}])
  gb(id: Int!): G @graphQL(url: "http://up.test/gqlb", name: "gb", args: [{key: "id", value: "{{.args.id}}"}], batch: true)
  item(id: Int!): Item @grpc(url: "http://grpc.test", method: "p.S.Get", body: {id: "{{.args.id}}"})
  many(id: Int!): Thing! @grpc(url: "http://grpc.test", method: "p.S.Many", body: {ids: [{id: "{{.args.id}}"}]}, batchKey: ["items", "id"])
  dhost(s: String!): JSON @http(url: "{{.args.s}}", dedupe: true)
  chost(s: String!): JSON @http(url: "{{.args.s}}") @cache(maxAge: 5)
  cgrpc(s: String!): Item @grpc(url: "{{.args.s}}", method: "p.S.Get", body: {id: 1}) @cache(maxAge: 5)
  cgql(s: String!): G @graphQL(url: "{{.args.s}}", name: "g") @cache(maxAge: 5)
  cached: U @http(url: "http://up.test/cached") @cache(maxAge: 1)
  both: JSON @call(steps: [{query: "raw"}, {query: "path", args: {s: "{{.value.s}}"}}])
  sub: Int @http(url: "http://up.test/raw", select: "{{.a.b}}")
}
type Mutation { put(inp: Inp, id: Int = 3): U @http(url: "http://up.test/put", method: POST, body: "{{.args.inp}}") del(id: Int): Boolean @http(url: "http://up.test/del", method: DELETE, query: [{key: "id", value: "{{.args.id}}"}]) }
"#;
    if !k.batch { s = s.replace("}], batchKey: [\"id\"]", "}, {key: \"single\", value: \"1\"}]").replace("Thing! @grpc", "Item! @grpc").replace("method: \"p.S.Many\", body: {ids: [{id: \"{{.args.id}}\"}]}", "method: \"p.S.Get\", body: {id: \"{{.args.id}}\"}").replace(", batchKey: [\"items\", \"id\"]", "").replace(", batch: true)", ")"); }
    s
}

const OPS: &str = r#"
query r0($id: Int!) @rest(method: GET, path: "/u/$id") { u(id: $id) { id name } }
query r1($s: String, $f: Float, $b: Boolean!) @rest(method: GET, path: "/q/$b", query: {s: $s, f: $f}) { us(s: $s, f: $f) { id } probe @include(if: $b) }
mutation r2($inp: Inp) @rest(method: POST, path: "/m", body: $inp) { put(inp: $inp) { id name } }
mutation r3($inp: Inp, $id: Int) @rest(method: PUT, path: "/m/$id", body: $inp) { put(inp: $inp, id: $id) { id } }
query r4 @rest(method: GET, path: "/probe") { probe }
"#;

type Answers = Arc<dyn Fn(&UReq) -> URes + Send + Sync>;

pub struct Gw { app: Arc<AppContext>, up: Arc<Upstream>, answers: Arc<Mutex<Answers>> }

fn five(payload: &[u8]) -> Vec<u8> { let mut v = vec![0]; v.extend((payload.len() as u32).to_be_bytes()); v.extend(payload); v }

fn user(id: &str, mark: &str) -> Value { json!({"id": id.parse::<i64>().unwrap_or(1), "name": mark, "e": "A", "kids": [{"id": 2, "name": mark}], "n": {"id": 1, "a": "x"}}) }

/// the answers of well-behaved upstreams, which carry the mark of the request they answer
fn good(u: &UReq) -> URes {
    let mark = u.header("x-a").unwrap_or("none").to_string();
    match (u.url.host_str().unwrap_or(""), u.path()) {
        (_, "/u") => { let ids = u.qs("id"); URes::json(if ids.len() == 1 && u.q("single").is_some() { user(&ids[0], &mark) } else { Value::Array(ids.iter().map(|i| user(i, &mark)).collect()) }) }
        (_, "/us") => URes::json(json!([user("1", &mark)])),
        (_, "/w") => URes::json(json!([{"id": 1, "a": mark}, {"id": 2, "b": [1]}])),
        (_, "/wd") => URes::json(json!([{"id": 1, "a": mark, "type": "NA"}, {"id": 2, "b": [1], "type": "NB"}])),
        (_, "/n") => URes::json(json!({"id": 1, "a": mark})),
        (_, "/raw") => URes::json(json!({"a": {"b": 3}, "s": mark, "l": [1, null, "x"]})),
        (_, "/d") => URes::json(json!({"v": 1, "d": {"v": 2, "l": [{"v": 3}]}})),
        (_, "/gql") => URes::json(json!({"data": {"g": {"id": 1, "name": mark, "g": {"id": 2}}}})),
        (_, "/gqlb") => { let n = u.body_json().as_array().map(|a| a.len()).unwrap_or(0); if n == 0 { URes::json(json!({"data": {"gb": {"id": 1, "name": mark}}})) } else { URes::json(Value::Array((0..n).map(|_| json!({"data": {"gb": {"id": 1, "name": mark}}})).collect())) } }
        ("grpc.test", "/p.S/Get") => URes::bytes(five(b"\x08\x05\x12\x01x")),
        ("grpc.test", "/p.S/Many") => URes::bytes(five(b"\x0a\x05\x08\x05\x12\x01x\x0a\x02\x08\x01")),
        (_, "/put") | (_, "/post") | (_, "/cached") => URes::json(user("3", if u.path() == "/cached" { "c" } else { &mark })),
        (_, "/del") => URes::json(json!(true)),
        (_, "/head") => URes::json(json!({"h": u.header("x-h")})),
        _ => URes::json(json!("text")),
    }
}

fn build(k: Kind) -> Result<Gw, String> {
    let answers: Arc<Mutex<Answers>> = Arc::new(Mutex::new(Arc::new(good)));
    let a2 = answers.clone();
    let up = Upstream::new(move |u| { let f = a2.lock().unwrap().clone(); f(u) });
    let mut rt = mock::runtime(up.clone());
    let files = [("app.graphql", sdl(k)), ("p.proto", PROTO.to_string()), ("h", "bob:{PLAIN}pw\n".to_string())];
    rt.file = Arc::new(Files(Mutex::new(files.iter().map(|(a, b)| (a.to_string(), b.clone())).collect())));
    let rt2 = rt.clone();
    // a runtime of its own: reading doesn't depend on the one the requests run on
    let (bp, set) = std::thread::spawn(move || rt_single().block_on(async move {
        let m = ConfigReader::init(rt2.clone()).read("app.graphql").await.map_err(|e| format!("{e:#}"))?;
        let bp = Blueprint::try_from(&m).map_err(|e| format!("{e}"))?;
        let set = EndpointSet::<Unchecked>::try_new(OPS).map_err(|e| e.to_string())?.into_checked(&bp, rt2).await.map_err(|e| e.to_string())?;
        Ok::<_, String>((bp, set))
    })).join().map_err(|_| last_panic())??;
    Ok(Gw { app: Arc::new(AppContext::new(bp, rt, set)), up, answers })
}

// ---------------------------------------------------------------- requests
#[derive(Clone, Debug)]
struct Rq { method: String, uri: String, headers: Vec<(String, Vec<u8>)>, body: Vec<u8>, why: &'static str }

impl Rq {
    fn show(&self) -> Value { json!({"method": self.method, "uri": self.uri, "headers": self.headers.iter().map(|(k, v)| json!([k, String::from_utf8_lossy(v)])).collect::<Vec<_>>(), "body": clip(&self.body), "hostile": self.why}) }
    fn key(&self) -> u64 { h64(&(&self.method, &self.uri, &self.headers, &self.body)) }
    fn request(&self) -> Option<http::Request<hyper::Body>> {
        let mut b = http::Request::builder().method(self.method.as_str()).uri(self.uri.as_str());
        for (k, v) in &self.headers { b = b.header(k.as_str(), http::HeaderValue::from_bytes(v).ok()?); }
        b.body(hyper::Body::from(self.body.clone())).ok()
    }
}

fn clip(b: &[u8]) -> Value { let s = String::from_utf8_lossy(b); if s.len() > 1500 { json!(format!("{}… ({} bytes)", s.chars().take(1500).collect::<String>(), b.len())) } else if std::str::from_utf8(b).is_ok() { json!(s) } else { json!({"lossy": s, "hex": b.iter().map(|b| format!("{b:02x}")).collect::<String>()}) } }

const QUERIES: &[&str] = &[
    "{ probe }", "query($id: Int!) { u(id: $id) { id name kids { id one { id } } } }", "{ u(id: 1) { ...F } us(s: \"é\") { id } } fragment F on U { id n { id ... on NA { a } } }",
    "{ n { __typename id ... on NB { b } } w { ... on NA { a } } wd { __typename } }", "{ raw d { v d { v l { v } } } sub both }", "{ g(id: 1) { id g(x: 2) { name } } gb(id: 3) { id name } }",
    "{ item(id: 1) { id name kids { id } m d b } many(id: 5) { id name } }", "mutation M($inp: Inp!) { put(inp: $inp) { id post { name } } del(id: 2) }", "{ __schema { types { name fields { name } } } __type(name: \"U\") { name } }",
    "query A { probe } query B { raw }", "query($b: Boolean!) { probe @include(if: $b) raw @skip(if: $b) cached { id } }", "{ path(s: \"a/b\") host(s: \"http://up.test/x\") hosts(s: \"up.test\") { id } head(s: \"v\") }", "{ a: u(id: 1) { id } b: u(id: 2) { id post { id } } c: u(id: 9) { name } }", "{ secret probe }",
    "{ us(ids: [1, 2], f: 1.5e3, e: A, inp: {a: 1, s: \"x\", l: [{s: \"y\"}]}) { id } }",
];

const TOKENS: &[&str] = &["{", "}", "(", ")", "[", "]", ":", "!", "$", "@", "...", "on", "fragment", "query", "mutation", "subscription", "\"", "\"\"\"", "#", "|", "&", "=", "u", "U", "probe", "id", "F", "0", "-1", "1e400", "99999999999999999999", "1.", "null", "true", "$id", "@include(if: true)", "@skip(if: $x)", "@defer", "__typename", "__schema", "\\u0000", "\u{feff}", "\0", "é", "{{.args.id}}", "\n", ",", "\\", "'", "\"\\ud800\"", "\"\\x\"", "...F", "...on U", "@unknown(a: 1)"];

fn hostile_query(r: &mut Rng) -> String {
    let q = r.pick(QUERIES).to_string();
    match r.below(9) {
        0 => q,
        1 => { let mut t: Vec<String> = tokens(&q); let i = r.below(t.len()); t.remove(i); t.join(" ") }
        2 => { let mut t = tokens(&q); for _ in 0..r.range(1, 4) { let i = r.below(t.len() + 1); t.insert(i, r.pick(TOKENS).to_string()); } t.join(" ") }
        3 => { let mut t = tokens(&q); let i = r.below(t.len()); t[i] = r.pick(TOKENS).to_string(); t.join(" ") }
        4 => { let mut t = tokens(&q); let i = r.below(t.len()); let j = r.below(t.len()); t.swap(i, j); t.join(" ") }
        5 => { let c: Vec<char> = q.chars().collect(); c[..r.below(c.len())].iter().collect() }
        6 => (0..r.range(1, 25)).map(|_| *r.pick(TOKENS)).collect::<Vec<_>>().join(*r.pick(&[" ", ""])),
        7 => r.pick(&[
            "{ ...F } fragment F on Query { ...F }", "{ ...F } fragment F on Query { ...G } fragment G on Query { probe ...F }", "{ u(id: 1) { ...F } } fragment F on U { kids { ...F } }", "{ ...Missing }", "{ ...F }", "fragment F on Query { probe }", "query { probe } query { probe }", "query A { probe } query A { raw }", "subscription { probe }", "{ u(id: 1, id: 2) { id } }", "{ u { id } }", "{ u(id: \"x\") { id } }", "{ u(id: null) { id } }", "{ u(id: 99999999999999999999) { id } }", "{ u(id: 1.5) { id } }", "{ u(id: 1) }", "{ probe { x } }", "{ nope }", "{ us(inp: {}) { id } }", "{ us(inp: {s: 1, zz: 2}) { id } }", "{ us(e: C) { id } }", "{ us(ids: [[1]]) { id } }", "{ us(ids: 1) { id } }", "{ n { ... on U { id } } }", "{ ... on Query { probe } ... { raw } }", "query($v: Nope) { us(s: $v) { id } }", "query($v: [Int) { probe }", "query($v: Int = \"x\") { u(id: $v) { id } }", "query($v: Int!) { u(id: $v) { id } }", "{ probe @include }", "{ probe @include(if: 1) }", "{ probe @skip(if: $nope) }", "{ __type { name } }", "{ __type(name: 1) { name } }", "{ __nope }", "mutation { nope }", "mutation { put { id } }", "mutation { put(inp: null) { id } }", "", " ", "#", "{}", "{ }", "query", "\u{feff}{ probe }", "{ probe } trailing",
            "{ path(s: \"\") }", "{ path(s: \"../..\") }", "{ path(s: \"%zz?#&\\u0000\") }", "{ host(s: \"\") }", "{ host(s: \"not a url\") }", "{ host(s: \"http://\") }", "{ host(s: \"http://[::1\") }", "{ host(s: \"data:text/plain,x\") }", "{ host(s: \"http://a:99999/\") }", "{ hosts(s: \" \") { id } }", "{ hosts(s: \"\") { id } }", "{ hosts(s: \"a b\") { id } }", "{ head(s: \"a\\nb\") }", "{ head(s: \"\\u0000\") }", "{ head(s: \"é\") }", "{ head }", "{ both }", "{ a: host(s: \"http://[\") b: probe }", "{ dhost(s: \"not a url\") }", "{ chost(s: \"\") }", "{ chost(s: \"not a url\") }", "{ cgrpc(s: \"no url\") { id } }", "{ cgrpc(s: \"\") { id } }", "{ cgql(s: \"no url\") { id } }", "{ a: dhost(s: \"http://[\") b: dhost(s: \"http://[\") }",
        ]).to_string(),
        _ => { let n = r.range(1, 40); (0..n).map(|i| format!("a{i}: u(id: {}) {{ id }}", r.below(5))).collect::<Vec<_>>().join(" ").replace("a0:", "{ a0:") + " }" }
    }
}

fn tokens(q: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for ch in q.chars() {
        if ch.is_alphanumeric() || ch == '_' { cur.push(ch) } else {
            if !cur.is_empty() { out.push(std::mem::take(&mut cur)) }
            if !ch.is_whitespace() { out.push(ch.to_string()) }
        }
    }
    if !cur.is_empty() { out.push(cur) }
    if out.is_empty() { out.push("x".into()) }
    out
}

fn hostile_json(r: &mut Rng) -> Value {
    match r.below(9) { 0 => Value::Null, 1 => json!({}), 2 => json!([]), 3 => json!(r.below(9)), 4 => json!("x"), 5 => json!([[[1, {"a": null}]]]), 6 => json!({"id": hostile_leaf(r), "inp": hostile_leaf(r), "b": hostile_leaf(r)}), 7 => json!({"id": 1, "inp": {"s": "x", "l": [{"s": hostile_leaf(r)}]}, "b": true}), _ => gen_json(r, 3) }
}
fn hostile_leaf(r: &mut Rng) -> Value { match r.below(10) { 0 => Value::Null, 1 => json!(i64::MAX), 2 => json!(u64::MAX), 3 => json!(-1), 4 => json!(1.5e300), 5 => json!("é\u{0}\n"), 6 => json!([]), 7 => json!({"s": {"s": 1}}), 8 => json!(true), _ => json!("7") } }

/// bytes that are (mostly) no JSON
fn hostile_bytes(r: &mut Rng, valid: &[u8]) -> Vec<u8> {
    match r.below(13) {
        0 => vec![],
        1 => (0..r.range(1, 60)).map(|_| r.next() as u8).collect(),
        2 => valid[..r.below(valid.len().max(1))].to_vec(),
        3 => { let mut v = valid.to_vec(); if !v.is_empty() { for _ in 0..r.range(1, 3) { let i = r.below(v.len()); v[i] = r.next() as u8; } } v }
        4 => { let mut v = valid.to_vec(); let i = r.below(v.len() + 1); let junk: &[&[u8]] = &[b"\xff\xfe", b"\xc3\x28", b"\xed\xa0\x80", b"\0", b"\"", b"}", b"\\", b"\xf0\x9f"]; let j: &[u8] = *r.pick(junk); v.splice(i..i, j.iter().copied()); v }
        5 => { let mut v = b"\xef\xbb\xbf".to_vec(); v.extend(valid); v }
        6 => { let mut v = valid.to_vec(); v.extend_from_slice(*r.pick(&[&b"x"[..], b"}", b"{}", b"\0", b"\n\n", b",1"])); v }
        7 => r.pick(&["null", "true", "1e999", "-", "1e", "\"\\ud800\"", "\"\\u00", "[", "{", "{\"a\"", "{\"a\":1,}", "[1,]", "nul", "NaN", "{a:1}", "'x'", "\"", "\u{0}", "<html>no</html>", "01", "1.", ".5", "[1 2]", "{\"a\":1 \"b\":2}"]).as_bytes().to_vec(),
        8 => format!("{}{}", "[".repeat(90), "]".repeat(90)).into_bytes(),
        9 => format!("{}1{}", "{\"d\":".repeat(200), "}".repeat(200)).into_bytes(),
        10 => "123456789012345678901234567890.123456789e-300".into(),
        11 => br#"{"a":1,"a":2,"query":"{probe}","query":"{raw}"}"#.to_vec(),
        _ => vec![b' '; r.below(2000)],
    }
}

fn body(r: &mut Rng, many: bool) -> (Vec<u8>, &'static str, Option<&'static str>) {
    let one = |r: &mut Rng, q: String| -> Value {
        let mut o = json!({ "query": q });
        if r.bool() { o["variables"] = hostile_json(r) }
        if r.chance(1, 6) { o["operationName"] = match r.below(5) { 0 => json!("A"), 1 => json!("Nope"), 2 => json!(""), 3 => Value::Null, _ => json!(3) } }
        if r.chance(1, 8) { o["extensions"] = hostile_json(r) }
        o
    };
    match r.below(10) {
        0..=4 => { let q = hostile_query(r); let b = one(r, q); (b.to_string().into_bytes(), "query", None) }
        5 if many => { let n = r.below(6); let l: Vec<Value> = (0..n).map(|_| if r.chance(1, 4) { hostile_json(r) } else { let q = hostile_query(r); one(r, q) }).collect(); (Value::Array(l).to_string().into_bytes(), "batch", None) }
        5 | 6 => { let q = r.pick(QUERIES).to_string(); let v = one(r, q).to_string().into_bytes(); (hostile_bytes(r, &v), "bytes", None) }
        7 => { let q = hostile_query(r); let b = match r.below(5) { 0 => serde_json::to_vec(&q).unwrap(), 1 => hostile_bytes(r, q.as_bytes()), _ => q.into_bytes() }; (b, "graphql", Some("application/graphql")) }
        8 => { let b = match r.below(6) { 0 => json!({"query": hostile_json(r)}), 1 => json!({"query": "{probe}", "variables": hostile_leaf(r)}), 2 => json!({"variables": {}}), 3 => json!({"query": null}), 4 => hostile_json(r), _ => json!({"query": "{probe}", "operationName": hostile_json(r), "extensions": hostile_leaf(r)}) }; (b.to_string().into_bytes(), "shape", None) }
        _ => { let q = hostile_query(r); let s = one(r, q).to_string(); let b = match r.below(3) { 0 => s.replace("\"query\"", "\"\\u0071uery\""), 1 => s.replacen('{', "{\"x\":{\"y\":[]},", 1), _ => format!("\n\t {s} \r\n") }; (b.into_bytes(), "spelling", None) }
    }
}

fn headers(r: &mut Rng, mark: &str, ct: Option<&str>) -> Vec<(String, Vec<u8>)> {
    let mut h: Vec<(String, Vec<u8>)> = vec![("x-a".into(), mark.as_bytes().to_vec())];
    if let Some(ct) = ct { h.push(("content-type".into(), ct.into())) } else if r.chance(9, 10) { h.push(("content-type".into(), "application/json".into())) }
    if r.chance(1, 5) { h.push((r.pick(&["origin", "authorization", "cookie", "accept", "accept-encoding", "traceparent", "tracestate", "x-b", "access-control-request-method", "access-control-request-headers", "access-control-request-private-network", "content-length", "host", "if-none-match", "range"]).to_string(), hostile_header(r))) }
    if r.chance(1, 9) { h.push(("origin".into(), r.pick(&["https://tailcall.run", "https://a.test", "null", "", "http://localhost:3000"]).as_bytes().to_vec())) }
    if r.chance(1, 9) { h.push(("authorization".into(), r.pick(&["Basic", "Basic ", "Basic !!!", "Basic Ym9iOnB3", "Basic /w==", "Basic Ym9i", "Bearer", "Bearer x.y.z", "Bearer eyJhbGciOiJub25lIn0.e30.", "bearer", ":", "Basic Og=="]).as_bytes().to_vec())) }
    h
}
fn hostile_header(r: &mut Rng) -> Vec<u8> { match r.below(6) { 0 => vec![], 1 => vec![0xff, 0x80], 2 => b"a\tb".to_vec(), 3 => vec![b'x'; 5000], 4 => "é".as_bytes().to_vec(), _ => (0..r.range(1, 20)).map(|_| r.range(33, 126) as u8).collect() } }

// ---------------------------------------------------------------- the judge
fn errors_of(v: &Value) -> Option<Vec<Value>> { v.get("errors").and_then(|e| e.as_array()).cloned() }

/// What every GraphQL answer looks like. Ok(has errors)
fn answer_shape(v: &Value) -> Result<bool, String> {
    let o = v.as_object().ok_or("not an object")?;
    if !o.contains_key("data") && !o.contains_key("errors") { return Err("neither data nor errors".into()) }
    if let Some(d) = o.get("data") { if !d.is_object() && !d.is_null() { return Err("data isn't an object".into()) } }
    match o.get("errors") {
        None => Ok(false),
        Some(Value::Array(l)) => {
            for e in l { let m = e.get("message").and_then(|m| m.as_str()).ok_or("an error without a message")?; if m.trim().is_empty() { return Err("an error whose message is empty".into()) } }
            if l.is_empty() && o.get("data").map_or(true, |d| d.is_null()) { return Err("no data and no error".into()) }
            Ok(!l.is_empty())
        }
        Some(_) => Err("errors isn't a list".into()),
    }
}

enum Due { /// a GraphQL answer
    Gql, /// several
    Many, /// any JSON
    Json, /// anything
    Any }

struct Seen { res: Option<Res>, errors: bool }

async fn run_one(c: &C, gw: &Gw, rq: &Rq, due: Due, place: &str) -> Seen {
    let Some(req) = rq.request() else { return Seen { res: None, errors: false } };
    c.count("requests", 1);
    let before = PANICS.lock().unwrap().len();
    let app = gw.app.clone();
    let task = tokio::spawn(async move { mock::send_raw(&app, req).await });
    let abort = task.abort_handle();
    let out = tokio::time::timeout(Duration::from_secs(10), task).await;
    let show = |extra: Value| json!({"request": rq.show(), "upstream": gw.up.take().iter().map(|u| u.show()).collect::<Vec<_>>(), "detail": extra});
    let res = match out {
        Err(_) => { abort.abort(); c.violation(&format!("hang:{place}:{}", rq.why), show(json!("no answer within 10 s"))); return Seen { res: None, errors: false } }
        Ok(Err(e)) => { c.violation(&format!("panic:{place}:{}", panic_site()), show(json!(format!("{e} {}", last_panic())))); return Seen { res: None, errors: false } }
        Ok(Ok(Err(e))) => { c.violation(&format!("dropped:{place}:{}", short(&e)), show(json!({"the connection is closed without an answer": e}))); return Seen { res: None, errors: false } }
        Ok(Ok(Ok(res))) => res,
    };
    if PANICS.lock().unwrap().len() > before { c.violation(&format!("panic-aside:{place}:{}", panic_site()), show(json!({"panic": last_panic(), "answer": res.text()}))); }
    let mut errors = false;
    let j: Result<Value, _> = serde_json::from_slice(&res.body);
    let bad = match due {
        Due::Any => None,
        Due::Json | Due::Gql | Due::Many if j.is_err() => Some("not JSON".to_string()),
        Due::Json => None,
        Due::Gql => match answer_shape(j.as_ref().unwrap()) { Ok(e) => { errors = e; None } Err(e) => Some(e) },
        Due::Many => match j.as_ref().unwrap() {
            Value::Array(l) => { let mut b = None; for v in l { match answer_shape(v) { Ok(e) => errors |= e, Err(e) => b = Some(e) } } b }
            v => match answer_shape(v) { Ok(e) => { errors = e; None } Err(e) => Some(e) },
        },
    };
    if let Some(b) = bad { c.violation(&format!("answer:{place}:{b}"), show(json!({"status": res.status, "headers": res.headers, "answer": clip(&res.body)}))); }
    if matches!(due, Due::Gql | Due::Many) {
        c.check(res.header("content-type").is_some_and(|h| h.contains("json")), &format!("content-type:{place}"), || show(json!({"headers": res.headers})));
        c.check((200..600).contains(&res.status), &format!("status:{place}"), || show(json!(res.status)));
    }
    if errors { c.count("error-responses", 1) }
    Seen { res: Some(res), errors }
}

fn short(e: &str) -> String { e.chars().filter(|c| c.is_alphabetic() || *c == ' ').take(40).collect() }
fn panic_site() -> String { PANICS.lock().unwrap().last().map(|p| p.0.clone()).unwrap_or_default() }

async fn probe(c: &C, gw: &Gw, after: &Rq, place: &str) {
    *gw.answers.lock().unwrap() = Arc::new(good);
    c.count("probes", 1);
    let many = gw.app.blueprint.server.enable_batch_requests;
    let app = gw.app.clone();
    let full = h64(&after.key()) % 7 == 0;
    let q = if full { "{ probe u(id: 5) { id name } g(id: 1) { name } item(id: 5) { id name } raw }" } else { "{ probe }" };
    let want = if full { json!({"data": {"probe": 7, "u": {"id": 5, "name": "probe"}, "g": {"name": "probe"}, "item": {"id": 5, "name": "x"}, "raw": {"a": {"b": 3}, "s": "probe", "l": [1, null, "x"]}}}) } else { json!({"data": {"probe": 7}}) };
    let out = tokio::time::timeout(Duration::from_secs(10), tokio::spawn(async move { mock::send(&app, "POST", "/graphql", &[("content-type", "application/json"), ("x-a", "probe")], json!({ "query": q }).to_string()).await })).await;
    let _ = many;
    match out {
        Ok(Ok(Ok(res))) => { if std::env::var("C21_GOOD").is_ok() { eprintln!("{}", res.text()) } c.eq(&res.json(), &want, &format!("later-request:{place}"), || json!({"after": after.show(), "probe": q})); }
        other => c.violation(&format!("later-request:{place}:failed"), json!({"after": after.show(), "outcome": format!("{other:?}"), "panic": last_panic()})),
    }
    gw.up.take();
}

fn kinds() -> Vec<Kind> { vec![Kind { many: false, cors: false, batch: false, valid: false }, Kind { many: true, cors: false, batch: true, valid: false }, Kind { many: false, cors: true, batch: true, valid: true }, Kind { many: true, cors: true, batch: false, valid: false }] }

fn marks(text: &str) -> Vec<String> {
    let mut out = vec![];
    let mut rest = text;
    while let Some(i) = rest.find("mk-") { let t: String = rest[i + 3..].chars().take_while(|c| c.is_ascii_digit()).collect(); out.push(format!("mk-{t}")); rest = &rest[i + 3..]; }
    out
}

// ---------------------------------------------------------------- hostile clients
fn client(c: &C) {
    for k in kinds() {
        let gw = match build(k) { Ok(g) => g, Err(e) => { c.inconclusive(&format!("the gateway doesn't start: {e}")); return } };
        let rt = rt_single();
        let c2 = c.clone();
        rt.block_on(async move {
            let c = &c2;
            let mut r = c.rng(&format!("client{k:?}"));
            for i in 0..c.n(420, 9000) {
                if r.chance(1, 8) { group(c, &gw, &mut r, k).await; continue }
                let mark = format!("mk-{i}");
                let (rq, due) = request(&mut r, k, &mark);
                c.case(&(rq.key(), k), true);
                c.sample(|| rq.show());
                let seen = run_one(c, &gw, &rq, due, "client").await;
                if let Some(res) = &seen.res { judge_client(c, &gw, &rq, res, k, &mark) }
                gw.up.take();
                probe(c, &gw, &rq, "client").await;
            }
        });
    }
}

fn request(r: &mut Rng, k: Kind, mark: &str) -> (Rq, Due) {
    if r.chance(1, 7) {
        // other routes
        let method = r.pick(&["GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD", "PATCH", "TRACE", "CONNECT", "FOO"]).to_string();
        let uri = r.pick(&["/", "/graphql", "/status", "/graphql/", "//graphql", "/graphql?query={probe}", "/showcase/graphql", "/showcase/graphql?config=x", "/showcase/graphql?config=http%3A%2F%2Fup.test%2Fcfg.graphql", "/showcase/graphql?config[]=1&config[]=2", "/showcase/graphql?config[a]=1", "/showcase/graphql?config=http://[::1", "/showcase/graphql?config=file:///etc/passwd", "/showcase/graphql?%ff=%zz&config=%ff", "/metrics", "/metrics?x", "*", "/é", "/%00", "/%zz", "http://other.test/graphql", "/playground", "/api", "/api/", "/api/probe", "/apiary"]).to_string();
        let q = hostile_query(r);
        let why = if uri.starts_with("/showcase") { "showcase" } else { "route" };
        let due = if uri.starts_with("/showcase") && method == "POST" { if k.many { Due::Many } else { Due::Gql } } else if uri.starts_with("/graphql?") && method == "POST" { Due::Gql } else { Due::Any };
        let body = if r.bool() { json!({ "query": q }).to_string().into_bytes() } else { hostile_bytes(r, b"{\"query\":\"{probe}\"}") };
        return (Rq { method, uri, headers: headers(r, mark, None), body, why }, due);
    }
    let (body, why, ct) = body(r, k.many);
    let uri = if r.chance(1, 30) { "/graphql?x=%zz".to_string() } else { "/graphql".to_string() };
    (Rq { method: "POST".into(), uri, headers: headers(r, mark, ct), body, why }, if k.many { Due::Many } else { Due::Gql })
}

fn judge_client(c: &C, gw: &Gw, rq: &Rq, res: &Res, k: Kind, mark: &str) {
    let text = res.text();
    for m in marks(&text) { c.check(m == mark, "foreign-data:client", || json!({"request": rq.show(), "answer": text, "mark": m})); }
    let preflight = false;
    if rq.method != "POST" || !rq.uri.starts_with("/graphql") || rq.uri.starts_with("/graphql/") || preflight { return }
    let is_text = rq.headers.iter().any(|h| h.0 == "content-type" && h.1 == b"application/graphql");
    // what the gateway has to be able to read
    let parsed: Option<Vec<String>> = if is_text {
        let s = String::from_utf8_lossy(&rq.body).into_owned();
        Some(vec![match serde_json::from_slice::<String>(&rq.body) { Ok(s) => s, Err(_) => s }])
    } else {
        match serde_json::from_slice::<Value>(&rq.body) {
            Ok(Value::Array(l)) if k.many => Some(l.iter().map(|v| v["query"].as_str().unwrap_or("").to_string()).collect()),
            Ok(v @ Value::Object(_)) => Some(vec![v["query"].as_str().unwrap_or("").to_string()]),
            _ => None,
        }
    };
    let answers: Vec<Value> = match res.json() { Value::Array(l) => l, v => vec![v] };
    let with_errors = |v: &Value| errors_of(v).is_some_and(|e| !e.is_empty());
    match parsed {
        None => {
            c.count("malformed-bodies", 1);
            // duplicate keys are read one way or the other
            if serde_json::from_slice::<Value>(&rq.body).is_err() || !String::from_utf8_lossy(&rq.body).contains("probe") {
                c.check(answers.iter().all(|a| with_errors(a)), "malformed-not-reported", || json!({"request": rq.show(), "answer": text}));
                c.check(gw.up.seen() == 0, "malformed-executed", || json!({"request": rq.show(), "answer": text}));
            }
        }
        Some(qs) => {
            if qs.len() == answers.len() {
                for (q, a) in qs.iter().zip(&answers) {
                    match async_graphql::parser::parse_query(q) {
                        Err(_) if !q.contains('\u{fffd}') => { c.count("malformed-bodies", 1); c.check(with_errors(a) && a["data"].is_null(), "unparsable-query-not-reported", || json!({"request": rq.show(), "query": q, "answer": text})); }
                        // several operations need a name
                        Ok(d) if d.operations.iter().count() > 1 && !String::from_utf8_lossy(&rq.body).contains("operationName") => { c.check(with_errors(a), "ambiguous-operation-not-reported", || json!({"request": rq.show(), "answer": text})); }
                        _ => {}
                    }
                }
            }
            if is_text {
                // the text is the query: its answer is that of the query sent as JSON
                c.count("graphql-bodies", 1);
            }
        }
    }
}

/// Several clients at once, some of them hostile.
async fn group(c: &C, gw: &Gw, r: &mut Rng, k: Kind) {
    c.count("concurrent-groups", 1);
    let n = r.range(2, 5);
    let mut rqs = vec![];
    for _ in 0..n {
        let mark = format!("mk-{}", 1_000_000 + r.below(9_000_000));
        let rq = if k.valid || r.bool() { request(r, k, &mark) } else { (Rq { method: "POST".into(), uri: "/graphql".into(), headers: vec![("x-a".into(), mark.clone().into_bytes()), ("content-type".into(), b"application/json".to_vec())], body: json!({"query": "{ probe u(id: 5) { id name } us { name } }"}).to_string().into_bytes(), why: "good" }, Due::Gql) };
        rqs.push((rq, mark));
    }
    let futs = rqs.iter().map(|((rq, due), _)| { let due = match due { Due::Gql => Due::Gql, Due::Many => Due::Many, Due::Json => Due::Json, Due::Any => Due::Any }; run_one(c, gw, rq, due, "group") });
    let seen = futures_util::future::join_all(futs).await;
    for (((rq, _), mark), s) in rqs.iter().zip(&seen) {
        c.case(&rq.key(), rq.why != "good");
        let Some(res) = &s.res else { continue };
        let text = res.text();
        for m in marks(&text) { c.check(&m == mark, "foreign-data:group", || json!({"request": rq.show(), "answer": text, "mark": m})); }
        if rq.why == "good" { c.eq(&res.json(), &json!({"data": {"probe": 7, "u": {"id": 5, "name": mark}, "us": [{"name": mark}]}}), "disturbed-by-others", || json!({"others": rqs.iter().map(|((rq, _), _)| rq.show()).collect::<Vec<_>>()})); }
    }
    gw.up.take();
}

// ---------------------------------------------------------------- hostile upstreams
fn hostile_answer(r: &mut Rng, u: &UReq) -> URes {
    let ok = good(u);
    let mut res = match r.below(12) {
        0 => { let mut o = ok.clone(); o.body = hostile_bytes(r, &ok.body); o }
        1 => { let mut o = ok.clone(); o.body = hostile_bytes(r, &ok.body); o }
        2 => URes { status: r.range(100, 599) as u16, ..ok },
        3 => URes::fail(*r.pick(&["boom", "", "\n", "{\"a\":1}", "error with \"quotes\" and \u{0}"])),
        4 => URes::json(hostile_json(r)),
        5 => URes::json(json!({"data": hostile_json(r), "errors": hostile_json(r)})),
        6 => URes::json(json!({"errors": [hostile_json(r), {"message": hostile_leaf(r), "locations": hostile_json(r), "path": hostile_json(r), "extensions": hostile_json(r)}]})),
        7 => { let mut v: Value = serde_json::from_slice(&ok.body).unwrap_or(Value::Null); damage(r, &mut v); URes::json(v) }
        8 => URes::json(Value::Array((0..r.below(4)).map(|_| hostile_json(r)).collect())),
        9 => URes::bytes(five(&hostile_bytes(r, b"\x08\x05\x12\x01x"))),
        10 => { let mut o = ok; let b: Vec<u8> = { let n = r.below(12); (0..n).map(|_| r.next() as u8).collect() }; o = o.header("grpc-status", *r.pick(&["0", "1", "99", "x", "", "-1", "2147483648"])).header("grpc-message", &*String::from_utf8_lossy(&b).replace(|c: char| c.is_control(), "%00")).header("grpc-status-details-bin", *r.pick(&["", "!!", "CAMSDGVycm9y", "////", "CAM"])); o }
        _ => ok,
    };
    if r.chance(1, 3) {
        let (k, v) = *r.pick(&[("set-cookie", "a=b; path=/"), ("set-cookie", "\u{e9}"), ("cache-control", "max-age=99999999999999999999"), ("cache-control", "max-age=-1, private="), ("cache-control", ","), ("age", "x"), ("date", "yesterday"), ("content-type", "text/html; charset=\u{e9}"), ("x-up", ""), ("x-up", "\u{e9}"), ("content-length", "3"), ("expires", "0"), ("content-encoding", "gzip"), ("vary", "*"), ("location", "::")]);
        res = res.header(k, v);
    }
    res
}

/// good answers, and ones that can't be read at all
fn unreadable(r: &mut Rng, u: &UReq) -> URes {
    let ok = good(u);
    match r.below(6) {
        0 => { let mut o = ok.clone(); o.body = hostile_bytes(r, &ok.body); if u.url.host_str() == Some("grpc.test") || serde_json::from_slice::<Value>(&o.body).is_ok() { return ok } o }
        1 => URes { status: r.range(400, 599) as u16, ..ok },
        2 => URes::fail(*r.pick(&["boom", "", "\n", "{\"a\":1}", "error with \"quotes\" and \u{0}"])),
        _ => ok,
    }
}

fn damage(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Array(a) if !a.is_empty() && r.chance(4, 5) => { let i = r.below(a.len()); damage(r, &mut a[i]) }
        Value::Object(o) if !o.is_empty() && r.chance(4, 5) => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); if r.chance(1, 5) { o.remove(&k); } else { damage(r, o.get_mut(&k).unwrap()) } }
        v => *v = hostile_leaf(r),
    }
}

fn upstream(c: &C) {
    for k in kinds() {
        let gw = match build(k) { Ok(g) => g, Err(e) => { c.inconclusive(&format!("the gateway doesn't start: {e}")); return } };
        let rt = rt_single();
        let c2 = c.clone();
        rt.block_on(async move {
            let c = &c2;
            let mut r = c.rng(&format!("upstream{k:?}"));
            for i in 0..c.n(300, 7000) {
                let mark = format!("mk-{i}");
                let q = r.pick(QUERIES).to_string();
                let seed = Mutex::new(r.fork());
                // answers that can't be read, among good ones
                let plain = r.bool();
                let log: Arc<Mutex<Vec<(String, URes)>>> = Default::default();
                let l2 = log.clone();
                *gw.answers.lock().unwrap() = Arc::new(move |u| { let a = { let r = &mut *seed.lock().unwrap(); if plain { unreadable(r, u) } else { hostile_answer(r, u) } }; l2.lock().unwrap().push((u.url.to_string(), a.clone())); a });
                let rq = Rq { method: "POST".into(), uri: "/graphql".into(), headers: vec![("x-a".into(), mark.clone().into_bytes()), ("content-type".into(), b"application/json".to_vec())], body: json!({"query": q, "variables": {"id": 5, "b": r.bool(), "inp": {"s": "x"}}, "operationName": if q.contains("query A") { json!("B") } else { Value::Null }}).to_string().into_bytes(), why: "upstream" };
                let seen = run_one(c, &gw, &rq, Due::Gql, "upstream").await;
                let answers = log.lock().unwrap().clone();
                c.case(&(rq.key(), k, answers.iter().map(|a| (&a.0, &a.1.body, a.1.status, &a.1.headers)).collect::<Vec<_>>()), true);
                let show = || json!({"request": rq.show(), "answers": answers.iter().map(|(u, a)| json!({"to": u, "status": a.status, "headers": a.headers, "body": clip(&a.body), "fail": a.fail})).collect::<Vec<_>>(), "answer": seen.res.as_ref().map(|x| x.text())});
                c.sample(show);
                // what can't be read has to be reported
                let broken = answers.iter().filter(|(u, a)| {
                    let grpc = u.starts_with("http://grpc.test");
                    a.fail.is_some() || a.status >= 400 || (!grpc && a.status < 400 && !a.body.is_empty() && serde_json::from_slice::<Value>(&a.body).is_err())
                }).count();
                if broken > 0 && plain { c.count("malformed-answers", broken as u64); if seen.res.is_some() { c.check(seen.errors, "malformed-answer-not-reported", show); } }
                if let Some(res) = &seen.res { for m in marks(&res.text()) { c.check(m == mark, "foreign-data:upstream", show); } }
                gw.up.take();
                probe(c, &gw, &rq, "upstream").await;
            }
        });
    }
}

// ---------------------------------------------------------------- REST
fn rest(c: &C) {
    for k in kinds() {
        let gw = match build(k) { Ok(g) => g, Err(e) => { c.inconclusive(&format!("the gateway doesn't start: {e}")); return } };
        let rt = rt_single();
        let c2 = c.clone();
        rt.block_on(async move {
            let c = &c2;
            let mut r = c.rng(&format!("rest{k:?}"));
            for i in 0..c.n(150, 3000) {
                let mark = format!("mk-{i}");
                let seg = |r: &mut Rng| r.pick(&["1", "0", "-1", "x", "", "%31", "%ff", "%zz", "%2f", "%00", "99999999999999999999", "1.5", "true", "false", "NaN", "é", "+1", "%", "..", ".", "a%20b", "$id", "{{.args}}", "1;2", "~"]).to_string();
                let qs = |r: &mut Rng| { let n = r.below(4); let l: Vec<String> = (0..n).map(|_| format!("{}{}{}", r.pick(&["s", "f", "b", "id", "", "%73", "%ff", "s[]", "x"]), r.pick(&["=", "", "=="]), seg(r))).collect(); if l.is_empty() { r.pick(&["", "?"]).to_string() } else { format!("?{}", l.join(*r.pick(&["&", "&&", ";"]))) } };
                let (method, path) = match r.below(6) { 0 => ("GET", format!("/api/u/{}", seg(&mut r))), 1 => ("GET", format!("/api/q/{}", r.pick(&["true", "false", "x", "1"]))), 2 => ("POST", "/api/m".into()), 3 => ("PUT", format!("/api/m/{}", seg(&mut r))), 4 => ("GET", "/api/probe".into()), _ => (*r.pick(&["GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS"]), format!("/api{}{}", r.pick(&["", "/", "//", "/m/", "/u", "/q"]), seg(&mut r))) };
                let good_body = json!({"s": "x", "a": 1, "l": [{"s": "y"}]}).to_string();
                let body = match r.below(5) { 0 => good_body.clone().into_bytes(), 1 | 2 => hostile_bytes(&mut r, good_body.as_bytes()), 3 => hostile_json(&mut r).to_string().into_bytes(), _ => vec![] };
                let rq = Rq { method: method.into(), uri: format!("{path}{}", qs(&mut r)), headers: headers(&mut r, &mark, None), body, why: "rest" };
                if rq.request().is_none() { continue }
                if r.chance(1, 3) { let seed = Mutex::new(r.fork()); *gw.answers.lock().unwrap() = Arc::new(move |u| hostile_answer(&mut seed.lock().unwrap(), u)) }
                c.count("rest-requests", 1);
                c.case(&(rq.key(), k), true);
                let seen = run_one(c, &gw, &rq, Due::Any, "rest").await;
                if let Some(res) = &seen.res {
                    let show = || json!({"request": rq.show(), "status": res.status, "headers": res.headers, "answer": res.text()});
                    if !res.body.is_empty() { c.check(serde_json::from_slice::<Value>(&res.body).is_ok(), "answer:rest:not JSON", show); }
                    if res.status == 200 && rq.method != "OPTIONS" { c.check(!res.body.is_empty(), "answer:rest:empty", show); }
                    // a body that can't be read is an error that says so
                    if (rq.method == "POST" && path == "/api/m") && serde_json::from_slice::<Value>(&rq.body).is_err() {
                        c.count("rest-malformed", 1);
                        c.check(errors_of(&res.json()).is_some_and(|e| e.iter().any(|e| e["message"].as_str().is_some_and(|m| !m.trim().is_empty()))) && gw.up.seen() == 0, "rest-body-not-reported", show);
                    }
                    for m in marks(&res.text()) { c.check(m == mark, "foreign-data:rest", show); }
                }
                gw.up.take();
                probe(c, &gw, &rq, "rest").await;
            }
        });
    }
}

// ---------------------------------------------------------------- bytes on a real connection
fn wire(c: &C) {
    use std::io::Read;
    use std::net::TcpStream;
    std::env::set_var("TAILCALL_LOG_LEVEL", "error");
    // hostile upstream: raw sockets, the real client
    let lst = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let port = lst.local_addr().unwrap().port();
    let script: Arc<Mutex<(Vec<u8>, bool)>> = Default::default();
    let s2 = script.clone();
    std::thread::spawn(move || for s in lst.incoming() {
        let Ok(mut s) = s else { return };
        let (bytes, stall) = s2.lock().unwrap().clone();
        std::thread::spawn(move || {
            s.set_read_timeout(Some(Duration::from_secs(5))).ok();
            let mut buf = [0u8; 4096];
            let _ = s.read(&mut buf);
            let _ = s.write_all(&bytes);
            if stall { std::thread::sleep(Duration::from_secs(30)); }
        });
    });
    let front = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let gport = front.local_addr().unwrap().port();
    drop(front);
    let sdl = format!("schema @server(port: {gport}, hostname: \"127.0.0.1\", showcase: true) @upstream(timeout: 2, connectTimeout: 1) {{ query: Query }}\ntype U {{ id: Int name: String }}\ntype Query {{ probe: Int @expr(body: 7) u: U @http(url: \"http://127.0.0.1:{port}/u\") raw: JSON @http(url: \"http://127.0.0.1:{port}/raw\") closed: JSON @http(url: \"http://127.0.0.1:1/x\") }}");
    let m = match mock::module(&sdl) { Ok(m) => m, Err(e) => { c.inconclusive(&format!("{e:?}")); return } };
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = rt_multi(4);
        rt.block_on(async move {
            let mut s = tailcall::cli::server::Server::new(m);
            let up = s.server_up_receiver();
            let h = tokio::spawn(s.start());
            tx.send(tokio::time::timeout(Duration::from_secs(20), up).await.is_ok_and(|x| x.is_ok())).ok();
            let _ = h.await;
        });
    });
    if !rx.recv_timeout(Duration::from_secs(30)).unwrap_or(false) { c.inconclusive("the server doesn't start"); return }
    let talk = |bytes: &[u8], wait: u64, half: bool| -> Result<Vec<u8>, String> {
        let mut s = TcpStream::connect(("127.0.0.1", gport)).map_err(|e| e.to_string())?;
        s.set_read_timeout(Some(Duration::from_millis(wait))).ok();
        let _ = s.write_all(bytes);
        if half { s.shutdown(std::net::Shutdown::Write).ok(); }
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        loop { match s.read(&mut buf) { Ok(0) => break, Ok(n) => { out.extend_from_slice(&buf[..n]); if complete(&out) { break } } Err(_) => break } }
        Ok(out)
    };
    let post = |body: &[u8], extra: &str| { let mut v = format!("POST /graphql HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\n{extra}Content-Length: {}\r\n\r\n", body.len()).into_bytes(); v.extend(body); v };
    let probe = |why: &str, detail: Value| {
        let out = talk(&post(b"{\"query\":\"{ probe }\"}", ""), 5000, false).unwrap_or_default();
        let ok = head_body(&out).is_some_and(|(s, b)| s == 200 && serde_json::from_slice::<Value>(&b).ok() == Some(json!({"data": {"probe": 7}})));
        c.check(ok, &format!("later-request:wire:{why}"), || json!({"after": detail, "answer": clip(&out)}));
    };
    let mut r = c.rng("wire");
    let ok = post(b"{\"query\":\"{ probe }\"}", "");
    // client bytes
    for i in 0..c.n(56, 1200) {
        let (bytes, why): (Vec<u8>, &str) = match i % 14 {
            0 => (post(b"{\"query\":\"{ probe }\"}", ""), "good"),
            1 => ((0..r.range(1, 300)).map(|_| r.next() as u8).collect(), "noise"),
            2 => (ok[..r.below(ok.len())].to_vec(), "cut"),
            3 => (post(&hostile_bytes(&mut r, b"{\"query\":\"{ probe }\"}"), ""), "body"),
            4 => (format!("POST /graphql HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n{}", r.pick(&["zz\r\n", "5\r\n{\"que\r\n0\r\n\r\n", "ffffffffffffffff\r\nx", "3\r\nab\r\n0\r\n\r\n", "0\r\n\r\n"])).into_bytes(), "chunked"),
            5 => (format!("GET {} HTTP/1.1\r\nHost: x\r\n\r\n", r.pick(&["/\u{e9}", "/%ff", "/status?\u{0}", "*", "http://[::1", "/status#x", "//", "/api/%zz"])).into_bytes(), "target"),
            6 => (format!("POST /graphql HTTP/1.1\r\nHost: x\r\nX-Long: {}\r\nContent-Length: 2\r\n\r\n{{}}", "y".repeat(r.range(10, 60000))).into_bytes(), "long-header"),
            7 => (format!("{} /graphql HTTP/{}\r\nHost: x\r\n\r\n", r.pick(&["BREW", "", "GET", "post", "P\u{0}ST"]), r.pick(&["1.1", "1.0", "2.0", "9.9", "x"])).into_bytes(), "line"),
            8 => { let mut v = ok.clone(); v.extend(&ok); (v, "pipelined") }
            9 => (post(b"{\"query\":\"{ probe }\"}", &format!("{}: {}\r\n", r.pick(&["X", "Content-Length", "Expect", "Upgrade", "Connection", "Content-Encoding", "Cookie"]), r.pick(&["1", "-1", "100-continue", "h2c", "close", "gzip", "\u{1}", "99999999999999999999"]))), "header"),
            10 => { let mut v = post(b"", ""); let at = v.len() - 4; v.splice(at..at, "\r\nContent-Length: 100000000".bytes()); (v, "lying-length") }
            11 => (post(&{ let q = hostile_query(&mut r); json!({ "query": q }).to_string().into_bytes() }, ""), "query"),
            12 => (b"PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n\0\0\0\x04\0\0\0\0\0".to_vec(), "h2"),
            _ => (post(b"\xff\xfe{", "Content-Type: application/graphql\r\n"), "non-utf8"),
        };
        c.count("wire-connections", 1);
        c.case(&(&bytes, why), why != "good");
        let half = r.bool() && !matches!(why, "good" | "body" | "query" | "pipelined" | "non-utf8");
        let out = talk(&bytes, if matches!(why, "cut" | "lying-length" | "noise" | "chunked" | "header" | "h2" | "line" | "target" | "long-header") { 60 } else { 3000 }, half).unwrap_or_default();
        let detail = json!({"bytes": clip(&bytes), "why": why, "answer": clip(&out)});
        if !out.is_empty() { c.check(why == "h2" || out.starts_with(b"HTTP/1."), "answer:wire:not HTTP", || detail.clone()); }
        if matches!(why, "good" | "body" | "query" | "pipelined" | "non-utf8") {
            match head_body(&out) {
                Some((_, b)) => { let j: Result<Value, _> = serde_json::from_slice(&b); c.check(j.as_ref().is_ok_and(|j| answer_shape(j).is_ok()), &format!("answer:wire:{why}"), || detail.clone()); }
                None => c.violation(&format!("dropped:wire:{why}"), detail.clone()),
            }
        }
        probe(why, detail);
    }
    // upstream bytes
    let q = |f: &str, wait: u64| talk(&post(json!({ "query": f }).to_string().as_bytes(), ""), wait, false).unwrap_or_default();
    let n = c.n(12, 300);
    for i in 0..n {
        let valid = b"{\"id\":1,\"name\":\"x\"}".to_vec();
        let head = |st: &str, h: &str, b: &[u8]| { let mut v = format!("HTTP/1.1 {st}\r\n{h}Connection: close\r\n\r\n").into_bytes(); v.extend(b); v };
        let (bytes, stall, readable, why): (Vec<u8>, bool, bool, &str) = match i % 12 {
            0 => (head("200 OK", &format!("Content-Length: {}\r\n", valid.len()), &valid), false, true, "good"),
            1 => ((0..r.range(0, 200)).map(|_| r.next() as u8).collect(), false, false, "noise"),
            2 => (head("200 OK", "Content-Length: 500\r\n", &valid), false, false, "short-body"),
            3 => (head("200 OK", "Content-Encoding: gzip\r\n", &valid), false, true, "not-gzip"),
            4 => (head("200 OK", "Transfer-Encoding: chunked\r\n", b"zz\r\n"), false, false, "bad-chunk"),
            5 => (vec![], false, false, "closed"),
            6 => (head("999 Odd", "Content-Length: 0\r\n", b""), false, true, "odd-status"),
            7 => (head("302 Found", "Location: http://127.0.0.1:1/\r\nContent-Length: 0\r\n", b""), false, false, "redirect"),
            8 => (head("200 OK", &format!("X: {}\r\n", "y".repeat(9000)), &valid), false, true, "long-header"),
            9 => (head("200 OK", "Set-Cookie: \u{e9}\r\nContent-Type: \u{e9}\r\n", &valid), false, true, "odd-header"),
            10 => (b"HTTP/1.1 100 Continue\r\n\r\n".to_vec(), false, false, "only-continue"),
            _ => (head("200 OK", "Content-Length: 19\r\n", b"{\"id\""), i / 12 < 2, false, "stalled"),
        };
        *script.lock().unwrap() = (bytes.clone(), stall);
        c.count("wire-connections", 1);
        c.case(&(&bytes, stall), why != "good");
        let t = std::time::Instant::now();
        let out = q("{ u { id name } }", 20000);
        let detail = json!({"upstream": clip(&bytes), "stalls": stall, "why": why, "answer": clip(&out), "seconds": t.elapsed().as_secs_f64()});
        match head_body(&out) {
            Some((_, b)) => {
                let j: Value = serde_json::from_slice(&b).unwrap_or(Value::Null);
                let shape = answer_shape(&j);
                c.check(shape.is_ok() && (readable || shape == Ok(true)), &format!("answer:upstream-wire:{why}"), || detail.clone());
            }
            None => c.violation(&format!("dropped:upstream-wire:{why}"), detail.clone()),
        }
        // the configured limit is two seconds
        c.check(t.elapsed() < Duration::from_secs(12), &format!("slow:upstream-wire:{why}"), || detail.clone());
        probe(why, detail);
    }
    let out = q("{ closed probe }", 8000);
    c.check(head_body(&out).is_some_and(|(_, b)| answer_shape(&serde_json::from_slice(&b).unwrap_or(Value::Null)) == Ok(true)), "answer:upstream-wire:refused", || json!({"answer": clip(&out)}));
    probe("refused", Value::Null);
}

fn head_body(out: &[u8]) -> Option<(u16, Vec<u8>)> {
    let mut out = out;
    loop {
        let i = out.windows(4).position(|w| w == b"\r\n\r\n")?;
        let head = String::from_utf8_lossy(&out[..i]).to_lowercase();
        let status: u16 = head.split(' ').nth(1)?.parse().ok()?;
        let body = &out[i + 4..];
        if status == 100 { out = body; continue }
        let len = head.lines().find_map(|l| l.strip_prefix("content-length:").map(|v| v.trim().parse::<usize>().unwrap_or(0)));
        return Some((status, match len { Some(n) => body.get(..n)?.to_vec(), None => body.to_vec() }));
    }
}
fn complete(out: &[u8]) -> bool { head_body(out).is_some() && String::from_utf8_lossy(out).to_lowercase().contains("content-length:") }

// ---------------------------------------------------------------- depth and size, in a process of its own
/// One request per line of the file; `#i` before each, `=` and what happened after it.
pub fn child(path: &str) -> i32 {
    let jobs: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let gw = match build(Kind { many: false, cors: false, batch: false, valid: false }) { Ok(g) => g, Err(e) => { println!("!{e}"); return 3 } };
    // the stacks a server's threads have
    let rt = rt_multi(2);
    for (i, j) in jobs.iter().enumerate() {
        println!("#{i}");
        std::io::stdout().flush().ok();
        let (rq, ans) = big(j["kind"].as_str().unwrap(), j["n"].as_u64().unwrap() as usize);
        *gw.answers.lock().unwrap() = match ans { Some(a) => Arc::new(move |_| URes::bytes(a.clone())), None => Arc::new(good) };
        let app = gw.app.clone();
        let t = std::time::Instant::now();
        let send = |rq: Rq| { let app = app.clone(); let req = rq.request().unwrap(); async move { tokio::time::timeout(Duration::from_secs(20), tokio::spawn(async move { mock::send_raw(&app, req).await })).await } };
        let (tx, rx) = std::sync::mpsc::channel();
        let f = send(rq);
        rt.spawn(async move { tx.send(f.await).ok(); });
        let out = rx.recv_timeout(Duration::from_secs(25));
        let line = match out {
            Err(_) | Ok(Err(_)) => "hang".to_string(),
            Ok(Ok(Err(e))) => format!("panic {e} {}", last_panic()),
            Ok(Ok(Ok(Err(e)))) => format!("dropped {e}"),
            Ok(Ok(Ok(Ok(res)))) => if res.body.is_empty() { format!("ok empty {}", res.status) } else { match deep_json(&res.body) { true => format!("ok {}", String::from_utf8_lossy(&res.body).chars().take(120).collect::<String>()), false => format!("bad {}", res.text().chars().take(300).collect::<String>()) } },
        };
        println!("={:.2} {}", t.elapsed().as_secs_f64(), line.replace('\n', " "));
        std::io::stdout().flush().ok();
        if line == "hang" { std::process::exit(4) }
        *gw.answers.lock().unwrap() = Arc::new(good);
        let app = gw.app.clone();
        let ok = rt.block_on(async move { tokio::time::timeout(Duration::from_secs(10), tokio::spawn(async move { mock::query(&app, "{ probe }").await })).await.ok().and_then(|x| x.ok()).map(|x| x.json()) });
        if ok != Some(json!({"data": {"probe": 7}})) { println!("!probe {ok:?}") }
    }
    println!("#done");
    std::process::exit(0)
}

/// well-formedness without recursion
fn deep_json(b: &[u8]) -> bool { let mut s = vec![]; let (mut str_, mut esc) = (false, false); for &x in b { if str_ { if esc { esc = false } else if x == b'\\' { esc = true } else if x == b'"' { str_ = false } continue } match x { b'"' => str_ = true, b'{' | b'[' => s.push(x), b'}' => if s.pop() != Some(b'{') { return false }, b']' => if s.pop() != Some(b'[') { return false }, _ => {} } } s.is_empty() && !str_ && std::str::from_utf8(b).is_ok() }

const BIG: &[(&str, usize)] = &[
    ("nested-selection", 30), ("nested-selection", 50_000), ("nested-list", 50_000), ("nested-object", 50_000), ("nested-type", 50_000), ("json-arrays", 200_000), ("variables", 100_000), ("variables-deep-ok", 100), ("fragment-chain", 40), ("fragment-chain", 400), ("fragment-chain", 3_000), ("fragment-chain", 20_000), ("inline-fragments", 20_000), ("fragment-cycle", 2), ("fragment-cycle", 50), ("fragment-laughs", 12), ("fragment-laughs", 40), ("directives", 20_000), ("aliases", 1_000), ("variables-wide", 20_000), ("operations", 3_000), ("comment", 1_000_000), ("string", 1_000_000), ("block-string", 200_000), ("graphql-text", 50_000),
    ("up-arrays", 100), ("up-arrays", 100_000), ("up-objects", 100_000), ("up-recursive", 100), ("data-fragments", 45), ("alias-laughs", 11), ("alias-laughs", 40), ("alias-wide", 90), ("up-wide", 200_000), ("up-string", 3_000_000), ("up-escapes", 500_000), ("up-number", 100_000), ("rest-body", 100_000), ("rest-path", 5_000), ("rest-query", 5_000), ("template", 200_000), ("showcase", 50_000), ("headers", 80), ("grpc-nested", 30_000), ("input-list", 20_000), ("introspection", 6), ("introspection", 60), ("batch-same", 300),
];

fn big(kind: &str, n: usize) -> (Rq, Option<Vec<u8>>) {
    let post = |b: Vec<u8>| Rq { method: "POST".into(), uri: "/graphql".into(), headers: vec![("content-type".into(), b"application/json".to_vec())], body: b, why: "big" };
    let q = |s: String| post(json!({ "query": s }).to_string().into_bytes());
    let get = |u: String| Rq { method: "GET".into(), uri: u, headers: vec![], body: vec![], why: "big" };
    let rep = |s: &str, n: usize| s.repeat(n);
    match kind {
        "nested-selection" => (q(format!("{{ d {} v {} }}", rep("{ d ", n), rep("}", n)).replacen("{ d { d", "{ d { d", 1)), None),
        "nested-list" => (q(format!("{{ us(ids: {}{}) {{ id }} }}", rep("[", n), rep("]", n))), None),
        "nested-object" => (q(format!("{{ us(inp: {}1{}) {{ id }} }}", rep("{l: ", n), rep("}", n))), None),
        "nested-type" => (q(format!("query($v: {}Int{}) {{ probe }}", rep("[", n), rep("]", n))), None),
        "json-arrays" => (post(format!("{}{}", rep("[", n), rep("]", n)).into_bytes()), None),
        "variables" | "variables-deep-ok" => (post(format!("{{\"query\": \"query($inp: Inp!) {{ us(inp: $inp) {{ id }} }}\", \"variables\": {{\"inp\": {}null{}}}}}", rep("{\"s\":\"x\",\"l\":[", n), rep("]}", n)).into_bytes()), None),
        "fragment-chain" => (q(format!("{{ d {{ ...f0 }} }} {} fragment f{n} on D {{ v }}", (0..n).map(|i| format!("fragment f{i} on D {{ d {{ ...f{} }} }}", i + 1)).collect::<Vec<_>>().join(" "))), None),
        "inline-fragments" => (q(format!("{{ {} probe {} }}", rep("... { ", n), rep("}", n))), None),
        "fragment-cycle" => (q(format!("{{ ...f0 }} {}", (0..n).map(|i| format!("fragment f{i} on Query {{ d {{ v }} ...f{} }}", (i + 1) % n)).collect::<Vec<_>>().join(" "))), None),
        "fragment-laughs" => (q(format!("{{ ...f0 }} {} fragment f{n} on Query {{ probe }}", (0..n).map(|i| format!("fragment f{i} on Query {{ ...f{0} ...f{0} }}", i + 1)).collect::<Vec<_>>().join(" "))), None),
        "directives" => (q(format!("{{ probe {} }}", rep("@include(if: true) ", n))), None),
        "aliases" => (q(format!("{{ {} }}", (0..n).map(|i| format!("a{i}: probe")).collect::<Vec<_>>().join(" "))), None),
        "variables-wide" => (q(format!("query({}) {{ probe }}", (0..n).map(|i| format!("$v{i}: Int")).collect::<Vec<_>>().join(", "))), None),
        "operations" => (q((0..n).map(|i| format!("query q{i} {{ probe }}")).collect::<Vec<_>>().join(" ")), None),
        "comment" => (q(format!("#{}\n{{ probe }}", rep("x", n))), None),
        "string" => (q(format!("{{ us(s: \"{}\") {{ id }} }}", rep("x", n))), None),
        "block-string" => (q(format!("{{ us(s: \"\"\"{}\"\"\") {{ id }} }}", rep("\\n \n", n / 4))), None),
        "graphql-text" => (Rq { headers: vec![("content-type".into(), b"application/graphql".to_vec())], ..post(format!("{{ d {} }}", rep("{ d ", n)).into_bytes()) }, None),
        "up-arrays" => (q("{ raw }".into()), Some(format!("{}{}", rep("[", n), rep("]", n)).into_bytes())),
        "up-objects" => (q("{ raw d { v d { v } } }".into()), Some(format!("{}1{}", rep("{\"d\":", n), rep("}", n)).into_bytes())),
        "up-recursive" => (q(format!("{{ d {{ ...f0 }} }} {} fragment f25 on D {{ v }}", (0..25).map(|i| format!("fragment f{i} on D {{ d {{ ...f{} }} v }}", i + 1)).collect::<Vec<_>>().join(" "))), Some(format!("{}1{}", rep("{\"v\":1,\"d\":", n), rep("}", n)).into_bytes())),
        "data-fragments" => (q(format!("{{ d {{ ...f0 }} }} {} fragment f{n} on D {{ v }}", (0..n).map(|i| format!("fragment f{i} on D {{ d {{ ...f{} }} l {{ v }} v }}", i + 1)).collect::<Vec<_>>().join(" "))), Some(format!("{}1{}", rep("{\"v\":1,\"l\":[{\"v\":2}],\"d\":", n), rep("}", n)).into_bytes())),
        "alias-laughs" => (q(format!("{{ d {{ ...f0 }} }} {} fragment f{n} on D {{ v }}", (0..n).map(|i| format!("fragment f{i} on D {{ a: d {{ ...f{0} }} b: d {{ ...f{0} }} }}", i + 1)).collect::<Vec<_>>().join(" "))), Some(format!("{}1{}", rep("{\"v\":1,\"d\":", 60), rep("}", 60)).into_bytes())),
        "alias-wide" => (q(format!("{{ d {{ ...f0 ...f1 }} }} {}", (0..2).map(|j| format!("fragment f{j} on D {{ {} }}", (0..n).map(|i| format!("a{i}: d {{ v l {{ v }} }}")).collect::<Vec<_>>().join(" "))).collect::<Vec<_>>().join(" "))), Some(br#"{"d":{"v":1,"l":[{"v":1},{"v":2}]}}"#.to_vec())),
        "up-wide" => (q("{ raw us { id name } }".into()), Some(format!("[{}]", vec!["{\"id\":1,\"name\":\"x\"}"; n / 20].join(",")).into_bytes())),
        "up-string" => (q("{ raw }".into()), Some(format!("\"{}\"", rep("x", n)).into_bytes())),
        "up-escapes" => (q("{ raw }".into()), Some(format!("\"{}\"", rep("\\u00e9\\n", n / 8)).into_bytes())),
        "up-number" => (q("{ raw }".into()), Some(rep("9", n).into_bytes())),
        "rest-body" => (Rq { method: "POST".into(), uri: "/api/m".into(), ..post(format!("{}1{}", rep("[", n), rep("]", n)).into_bytes()) }, None),
        "rest-path" => (get(format!("/api/u/{}", rep("1/", n))), None),
        "rest-query" => (get(format!("/api/q/true?{}", rep("s=1&", n))), None),
        "template" => (q(format!("{{ path(s: \"{}\") }}", rep("{{.args.s}}", n / 11))), None),
        "showcase" => (Rq { uri: "/showcase/graphql?config=http%3A%2F%2Fup.test%2Fc.graphql".into(), ..q("{ a }".into()) }, Some(format!("schema {{ query: Query }} type Query {{ a: {}Int{} }}", rep("[", n), rep("]", n)).into_bytes())),
        "headers" => (Rq { headers: (0..n).map(|i| (format!("x-{i}"), vec![b'x'; 50])).collect(), ..q("{ probe }".into()) }, None),
        "grpc-nested" => (q("{ item(id: 1) { id kids { id } } }".into()), Some({ let mut p: Vec<u8> = vec![8, 1]; for _ in 0..n.min(3000) { let mut l = vec![0x1a]; let mut k = p.len(); loop { let b = (k & 0x7f) as u8; k >>= 7; if k == 0 { l.push(b); break } l.push(b | 0x80) } l.extend(&p); p = l } five(&p) })),
        "input-list" => (q(format!("{{ us(ids: [{}]) {{ id }} }}", rep("1,", n))), None),
        "introspection" => (q(format!("{{ __schema {{ types {{ fields {{ type {} name {} }} }} }} }}", rep("{ ofType ", n.min(25)), rep("}", n.min(25)))), None),
        _ => (q(format!("{{ {} }}", (0..n).map(|i| format!("a{i}: u(id: 1) {{ id }}")).collect::<Vec<_>>().join(" "))), None),
    }
}

fn nesting(c: &C) {
    let exe = std::env::current_exe().unwrap();
    let scale: &[usize] = if c.thorough { &[1, 3, 10] } else { &[1] };
    let mut jobs: Vec<(String, usize)> = vec![];
    for s in scale { for (k, n) in BIG { let n = if matches!(*k, "headers" | "alias-laughs" | "data-fragments" | "alias-wide" | "fragment-laughs" | "introspection" | "aliases" | "variables-deep-ok" | "up-recursive" | "rest-path" | "rest-query") { *n } else { n * s }; if !jobs.contains(&(k.to_string(), n)) { jobs.push((k.to_string(), n)) } } }
    let dir = std::env::temp_dir().join(format!("tailcall-c21-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut left = jobs;
    let mut rounds = 0;
    while !left.is_empty() && rounds < 30 {
        rounds += 1;
        let file = dir.join("jobs.json");
        std::fs::write(&file, serde_json::to_string(&left.iter().map(|(k, n)| json!({"kind": k, "n": n})).collect::<Vec<_>>()).unwrap()).unwrap();
        let out = Command::new(&exe).arg("--c21").arg(&file).stdin(Stdio::null()).stderr(Stdio::piped()).stdout(Stdio::piped()).output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        let mut last = None;
        let mut done = BTreeMap::new();
        for l in text.lines() {
            if l == "#done" { last = None; break }
            if let Some(i) = l.strip_prefix('#') { last = i.parse::<usize>().ok(); }
            else if let (Some(i), Some(m)) = (last, l.strip_prefix('=')) { done.insert(i, m.to_string()); }
            else if let (Some(i), Some(m)) = (last, l.strip_prefix('!')) { c.violation(&format!("later-request:big:{}", left[i].0), json!({"kind": left[i].0, "n": left[i].1, "detail": m})); }
            else if l.starts_with('!') { c.inconclusive(l); return }
        }
        for (i, m) in &done {
            let (k, n) = &left[*i];
            c.count("child-requests", 1);
            c.case(&(k, n), true);
            c.note_case(&format!("{k} {n}"));
            if std::env::var("C21_SHOW").is_ok() { eprintln!("{k} {n}: {m}") }
            c.check(m.split(' ').nth(1) == Some("ok"), &format!("big:{k}:{}", m.split(' ').nth(1).unwrap_or("")), || json!({"kind": k, "n": n, "outcome": m}));
        }
        match last {
            Some(i) if !done.contains_key(&i) => { c.violation(&format!("killed:big:{}", left[i].0), json!({"kind": left[i].0, "n": left[i].1, "exit": format!("{:?}", out.status), "stderr": String::from_utf8_lossy(&out.stderr).chars().take(500).collect::<String>()})); left = left.split_off(i + 1); }
            Some(i) => left = left.split_off(i + 1),
            None => left.clear(),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

// ---------------------------------------------------------------- parsers, called directly
fn parsers(c: &C) {
    use async_graphql::parser::types::Type as GType;
    use tailcall::core::rest::{Path, QueryParams, TypeMap};
    let mut r = c.rng("parsers");
    let bits = ["{{", "}}", "{", "}", ".", "a", "b1", "_x", " ", "\n", "value", ".args", "é", "\0", "\"", "/", "$", "$id", "{{.a}}", "{{.a.b}}", "{{ .a }}", "{{a}}", "{{.}}", "{{}}", "{{.1}}", "{{.a..b}}", "{{{a}}}", "-", "%", "\u{1f600}"];
    for _ in 0..c.n(1500, 40000) {
        let s = r.string(&bits, 14);
        c.count("parser-calls", 1);
        c.case(&s, true);
        let t = std::time::Instant::now();
        match guard(|| { let m = Mustache::parse(&s); (m.to_string(), m.render(&mock::TCtx::new(json!({"a": {"b": "x"}, "value": 1}))), m.is_const()) }) {
            Err(p) => c.violation("panic:mustache", json!({"template": s, "panic": p})),
            Ok((text, shown, cnst)) => {
                // text without a template in it is that text
                if !s.contains("{{") && s != "\"" { c.check(text == s && shown == s && cnst, "mustache:literal", || json!({"template": s, "printed": text, "rendered": shown})); }
            }
        }
        if t.elapsed() > Duration::from_secs(2) { c.violation("slow:mustache", json!({ "template": s })) }
    }
    for n in [1000usize, 100_000] {
        for u in ["{{", "}}", "{{.a}}", "{{.a", "{{.a.", "{", "a{{", "{{ "] {
            let s = u.repeat(n / u.len());
            let t = std::time::Instant::now();
            let g = guard(|| Mustache::parse(&s).to_string().len());
            c.count("parser-calls", 1);
            c.check(g.is_ok() && t.elapsed() < Duration::from_secs(5), "mustache:long", || json!({"unit": u, "n": n, "seconds": t.elapsed().as_secs_f64(), "outcome": format!("{g:?}")}));
        }
    }
    let tys = ["Int", "String!", "Boolean", "Float!", "[Int]", "E", "[[String!]!]"];
    for _ in 0..c.n(1500, 30000) {
        let names = ["id", "a", "b", ""];
        let map: BTreeMap<String, GType> = names.iter().map(|n| (n.to_string(), GType::new(*r.pick(&tys)).unwrap())).collect();
        let tm = TypeMap::new(map.clone());
        let pat = r.string(&["/", "$", "$id", "$a", "x", "é", "%", "//", "", "$nope", " ", "?"], 7);
        let path = r.string(&["/", "x", "1", "%ff", "%", "é", "true", "1.5", "-1", "%2f", "$id", "9999999999999999999999", "NaN", "inf", "%00", ""], 8);
        c.count("parser-calls", 1);
        c.case(&(&pat, &path), true);
        let g = guard(|| Path::parse(&tm, &pat).map(|p| p.matches(&path).is_some()).map_err(|e| e.to_string()));
        if let Err(p) = &g { c.violation("panic:rest-path", json!({"pattern": pat, "path": path, "panic": p})) }
        if let Ok(Err(e)) = &g { c.check(!e.is_empty(), "empty-message:rest-path", || json!({"pattern": pat, "path": path})); }
        let g = guard(|| QueryParams::try_from_map(&tm, names.iter().take(r.below(4)).map(|n| (n.to_string(), n.to_string())).collect()).map(|p| p.matches([("a".to_string(), path.clone()), ("id".to_string(), pat.clone())].into_iter().collect()).is_some()).map_err(|e| e.to_string()));
        if let Err(p) = &g { c.violation("panic:rest-query", json!({"pattern": pat, "path": path, "panic": p})) }
        let ops = match r.below(4) { 0 => OPS.replace("$id", *r.pick(&["$", "$x", "id", "$s"])), 1 => { let mut t = tokens(OPS); let i = r.below(t.len()); t[i] = r.pick(TOKENS).to_string(); t.join(" ") } , 2 => format!("query q($id: {}) @rest(method: {}, path: \"{}\", query: {{a: {}}}) {{ probe }}", r.pick(&tys), r.pick(&["GET", "get", "1", "$id", "POST"]), r.pick(&["/$id", "", "/", "$id", "/$", "\\u0000"]), r.pick(&["$id", "$a", "1", "{}", "\"x\""])), _ => hostile_query(&mut r) };
        if let Err(p) = guard(|| EndpointSet::<Unchecked>::try_new(&ops).is_ok()) { c.violation("panic:rest-operations", json!({"operations": ops, "panic": p})) }
        // values of scalars
        let v: async_graphql::Value = async_graphql::Value::from_json(if r.bool() { hostile_leaf(&mut r) } else { json!(r.pick(&["", "x", "2020-02-30", "+1", "a@b", "http://", "-00", "99999999999999999999999999999999999999999999", "170141183460469231731687303715884105728", "é"])) }).unwrap();
        for s in [Scalar::Email, Scalar::PhoneNumber, Scalar::Date, Scalar::Url, Scalar::JSON, Scalar::Empty, Scalar::Int8, Scalar::Int128, Scalar::UInt64, Scalar::UInt128, Scalar::Bytes] {
            if let Err(p) = guard(|| s.validate(&v)) { c.violation("panic:scalar", json!({"scalar": s.to_string(), "value": v, "panic": p})) }
        }
    }
}
