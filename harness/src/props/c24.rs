// C24
//! C24: gRPC messages convert without loss, batches are attributed, failures reach the client.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use async_graphql_value::ConstValue;
use base64::Engine;
use prost::Message as _;
use prost_reflect::{DescriptorPool, DynamicMessage, MapKey, MessageDescriptor, Value as PV};
use serde_json::{json, Map, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::{Blueprint, GrpcMethod};
use tailcall::core::config::group_by::GroupBy;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::grpc::protobuf::{ProtobufOperation, ProtobufSet};
use tailcall::core::json::JsonSchema;
use tailcall::core::rest::EndpointSet;
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock::{self, Files, UReq, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one message of a randomly drawn protobuf schema taken through a conversion (JSON to bytes, bytes to JSON, or through the gateway and back), one batch, one upstream failure, or one pair of message shapes that are compared; non-trivial = the message has nested, repeated, map or alternative parts, the batch has several callers, or the shapes differ; distinct by schema and value");
    c.assume("proto3 messages without well-known types (their JSON forms are the library's); doubles of up to 15 digits and floats below the type's maximum, which JSON texts carry exactly here; length prefixes of frames aren't checked (the project's unit tests pin wrong ones); keys of batches are numbers or strings; an enum's values aren't validated by a message's shape (pinned)");
    c.section("codec", codec);
    c.section("shapes", shapes);
    c.section("gateway", gateway);
    c.section("batches", batches);
    c.section("failures", failures);
    for (k, n) in [("values:read", 1500), ("values:written", 1500), ("misfits", 1500), ("bad-bytes", 200), ("multiple", 40), ("field-kinds", 17), ("served", 150), ("served:misfit", 60), ("batches", 40), ("batch:keys-shared", 40), ("batch:keys-missing", 3), ("failures", 150), ("failures:with-details", 60), ("shapes:of-messages", 100), ("shapes:assignable", 500), ("shapes:not-assignable", 500), ("shapes:valid", 500), ("shapes:invalid", 500), ("split-files", 20)] { c.floor(k, n) }
}

// ---------------------------------------------------------------- the model
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum K { Double, Float, Int32, Sint32, Sfixed32, Uint32, Fixed32, Int64, Sint64, Sfixed64, Uint64, Fixed64, Bool, Str, Bytes, Enum(usize), Msg(usize) }
use K::*;
const SCALARS: &[K] = &[Double, Float, Int32, Sint32, Sfixed32, Uint32, Fixed32, Int64, Sint64, Sfixed64, Uint64, Fixed64, Bool, Str, Bytes];
const KEYKINDS: &[K] = &[Int32, Sint32, Sfixed32, Uint32, Fixed32, Int64, Sint64, Sfixed64, Uint64, Fixed64, Bool, Str];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Card { One, Opt, Many, Map(K), Of(usize), Req }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct F { name: String, json: Option<String>, num: u32, k: K, card: Card }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct M { name: String, fields: Vec<F> }
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct W { pkg: String, msgs: Vec<M>, enums: Vec<(String, Vec<(String, i32)>)>, proto2: bool, looped: bool }

#[derive(Clone, Debug, PartialEq)]
enum V { D(f64), F(f32), I(i64), U(u64), B(bool), S(String), By(Vec<u8>), E(i32), M(BTreeMap<usize, V>), L(Vec<V>), Map(Vec<(V, V)>) }

impl K {
    fn word(&self, w: &W) -> String { match self { Enum(i) => w.enums[*i].0.clone(), Msg(i) => w.msgs[*i].name.clone(), k => format!("{k:?}").to_lowercase().replace("str", "string").replace("stringing", "string") } }
    fn is_int(&self) -> bool { !matches!(self, Double | Float | Bool | Str | Bytes | Enum(_) | Msg(_)) }
    fn wide(&self) -> bool { matches!(self, Int64 | Sint64 | Sfixed64 | Uint64 | Fixed64) }
    fn unsigned(&self) -> bool { matches!(self, Uint32 | Fixed32 | Uint64 | Fixed64) }
}
fn camel(n: &str) -> String { let mut up = false; let mut o = String::new(); for ch in n.chars() { if ch == '_' { up = true } else { o.push(if up { ch.to_ascii_uppercase() } else { ch }); up = false } } o }
impl F {
    fn json(&self) -> String { self.json.clone().unwrap_or(camel(&self.name)) }
    /// whether one can tell an unset field from one with the default value
    fn presence(&self) -> bool { matches!(self.card, Card::Opt | Card::Of(_) | Card::Req) || (self.card == Card::One && matches!(self.k, Msg(_))) }
}

const NAMES: &[&str] = &["id", "name", "a1b", "URL", "sha256_sum", "foo_1", "v2_name", "first_name", "isOk", "x_y_z", "ID2", "b__c", "_lead", "trail_", "type", "value", "Big_Name", "a_B", "n_1_2", "http2_url", "CAPS_NAME", "key", "items"];

fn world(r: &mut Rng, proto2: bool) -> W {
    let pkg = r.pick(&["p", "a.b", "Deep.er.pkg_1", "x1"]).to_string();
    let enums: Vec<(String, Vec<(String, i32)>)> = (0..r.range(1, 3)).map(|e| {
        let mut vs = vec![(format!("E{e}_ZERO"), 0)];
        for v in 0..r.below(4) { vs.push((format!("{}{e}{v}", r.pick(&["VAL_", "lower_", "Mixed"])), *r.pick(&[v as i32 + 1, -(v as i32) - 1, 1000 + v as i32, i32::MAX - v as i32]))) }
        (format!("{}{e}", r.pick(&["Kind", "kind_of_", "E"])), vs)
    }).collect();
    let n = r.range(1, 4);
    let looped = r.chance(1, 4);
    let names: Vec<String> = (0..n).map(|i| format!("{}{i}", r.pick(&["Msg", "Some_thing", "lower", "A"]))).collect();
    let mut msgs = vec![];
    for (i, name) in names.iter().enumerate() {
        let mut used = BTreeSet::new();
        let mut fields: Vec<F> = vec![];
        let mut num = 0;
        for _ in 0..if i > 0 && r.chance(1, 12) { 0 } else { r.range(1, 9) } {
            let fname = r.pick(&NAMES[..]).to_string();
            let json = r.chance(1, 8).then(|| r.pick(&["renamed", "Other", "with1", "snake_json"]).to_string());
            num += *r.pick(&[1, 1, 1, 3, 200]);
            let k = match r.below(10) { 0 => Enum(r.below(enums.len())), 1 | 2 if i + 1 < n => Msg(r.range(i + 1, n - 1)), 3 if looped && i > 0 => Msg(r.range(1, n - 1)), _ => *r.pick(&SCALARS[..]) };
            let card = match r.below(10) { 0 | 1 => Card::Opt, 2 | 3 => Card::Many, 4 => Card::Map(*r.pick(&KEYKINDS[..])), 5 => Card::Of(0), 6 => Card::Of(1), 7 if proto2 => Card::Req, _ if proto2 => Card::Opt, _ => Card::One };
            // a message that requires itself has no values
            let card = if card == Card::Req && matches!(k, Msg(_)) { Card::Opt } else { card };
            let f = F { name: fname, json, num, k, card };
            // neither the names nor the JSON names may clash
            if !used.insert(f.json()) || !used.insert(format!("/{}", f.name)) || !used.insert(format!("~{}", camel(&f.name).to_lowercase())) || fields.iter().any(|o| o.name == f.json() || o.json() == f.name || camel(&o.name) == f.json() || camel(&f.name) == o.json()) { continue }
            fields.push(f);
        }
        msgs.push(M { name: name.clone(), fields });
    }
    W { pkg, msgs, enums, proto2, looped }
}

impl W {
    fn message_text(&self, m: &M) -> String {
        let mut s = format!("message {} {{\n", m.name);
        let line = |f: &F| {
            let j = f.json.as_ref().map(|j| format!(" [json_name = \"{j}\"]")).unwrap_or_default();
            let t = f.k.word(self);
            match f.card {
                Card::One | Card::Of(_) => format!("  {t} {} = {}{j};\n", f.name, f.num),
                Card::Opt => format!("  optional {t} {} = {}{j};\n", f.name, f.num),
                Card::Req => format!("  required {t} {} = {}{j};\n", f.name, f.num),
                Card::Many => format!("  repeated {t} {} = {}{j};\n", f.name, f.num),
                Card::Map(k) => format!("  map<{}, {t}> {} = {}{j};\n", k.word(self), f.name, f.num),
            }
        };
        for f in &m.fields { if !matches!(f.card, Card::Of(_)) { s += &line(f) } }
        for o in 0..2 { let of: Vec<&F> = m.fields.iter().filter(|f| f.card == Card::Of(o)).collect(); if !of.is_empty() { s += &format!("  oneof choice{o} {{\n"); for f in of { s += &line(f) } s += "  }\n" } }
        s + "}\n"
    }
    fn enums_text(&self) -> String { self.enums.iter().map(|(n, vs)| format!("enum {n} {{\n{}}}\n", vs.iter().map(|(v, i)| format!("  {v} = {i};\n")).collect::<String>())).collect() }
    fn head(&self) -> String { format!("syntax = \"{}\";\npackage {};\n", if self.proto2 { "proto2" } else { "proto3" }, self.pkg) }
    fn service_text(&self) -> String { let m = &self.msgs[0].name; format!("message In_ {{ {} repeated {m} all = 7; }}\nmessage Out_ {{ repeated {m} all = 3; }}\nservice Svc {{\n  rpc Echo ({m}) returns ({m});\n  rpc Many (In_) returns (Out_);\n}}\n", if self.proto2 { "" } else { "string note = 1; repeated_ x = 2;" }).replace("repeated_ x = 2;", "") }
    fn text(&self) -> String { format!("{}{}{}{}", self.head(), self.enums_text(), self.msgs.iter().map(|m| self.message_text(m)).collect::<String>(), self.service_text()) }
    fn pool(&self) -> Result<DescriptorPool, String> {
        let text = self.text();
        let file = protox::Compiler::with_file_resolver(Mem(text.clone())).include_imports(true).open_file("x.proto").map_err(|e| format!("{e:?}\n{text}"))?.file_descriptor_set();
        DescriptorPool::from_file_descriptor_set(file).map_err(|e| format!("{e:?}\n{text}"))
    }
    fn desc(&self, pool: &DescriptorPool, i: usize) -> MessageDescriptor { pool.get_message_by_name(&format!("{}.{}", self.pkg, self.msgs[i].name)).unwrap() }
}
struct Mem(String);
impl protox::file::FileResolver for Mem {
    fn open_file(&self, name: &str) -> Result<protox::file::File, protox::Error> {
        if name == "x.proto" { return protox::file::File::from_source(name, &self.0) }
        protox::file::GoogleFileResolver::new().open_file(name)
    }
}

// ---------------------------------------------------------------- values
fn scalar(r: &mut Rng, w: &W, k: K, special: bool) -> V {
    match k {
        Double => V::D(match r.below(8) { 0 if special => *r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY]), 1 => 0.0, 2 => 1e300, 3 => -2.5e-7, 4 => (1u64 << 53) as f64, _ => (r.below(2_000_001) as f64 - 1e6) / 1000.0 }),
        Float => V::F(match r.below(8) { 0 if special => *r.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]), 1 => 0.0, 2 => 1e38, 3 => 2.5e-7, 4 => 16777216.0, 5 => 0.1, _ => (r.below(20001) as f32 - 1e4) / 100.0 }),
        Bool => V::B(r.bool()),
        Str => V::S(if r.chance(1, 6) { String::new() } else { r.string(&["a", "é", "\"", "\\", "\n", "😀", "{", "}", "0", "null", " ", "\u{1}", "/", "1e5"], 6) }),
        Bytes => V::By((0..r.below(7)).map(|_| *r.pick(&[0u8, 1, 62, 63, 127, 128, 250, 255])).collect()),
        Enum(e) => V::E(if special && r.chance(1, 8) { 77777 } else { r.pick(&w.enums[e].1).1 }),
        Msg(_) => unreachable!(),
        k if k.unsigned() => V::U(if k.wide() { *r.pick(&[0, 1, 7, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 53) + 1, 4294967296]) } else { *r.pick(&[0, 1, 7, u32::MAX as u64, 1 << 31, 255]) }),
        k => V::I(if k.wide() { *r.pick(&[0, 1, -1, i64::MAX, i64::MIN, (1 << 53) + 1, -(1 << 53) - 1, 2147483648]) } else { *r.pick(&[0, 1, -1, i32::MAX as i64, i32::MIN as i64, 300]) }),
    }
}
fn one(r: &mut Rng, w: &W, k: K, depth: usize, special: bool) -> V { if let Msg(i) = k { message(r, w, i, depth + 1, special) } else { scalar(r, w, k, special) } }
fn message(r: &mut Rng, w: &W, i: usize, depth: usize, special: bool) -> V {
    let mut out = BTreeMap::new();
    let mut taken = BTreeSet::new();
    for (fi, f) in w.msgs[i].fields.iter().enumerate() {
        if r.chance(1, 4) || (matches!(f.k, Msg(_)) && depth > 3) { continue }
        let v = match f.card {
            Card::Of(o) => { if !taken.insert(o) { continue } one(r, w, f.k, depth, special) }
            Card::Many => { let n = r.below(4); if n == 0 { continue } V::L((0..n).map(|_| one(r, w, f.k, depth, special)).collect()) }
            Card::Map(kk) => {
                let mut m: Vec<(V, V)> = vec![];
                for _ in 0..r.below(4) { let key = scalar(r, w, kk, false); if !m.iter().any(|e| e.0 == key) { let v = one(r, w, f.k, depth, special); m.push((key, v)) } }
                if m.is_empty() { continue }
                V::Map(m)
            }
            _ => one(r, w, f.k, depth, special),
        };
        // a field without presence that has the default value isn't there
        if !f.presence() && is_default(&v) { continue }
        out.insert(fi, v);
    }
    V::M(out)
}
fn is_default(v: &V) -> bool { match v { V::D(d) => d.to_bits() == 0, V::F(d) => d.to_bits() == 0, V::I(0) | V::U(0) | V::B(false) | V::E(0) => true, V::S(s) => s.is_empty(), V::By(b) => b.is_empty(), V::L(l) => l.is_empty(), V::Map(m) => m.is_empty(), _ => false } }

fn pv(w: &W, d: &MessageDescriptor, k: K, v: &V) -> PV {
    match v {
        V::D(x) => PV::F64(*x), V::F(x) => PV::F32(*x), V::B(b) => PV::Bool(*b), V::S(s) => PV::String(s.clone()), V::By(b) => PV::Bytes(b.clone().into()), V::E(e) => PV::EnumNumber(*e),
        V::I(i) => if k.wide() { PV::I64(*i) } else { PV::I32(*i as i32) },
        V::U(i) => if k.wide() { PV::U64(*i) } else { PV::U32(*i as u32) },
        V::M(_) => { let Msg(i) = k else { unreachable!() }; PV::Message(dynamic(w, &w.desc(d.parent_pool(), i), i, v)) }
        _ => unreachable!(),
    }
}
fn map_key(k: K, v: &V) -> MapKey { match v { V::I(i) => if k.wide() { MapKey::I64(*i) } else { MapKey::I32(*i as i32) }, V::U(i) => if k.wide() { MapKey::U64(*i) } else { MapKey::U32(*i as u32) }, V::B(b) => MapKey::Bool(*b), V::S(s) => MapKey::String(s.clone()), _ => unreachable!() } }
fn dynamic(w: &W, d: &MessageDescriptor, i: usize, v: &V) -> DynamicMessage {
    let V::M(fs) = v else { unreachable!() };
    let mut m = DynamicMessage::new(d.clone());
    for (fi, v) in fs {
        let f = &w.msgs[i].fields[*fi];
        let val = match (v, f.card) {
            (V::L(l), _) => PV::List(l.iter().map(|x| pv(w, d, f.k, x)).collect()),
            (V::Map(es), Card::Map(kk)) => PV::Map(es.iter().map(|(a, b)| (map_key(kk, a), pv(w, d, f.k, b))).collect()),
            (v, _) => pv(w, d, f.k, v),
        };
        m.set_field_by_number(f.num, val);
    }
    m
}
/// What a message holds, read from its fields
fn walk(w: &W, i: usize, m: &DynamicMessage) -> V {
    fn of(w: &W, k: K, v: &PV) -> V {
        match v { PV::Bool(b) => V::B(*b), PV::I32(x) => V::I(*x as i64), PV::I64(x) => V::I(*x), PV::U32(x) => V::U(*x as u64), PV::U64(x) => V::U(*x), PV::F32(x) => V::F(*x), PV::F64(x) => V::D(*x), PV::String(s) => V::S(s.clone()), PV::Bytes(b) => V::By(b.to_vec()), PV::EnumNumber(e) => V::E(*e), PV::Message(m) => { let Msg(i) = k else { unreachable!() }; walk(w, i, m) } _ => unreachable!() }
    }
    let mut out = BTreeMap::new();
    for (fi, f) in w.msgs[i].fields.iter().enumerate() {
        let fd = m.descriptor_by_number(f.num);
        if !m.has_field(&fd) { continue }
        let v = m.get_field(&fd);
        out.insert(fi, match v.as_ref() {
            PV::List(l) => V::L(l.iter().map(|x| of(w, f.k, x)).collect()),
            PV::Map(es) => { let mut o: Vec<(V, V)> = es.iter().map(|(a, b)| (match a { MapKey::Bool(b) => V::B(*b), MapKey::I32(x) => V::I(*x as i64), MapKey::I64(x) => V::I(*x), MapKey::U32(x) => V::U(*x as u64), MapKey::U64(x) => V::U(*x), MapKey::String(s) => V::S(s.clone()) }, of(w, f.k, b))).collect(); o.sort_by_key(|e| format!("{:?}", e.0)); V::Map(o) }
            v => of(w, f.k, v),
        });
    }
    V::M(out)
}
trait ByNumber { fn descriptor_by_number(&self, n: u32) -> prost_reflect::FieldDescriptor; }
impl ByNumber for DynamicMessage { fn descriptor_by_number(&self, n: u32) -> prost_reflect::FieldDescriptor { use prost_reflect::ReflectMessage; self.descriptor().get_field(n).unwrap() } }
/// one text per value: maps sorted, not-a-numbers alike
fn canon(v: &V) -> String {
    match v { V::M(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}:{}", canon(v))).collect::<Vec<_>>().join(",")), V::L(l) => format!("[{}]", l.iter().map(canon).collect::<Vec<_>>().join(",")), V::Map(es) => { let mut o: Vec<String> = es.iter().map(|(a, b)| format!("{}=>{}", canon(a), canon(b))).collect(); o.sort(); format!("<{}>", o.join(",")) } v => format!("{v:?}") }
}

fn float_text(x: f64) -> Value { if x.is_nan() { json!("NaN") } else if x == f64::INFINITY { json!("Infinity") } else if x == f64::NEG_INFINITY { json!("-Infinity") } else { json!(x) } }
/// The JSON form of a value as protobuf defines it
fn json_of(w: &W, k: K, v: &V) -> Value {
    match v {
        V::D(x) => float_text(*x),
        // the shortest text that stands for the float
        V::F(x) => if x.is_finite() { json!(x.to_string().parse::<f64>().unwrap()) } else { float_text(*x as f64) },
        V::I(x) => if k.wide() { json!(x.to_string()) } else { json!(x) },
        V::U(x) => if k.wide() { json!(x.to_string()) } else { json!(x) },
        V::B(b) => json!(b), V::S(s) => json!(s), V::By(b) => json!(base64::engine::general_purpose::STANDARD.encode(b)),
        V::E(e) => { let Enum(i) = k else { unreachable!() }; w.enums[i].1.iter().find(|x| x.1 == *e).map(|x| json!(x.0)).unwrap_or(json!(e)) }
        V::M(_) => { let Msg(i) = k else { unreachable!() }; json_msg(w, i, v, true) }
        _ => unreachable!(),
    }
}
fn key_text(v: &V) -> String { match v { V::I(i) => i.to_string(), V::U(i) => i.to_string(), V::B(b) => b.to_string(), V::S(s) => s.clone(), _ => unreachable!() } }
fn json_field(w: &W, f: &F, v: &V) -> Value { match v { V::L(l) => Value::Array(l.iter().map(|x| json_of(w, f.k, x)).collect()), V::Map(es) => Value::Object(es.iter().map(|(a, b)| (key_text(a), json_of(w, f.k, b))).collect()), v => json_of(w, f.k, v) } }
fn zero(k: K) -> V { match k { Double => V::D(0.0), Float => V::F(0.0), Bool => V::B(false), Str => V::S(String::new()), Bytes => V::By(vec![]), Enum(_) => V::E(0), Msg(_) => V::M(BTreeMap::new()), k if k.unsigned() => V::U(0), _ => V::I(0) } }
fn json_msg(w: &W, i: usize, v: &V, defaults: bool) -> Value {
    let V::M(fs) = v else { unreachable!() };
    let mut out = Map::new();
    for (fi, f) in w.msgs[i].fields.iter().enumerate() {
        match fs.get(&fi) {
            Some(v) => { out.insert(f.json(), if defaults { json_field(w, f, v) } else { json_field_sparse(w, f, v) }); }
            None if f.presence() || !defaults => {}
            None => { out.insert(f.json(), match f.card { Card::Many => json!([]), Card::Map(_) => json!({}), _ => json_of(w, f.k, &zero(f.k)) }); }
        }
    }
    Value::Object(out)
}
fn json_field_sparse(w: &W, f: &F, v: &V) -> Value {
    let one = |v: &V| if let (Msg(i), V::M(_)) = (f.k, v) { json_msg(w, i, v, false) } else { json_of(w, f.k, v) };
    match v { V::L(l) => Value::Array(l.iter().map(one).collect()), V::Map(es) => Value::Object(es.iter().map(|(a, b)| (key_text(a), one(b))).collect()), v => one(v) }
}
/// numbers compare by value
fn norm(v: &Value) -> Value { match v { Value::Number(n) => json!(n.as_f64().map(|x| if x == 0.0 { 0.0 } else { x })), Value::Array(l) => Value::Array(l.iter().map(norm).collect()), Value::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), norm(v))).collect()), v => v.clone() } }

/// One of the JSON texts a client may write for a value
fn spell(r: &mut Rng, w: &W, k: K, v: &V) -> Value {
    match v {
        V::I(x) => match r.below(5) { 0 | 1 => json!(x.to_string()), 2 if x.unsigned_abs() < 1 << 40 => json!(*x as f64), _ => json!(x) },
        V::U(x) => match r.below(5) { 0 | 1 => json!(x.to_string()), 2 if *x < 1 << 40 => json!(*x as f64), _ => json!(x) },
        V::D(x) if x.is_finite() && x.fract() == 0.0 && x.abs() < 1e9 && r.bool() && x.to_bits() != (-0.0f64).to_bits() => json!(*x as i64),
        V::D(x) if x.is_finite() && r.chance(1, 5) => json!(x.to_string()),
        V::E(e) => if r.chance(1, 4) { json!(e) } else { json_of(w, k, v) },
        V::M(_) => { let Msg(i) = k else { unreachable!() }; spell_msg(r, w, i, v) }
        _ => json_of(w, k, v),
    }
}
fn spell_msg(r: &mut Rng, w: &W, i: usize, v: &V) -> Value {
    let V::M(fs) = v else { unreachable!() };
    let mut es: Vec<(String, Value)> = vec![];
    for (fi, f) in w.msgs[i].fields.iter().enumerate() {
        let name = if r.chance(1, 3) { f.name.clone() } else { f.json() };
        match fs.get(&fi) {
            Some(V::L(l)) => es.push((name, Value::Array(l.iter().map(|x| spell(r, w, f.k, x)).collect()))),
            Some(V::Map(m)) => es.push((name, Value::Object(m.iter().map(|(a, b)| (key_text(a), spell(r, w, f.k, b))).collect()))),
            Some(v) => es.push((name, spell(r, w, f.k, v))),
            // absent: left out, null, or the default
            None => match r.below(6) { 0 => es.push((name, Value::Null)), 1 if !f.presence() => es.push((name, match f.card { Card::Many => json!([]), Card::Map(_) => json!({}), _ => json_of(w, f.k, &zero(f.k)) })), _ => {} },
        }
    }
    r.shuffle(&mut es);
    Value::Object(es.into_iter().collect())
}

/// A value that isn't one of the field's
fn misfit(r: &mut Rng, k: K) -> (Value, &'static str) {
    let any: &[(Value, &'static str)] = &[(json!({"a": 1}), "object"), (json!([]), "list")];
    let mut l: Vec<(Value, &'static str)> = if matches!(k, Msg(_)) { vec![(json!([]), "list")] } else { any.to_vec() };
    match k {
        Double => l.extend([(json!("one"), "word"), (json!(true), "bool"), (json!(""), "empty")]),
        Float => l.extend([(json!("one"), "word"), (json!(true), "bool"), (json!(1e39), "range"), (json!(-3.5e38), "range")]),
        Bool => l.extend([(json!("true"), "word"), (json!(1), "number"), (json!("yes"), "word")]),
        Str => l.extend([(json!(1), "number"), (json!(true), "bool")]),
        Bytes => l.extend([(json!(1), "number"), (json!("!!!!"), "base64"), (json!("a"), "base64")]),
        Enum(_) => l.extend([(json!("NO_SUCH_VALUE"), "name"), (json!(true), "bool"), (json!(1.5), "fraction"), (json!(4294967296i64), "range")]),
        Msg(_) => l.extend([(json!("x"), "word"), (json!(1), "number"), (json!(false), "bool")]),
        k => {
            l.extend([(json!("one"), "word"), (json!(true), "bool"), (json!(1.5), "fraction"), (json!(""), "empty"), (json!("1.5"), "fraction"), (json!("1 "), "spaces")]);
            if k.unsigned() { l.extend([(json!(-1), "range"), (json!("-1"), "range")]) }
            if k.wide() { l.extend([(json!("18446744073709551616"), "range"), (json!("-9223372036854775809"), "range"), (json!(1e20), "range")]) } else { l.extend([(json!(4294967296i64), "range"), (json!("4294967296"), "range"), (json!(-2147483649i64), "range")]) }
            if !k.wide() && !k.unsigned() { l.extend([(json!(2147483648i64), "range"), (json!("2147483648"), "range")]) }
            if k.wide() && !k.unsigned() { l.push((json!(9223372036854775808u64), "range")) }
        }
    }
    l[r.below(l.len())].clone()
}
/// A body that doesn't fit the message
fn spoil(r: &mut Rng, w: &W, i: usize, body: &Value) -> Option<(String, String)> {
    let m = &w.msgs[i];
    let mut o = body.as_object()?.clone();
    let drop = |o: &mut Map<String, Value>, f: &F| { o.remove(&f.name); o.remove(&f.json()); };
    let how = match r.below(10) {
        0 => { o.insert("no_such_field".into(), json!(1)); "unknown-field".into() }
        1 => {
            let of: Vec<&F> = m.fields.iter().filter(|f| f.card == Card::Of(0)).collect();
            if of.len() < 2 { return None }
            for f in &of { drop(&mut o, f) }
            for f in &of[..2] { o.insert(f.json(), json_of(w, f.k, &zero(f.k))); }
            "two-alternatives".into()
        }
        2 => return Some((format!("{body}{}", r.pick(&["x", "{}", ",", "}", "1", "[]"])), "trailing".into())),
        3 => return Some((r.pick(&["", "[]", "1", "\"{}\"", "{", "{\"a\"", "nul"]).to_string(), "not-an-object".into())),
        _ => {
            if m.fields.is_empty() { return None }
            let f = r.pick(&m.fields);
            drop(&mut o, f);
            if let Card::Of(_) = f.card { for g in &m.fields { if g.card == f.card { drop(&mut o, g) } } }
            let (bad, why) = misfit(r, f.k);
            let (v, why) = match f.card {
                Card::Many => match r.below(4) { 0 => (json!([null]), "null-in-list".to_string()), 1 => (json_of(w, f.k, &zero(f.k)), "no-list".into()), _ => (json!([json_of(w, f.k, &zero(f.k)), bad]), format!("list-{:?}-{why}", f.k)) },
                Card::Map(kk) => match r.below(5) { 0 => (json!([]), "no-map".to_string()), 1 if kk != Str => (json!({"x?": json_of(w, f.k, &zero(f.k))}), "map-key".into()), 2 if kk.is_int() => (json!({"99999999999999999999": json_of(w, f.k, &zero(f.k))}), "map-key-range".into()), _ => (json!({if kk == Bool { "true" } else { "1" }: bad}), format!("map-{:?}-{why}", f.k)) },
                _ => (bad, format!("{:?}-{why}", f.k)),
            };
            if v.is_object() && matches!(f.k, Msg(_)) && !matches!(f.card, Card::Map(_)) { return None }
            o.insert(if r.bool() { f.json() } else { f.name.clone() }, v);
            why
        }
    };
    Some((Value::Object(o).to_string(), how))
}

fn five(p: &[u8]) -> Vec<u8> { let mut v = vec![0]; v.extend((p.len() as u32).to_be_bytes()); v.extend(p); v }
fn operation(w: &W, name: &str) -> Result<ProtobufOperation, String> {
    let text = w.text();
    let set = protox::Compiler::with_file_resolver(Mem(text.clone())).include_imports(true).open_file("x.proto").map_err(|e| format!("{e:?}\n{text}"))?.file_descriptor_set();
    let method = GrpcMethod::try_from(format!("{}.Svc.{name}", w.pkg).as_str()).map_err(|e| e.to_string())?;
    ProtobufSet::from_proto_file(set).and_then(|s| s.find_service(&method)).and_then(|s| s.find_operation(&method)).map_err(|e| format!("{e:#}"))
}

fn codec(c: &C) {
    let mut r = c.rng("codec");
    let mut kinds = BTreeSet::new();
    for _ in 0..c.n(200, 6000) {
        let w = world(&mut r, false);
        if let Err(e) = w.pool() { c.inconclusive(&format!("the generated protobuf file isn't valid: {e}")); return }
        let op = match operation(&w, "Echo") { Ok(o) => o, Err(e) => { c.violation("codec:operation-not-found", json!(e)); continue } };
        c.check(op.name() == "Echo" && op.service_name() == "Svc" && op.input_type == op.output_type, "codec:operation", || json!(w.text()));
        for bad in ["No", "echo", "", "Ech", "Echo1"] { c.check(operation(&w, bad).is_err(), "codec:operation-that-is-not-there", || json!([bad, w.text()])); }
        let d = op.input_type.clone();
        for m in &w.msgs { for f in &m.fields { kinds.insert(format!("{:?}", f.k).split('(').next().unwrap().to_string()); } }
        for _ in 0..c.n(12, 30) {
            let v = message(&mut r, &w, 0, 0, true);
            let show = |x: Value| json!({"proto": w.text(), "value": format!("{v:?}"), "with": x});
            let nontrivial = { let V::M(m) = &v else { unreachable!() }; m.values().any(|x| matches!(x, V::M(_) | V::L(_) | V::Map(_))) || w.msgs[0].fields.iter().any(|f| matches!(f.card, Card::Of(_))) };
            // JSON to bytes
            let body = spell_msg(&mut r, &w, 0, &v);
            let text = if r.chance(1, 4) { format!(" {}\n", serde_json::to_string_pretty(&body).unwrap()) } else { body.to_string() };
            c.case(&(&w, canon(&v), &text), nontrivial);
            c.count("values:written", 1);
            match guard(|| op.convert_input(&text)) {
                Err(p) => c.violation("codec:write-panic", show(json!([text, p]))),
                Ok(Err(e)) => c.violation("codec:write-refused", show(json!([text, format!("{e:#}")]))),
                Ok(Ok(b)) => {
                    let framed = b.len() >= 5 && b[0] == 0 && u32::from_be_bytes([b[1], b[2], b[3], b[4]]) as usize == b.len() - 5;
                    c.check(framed, "codec:frame", || show(json!(b)));
                    match DynamicMessage::decode(d.clone(), &b[5.min(b.len())..]) {
                        Err(e) => c.violation("codec:written-unreadable", show(json!(e.to_string()))),
                        Ok(m) => { let got = walk(&w, 0, &m); c.check(canon(&got) == canon(&v) && m.unknown_fields().next().is_none(), "codec:written", || show(json!({"text": text, "message": format!("{got:?}")}))); }
                    }
                }
            }
            // bytes to JSON
            let bytes = dynamic(&w, &d, 0, &v).encode_to_vec();
            c.count("values:read", 1);
            let want = json_msg(&w, 0, &v, true);
            match guard(|| op.convert_output::<Value>(&five(&bytes))) {
                Err(p) => c.violation("codec:read-panic", show(json!(p))),
                Ok(Err(e)) => c.violation("codec:read-refused", show(json!(format!("{e:#}")))),
                Ok(Ok(got)) => { c.check(norm(&got) == norm(&want), "codec:read", || show(json!({"read": got, "expected": want}))); }
            }
            match guard(|| op.convert_output::<ConstValue>(&five(&bytes))) {
                Ok(Ok(got)) => { let got = got.into_json().unwrap(); c.check(norm(&got) == norm(&want), "codec:read-const", || show(json!({"read": got, "expected": want}))); }
                e => c.violation("codec:read-const-refused", show(json!(format!("{e:?}")))),
            }
            // what was read is understood again
            match op.convert_output::<Value>(&five(&bytes)).map(|t| op.convert_input(&t.to_string())) {
                Ok(Ok(b)) => { let m = DynamicMessage::decode(d.clone(), &b[5..]); c.check(m.as_ref().is_ok_and(|m| canon(&walk(&w, 0, m)) == canon(&v)), "codec:round-trip", || show(json!(format!("{m:?}")))); }
                e => c.violation("codec:round-trip-refused", show(json!(format!("{e:?}")))),
            }
            // as a detail of an error
            let name = format!("{}.{}", w.pkg, w.msgs[0].name);
            match op.find_message(&name).map(|m| guard(|| m.decode(&bytes))) {
                Some(Ok(Ok(got))) => { let got = got.into_json().unwrap(); let want = json_msg(&w, 0, &v, false); c.check(norm(&got) == norm(&want), "codec:detail", || show(json!({"read": got, "expected": want}))); }
                e => c.violation("codec:detail-refused", show(json!(format!("{e:?}")))),
            }
            // values that don't fit
            for _ in 0..2 {
                let Some((text, how)) = spoil(&mut r, &w, 0, &body) else { continue };
                c.count("misfits", 1);
                c.case(&(&w, &text), true);
                match guard(|| op.convert_input(&text)) {
                    Ok(Err(_)) => {}
                    Err(p) => c.violation("codec:misfit-panic", show(json!([text, how, p]))),
                    Ok(Ok(b)) => c.violation(&format!("codec:misfit-accepted:{how}"), show(json!({"text": text, "sent": DynamicMessage::decode(d.clone(), &b[5..]).map(|m| format!("{:?}", walk(&w, 0, &m))).unwrap_or_default()}))),
                }
            }
            if r.chance(1, 4) {
                c.count("bad-bytes", 1);
                let bad: Vec<u8> = match r.below(5) {
                    0 => (0..r.below(5)).map(|_| 0).collect(),
                    1 => { let mut b = bytes.clone(); b.extend([0xfa, 0x7f, 50, 1]); five(&b) }
                    2 => { let mut b = bytes.clone(); b.extend([0xff, 0xff]); five(&b) }
                    3 => { let mut b = five(&bytes); b[0] = *r.pick(&[1, 2, 255]); b }
                    _ => { let mut b = bytes.clone(); b.push(7); five(&b) }
                };
                match guard(|| op.convert_output::<Value>(&bad)) {
                    Ok(Err(_)) => {}
                    e => c.violation("codec:bad-bytes-accepted", show(json!({"bytes": bad, "read": format!("{e:?}")}))),
                }
            }
        }
        // several in one call
        let Ok(many) = operation(&w, "Many") else { c.violation("codec:operation-not-found", json!(w.text())); continue };
        let keyed: Vec<&F> = w.msgs[0].fields.iter().filter(|f| (f.k.is_int() || f.k == Str) && f.card == Card::One).collect();
        if !keyed.is_empty() {
            let f = *r.pick(&keyed);
            let vs: Vec<V> = (0..r.range(1, 5)).map(|_| message(&mut r, &w, 0, 0, true)).collect();
            let texts: Vec<String> = vs.iter().map(|v| spell_msg(&mut r, &w, 0, v).to_string()).collect();
            let fi = w.msgs[0].fields.iter().position(|x| x == f).unwrap();
            let ids: Vec<String> = vs.iter().map(|v| { let V::M(m) = v else { unreachable!() }; key_text(m.get(&fi).unwrap_or(&zero(f.k))) }).collect();
            c.count("multiple", 1);
            let show = |x: Value| json!({"proto": w.text(), "inputs": texts, "key": f.name, "with": x});
            match guard(|| many.convert_multiple_inputs(texts.iter().map(|t| t.as_str()), &f.name)) {
                Ok(Ok((b, got))) => {
                    c.check(got == ids, "codec:multiple-keys", || show(json!({"keys": got, "expected": ids})));
                    let m = DynamicMessage::decode(many.input_type.clone(), &b[5..]).ok();
                    let all: Option<Vec<String>> = m.and_then(|m| m.get_field_by_name("all").map(|l| l.as_list().unwrap().iter().map(|x| canon(&walk(&w, 0, x.as_message().unwrap()))).collect()));
                    c.check(all.as_ref() == Some(&vs.iter().map(canon).collect()), "codec:multiple", || show(json!({"sent": all, "expected": vs.iter().map(canon).collect::<Vec<_>>()})));
                }
                e => c.violation("codec:multiple-refused", show(json!(format!("{e:?}")))),
            }
            let mut bad = texts.clone();
            let at = r.below(bad.len());
            bad[at] = r.pick(&["{\"no_such_field\": 1}", "[]", "", "{} x"]).to_string();
            c.check(!matches!(guard(|| many.convert_multiple_inputs(bad.iter().map(|t| t.as_str()), &f.name)), Ok(Ok(_)) | Err(_)), "codec:multiple-misfit-accepted", || show(json!(bad)));
        }
    }
    c.max("field-kinds", kinds.len() as u64);
}

// ---------------------------------------------------------------- shapes
fn shape_of(w: &W, i: usize, parents: &mut Vec<usize>) -> JsonSchema {
    if parents.contains(&i) { return JsonSchema::Any }
    if w.msgs[i].fields.is_empty() { return JsonSchema::Empty }
    parents.push(i);
    let m = w.msgs[i].fields.iter().map(|f| (f.json(), shape_field(w, f, parents))).collect();
    parents.pop();
    JsonSchema::Obj(m)
}
fn shape_field(w: &W, f: &F, parents: &mut Vec<usize>) -> JsonSchema {
    let one = if let Card::Map(_) = f.card { JsonSchema::Any } else {
        match f.k { Bool => JsonSchema::Bool, Str | Bytes => JsonSchema::Str, Enum(e) => JsonSchema::Enum(w.enums[e].1.iter().map(|x| x.0.clone()).collect()), Msg(i) => shape_of(w, i, parents), _ => JsonSchema::Num }
    };
    let opt = |x: JsonSchema| JsonSchema::Opt(Box::new(x));
    match f.card { Card::Many => opt(JsonSchema::Arr(Box::new(one))), Card::Map(_) | Card::Req => one, _ => opt(one) }
}
fn gen_shape(r: &mut Rng, depth: usize, plain: bool) -> JsonSchema {
    match r.below(if depth > 2 { 6 } else { 11 }) {
        0 => JsonSchema::Str, 1 => JsonSchema::Num, 2 => JsonSchema::Bool,
        3 if !plain => JsonSchema::Any, 4 if !plain => JsonSchema::Empty,
        3 | 4 => JsonSchema::Num,
        5 => JsonSchema::Enum(r.subset(&["A", "B", "C"], 1, 2).into_iter().map(String::from).collect()),
        6 | 7 => JsonSchema::Obj(r.subset(&["a", "b", "c", "d"], 1, 2).into_iter().map(|k| (k.to_string(), gen_shape(r, depth + 1, plain))).collect()),
        8 => JsonSchema::Arr(Box::new(gen_shape(r, depth + 1, plain))),
        _ => JsonSchema::Opt(Box::new(gen_shape(r, depth + 1, plain))),
    }
}
/// The places at which the one can't be used as the other
fn unassignable(sub: &JsonSchema, sup: &JsonSchema, at: &mut Vec<String>, name: &str, out: &mut Vec<(Vec<String>, bool)>) {
    use JsonSchema::*;
    let here = |at: &Vec<String>| { let mut a = at.clone(); a.push(name.to_string()); a };
    match (sub, sup) {
        (_, Any) => {}
        (Obj(a), Obj(b)) => {
            at.push(name.to_string());
            for (k, e) in b { match a.get(k) { None => out.push((at.clone(), true)), Some(x) => unassignable(x, e, at, k, out) } }
            at.pop();
        }
        (Empty, Obj(b)) if b.is_empty() => {}
        (Arr(a), Arr(b)) => unassignable(a, b, at, name, out),
        (Opt(a), Opt(b)) => unassignable(a, b, at, name, out),
        (a, Opt(b)) => unassignable(a, b, at, name, out),
        (Str, Str) | (Num, Num) | (Bool, Bool) | (Empty, Empty) => {}
        (Enum(a), Enum(b)) if a == b => {}
        _ => out.push((here(at), false)),
    }
}
fn invalid(s: &JsonSchema, v: &ConstValue, at: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'static str)>) {
    use JsonSchema as J;
    let bad = |m: &'static str, at: &Vec<String>, out: &mut Vec<(Vec<String>, &'static str)>| out.push((at.clone(), m));
    match s {
        J::Any | J::Enum(_) => {}
        J::Str => if !matches!(v, ConstValue::String(_)) { bad("expected string", at, out) },
        J::Num => if !matches!(v, ConstValue::Number(_)) { bad("expected number", at, out) },
        J::Bool => if !matches!(v, ConstValue::Boolean(_)) { bad("expected boolean", at, out) },
        J::Empty => if !(v == &ConstValue::Null || matches!(v, ConstValue::Object(o) if o.is_empty())) { bad("expected empty", at, out) },
        J::Opt(x) => if v != &ConstValue::Null { invalid(x, v, at, out) },
        J::Arr(x) => match v { ConstValue::List(l) => for (i, e) in l.iter().enumerate() { at.push(i.to_string()); invalid(x, e, at, out); at.pop(); }, _ => bad("expected array", at, out) },
        J::Obj(fs) => match v {
            ConstValue::Object(o) => for (k, x) in fs {
                at.push(k.clone());
                match o.get(k.as_str()) { Some(e) => invalid(x, e, at, out), None => if !matches!(x, J::Opt(_)) { bad("expected field to be non-nullable", at, out) } }
                at.pop();
            },
            _ => bad("expected object", at, out),
        },
    }
}
/// A value for the shape, with what the shape allows left out
fn fitting(r: &mut Rng, s: &JsonSchema) -> Value {
    use JsonSchema as J;
    match s {
        J::Any => gen_json(r, 1), J::Enum(e) => json!(e.iter().next()), J::Str => json!(r.string(&["a", "é", "1"], 3)), J::Num => json!(r.below(100)), J::Bool => json!(r.bool()),
        J::Empty => if r.bool() { Value::Null } else { json!({}) },
        J::Opt(x) => if r.chance(1, 3) { Value::Null } else { fitting(r, x) },
        J::Arr(x) => Value::Array((0..if r.chance(1, 25) { r.range(20, 150) } else { r.below(3) }).map(|_| fitting(r, x)).collect()),
        J::Obj(fs) => { let mut o = Map::new(); for (k, x) in fs { if matches!(x, J::Opt(_)) && r.chance(1, 3) { continue } o.insert(k.clone(), fitting(r, x)); } if r.chance(1, 4) { o.insert("extra".into(), json!(1)); } Value::Object(o) }
    }
}
fn tweak(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Array(l) if !l.is_empty() && r.chance(3, 4) => { let i = r.below(l.len()); tweak(r, &mut l[i]) }
        Value::Object(o) if !o.is_empty() && r.chance(3, 4) => { let k = o.keys().nth(r.below(o.len())).unwrap().clone(); if r.chance(1, 4) { o.remove(&k); } else { tweak(r, o.get_mut(&k).unwrap()) } }
        v => *v = r.pick(&[json!(null), json!(1), json!("x"), json!(true), json!([]), json!({}), json!([1]), json!({"a": 1}), json!(1.5)]).clone(),
    }
}
fn change(r: &mut Rng, s: &JsonSchema) -> JsonSchema {
    use JsonSchema as J;
    match s {
        J::Obj(fs) if !fs.is_empty() && r.chance(3, 4) => { let mut fs = fs.clone(); let k = fs.keys().nth(r.below(fs.len())).unwrap().clone(); match r.below(5) { 0 => { fs.remove(&k); } 1 => { fs.insert("z".into(), gen_shape(r, 3, false)); } _ => { let x = change(r, &fs[&k]); fs.insert(k, x); } } J::Obj(fs) }
        J::Arr(x) if r.chance(3, 4) => J::Arr(Box::new(change(r, x))),
        J::Opt(x) if r.chance(1, 2) => J::Opt(Box::new(change(r, x))),
        J::Opt(x) if r.bool() => (**x).clone(),
        J::Enum(e) if r.bool() => { let mut e = e.clone(); if !e.remove("B") { e.insert("B".into()); } J::Enum(e) }
        s => match r.below(5) { 0 => J::Any, 1 | 2 => J::Opt(Box::new(s.clone())), 3 => J::Arr(Box::new(s.clone())), _ => gen_shape(r, 2, false) },
    }
}

fn shapes(c: &C) {
    let mut r = c.rng("shapes");
    for _ in 0..c.n(300, 5000) {
        let proto2 = r.chance(1, 4);
        let w = world(&mut r, proto2);
        let pool = match w.pool() { Ok(p) => p, Err(e) => { c.inconclusive(&format!("the generated protobuf file isn't valid: {e}")); return } };
        for i in 0..w.msgs.len() {
            c.count("shapes:of-messages", 1);
            let d = w.desc(&pool, i);
            let want = shape_of(&w, i, &mut vec![]);
            let got = JsonSchema::try_from(&d);
            c.case(&(&w, i), w.msgs[i].fields.len() > 1);
            c.check(got.as_ref().ok() == Some(&want), "shapes:message", || json!({"proto": w.text(), "message": w.msgs[i].name, "shape": format!("{got:?}"), "expected": format!("{want:?}")}));
            for f in &w.msgs[i].fields {
                let fd = d.get_field(f.num).unwrap();
                let want = shape_field(&w, f, &mut vec![]);
                let got = JsonSchema::try_from(&fd);
                c.check(got.as_ref().ok() == Some(&want), "shapes:field", || json!({"proto": w.text(), "field": format!("{f:?}"), "shape": format!("{got:?}"), "expected": format!("{want:?}")}));
            }
            // what a message is read as has the message's shape
            if !w.proto2 && !w.looped {
                let any = to_any(&shape_of(&w, i, &mut vec![]), &w, i);
                let v = message(&mut r, &w, i, 0, false);
                let j = ConstValue::from_json(json_msg(&w, i, &v, true)).unwrap();
                let res = any.validate(&j).to_result();
                c.check(res.is_ok(), "shapes:value-of-the-message", || json!({"proto": w.text(), "value": j, "shape": any.to_string(), "said": format!("{res:?}")}));
            }
        }
        for (e, vs) in &w.enums {
            let d = pool.get_enum_by_name(&format!("{}.{e}", w.pkg)).unwrap();
            c.eq(&JsonSchema::try_from(&d).ok(), &Some(JsonSchema::Enum(vs.iter().map(|v| v.0.clone()).collect())), "shapes:enum", || json!(w.text()));
        }
    }
    for _ in 0..c.n(6000, 200_000) {
        let plain = r.bool();
        let a = gen_shape(&mut r, 0, plain);
        let b = match r.below(6) { 0 => gen_shape(&mut r, 0, plain), 1 => a.clone(), 2 => { let x = change(&mut r, &a); change(&mut r, &x) } _ => change(&mut r, &a) };
        let mut want = vec![];
        unassignable(&a, &b, &mut vec![], "top", &mut want);
        c.case(&(a.to_string(), b.to_string()), a != b);
        let got = guard(|| a.is_a(&b, "top").to_result());
        let show = || json!({"this": a.to_string(), "used as": b.to_string(), "said": format!("{got:?}"), "expected": format!("{want:?}")});
        c.count(if want.is_empty() { "shapes:assignable" } else { "shapes:not-assignable" }, 1);
        match &got {
            Err(_) => c.violation("shapes:panic", show()),
            Ok(Ok(_)) => { c.check(want.is_empty(), "shapes:wrongly-assignable", show); }
            Ok(Err(e)) => {
                c.check(!want.is_empty(), "shapes:wrongly-refused", show);
                let got: Vec<(Vec<String>, bool)> = e.as_vec().iter().map(|x| (x.trace.iter().map(|t| t.to_string()).collect(), x.message.starts_with("missing key"))).collect();
                c.check(got == want, "shapes:places", show);
            }
        }
        c.check(guard(|| a.is_a(&a, "x").is_succeed()) == Ok(true), "shapes:not-itself", show);
        c.check(a.is_a(&a.clone().optional(), "x").is_succeed() && a.clone().optional().is_optional() && !a.clone().optional().is_required(), "shapes:optional", show);
        // the texts and the other forms tell shapes apart
        let back: Option<JsonSchema> = serde_json::to_string(&a).ok().and_then(|t| serde_json::from_str(&t).ok());
        c.check(back.as_ref() == Some(&a), "shapes:kept-as-text", || json!({"shape": a.to_string(), "read": format!("{back:?}")}));
        let (ta, tb) = (a.to_string(), b.to_string());
        c.check((a == b) == (ta == tb), "shapes:shown-alike", show);
        // values
        for k in 0..2 {
            let mut v = fitting(&mut r, &a);
            if k == 1 { tweak(&mut r, &mut v) }
            let cv = ConstValue::from_json(v.clone()).unwrap();
            let mut want = vec![];
            invalid(&a, &cv, &mut vec![], &mut want);
            let got: Vec<(Vec<String>, &'static str)> = match a.validate(&cv).to_result() { Ok(_) => vec![], Err(e) => e.as_vec().iter().map(|x| (x.trace.iter().map(|t| t.to_string()).collect(), x.message)).collect() };
            c.count(if want.is_empty() { "shapes:valid" } else { "shapes:invalid" }, 1);
            c.check(k == 1 || want.is_empty(), "shapes:model", || json!([a.to_string(), v]));
            c.check(got == want, "shapes:validation", || json!({"shape": a.to_string(), "value": v, "said": format!("{got:?}"), "expected": format!("{want:?}")}));
            // whatever is one of these can be used where the other is expected
            if plain && got.is_empty() && a.is_a(&b, "x").is_succeed() && !tb.contains("Any") && !tb.contains("Empty") { c.check(b.validate(&cv).is_succeed(), "shapes:unsound", || json!({"this": ta, "used as": tb, "value": v})); }
        }
    }
    for (n, want) in [("String", JsonSchema::Str), ("Int", JsonSchema::Num), ("Boolean", JsonSchema::Bool), ("Empty", JsonSchema::Empty), ("JSON", JsonSchema::Any), ("Date", JsonSchema::Any), ("Whatever", JsonSchema::Any)] { c.eq(&JsonSchema::from_scalar_type(n), &want, "shapes:scalar", || json!(n)); }
    // where the values of a batch are found
    for path in [vec![], vec!["id"], vec!["items", "id"], vec!["a", "b", "c"]] { for key in [None, Some("k")] {
        let p: Vec<String> = path.iter().map(|s| s.to_string()).collect();
        let g = GroupBy::new(p.clone(), key.map(String::from));
        let want = (if p.is_empty() { vec!["id".to_string()] } else { p.clone() }, key.unwrap_or(p.last().map(|s| s.as_str()).unwrap_or("id")).to_string());
        c.eq(&(g.path(), g.key().to_string()), &want, "shapes:group-by", || json!([path, key]));
    } }
    c.eq(&(GroupBy::default().path(), GroupBy::default().key().to_string()), &(vec!["id".to_string()], "id".to_string()), "shapes:group-by", || json!("default"));
}
/// 64-bit numbers and floats that aren't numbers are texts: anything goes there
fn to_any(s: &JsonSchema, w: &W, i: usize) -> JsonSchema {
    let JsonSchema::Obj(fs) = s else { return s.clone() };
    JsonSchema::Obj(w.msgs[i].fields.iter().map(|f| (f.json(), match f.k { k if k.wide() => JsonSchema::Opt(Box::new(JsonSchema::Any)), Msg(_) if matches!(f.card, Card::One | Card::Opt | Card::Many | Card::Of(_)) => JsonSchema::Opt(Box::new(JsonSchema::Any)), _ if matches!(f.card, Card::Map(_)) => JsonSchema::Opt(Box::new(JsonSchema::Any)), _ => fs[&f.json()].clone() })).collect())
}

// ---------------------------------------------------------------- through the gateway
fn build(files: &[(String, String)], up: Arc<Upstream>) -> Result<Arc<AppContext>, String> {
    let mut rt = mock::runtime(up);
    rt.file = Arc::new(Files(Mutex::new(files.iter().cloned().collect())));
    let rt2 = rt.clone();
    let bp = std::thread::spawn(move || rt_single().block_on(async move {
        let m = ConfigReader::init(rt2).read("app.graphql").await.map_err(|e| format!("{e:#}"))?;
        Blueprint::try_from(&m).map_err(|e| format!("{e}"))
    })).join().map_err(|_| last_panic())??;
    Ok(Arc::new(AppContext::new(bp, rt, EndpointSet::default())))
}
/// the messages as GraphQL types, and what to select of them
fn gql_type(w: &W, i: usize, parents: &mut Vec<usize>) -> Option<String> {
    if w.msgs[i].fields.is_empty() || parents.contains(&i) { return None }
    Some(format!("T{i}"))
}
fn gql_field(w: &W, f: &F, parents: &mut Vec<usize>) -> (String, Option<usize>) {
    if let Card::Map(_) = f.card { return ("JSON".into(), None) }
    let (t, sub) = match f.k {
        Double | Float => ("Float".to_string(), None), Bool => ("Boolean".into(), None), Str | Bytes => ("String".into(), None), Enum(e) => (w.enums[e].0.clone(), None),
        Msg(i) => match gql_type(w, i, parents) { Some(t) => (t, Some(i)), None => ("JSON".into(), None) },
        k if k.wide() => ("JSON".into(), None), _ => ("Int".into(), None),
    };
    (if f.card == Card::Many { format!("[{t}]") } else { t }, sub)
}
fn select(w: &W, i: usize, parents: &mut Vec<usize>) -> String {
    parents.push(i);
    let s = w.msgs[i].fields.iter().map(|f| { let (_, sub) = gql_field(w, f, parents); match sub { Some(s) => format!("{} {}", f.json(), select(w, s, parents)), None => f.json() } }).collect::<Vec<_>>().join(" ");
    parents.pop();
    format!("{{ {s} }}")
}
fn seen(w: &W, i: usize, v: &Value, parents: &mut Vec<usize>) -> Value {
    if v.is_null() { return Value::Null }
    parents.push(i);
    let o = w.msgs[i].fields.iter().map(|f| {
        let x = v.get(f.json()).cloned().unwrap_or(Value::Null);
        let (_, sub) = gql_field(w, f, parents);
        (f.json(), match (sub, &x) { (Some(s), Value::Array(l)) => Value::Array(l.iter().map(|e| seen(w, s, e, parents)).collect()), (Some(s), x) => seen(w, s, x, parents), (None, x) => x.clone() })
    }).collect();
    parents.pop();
    Value::Object(o)
}
fn reachable(w: &W) -> BTreeSet<usize> { let mut s = BTreeSet::new(); let mut t = vec![0]; while let Some(i) = t.pop() { if s.insert(i) { for f in &w.msgs[i].fields { if let (Msg(j), false) = (f.k, matches!(f.card, Card::Map(_))) { t.push(j) } } } } s }
fn types(w: &W) -> String {
    let mut s = String::new();
    let live = reachable(w);
    for i in &live { if w.msgs[*i].fields.is_empty() { continue } s += &format!("type T{i} {{\n{}}}\n", w.msgs[*i].fields.iter().map(|f| format!("  {}: {}\n", f.json(), gql_field(w, f, &mut vec![]).0)).collect::<String>()); }
    for (e, vs) in &w.enums { s += &format!("enum {e} {{ {} }}\n", vs.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join(" ")); }
    s
}
/// the definitions in one file or several
fn files(r: &mut Rng, w: &W) -> Vec<(String, String)> {
    if r.bool() { return vec![("svc.proto".into(), w.text())] }
    let dir = *r.pick(&["", "dir/", "dir/sub/"]);
    let mut out = vec![(format!("{dir}svc.proto"), format!("{}import \"sub/msgs.proto\";\n{}{}", w.head(), if r.bool() { "import \"google/protobuf/empty.proto\";\nimport \"enums.proto\";\n" } else { "" }, w.service_text()))];
    out.push((format!("{dir}sub/msgs.proto"), format!("{}import \"enums.proto\";\n{}", w.head(), w.msgs.iter().map(|m| w.message_text(m)).collect::<String>())));
    out.push((format!("{dir}enums.proto"), format!("{}{}", w.head(), w.enums_text())));
    out
}

fn gateway(c: &C) {
    let mut r = c.rng("gateway");
    let rt = rt_single();
    for _ in 0..c.n(70, 1500) {
        let mut w = world(&mut r, false);
        // types that contain themselves would have no end in GraphQL
        if w.looped { for m in 0..w.msgs.len() { let l = w.msgs.len(); for f in &mut w.msgs[m].fields { if let Msg(j) = f.k { if j <= m { f.k = if m + 1 < l { Msg(m + 1) } else { Str } } } } } w.looped = false }
        if w.msgs[0].fields.is_empty() { continue }
        let pool = match w.pool() { Ok(p) => p, Err(e) => { c.inconclusive(&format!("the generated protobuf file isn't valid: {e}")); return } };
        let d = w.desc(&pool, 0);
        let fs = files(&mut r, &w);
        if fs.len() > 1 { c.count("split-files", 1) }
        let sdl = format!("schema @server(port: 8000) @upstream(httpCache: 0) @link(id: \"p\", src: \"{}\", type: Protobuf) {{ query: Query }}\n{}type Query {{\n  echo(in: JSON): T0 @grpc(url: \"http://grpc.test\", method: \"{}.Svc.Echo\", body: \"{{{{.args.in}}}}\")\n}}\n", fs[0].0, types(&w), w.pkg).replace(" @upstream(httpCache: 0)", "");
        let reply: Arc<Mutex<Option<Vec<u8>>>> = Default::default();
        let reply2 = reply.clone();
        let up = Upstream::new(move |u: &UReq| URes::bytes(reply2.lock().unwrap().clone().unwrap_or(u.body.to_vec())).header("grpc-status", "0"));
        let mut all = fs.clone();
        all.push(("app.graphql".into(), sdl.clone()));
        let app = match build(&all, up.clone()) { Ok(a) => a, Err(e) => { c.violation("gateway:refused-at-startup", json!({"files": all, "said": e})); continue } };
        for _ in 0..5 {
            let v = message(&mut r, &w, 0, 0, false);
            let body = spell_msg(&mut r, &w, 0, &v);
            *reply.lock().unwrap() = None;
            let other = r.chance(1, 3).then(|| message(&mut r, &w, 0, 0, false));
            if let Some(o) = &other { *reply.lock().unwrap() = Some(five(&dynamic(&w, &d, 0, o).encode_to_vec())) }
            up.take();
            c.count("served", 1);
            c.case(&(&w, canon(&v), other.as_ref().map(canon)), true);
            let q = format!("query($in: JSON) {{ echo(in: $in) {} }}", select(&w, 0, &mut vec![]));
            let res = rt.block_on(mock::gql(&app, json!({"query": q, "variables": {"in": body}}), &[]));
            let show = || json!({"files": all, "query": q, "in": body, "answer": res.text(), "value": format!("{v:?}")});
            let log = up.take();
            if !c.check(log.len() == 1, "gateway:calls", show) { continue }
            c.check(log[0].url.path() == format!("/{}.Svc/Echo", w.pkg) && log[0].method == "POST" && log[0].header("content-type") == Some("application/grpc"), "gateway:call", || json!(log[0].show()));
            let m = DynamicMessage::decode(d.clone(), &log[0].body[5..]);
            c.check(m.as_ref().is_ok_and(|m| canon(&walk(&w, 0, m)) == canon(&v)), "gateway:sent", show);
            let want = seen(&w, 0, &json_msg(&w, 0, other.as_ref().unwrap_or(&v), true), &mut vec![]);
            c.check(res.errors().is_empty() && norm(&res.data()["echo"]) == norm(&want), "gateway:answer", || { let mut s = show(); s["expected"] = want.clone(); s });
            if let Some((text, how)) = spoil(&mut r, &w, 0, &body) {
                if let Ok(x) = serde_json::from_str::<Value>(&text) {
                    // a text that's a message in JSON would be one
                    if x.is_string() { continue }
                    c.count("served:misfit", 1);
                    let res = rt.block_on(mock::gql(&app, json!({"query": q, "variables": {"in": x}}), &[]));
                    let calls = up.take();
                    c.check(calls.is_empty() && res.data().is_null() && !res.errors().is_empty(), &format!("gateway:misfit:{how}"), || json!({"files": all, "in": x, "answer": res.text(), "calls": calls.len()}));
                }
            }
            if r.chance(1, 4) {
                let bad: Vec<u8> = match r.below(4) { 0 => vec![], 1 => vec![0, 0, 0], 2 => { let mut b = five(&dynamic(&w, &d, 0, &v).encode_to_vec()); b[0] = 1; b } _ => five(&[0xff, 0xff, 0xff]) };
                *reply.lock().unwrap() = Some(bad.clone());
                let res = rt.block_on(mock::gql(&app, json!({"query": q, "variables": {"in": body}}), &[]));
                c.check(res.data().is_null() && !res.errors().is_empty(), "gateway:bad-reply", || json!({"files": all, "reply": bad, "answer": res.text()}));
            }
        }
    }
}

// ---------------------------------------------------------------- batches
fn batches(c: &C) {
    let mut r = c.rng("batches");
    let rt = rt_single();
    for _ in 0..c.n(110, 2000) {
        let k = *r.pick(&[Int32, Sint32, Uint32, Fixed32, Sfixed32, Int64, Sint64, Uint64, Fixed64, Sfixed64, Str]);
        let key = *r.pick(&["id", "key", "code2"]);
        let list = *r.pick(&["items", "all"]);
        let t = k.word(&W { pkg: String::new(), msgs: vec![], enums: vec![], proto2: false, looped: false });
        let before = r.bool();
        let proto = format!("syntax = \"proto3\";\npackage p;\nmessage Key {{ {t} {key} = 1; }}\nmessage Keys {{ {}repeated Key keys = 2; }}\nmessage Thing {{ {}{t} {key} = 2; string v = 3; }}\nmessage Things {{ int32 total = 1; repeated Thing {list} = 2; }}\nservice S {{ rpc Many (Keys) returns (Things); }}\n", if before { "string note = 1; " } else { "" }, if before { "bool ok = 1; " } else { "" });
        let gt = if k == Str { "String" } else { "Int" };
        let max = *r.pick(&[1000, 1000, 1000, 3, 2, 1]);
        let dedupe = r.chance(1, 3);
        let field = |n: &str| format!("{n}: Thing! @grpc(url: \"http://grpc.test\", method: \"p.S.Many\", body: {{{key}: \"{{{{.value.k}}}}\"}}, batchKey: [\"{list}\", \"{key}\"]{})", if dedupe { ", dedupe: true" } else { "" });
        let sdl = format!("schema @server(port: 8000) @upstream(batch: {{delay: 2, maxSize: {max}}}) @link(id: \"p\", src: \"p.proto\", type: Protobuf) {{ query: Query }}\ntype Thing {{ {}{key}: {gt} v: String }}\ntype Row {{ k: String! n: Int {} {} }}\ntype Query {{ rows: [Row] @http(url: \"http://up.test/rows\") }}\n", if before { "ok: Boolean " } else { "" }, field("thing"), field("again"));
        let pool: Vec<V> = { let mut p: Vec<V> = vec![]; let w = W { pkg: String::new(), msgs: vec![], enums: vec![], proto2: false, looped: false }; for _ in 0..8 { let v = if k == Str { V::S(r.string(&["a", "b", "é", "1", "-", "\"", "\\", " "], 4) + "z") } else { scalar(&mut r, &w, k, false) }; if !p.contains(&v) { p.push(v) } } p };
        let rows: Vec<V> = (0..r.range(1, 12)).map(|_| r.pick(&pool).clone()).collect();
        let missing: BTreeSet<String> = if r.chance(1, 4) { rows.iter().filter(|_| r.chance(1, 4)).map(key_text).collect() } else { BTreeSet::new() };
        let body: Value = Value::Array(rows.iter().enumerate().map(|(i, v)| json!({"k": key_text(v), "n": i})).collect());
        let file = match protox::Compiler::with_file_resolver(Mem(proto.clone())).include_imports(true).open_file("x.proto") { Ok(f) => f.file_descriptor_set(), Err(e) => { c.inconclusive(&format!("{e:?} {proto}")); return } };
        let dp = DescriptorPool::from_file_descriptor_set(file).unwrap();
        let keys_of = { let dp = dp.clone(); let key = key.to_string(); move |b: &[u8]| -> Vec<String> {
            let d = dp.get_message_by_name("p.Keys").unwrap();
            let Ok(m) = DynamicMessage::decode(d, &b[5.min(b.len())..]) else { return vec!["?".into()] };
            let l = m.get_field_by_name("keys").unwrap().into_owned();
            l.as_list().unwrap().iter().map(|x| match x.as_message().unwrap().get_field_by_name(&key).unwrap().into_owned() { PV::I32(x) => x.to_string(), PV::I64(x) => x.to_string(), PV::U32(x) => x.to_string(), PV::U64(x) => x.to_string(), PV::String(s) => s, _ => "?".into() }).collect()
        } };
        let (seed, dp2, keys2, key2, list2, missing2, pool2) = (r.next(), dp.clone(), keys_of.clone(), key.to_string(), list.to_string(), missing.clone(), pool.clone());
        let fail = r.chance(1, 8);
        let up = Upstream::new(move |u: &UReq| {
            if u.url.host_str() == Some("up.test") { return URes::json(body.clone()) }
            if fail { return URes::bytes(vec![]).header("grpc-status", "9").header("grpc-message", "not now") }
            let mut ids = keys2(&u.body);
            let mut r = Rng::new(seed);
            r.shuffle(&mut ids);
            // more than was asked for
            if r.chance(1, 3) { ids.push(key_text(&pool2[0])) }
            let td = dp2.get_message_by_name("p.Thing").unwrap();
            let l = ids.iter().filter(|i| !missing2.contains(*i)).map(|i| {
                let v = pool2.iter().find(|v| key_text(v) == *i).cloned().unwrap_or(zero(k));
                let mut m = DynamicMessage::new(td.clone());
                m.set_field_by_name(&key2, match v { V::S(s) => PV::String(s), V::I(i) => if k.wide() { PV::I64(i) } else { PV::I32(i as i32) }, V::U(i) => if k.wide() { PV::U64(i) } else { PV::U32(i as u32) }, _ => unreachable!() });
                m.set_field_by_name("v", PV::String(format!("<{i}>")));
                PV::Message(m)
            }).collect();
            let mut m = DynamicMessage::new(dp2.get_message_by_name("p.Things").unwrap());
            m.set_field_by_name(&list2, PV::List(l));
            m.set_field_by_name("total", PV::I32(5));
            URes::bytes(five(&m.encode_to_vec())).header("grpc-status", "0")
        });
        let files = vec![("p.proto".to_string(), proto.clone()), ("app.graphql".to_string(), sdl.clone())];
        let app = match build(&files, up.clone()) { Ok(a) => a, Err(e) => { c.inconclusive(&format!("the schema isn't accepted: {e}\n{sdl}\n{proto}")); return } };
        let twice = r.chance(1, 4);
        let q = format!("{{ rows {{ n thing {{ {key} v }} {} }} }}", if twice { format!("again {{ v }} other: thing {{ v {key} }}") } else { String::new() });
        let res = rt.block_on(mock::query(&app, &q));
        let log = up.take();
        c.count("batches", 1);
        let distinct: BTreeSet<String> = rows.iter().map(key_text).collect();
        c.case(&(&sdl, &proto, &rows.iter().map(canon).collect::<Vec<_>>(), &q), distinct.len() > 1);
        c.count("batch:keys-shared", (rows.len() - distinct.len()) as u64);
        let calls: Vec<Vec<String>> = log.iter().filter(|u| u.url.host_str() == Some("grpc.test")).map(|u| keys_of(&u.body)).collect();
        let show = || json!({"schema": sdl, "proto": proto, "rows": rows.iter().map(key_text).collect::<Vec<_>>(), "query": q, "calls": calls, "missing": missing, "answer": res.text()});
        let lost = rows.iter().any(|v| missing.contains(&key_text(v)));
        for call in &calls {
            let set: BTreeSet<&String> = call.iter().collect();
            c.check(set.len() == call.len(), "batches:key-twice-in-a-call", show);
            c.check(call.len() <= max && !call.is_empty(), "batches:size", show);
            c.check(call.iter().all(|k| distinct.contains(k)), "batches:key-nobody-asked-for", show);
        }
        let sent: BTreeSet<String> = calls.iter().flatten().cloned().collect();
        c.check(sent == distinct, "batches:keys-sent", show);
        if max == 1000 {
            // every field has batches of its own
            let times = if twice { 2 } else { 1 };
            let mut n: HashMap<&String, usize> = HashMap::new();
            for k in calls.iter().flatten() { *n.entry(k).or_default() += 1 }
            c.check(n.values().all(|n| *n <= times), "batches:key-sent-again", show);
        }
        if fail {
            let es = res.errors();
            c.check(res.data().is_null() && !es.is_empty() && es.iter().all(|e| e["extensions"]["grpcCode"] == json!(9) && e["extensions"]["grpcStatusMessage"] == json!("not now")), "batches:failure", show);
        } else if lost {
            c.count("batch:keys-missing", 1);
            // a reply without the key has nothing for the caller
            let d = res.data();
            let wrong = d["rows"].as_array().map(|l| l.iter().zip(&rows).any(|(g, v)| missing.contains(&key_text(v)) && !g["thing"].is_null())).unwrap_or(false);
            c.check(!wrong && (!d.is_null() || !res.errors().is_empty()), "batches:made-up-reply", show);
        } else {
            let want: Vec<Value> = rows.iter().enumerate().map(|(i, v)| { let t = key_text(v); let kv = if k == Str || k.wide() { json!(t) } else { json!(t.parse::<i64>().unwrap()) }; let mut o = json!({"n": i, "thing": {key: kv, "v": format!("<{t}>")}}); if twice { o["again"] = json!({"v": format!("<{t}>")}); o["other"] = json!({"v": format!("<{t}>"), key: kv}) } o }).collect();
            c.check(res.errors().is_empty() && res.data()["rows"] == json!(want), "batches:reply-of-another", || { let mut s = show(); s["expected"] = json!(want); s });
        }
    }
}

// ---------------------------------------------------------------- failures
fn varint(mut n: u64, out: &mut Vec<u8>) { loop { let b = (n & 0x7f) as u8; n >>= 7; if n == 0 { out.push(b); return } out.push(b | 0x80) } }
fn part(tag: u8, b: &[u8]) -> Vec<u8> { let mut v = vec![tag]; varint(b.len() as u64, &mut v); v.extend(b); v }
fn percent(s: &str) -> String { s.bytes().map(|b| if (0x20..0x7f).contains(&b) && b != b'%' && b != b'"' { (b as char).to_string() } else { format!("%{b:02X}") }).collect() }

fn failures(c: &C) {
    let mut r = c.rng("failures");
    let rt = rt_single();
    for _ in 0..c.n(25, 500) {
        let w = world(&mut r, false);
        let pool = match w.pool() { Ok(p) => p, Err(e) => { c.inconclusive(&format!("the generated protobuf file isn't valid: {e}")); return } };
        let m0 = &w.msgs[0].name;
        let proto = format!("{}message Req_ {{ int32 id = 1; }}\nmessage Res_ {{ int32 id = 1; string s = 2; }}\nmessage Ress_ {{ repeated Res_ items = 1; }} message Reqs_ {{ repeated Req_ keys = 1; }}\nservice Fails {{ rpc Get (Req_) returns (Res_); rpc Many (Reqs_) returns (Ress_); }}\n", w.text());
        let sdl = format!("schema @server(port: 8000) @upstream(batch: {{delay: 1, maxSize: 100}}) @link(id: \"p\", src: \"p.proto\", type: Protobuf) {{ query: Query }}\ntype Res {{ id: Int s: String }}\ntype Query {{\n  plain(id: Int!): Res @grpc(url: \"http://grpc.test\", method: \"{0}.Fails.Get\", body: {{id: \"{{{{.args.id}}}}\"}})\n  many(id: Int!): Res! @grpc(url: \"http://grpc.test\", method: \"{0}.Fails.Many\", body: {{id: \"{{{{.args.id}}}}\"}}, batchKey: [\"items\", \"id\"])\n  ded(id: Int!): Res @grpc(url: \"http://grpc.test\", method: \"{0}.Fails.Get\", body: {{id: \"{{{{.args.id}}}}\"}}, dedupe: true)\n}}\n", w.pkg);
        let next: Arc<Mutex<Option<(u16, Vec<(String, String)>, Vec<u8>)>>> = Default::default();
        let next2 = next.clone();
        let up = Upstream::new(move |_| { let (st, hs, b) = next2.lock().unwrap().clone().unwrap(); let mut a = URes::bytes(b).with_status(st); for (k, v) in hs { a = a.header(&k, &v) } a });
        let app = match build(&[("p.proto".into(), proto.clone()), ("app.graphql".into(), sdl.clone())], up.clone()) { Ok(a) => a, Err(e) => { c.inconclusive(&format!("the schema isn't accepted: {e}\n{sdl}\n{proto}")); return } };
        for _ in 0..10 {
            let code: i64 = r.range(1, 16) as i64;
            let (code_text, code) = match r.below(8) { 0 => (r.pick(&["17", "99", "-1", "abc", "1000"]).to_string(), 2), _ => (code.to_string(), code) };
            let message = match r.below(5) { 0 => String::new(), 1 => "plain text".into(), 2 => "100% \"sure\"".into(), _ => r.string(&["a", "é", "%", "\n", "😀", " ", "%41", "\"", "+"], 6) };
            let mut hs = vec![("grpc-status".to_string(), code_text.clone())];
            if !message.is_empty() || r.bool() { hs.push(("grpc-message".into(), percent(&message))) }
            let mut details = json!({"details": []});
            let with = r.chance(2, 3);
            if with {
                c.count("failures:with-details", 1);
                let dm = if r.bool() { message.clone() } else { r.string(&["x", "é", "{"], 3) };
                let dc = if r.bool() { code } else { r.range(0, 20) as i64 };
                let mut b = vec![];
                if dc != 0 { b.push(8); varint(dc as u64, &mut b) }
                if !dm.is_empty() { b.extend(part(0x12, dm.as_bytes())) }
                let mut told = vec![];
                for _ in 0..r.below(4) {
                    match r.below(5) {
                        0 => b.extend(part(0x1a, &[part(0x0a, b"type.googleapis.com/no.such.Message"), part(0x12, b"\x08\x01")].concat())),
                        _ => {
                            let v = message_for(&mut r, &w);
                            b.extend(part(0x1a, &[part(0x0a, format!("{}{}.{m0}", r.pick(&["type.googleapis.com/", "", "a/b/"]), w.pkg).as_bytes()), part(0x12, &dynamic(&w, &w.desc(&pool, 0), 0, &v).encode_to_vec())].concat()));
                            told.push(json_msg(&w, 0, &v, false));
                        }
                    }
                }
                let enc = if r.bool() { base64::engine::general_purpose::STANDARD.encode(&b) } else { base64::engine::general_purpose::STANDARD_NO_PAD.encode(&b) };
                hs.push(("grpc-status-details-bin".into(), enc));
                if b.is_empty() { details = json!({"details": []}) } else { details = json!({"code": dc, "message": dm, "details": told}) }
            }
            let body = if r.chance(1, 3) { five(&[8, 5]) } else { vec![] };
            *next.lock().unwrap() = Some((200, hs.clone(), body));
            let f = *r.pick(&["plain", "many", "ded"]);
            let q = if r.chance(1, 3) { format!("{{ a: {f}(id: 1) {{ s }} b: {f}(id: 2) {{ s }} c: {f}(id: 1) {{ id }} }}") } else { format!("{{ {f}(id: 5) {{ id s }} }}") };
            c.count("failures", 1);
            c.case(&(&hs, f, &q, &w), with);
            let res = rt.block_on(mock::query(&app, &q));
            let es = res.errors();
            let show = || json!({"proto": proto, "schema": sdl, "query": q, "reply headers": hs, "answer": res.text(), "expected": {"code": code, "message": message, "details": details}});
            c.check(res.data().is_null() && !es.is_empty(), "failures:hidden", show);
            for e in &es {
                let x = &e["extensions"];
                c.check(x["grpcCode"] == json!(code), "failures:code", show);
                c.check(x["grpcStatusMessage"] == json!(message), "failures:message", show);
                c.check(x["grpcDescription"].as_str().is_some_and(|d| !d.is_empty()), "failures:description", show);
                c.check(norm(&x["grpcStatusDetails"]) == norm(&details), "failures:details", show);
                let text = e["message"].as_str().unwrap_or("");
                c.check(text.contains(&code.to_string()) && text.contains(&message), "failures:text", show);
            }
            // and the next answer is one again
            if r.chance(1, 3) {
                let hs: Vec<(String, String)> = if r.bool() { vec![("grpc-status".into(), "0".into())] } else { vec![] };
                *next.lock().unwrap() = Some((200, hs, five(&[8, 5, 0x12, 1, b'x'])));
                let res = rt.block_on(mock::query(&app, "{ plain(id: 5) { id s } }"));
                c.check(res.data() == json!({"plain": {"id": 5, "s": "x"}}) && res.errors().is_empty(), "failures:after", || json!({"schema": sdl, "answer": res.text()}));
            } else if r.chance(1, 3) {
                let st = *r.pick(&[301u16, 302, 400, 404, 500, 503]);
                *next.lock().unwrap() = Some((st, vec![("grpc-status".into(), "0".into())], five(&[8, 5, 0x12, 1, b'x'])));
                let res = rt.block_on(mock::query(&app, &q));
                c.check(res.data().is_null() && !res.errors().is_empty(), "failures:http-status-ignored", || json!({"schema": sdl, "status": st, "answer": res.text()}));
            }
        }
    }
}
fn message_for(r: &mut Rng, w: &W) -> V { message(r, w, 0, 0, false) }
