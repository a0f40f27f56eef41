//! C10: union and interface values are given the type their data identifies.
use std::collections::BTreeSet;

use async_graphql_value::ConstValue;
use serde_json::{json, Map, Value};
use tailcall::core::ir::Discriminator;
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock::{self, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one value classified by one discriminator (directly, or as an upstream answer queried with fragments); non-trivial = an object or list; distinct by member set, mode and value");
    c.assume("an upstream that sends its own `__typename` is taken at its word; classification is only observed where a query reaches the field");
    c.section("direct", direct);
    c.section("empty-field", empty_field);
    c.section("queries", queries);
    c.section("nested", nested);
    c.section("interfaces", interfaces);
    c.floor("classified", 300);
    c.floor("rejected", 300);
    c.floor("queried", 150);
}

const NAMES: &[&str] = &["Foo", "Bar", "Baz", "Foo1", "foo", "FooBar", "B", "Ba", "_Z"];
const FIELDS: &[&str] = &["type", "kind", "object_type", "Foo", "__type", "t"];

fn members(r: &mut Rng) -> BTreeSet<String> {
    let n = r.range(1, 4);
    (0..n).map(|_| r.pick(NAMES).to_string()).collect()
}

fn member_body(r: &mut Rng) -> Map<String, Value> {
    let mut m = Map::new();
    for _ in 0..r.below(3) { m.insert(r.pick(&["x", "y", "z", "Foo", "kind", "é"]).to_string(), gen_json(r, 1)); }
    m
}

/// one value: usually close to something meaningful
fn value(r: &mut Rng, mem: &BTreeSet<String>, field: &str, depth: usize) -> Value {
    let mem: Vec<&String> = mem.iter().collect();
    match r.below(14) {
        0 => Value::Null,
        1 if depth > 0 => Value::Array((0..r.below(4)).map(|_| value(r, &mem.iter().map(|s| s.to_string()).collect(), field, depth - 1)).collect()),
        2 => gen_scalar(r),
        3 | 4 => {
            // one key
            let k = if r.chance(3, 4) { mem[r.below(mem.len())].to_string() } else { r.pick(NAMES).to_string() };
            let inner = match r.below(8) { 0 => Value::Null, 1 => gen_scalar(r), 2 => json!([{}]), _ => Value::Object(member_body(r)) };
            let mut m = Map::new();
            m.insert(k, inner);
            if r.chance(1, 3) { for _ in 0..r.range(1, 2) { let k = if r.bool() { mem[r.below(mem.len())].to_string() } else { r.pick(NAMES).to_string() }; let v = match r.below(4) { 0 => Value::Null, 1 => gen_scalar(r), 2 => Value::Object(member_body(r)), _ => json!({}) }; m.insert(k, v); } }
            Value::Object(m)
        }
        5 => { let mut m = member_body(r); m.insert("__typename".into(), match r.below(4) { 0 => json!("Other"), 1 => json!(3), 2 => Value::Null, _ => json!(mem[r.below(mem.len())]) }); if r.bool() { m.insert(field.into(), json!(mem[0])); } Value::Object(m) }
        6 => Value::Object(Map::new()),
        7 => Value::Object(member_body(r)),
        _ => {
            let mut m = member_body(r);
            let f = if r.chance(5, 6) { field.to_string() } else { r.pick(FIELDS).to_string() };
            let t = match r.below(10) { 0 => Value::Null, 1 => json!(1), 2 => json!([mem[0]]), 3 => json!(r.pick(NAMES)), 4 => json!(format!("{} ", mem[0])), 5 => json!(""), _ => json!(mem[r.below(mem.len())]) };
            m.insert(f, t);
            let mut e: Vec<_> = m.into_iter().collect();
            r.shuffle(&mut e);
            Value::Object(e.into_iter().collect())
        }
    }
}

/// the specification, on plain JSON
fn spec(v: &Value, mem: &BTreeSet<String>, field: Option<&str>) -> Result<Value, ()> {
    match v {
        Value::Null => Ok(Value::Null),
        Value::Array(a) => Ok(Value::Array(a.iter().map(|x| spec(x, mem, field)).collect::<Result<_, _>>()?)),
        Value::Object(m) => {
            if m.get("__typename").is_some_and(|t| t.is_string()) { return Ok(v.clone()); }
            match field {
                Some(f) => {
                    let t = m.get(f).and_then(|t| t.as_str()).filter(|t| mem.contains(*t)).ok_or(())?;
                    let mut m = m.clone();
                    m.insert("__typename".into(), json!(t));
                    Ok(Value::Object(m))
                }
                None => {
                    if m.len() != 1 { return Err(()); }
                    let (k, x) = m.iter().next().unwrap();
                    if !mem.contains(k) { return Err(()); }
                    match x {
                        Value::Null => Ok(Value::Null),
                        Value::Object(x) => { let mut x = x.clone(); x.insert("__typename".into(), json!(k)); Ok(Value::Object(x)) }
                        _ => Err(()),
                    }
                }
            }
        }
        _ => Err(()),
    }
}

fn direct(c: &C) {
    let mut r = c.rng("direct");
    for _ in 0..c.n(3000, 60000) {
        let mem = members(&mut r);
        let field = r.chance(2, 3).then(|| *r.pick(FIELDS));
        let v = value(&mut r, &mem, field.unwrap_or("type"), 3);
        let d = Discriminator::new("U".into(), mem.clone(), field.map(|s| s.to_string())).to_result().unwrap();
        let got = d.resolve_type(ConstValue::from_json(v.clone()).unwrap());
        let want = spec(&v, &mem, field);
        let mode = if field.is_some() { "field" } else { "keyed" };
        let show = || json!({"members": mem, "field": field, "value": v, "want": want, "got": got.as_ref().map(|g| g.clone().into_json().unwrap()).map_err(|e| e.to_string())});
        match (&got, &want) {
            (Ok(g), Ok(w)) => { c.check(g.clone().into_json().unwrap() == *w, &format!("{mode}:wrong-value"), show); c.count("classified", 1); }
            (Err(_), Err(_)) => c.count("rejected", 1),
            (Ok(_), Err(_)) => { c.violation(&format!("{mode}:arbitrary-type"), show()); }
            (Err(_), Ok(_)) => { c.violation(&format!("{mode}:identified-but-refused"), show()); }
        }
        c.case(&format!("{mem:?}{field:?}{v}"), v.is_object() || v.is_array());
        c.sample(show);
    }
}

fn empty_field(c: &C) {
    for n in 0..3 {
        let mem: BTreeSet<String> = NAMES[..n].iter().map(|s| s.to_string()).collect();
        c.check(Discriminator::new("U".into(), mem.clone(), Some(String::new())).to_result().is_err(), "empty-type-field-accepted", || json!(mem));
        c.check(Discriminator::new("U".into(), mem.clone(), None).to_result().is_ok(), "keyed-refused", || json!(mem));
    }
}

struct Sys { mem: Vec<&'static str>, field: Option<&'static str>, sdl: String, q: String, list: bool, interface: bool }

/// A server whose Query.u (or Query.us) is a union/interface answered by the upstream.
fn system(r: &mut Rng, list: bool, interface: bool) -> Sys {
    let mut all = vec!["Foo", "Bar", "Baz", "FooBar"];
    r.shuffle(&mut all);
    let n = r.range(1, 4);
    let mem: Vec<&'static str> = all[..n].to_vec();
    let field = *r.pick(&[None, Some("type"), Some("kind"), Some("object_type")]);
    let disc = match field { None => "".to_string(), Some("type") => "@discriminate".to_string(), Some(f) => format!("@discriminate(field: \"{f}\")") };
    let mut types: Vec<String> = mem.iter().map(|m| format!("type {m}{} {{ common: String {}: String }}", if interface { " implements U" } else { "" }, m.to_lowercase())).collect();
    types.push(if interface { "interface U { common: String }".into() } else { let mut o = mem.clone(); r.shuffle(&mut o); format!("union U = {}", o.join(" | ")) });
    types.push(format!("type Query {{ u: {} @http(url: \"http://up/u\") {disc} }}", if list { "[U]" } else { "U" }));
    r.shuffle(&mut types);
    let mut frags: Vec<String> = mem.iter().map(|m| format!("... on {m} {{ common {} }}", m.to_lowercase())).collect();
    r.shuffle(&mut frags);
    if interface && r.bool() { frags.push("common".into()); }
    frags.push("__typename".into());
    Sys { sdl: format!("schema @server @upstream {{ query: Query }}\n{}", types.join("\n")), q: format!("{{ u {{ {} }} }}", frags.join(" ")), mem, field, list, interface }
}

fn upstream_value(r: &mut Rng, s: &Sys) -> Value {
    let names = ["Foo", "Bar", "Baz", "FooBar", "Nope"];
    let pick = |r: &mut Rng| if r.chance(4, 5) { *r.pick(&s.mem) } else { *r.pick(&names) };
    let mut body = Map::new();
    if r.chance(3, 4) { body.insert("common".into(), json!(format!("c{}", r.below(9)))); }
    for n in names { if r.chance(1, 2) { body.insert(n.to_lowercase(), json!(format!("{n}{}", r.below(9)))); } }
    match r.below(12) {
        0 => Value::Null,
        1 => json!({}),
        2 => json!(body),
        3 if s.field.is_none() => { let (a, b) = (pick(r), pick(r)); json!({a: body, b: {}}) }
        4 => { let f = s.field.unwrap_or("type"); body.insert(f.into(), json!(7)); json!(body) }
        5 => { body.insert("__typename".into(), json!(*r.pick(&s.mem))); json!(body) }
        _ => match s.field {
            Some(f) => { let t = pick(r); body.insert(f.into(), json!(t)); let mut e: Vec<_> = body.into_iter().collect(); r.shuffle(&mut e); Value::Object(e.into_iter().collect()) }
            None => json!({pick(r): body}),
        },
    }
}

/// what a typed value looks like in the response
fn shape(s: &Sys, typed: &Value) -> Value {
    match typed {
        Value::Array(a) => Value::Array(a.iter().map(|x| shape(s, x)).collect()),
        Value::Object(m) => {
            let t = m["__typename"].as_str().unwrap();
            let own = t.to_lowercase();
            json!({"common": m.get("common"), own.clone(): m.get(&own), "__typename": t})
        }
        _ => Value::Null,
    }
}

fn query_systems(c: &C, salt: &str, interface: bool, n: usize, per: usize) {
    let mut r = c.rng(salt);
    let rt = rt_single();
    for _ in 0..n {
        let list = r.bool();
        let s = system(&mut r, list, interface);
        let holder: std::sync::Arc<std::sync::Mutex<Value>> = Default::default();
        let h2 = holder.clone();
        let up = Upstream::new(move |_| URes::json(h2.lock().unwrap().clone()));
        let app = mock::app(&s.sdl, mock::runtime(up)).unwrap();
        let mem: BTreeSet<String> = s.mem.iter().map(|x| x.to_string()).collect();
        for _ in 0..per {
            let v = if s.list { match r.below(8) { 0 => Value::Null, 1 => json!([]), _ => Value::Array((0..r.range(1, 4)).map(|_| upstream_value(&mut r, &s)).collect()) } } else { upstream_value(&mut r, &s) };
            *holder.lock().unwrap() = v.clone();
            let res = rt.block_on(mock::query(&app, &s.q));
            let want = spec(&v, &mem, s.field).map(|t| shape(&s, &t));
            let got = res.data().get("u").cloned().unwrap_or(Value::Null);
            let errs = res.errors();
            let show = || json!({"sdl": s.sdl, "query": s.q, "upstream": v, "want": want, "response": res.text()});
            match &want {
                Ok(w) => { c.check(errs.is_empty() && got == *w, if s.interface { "interface:response" } else { "union:response" }, show); }
                Err(()) => { c.check(!errs.is_empty() && got.is_null(), if s.interface { "interface:misfit-not-reported" } else { "union:misfit-not-reported" }, show); }
            }
            c.count("queried", 1);
            c.case(&format!("{}{v}", s.sdl), v.is_object() || v.is_array());
        }
    }
}

fn queries(c: &C) { query_systems(c, "queries", false, c.n(25, 300), 12); }
fn interfaces(c: &C) { query_systems(c, "interfaces", true, c.n(25, 300), 12); }

/// Unions inside plain objects and lists, and interfaces implemented through
/// other interfaces.
fn nested(c: &C) {
    let mut r = c.rng("nested");
    let rt = rt_single();
    for round in 0..c.n(12, 200) {
        let kf = r.bool();
        let disc = if kf { "@discriminate(field: \"k\")" } else { "" };
        let sdl = format!("schema @server @upstream {{ query: Query }}
interface Top {{ id: String }}
interface Mid implements Top {{ id: String }}
type A implements Mid & Top {{ id: String a: String }}
type B implements Top {{ id: String b: String }}
union U = A | B
type Box {{ name: String one: U {disc} many: [[U]] {disc} top: Top {disc} }}
type Query {{ boxes: [Box] @http(url: \"http://up/boxes\") }}");
        let mk = |r: &mut Rng| -> (Value, Value) {
            let t = *r.pick(&["A", "B"]);
            let id = format!("i{}", r.below(99));
            let own = t.to_lowercase();
            let raw = if kf { json!({"k": t, "id": id, &own: "own"}) } else { json!({t: {"id": id, &own: "own"}}) };
            (raw, json!({"__typename": t, "id": id, &own: "own"}))
        };
        let mut raw = vec![];
        let mut want = vec![];
        for i in 0..r.range(1, 3) {
            let (one, w_one) = if r.chance(1, 5) { (Value::Null, Value::Null) } else { mk(&mut r) };
            let (top, w_top) = mk(&mut r);
            let mut many = vec![];
            let mut w_many = vec![];
            for _ in 0..r.below(3) {
                if r.chance(1, 5) { many.push(Value::Null); w_many.push(Value::Null); continue; }
                let mut a = vec![];
                let mut b = vec![];
                for _ in 0..r.below(3) { let (x, y) = if r.chance(1, 6) { (Value::Null, Value::Null) } else { mk(&mut r) }; a.push(x); b.push(y); }
                many.push(Value::Array(a));
                w_many.push(Value::Array(b));
            }
            raw.push(json!({"name": format!("n{i}"), "one": one, "many": many, "top": top}));
            want.push(json!({"name": format!("n{i}"), "one": w_one, "many": w_many, "top": w_top}));
        }
        let (raw, want) = (Value::Array(raw), Value::Array(want));
        let raw2 = raw.clone();
        let app = mock::app(&sdl, mock::runtime(Upstream::new(move |_| URes::json(raw2.clone())))).unwrap();
        let frag = "__typename ... on A { id a } ... on B { id b }";
        let q = format!("{{ boxes {{ name one {{ {frag} }} many {{ {frag} }} top {{ {frag} }} }} }}");
        let res = rt.block_on(mock::query(&app, &q));
        c.check(res.errors().is_empty() && res.data()["boxes"] == want, "nested:response", || json!({"sdl": sdl, "upstream": raw, "want": want, "response": res.text()}));
        c.count("queried", 1);
        c.case(&format!("nested{round}{raw}"), true);
    }
}
