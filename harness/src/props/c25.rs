//! C25: invalid configurations are refused with all their errors; valid ones start.
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::process::{Command, Stdio};

use async_graphql_value::ConstValue;
use serde_json::{json, Value};
use tailcall::core::json::JsonSchema;
use tailcall::core::Transform;
use tailcall::core::try_fold::TryFold;
use tailcall::core::verif::TransformerOps;
use tailcall_valid::{Valid, ValidationError, Validator};

use crate::common::*;
use crate::mock::{self, URes, Upstream};

type Errs = Vec<(Vec<String>, String)>;

pub fn run(c: &C) {
    c.rule("one case = one configuration (valid, with k injected faults, or hostile) or one combination of checks; non-trivial = it has at least one fault; distinct by configuration or combination");
    c.assume("faults are injected into fields of their own, so that they are independent; text is parsed first, so faults of the text are reported on their own");
    c.section("combinators", combinators);
    c.section("transforms", transforms);
    c.section("schemas", schemas);
    c.section("valid", valid);
    c.section("faults", faults);
    c.section("text-faults", text_faults);
    c.section("hostile", hostile);
    c.floor("programs", 500);
    c.floor("programs-with-several-errors", 100);
    c.floor("valid-started", 40);
    c.floor("faults-injected", 150);
    c.floor("fault-kinds", 25);
    c.floor("hostile-documents", 300);
}

fn errs<E: std::fmt::Display>(e: ValidationError<E>) -> Errs {
    e.as_vec().iter().map(|c| (c.trace.iter().map(|t| t.to_string()).collect(), c.message.to_string())).collect()
}

// ---------------------------------------------------------------- combinators
#[derive(Clone, Debug, Hash)]
enum P {
    /// appends the number to the state
    Push(u32),
    /// appends it only when the state has an even length
    PushIfEven(u32),
    /// fails with these messages
    Fail(Vec<String>),
    /// fails when the state contains the number
    FailIf(u32, String),
    And(Box<P>, Box<P>),
    Trace(Box<P>, &'static str),
    /// state handed through reversed and with a marker
    Update(Box<P>, u32),
    /// runs on a state that carries a flag
    Lift(Box<P>, u32),
    /// may fail on the way down or up
    LiftValid(Box<P>, Option<String>, Option<String>),
    Iter(Vec<P>),
    Empty,
}
static NAMES: [&str; 6] = ["a", "b", "@http", "0", "type T", "é"];

fn gen_p(r: &mut Rng, d: usize, ids: &mut u32) -> P {
    *ids += 1;
    let id = *ids;
    if d == 0 || r.chance(1, 5) {
        return match r.below(6) {
            0 | 1 => P::Push(id),
            2 => P::PushIfEven(id),
            3 => P::Fail((0..r.range(1, 3)).map(|i| format!("e{id}.{i}")).collect()),
            4 => P::FailIf(r.below(id as usize + 1) as u32, format!("f{id}")),
            _ => P::Empty,
        };
    }
    let mut sub = |r: &mut Rng| Box::new(gen_p(r, d - 1, ids));
    match r.below(9) {
        0..=3 => { let a = sub(r); P::And(a, sub(r)) }
        4 => P::Trace(sub(r), NAMES[r.below(6)]),
        5 => P::Update(sub(r), id + 1000),
        6 => P::Lift(sub(r), id + 2000),
        7 => P::LiftValid(sub(r), r.chance(1, 4).then(|| format!("d{id}")), r.chance(1, 4).then(|| format!("u{id}"))),
        _ => P::Iter((0..r.below(5)).map(|_| *sub(r)).collect()),
    }
}
fn build<'a>(p: &P) -> TryFold<'a, u32, Vec<u32>, String> {
    match p.clone() {
        P::Push(n) => TryFold::new(move |i, mut s: Vec<u32>| { s.push(n + *i); Valid::succeed(s) }),
        P::PushIfEven(n) => TryFold::new(move |i, mut s: Vec<u32>| { if s.len() % 2 == 0 { s.push(n + *i) } Valid::succeed(s) }),
        P::Fail(m) => TryFold::new(move |_, _| Valid::from_iter(m.iter(), |m| Valid::<u32, String>::fail(m.clone()))),
        P::FailIf(n, m) => TryFold::new(move |i, s: Vec<u32>| if s.contains(&(n + *i)) { Valid::fail(m.clone()) } else { Valid::succeed(s) }),
        P::And(a, b) => build(&a).and(build(&b)),
        P::Trace(a, t) => build(&a).trace(t),
        P::Update(a, n) => build(&a).update(move |mut s| { s.reverse(); s.push(n); s }),
        P::Lift(a, n) => build(&a)
            .transform(move |s: Vec<u32>, (_, k): (Vec<u32>, u32)| (s, k + 1), |(s, _)| s)
            .transform(move |(mut s, k): (Vec<u32>, u32), _: Vec<u32>| { s.push(k + n); s }, |s: Vec<u32>| (s, 0)),
        P::LiftValid(a, down, up) => build(&a).transform_valid(
            move |mut s, old: Vec<u32>| match &up { Some(m) => Valid::fail(m.clone()), None => { s.push(old.len() as u32); Valid::succeed(s) } },
            move |s| match &down { Some(m) => Valid::fail(m.clone()), None => Valid::succeed(s) },
        ),
        P::Iter(ps) => ps.iter().map(build).collect(),
        P::Empty => TryFold::empty(),
    }
}
/// what the combination has to do: every check runs, a failed one leaves the
/// state it was given to the next, the errors come in the order of the checks
fn model(p: &P, i: u32, s: Vec<u32>) -> Result<Vec<u32>, Errs> {
    let e = |m: &String| (vec![], m.clone());
    let mut s = s;
    match p {
        P::Push(n) => { s.push(n + i); Ok(s) }
        P::PushIfEven(n) => { if s.len() % 2 == 0 { s.push(n + i) } Ok(s) }
        P::Fail(m) => Err(m.iter().map(e).collect()),
        P::FailIf(n, m) => if s.contains(&(n + i)) { Err(vec![e(m)]) } else { Ok(s) },
        P::And(a, b) => seq(&[(**a).clone(), (**b).clone()], i, s),
        P::Trace(a, t) => model(a, i, s).map_err(|es| es.into_iter().map(|(mut tr, m)| { tr.insert(0, t.to_string()); (tr, m) }).collect()),
        P::Update(a, n) => model(a, i, s).map(|mut s| { s.reverse(); s.push(*n); s }),
        P::Lift(a, n) => model(a, i, s).map(|mut s| { s.push(1 + n); s }),
        P::LiftValid(a, down, up) => {
            if let Some(m) = down { return Err(vec![e(m)]) }
            let old = s.len() as u32;
            let mut s = model(a, i, s)?;
            if let Some(m) = up { return Err(vec![e(m)]) }
            s.push(old);
            Ok(s)
        }
        P::Iter(ps) => seq(ps, i, s),
        P::Empty => Ok(s),
    }
}
fn seq(ps: &[P], i: u32, mut s: Vec<u32>) -> Result<Vec<u32>, Errs> {
    let mut errs: Errs = vec![];
    for p in ps {
        match model(p, i, s.clone()) { Ok(n) => s = n, Err(e) => errs.extend(e) }
    }
    if errs.is_empty() { Ok(s) } else { Err(errs) }
}

fn combinators(c: &C) {
    let mut r = c.rng("comb");
    for k in 0..c.n(1500, 20000) {
        let mut ids = 0;
        let d = r.range(1, 6);
        let p = gen_p(&mut r, d, &mut ids);
        let i = r.below(3) as u32;
        let s: Vec<u32> = (0..r.below(4)).map(|_| r.below(9) as u32).collect();
        let want = model(&p, i, s.clone());
        let f = build(&p);
        let got = f.try_fold(&i, s.clone()).to_result().map_err(errs);
        c.count("programs", 1);
        if let Err(e) = &want { if e.len() > 1 { c.count("programs-with-several-errors", 1) } c.max("errors-in-one-program", e.len() as u64); }
        c.case(&(format!("{p:?}"), i, &s), want.is_err());
        if k < 2 { c.sample(|| json!({"checks": format!("{p:?}"), "result": format!("{want:?}")})); }
        c.eq(&got, &want, "combined-checks", || json!({"checks": format!("{p:?}"), "input": i, "state": s}));
        // running it again gives the same
        c.eq(&f.try_fold(&i, s.clone()).to_result().map_err(errs), &want, "combined-checks:again", || json!({"checks": format!("{p:?}")}));
    }
}

// ---------------------------------------------------------------- transforms
struct Step(Vec<String>, u32);
impl Transform for Step {
    type Value = Vec<u32>;
    type Error = String;
    fn transform(&self, mut v: Vec<u32>) -> Valid<Vec<u32>, String> {
        if self.0.is_empty() { v.push(self.1); Valid::succeed(v) } else { Valid::from_iter(self.0.iter(), |m| Valid::<u32, String>::fail(m.clone())) }
    }
}
fn transforms(c: &C) {
    let mut r = c.rng("transform");
    for _ in 0..c.n(400, 4000) {
        let mut st = |r: &mut Rng, n: u32| if r.chance(1, 4) { Step((0..r.range(1, 3)).map(|i| format!("t{n}.{i}")).collect(), n) } else { Step(vec![], n) };
        let steps: Vec<Step> = (0..4).map(|n| st(&mut r, n)).collect();
        let on: Vec<bool> = (0..4).map(|_| r.chance(3, 4)).collect();
        let mut want: Result<Vec<u32>, Errs> = Ok(vec![9]);
        for (s, on) in steps.iter().zip(&on) {
            if let (Ok(v), true) = (&mut want, *on) {
                if s.0.is_empty() { v.push(s.1) } else { want = Err(s.0.iter().map(|m| (vec![], m.clone())).collect()) }
            }
        }
        let info = format!("{:?} {on:?}", steps.iter().map(|s| s.0.clone()).collect::<Vec<_>>());
        c.case(&info, want.is_err());
        let [a, b, d, e]: [Step; 4] = steps.try_into().ok().unwrap();
        let dd = || tailcall::core::verif::transform_default::<Vec<u32>, String>();
        let (a, b, d, e) = (a.when(on[0]), b.when(on[1]), d.when(on[2]), e.when(on[3]));
        let got = match r.below(4) {
            0 => a.pipe(b).pipe(d).pipe(e).transform(vec![9]),
            1 => a.pipe(b.pipe(d.pipe(e))).transform(vec![9]),
            2 => dd().pipe(a).pipe(b.pipe(dd())).pipe(d.pipe(e)).transform(vec![9]),
            _ => a.pipe(b).when(true).pipe(d.pipe(e).when(true)).pipe(Step(vec!["never".into()], 0).when(false)).transform(vec![9]),
        };
        c.count("transforms", 1);
        c.eq(&got.to_result().map_err(errs), &want, "piped-transforms", || json!({"steps": info}));
    }
    let g = Step(vec![], 7).pipe(Step(vec![], 8)).generate().to_result().map_err(errs);
    c.eq(&g, &Ok(vec![7, 8]), "generate", || json!(null));
}

// ---------------------------------------------------------------- schemas
fn gen_schema(r: &mut Rng, d: usize) -> JsonSchema {
    if d == 0 || r.chance(1, 4) {
        return match r.below(8) {
            0 | 1 => JsonSchema::Str,
            2 | 3 => JsonSchema::Num,
            4 => JsonSchema::Bool,
            5 => JsonSchema::Empty,
            6 => JsonSchema::Any,
            _ => JsonSchema::Enum(r.subset(&["A", "B", "C"], 1, 2).iter().map(|s| s.to_string()).collect()),
        };
    }
    match r.below(6) {
        0 => JsonSchema::Arr(Box::new(gen_schema(r, d - 1))),
        1 => gen_schema(r, d - 1).optional(),
        _ => JsonSchema::Obj((0..r.below(4)).map(|_| (r.pick(&["a", "b", "c", "d"]).to_string(), if r.chance(1, 3) { gen_schema(r, d - 1).optional() } else { gen_schema(r, d - 1) })).collect()),
    }
}
/// a value that mostly fits
fn gen_value(r: &mut Rng, s: &JsonSchema) -> Value {
    if r.chance(1, 9) { return r.pick(&[json!(null), json!("x"), json!(1), json!(1.5), json!(true), json!([]), json!({}), json!([1]), json!({"a": 1})]).clone() }
    match s {
        JsonSchema::Obj(m) => {
            let mut o = serde_json::Map::new();
            for (k, s) in m { if !r.chance(1, if s.is_optional() { 3 } else { 12 }) { o.insert(k.clone(), gen_value(r, s)); } }
            if r.chance(1, 4) { o.insert("extra".into(), json!(1)); }
            Value::Object(o)
        }
        JsonSchema::Arr(s) => Value::Array((0..r.below(4)).map(|_| gen_value(r, s)).collect()),
        JsonSchema::Opt(s) => if r.chance(1, 3) { json!(null) } else { gen_value(r, s) },
        JsonSchema::Enum(v) => json!(v.iter().next().cloned().unwrap_or("Z".into())),
        JsonSchema::Str => json!("s"),
        JsonSchema::Num => json!(3),
        JsonSchema::Bool => json!(false),
        JsonSchema::Empty => if r.bool() { json!(null) } else { json!({}) },
        JsonSchema::Any => gen_json(r, 2),
    }
}
fn fits(s: &JsonSchema, v: &Value) -> Errs {
    let e = |m: &str| vec![(vec![], m.to_string())];
    let at = |k: &str, es: Errs| -> Errs { es.into_iter().map(|(mut t, m)| { t.insert(0, k.to_string()); (t, m) }).collect() };
    match (s, v) {
        (JsonSchema::Any | JsonSchema::Enum(_), _) => vec![],
        (JsonSchema::Opt(_), Value::Null) => vec![],
        (JsonSchema::Opt(s), v) => fits(s, v),
        (JsonSchema::Str, Value::String(_)) | (JsonSchema::Num, Value::Number(_)) | (JsonSchema::Bool, Value::Bool(_)) | (JsonSchema::Empty, Value::Null) => vec![],
        (JsonSchema::Empty, Value::Object(m)) if m.is_empty() => vec![],
        (JsonSchema::Str, _) => e("expected string"),
        (JsonSchema::Num, _) => e("expected number"),
        (JsonSchema::Bool, _) => e("expected boolean"),
        (JsonSchema::Empty, _) => e("expected empty"),
        (JsonSchema::Arr(s), Value::Array(xs)) => xs.iter().enumerate().flat_map(|(i, x)| at(&i.to_string(), fits(s, x))).collect(),
        (JsonSchema::Arr(_), _) => e("expected array"),
        (JsonSchema::Obj(m), Value::Object(o)) => m.iter().flat_map(|(k, s)| match o.get(k) {
            Some(x) => at(k, fits(s, x)),
            None if matches!(s, JsonSchema::Opt(_)) => vec![],
            None => at(k, e("expected field to be non-nullable")),
        }).collect(),
        (JsonSchema::Obj(_), _) => e("expected object"),
    }
}
fn assignable(sub: &JsonSchema, sup: &JsonSchema, name: &str) -> Errs {
    let at = |es: Errs| -> Errs { es.into_iter().map(|(mut t, m)| { t.insert(0, name.to_string()); (t, m) }).collect() };
    let no = || vec![(vec![name.to_string()], format!("Type '{}' is not assignable to type '{}'", show(sub), show(sup)))];
    match (sub, sup) {
        (_, JsonSchema::Any) => vec![],
        (JsonSchema::Obj(a), JsonSchema::Obj(b)) => at(b.iter().flat_map(|(k, s)| match a.get(k) {
            Some(x) => assignable(x, s, k),
            None => vec![(vec![], format!("missing key: {k}"))],
        }).collect()),
        (JsonSchema::Arr(a), JsonSchema::Arr(b)) => assignable(a, b, name),
        (JsonSchema::Opt(a), JsonSchema::Opt(b)) => assignable(a, b, name),
        (a, JsonSchema::Opt(b)) => assignable(a, b, name),
        (a, b) => if !matches!(b, JsonSchema::Obj(_) | JsonSchema::Arr(_)) && a == b { vec![] } else { no() },
    }
}
fn show(s: &JsonSchema) -> String {
    match s {
        JsonSchema::Obj(m) => { let mut v: Vec<String> = m.iter().map(|(k, v)| format!("{k}: {}", show(v))).collect(); v.sort(); format!("{{{}}}", v.join(", ")) }
        JsonSchema::Arr(s) => format!("[{}]", show(s)),
        JsonSchema::Opt(s) => format!("Option<{}>", show(s)),
        JsonSchema::Enum(v) => format!("enum {{{}}}", v.iter().cloned().collect::<Vec<_>>().join(", ")),
        JsonSchema::Str => "String".into(),
        JsonSchema::Num => "Number".into(),
        JsonSchema::Bool => "Boolean".into(),
        JsonSchema::Empty => "Empty".into(),
        JsonSchema::Any => "Any".into(),
    }
}
fn has_any(s: &JsonSchema) -> bool {
    match s { JsonSchema::Any => true, JsonSchema::Obj(m) => m.values().any(has_any), JsonSchema::Arr(s) | JsonSchema::Opt(s) => has_any(s), _ => false }
}
/// a schema derived from the other by one change
fn tweak(r: &mut Rng, s: &JsonSchema) -> JsonSchema {
    match s {
        _ if r.chance(1, 8) => gen_schema(r, 1),
        _ if r.chance(1, 8) => s.clone().optional(),
        JsonSchema::Opt(s) => if r.chance(1, 3) { (**s).clone() } else { tweak(r, s).optional() },
        JsonSchema::Arr(s) => JsonSchema::Arr(Box::new(tweak(r, s))),
        JsonSchema::Obj(m) => {
            let mut m = m.clone();
            let ks: Vec<String> = m.keys().cloned().collect();
            if ks.is_empty() || r.chance(1, 4) { m.insert("e".into(), gen_schema(r, 1)); }
            else { let k = r.pick(&ks).clone(); if r.chance(1, 4) { m.remove(&k); } else { let n = tweak(r, &m[&k]); m.insert(k, n); } }
            JsonSchema::Obj(m)
        }
        s => s.clone(),
    }
}
fn schemas(c: &C) {
    let mut r = c.rng("schemas");
    for _ in 0..c.n(800, 12000) {
        let d = r.range(0, 4);
        let s = gen_schema(&mut r, d);
        let v = gen_value(&mut r, &s);
        let cv = ConstValue::from_json(v.clone()).unwrap();
        let want = fits(&s, &v);
        c.case(&(show(&s), v.to_string()), !want.is_empty());
        c.count("values-validated", 1);
        if !want.is_empty() { c.count("values-refused", 1) }
        let got = s.validate(&cv).to_result().map_err(errs).err().unwrap_or_default();
        // the order of a set of fields is that of their names
        c.eq(&got, &want, "value-against-schema", || json!({"schema": show(&s), "value": v}));
        c.eq(&s.to_string(), &show(&s), "schema-text", || json!({"schema": show(&s)}));
        let back: Result<JsonSchema, _> = serde_json::from_value(serde_json::to_value(&s).unwrap());
        c.eq(&back.ok(), &Some(s.clone()), "schema-serialised", || json!({"schema": show(&s)}));
        let o = if r.chance(1, 5) { let d = r.range(0, 3); gen_schema(&mut r, d) } else { tweak(&mut r, &s) };
        for (a, b) in [(&s, &o), (&o, &s)] {
            let want = assignable(a, b, "n");
            let got = a.is_a(b, "n").to_result().map_err(errs).err().unwrap_or_default();
            c.count("schemas-compared", 1);
            c.eq(&got, &want, "schema-assignable", || json!({"sub": show(a), "super": show(b)}));
            if got.is_empty() && !has_any(b) && fits(a, &v).is_empty() {
                c.count("substitutions", 1);
                c.check(fits(b, &v).is_empty(), "substitution", || json!({"sub": show(a), "super": show(b), "value": v}));
            }
        }
        c.check(s.is_a(&s, "n").is_succeed(), "schema-reflexive", || json!({"schema": show(&s)}));
        c.eq(&(s.is_optional(), s.is_required()), &(matches!(s, JsonSchema::Opt(_)), !matches!(s, JsonSchema::Opt(_))), "schema-optional", || json!({"schema": show(&s)}));
    }
}

// ---------------------------------------------------------------- configurations
struct G { r: Rng, types: BTreeMap<String, (String, Vec<String>)>, query: Vec<String>, extra: Vec<String>, server: Vec<String>, links: Vec<String>, upstream: Vec<String>, want: Vec<(String, String)>, kinds: BTreeSet<&'static str>, batch: bool }

const SCALARS: [&str; 5] = ["Int", "String", "Float", "Boolean", "ID"];

fn valid_config(mut r: Rng) -> G {
    let nt = r.range(1, 4);
    let mut g = G { types: BTreeMap::new(), query: vec![], extra: vec![], server: vec!["port: 8000".into()], links: vec![], upstream: vec![], want: vec![], kinds: BTreeSet::new(), batch: false, r: r.fork() };
    let names: Vec<String> = (0..nt).map(|i| format!("T{i}")).collect();
    let wrap = |r: &mut Rng, t: &str| match r.below(6) { 0 => format!("[{t}]"), 1 => format!("[{t}!]!"), 2 => format!("{t}!"), 3 => format!("[[{t}]]"), _ => t.to_string() };
    if r.bool() { g.server.push("vars: [{key: \"v\", value: \"1\"}]".into()); } else { g.server.push("vars: []".into()); }
    let has_var = g.server[1].contains('v') && g.server[1].contains("key");
    if r.chance(1, 3) { g.upstream.push("batch: {delay: 1, maxSize: 10}".into()); g.batch = true; }
    if r.chance(1, 3) { g.upstream.push("httpCache: 10".into()); }
    if r.chance(1, 3) { g.server.push("headers: {cacheControl: true, custom: [{key: \"x-a\", value: \"1\"}]}".into()); }
    if r.chance(1, 2) { g.extra.push("enum E { A B C }".into()); }
    let has_enum = g.extra.len() == 1;
    if nt > 1 && r.bool() { g.extra.push("union U = T0 | T1".into()); g.query.push("u: U @http(url: \"http://up.test/u\")".into()); }
    g.extra.push("input I0 { a: Int! b: String c: [Int!] n: I0 }".into());
    if r.bool() { g.extra.push("interface F { id: ID! }".into()); }
    let iface = g.extra.last().unwrap().starts_with("interface");
    for (i, n) in names.iter().enumerate() {
        let mut fs = vec!["id: ID!".to_string(), "opt: String".into(), "sub: S!".into()];
        for k in 0..r.below(3) { let s = *r.pick(&SCALARS); fs.push(format!("p{k}: {}", wrap(&mut r, s))); }
        if has_enum && r.bool() { fs.push(format!("e: {}", wrap(&mut r, "E"))); }
        // references to other types, also to itself
        if r.bool() { let t = r.pick(&names).clone(); fs.push(format!("r: {}", wrap(&mut r, &t))); }
        if r.bool() { let t = r.pick(&names).clone(); fs.push(format!("h(x: Int!, y: String): {t} @http(url: \"http://up.test/h/{{{{.value.id}}}}/{{{{.args.x}}}}\", query: [{{key: \"y\", value: \"{{{{.args.y}}}}\"}}])")); }
        if r.chance(1, 3) { fs.push("s2: String @http(url: \"http://up.test/s/{{.value.sub.z}}\")".into()); }
        let head = if iface && r.bool() { format!("type {n} implements F") } else { format!("type {n}") };
        let head = if r.chance(1, 4) { format!("{head} @addField(name: \"z{i}\", path: [\"sub\", \"z\"])") } else { head };
        g.types.insert(n.clone(), (head, fs));
    }
    g.types.insert("S".into(), ("type S".into(), vec!["z: Int!".into(), "y: Boolean".into()]));
    g.query.push("c: Int @expr(body: 7)".into());
    for (i, n) in names.iter().enumerate() {
        let t = wrap(&mut r, n);
        let q = match r.below(5) {
            0 => format!("q{i}: {t} @http(url: \"http://up.test/q{i}\")"),
            1 => format!("q{i}(a: Int!, b: [Int]): {t} @http(url: \"http://up.test/q{i}/{{{{.args.a}}}}\", query: [{{key: \"b\", value: \"{{{{.args.b}}}}\"}}])"),
            2 => format!("q{i}(i: I0!): {t} @http(url: \"http://up.test/q{i}\", method: POST, body: \"{{{{.args.i}}}}\") @cache(maxAge: 100)"),
            3 => format!("q{i}(a: ID!): {t} @graphQL(url: \"http://up.test/g\", name: \"q\", args: [{{key: \"a\", value: \"{{{{.args.a}}}}\"}}])"),
            _ => format!("q{i}: {t} @http(url: \"http://up.test/q{i}{}\")", if has_var { "/{{.vars.v}}" } else { "" }),
        };
        g.query.push(q);
    }
    if r.bool() { g.query.push("k(i: Int!): Int @http(url: \"http://up.test/k/{{.args.i}}\") k2: Int @call(steps: [{query: \"k\", args: {i: 5}}])".into()); }
    if r.bool() { g.query.push("d: S @expr(body: {z: 1, y: null})".into()); }
    if r.bool() { g.query.push("m: Int @modify(name: \"mm\") @http(url: \"http://up.test/m\") o: Int @modify(omit: true) @expr(body: 1)".into()); }
    if r.bool() { let mut q = std::mem::take(&mut g.query); r.shuffle(&mut q); g.query = q; }
    g
}
fn render(g: &G) -> String {
    let mut s = format!("schema @server({})", g.server.join(", "));
    if !g.upstream.is_empty() { s += &format!(" @upstream({})", g.upstream.join(", ")); }
    for l in &g.links { s += &format!(" {l}"); }
    s += " { query: Query }\n";
    for e in &g.extra { s += e; s += "\n"; }
    for (h, fs) in g.types.values() { s += &format!("{h} {{\n  {}\n}}\n", fs.join("\n  ")); }
    s += &format!("type Query {{\n  {}\n}}\n", g.query.join("\n  "));
    s
}

const KINDS: usize = 34;
/// injects fault `k`; false when it does not apply here
fn inject(g: &mut G, k: usize, n: usize) -> bool {
    let f = format!("bad{n}");
    let up = "http://up.test";
    let miss = format!("nope{n}");
    let w = |g: &mut G, kind: &'static str, t: String, m: String| { g.kinds.insert(kind); g.want.push((t, m)); true };
    let tn = { let ks: Vec<String> = g.types.keys().filter(|k| *k != "S").cloned().collect(); g.r.pick(&ks).clone() };
    let mut tf = |g: &mut G, s: String| { let v = &mut g.types.get_mut(&tn).unwrap().1; let at = g.r.below(v.len() + 1); v.insert(at, s); };
    let qf = |g: &mut G, s: String| { let at = g.r.below(g.query.len() + 1); g.query.insert(at, s); };
    match k {
        0 => { qf(g, format!("{f}: {miss} @http(url: \"{up}/x\")")); w(g, "undeclared-type", format!("Query.{f}"), format!("Undeclared type '{miss}' was found")) }
        1 => { tf(g, format!("{f}: [{miss}!]")); w(g, "undeclared-type-nested", format!("{tn}.{f}"), format!("Undeclared type '{miss}' was found")) }
        2 => { qf(g, format!("{f}(a: Int!): Int @http(url: \"{up}/{{{{.args.{miss}}}}}\")")); w(g, "path-argument", format!("Query.{f}.@http.path"), format!("no argument '{miss}' found")) }
        3 => { qf(g, format!("{f}(a: Int!): Int @http(url: \"{up}/x\", query: [{{key: \"a\", value: \"{{{{.args.{miss}}}}}\"}}])")); w(g, "query-argument", format!("Query.{f}.@http.query"), format!("no argument '{miss}' found")) }
        4 => { qf(g, format!("{f}(a{n}: Int): Int @http(url: \"{up}/{{{{.args.a{n}}}}}\")")); w(g, "nullable-argument", format!("Query.{f}.@http.path"), format!("argument 'a{n}' is a nullable type")) }
        5 => { qf(g, format!("{f}(a{n}: [Int!]!): Int @http(url: \"{up}/{{{{.args.a{n}}}}}\")")); w(g, "list-argument", format!("Query.{f}.@http.path"), format!("can't use list type 'a{n}' here")) }
        6 => { tf(g, format!("{f}: Int @http(url: \"{up}/{{{{.value.{miss}}}}}\")")); w(g, "path-value", format!("{tn}.{f}.@http.path"), format!("no value '{miss}' found")) }
        7 => { tf(g, format!("{f}: Int @http(url: \"{up}/{{{{.value.opt}}}}\")")); w(g, "nullable-value", format!("{tn}.{f}.@http.path"), "value 'opt' is a nullable type".into()) }
        8 => { tf(g, format!("{f}: Int @http(url: \"{up}/{{{{.value.sub.{miss}}}}}\")")); w(g, "nested-value", format!("{tn}.{f}.@http.path"), format!("no value 'sub.{miss}' found")) }
        9 => { tf(g, format!("{f}: Int @http(url: \"{up}/{{{{.value.sub}}}}\")")); w(g, "object-value", format!("{tn}.{f}.@http.path"), "value 'sub' is not of a scalar type".into()) }
        10 => { qf(g, format!("{f}: Int @http(url: \"{up}/{{{{.vars.{miss}}}}}\")")); w(g, "variable", format!("Query.{f}.@http.path"), format!("var '{miss}' is not set in the server config")) }
        11 => { qf(g, format!("{f}: Int @http(url: \"{up}/{{{{.{miss}.x}}}}\")")); w(g, "template-directive", format!("Query.{f}.@http.path"), format!("unknown template directive '{miss}'")) }
        12 => { qf(g, format!("{f}: Int @http(url: \"{up}/{{{{.args}}}}\")")); w(g, "short-template", format!("Query.{f}.@http.path"), "too few parts in template".into()) }
        13 => { qf(g, format!("{f}: Int @expr(body: {{a: 1}})")); w(g, "constant", format!("Query.{f}.@expr"), "expected number".into()) }
        14 => { qf(g, format!("{f}: [String!] @expr(body: [\"a\", 1, \"b\", true])")); w(g, "constant-list", format!("Query.{f}.@expr.1"), "expected string".into()); w(g, "constant-list", format!("Query.{f}.@expr.3"), "expected string".into()) }
        15 => { qf(g, format!("{f}: S @expr(body: {{y: 4}})")); w(g, "constant-object", format!("Query.{f}.@expr.y"), "expected boolean".into()); w(g, "constant-object", format!("Query.{f}.@expr.z"), "expected field to be non-nullable".into()) }
        16 => { qf(g, format!("{f}: Int")); w(g, "no-resolver", format!("Query.{f}"), "No resolver has been found in the schema".into()) }
        17 => { qf(g, format!("{f}: Int @call(steps: [{{query: \"{miss}\"}}])")); w(g, "call-target", format!("Query.{f}.@call"), format!("Cannot find field {miss} in the type")) }
        18 => { qf(g, format!("{f}: Int @call(steps: [])")); w(g, "call-steps", format!("Query.{f}.@call"), "Steps can't be empty".into()) }
        19 => { qf(g, format!("{f}: Int @call(steps: [{{args: {{a: 1}}}}])")); w(g, "call-nothing", format!("Query.{f}.@call"), "call must have query or mutation".into()) }
        20 => { qf(g, format!("{f}t(a{n}: Int!, b: Int): Int @http(url: \"{up}/{{{{.args.a{n}}}}}\") {f}: Int @call(steps: [{{query: \"{f}t\", args: {{b: 1}}}}])")); w(g, "call-argument", format!("Query.{f}.@call.{f}t"), format!("no argument ''a{n}'' found")) }
        21 => { if g.batch { return false } qf(g, format!("{f}: Int @http(url: \"{up}/x\", query: [{{key: \"a\", value: \"b\"}}], batchKey: [\"id\"])")); w(g, "batching", format!("Query.{f}.@http"), "Batching capability was used without enabling it in upstream".into()) }
        22 => { qf(g, format!("{f}: Int @http(url: \"{up}/x\", headers: [{{key: \"h {n}\", value: \"c\"}}])")); w(g, "header-name", format!("Query.{f}.@http.h {n}"), "invalid HTTP header name".into()) }
        23 => { qf(g, format!("{f}: Int @http(url: \"{up}/x\", headers: [{{key: \"h\", value: \"{{{{.args.{miss}}}}}\"}}])")); w(g, "header-argument", format!("Query.{f}.@http.headers"), format!("no argument '{miss}' found")) }
        24 => { qf(g, format!("{f}: Int @graphQL(url: \"{up}/g\", name: \"x\", headers: [{{key: \"h\", value: \"{{{{.args.{miss}h}}}}\"}}], args: [{{key: \"a\", value: \"{{{{.args.{miss}}}}}\"}}])")); w(g, "graphql", format!("Query.{f}.@graphQL.headers"), format!("no argument '{miss}h' found")); w(g, "graphql", format!("Query.{f}.@graphQL.args"), format!("no argument '{miss}' found")) }
        25 => { qf(g, format!("{f}: Int @grpc(url: \"{up}\", method: \"{miss}\")")); w(g, "grpc-method", format!("Query.{f}.@grpc"), format!("Invalid method format: {miss}. Expected format is <package>.<service>.<method>")) }
        26 => { qf(g, format!("{f}: Int @js(name: \"{miss}\")")); w(g, "script", format!("Query.{f}.@js"), "script is required".into()) }
        27 => { qf(g, format!("{f}: Int @http(url: \"{up}/x\") @protected")); w(g, "no-provider", format!("Query.{f}.@protected"), "@protected operator is used but there is no @link definitions for auth providers".into()) }
        28 => { qf(g, format!("{f}a: Int @http(url: \"{up}/x\") {f}b: Int @modify(name: \"{f}a\") @http(url: \"{up}/x\")")); w(g, "repeated-name", format!("Query.{f}a"), format!("Field {f}a is defined more than once")) }
        29 => { g.types.get_mut(&tn).unwrap().0 += &format!(" @addField(name: \"{f}\", path: [\"{miss}\", \"q\"])"); w(g, "added-field", tn.clone(), format!("Could not find field {miss} in path {miss},q")) }
        30 => { qf(g, format!("{f}(a: Int!, b{n}: [{miss}]): Int @http(url: \"{up}/{{{{.args.a}}}}\")")); w(g, "undeclared-argument-type", format!("Query.{f}.b{n}"), format!("Undeclared type '{miss}' was found")) }
        31 => { g.extra.push(format!("union Bad{n} = S | {miss}")); w(g, "undeclared-member", format!("Bad{n}"), format!("Undeclared type '{miss}' was found")) }
        32 => { qf(g, format!("{f}a: Int @call(steps: [{{query: \"{f}b\"}}]) {f}b: Int @call(steps: [{{query: \"{f}a\"}}])")); w(g, "call-cycle", format!("Query.{f}a.@call"), format!("steps of @call lead back to the field itself: Query.{f}b -> Query.{f}a -> Query.{f}b")); w(g, "call-cycle", format!("Query.{f}b.@call"), format!("steps of @call lead back to the field itself: Query.{f}a -> Query.{f}b -> Query.{f}a")) }
        33 => { let p = *g.r.pick(&["Email", "Date", "Url", "JSON", "PhoneNumber"]); if g.extra.iter().any(|e| *e == format!("scalar {p}")) { return false } g.extra.push(format!("scalar {p}")); w(g, "predefined-scalar", p.into(), format!("Scalar type {p} is predefined")) }
        _ => unreachable!(),
    }
}
/// faults of the settings, at most once per configuration
fn inject_setting(g: &mut G, k: usize) {
    let mut w = |g: &mut G, kind: &'static str, t: &str, m: &str| { g.kinds.insert(kind); g.want.push((t.into(), m.into())); };
    match k {
        0 => { g.server.push("hostname: \"no host\"".into()); w(g, "hostname", "schema.@server.hostname", "Parsing failed because of invalid IP address syntax"); }
        1 => {
            g.server.retain(|s| !s.starts_with("headers"));
            g.server.push("headers: {custom: [{key: \"a b\", value: \"x\"}, {key: \"ok\", value: \"x\"}, {key: \"c d\", value: \"x\"}], experimental: [\"x-ok\", \"no\"]}".into());
            for _ in 0..2 { w(g, "custom-header", "schema.@server.headers.custom", "Parsing failed because of invalid HTTP header name"); }
            w(g, "experimental-header", "schema.@server.headers.experimental", "Experimental headers must start with 'x-' or 'X-'. Got: 'no'");
        }
        2 => {
            g.links.extend(["@link(id: \"l\", src: \"x.graphql\", type: Config)", "@link(id: \"l2\", src: \"\", type: Config)", "@link(id: \"l\", src: \"y.graphql\", type: Config)"].map(String::from));
            w(g, "link-id", "schema.@link.0", "Duplicated id: l");
            w(g, "link-id", "schema.@link.2", "Duplicated id: l");
            w(g, "link-src", "schema.@link.1", "Link src cannot be empty");
        }
        _ => {
            g.links.push("@telemetry(export: {otlp: {url: \"no url\", headers: [{key: \"a b\", value: \"x\"}]}})".into());
            w(g, "telemetry", "@telemetry.otlp.url", "relative URL without a base");
            w(g, "telemetry", "@telemetry.otlp.headers", "Parsing failed because of invalid HTTP header name");
        }
    }
}

fn all_errors(sdl: &str) -> Result<(), Errs> {
    let m = mock::module(sdl)?;
    mock::blueprint(&m).map(|_| ())
}
fn norm(e: &Errs) -> Vec<(String, String)> {
    e.iter().map(|(t, m)| {
        // a query parameter's path ends with the part that is missing
        let mut t = t.clone();
        if t.iter().rev().nth(1).map(String::as_str) == Some("query") && t.len() >= 5 { t.pop(); }
        (t.join("."), m.clone())
    }).collect()
}

fn valid(c: &C) {
    let rt = rt_multi(4);
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let mut r = c.rng("valid");
        for i in 0..c.n(60, 600) {
            let g = valid_config(r.fork());
            let sdl = render(&g);
            c.case(&sdl, false);
            if i < 1 { c.sample(|| json!({"valid": sdl})); }
            let up = Upstream::new(|q| if q.path().starts_with("/k") { URes::json(json!(5)) } else { URes::json(json!(null)) });
            match guard(|| mock::app(&sdl, mock::runtime(up.clone()))) {
                Err(p) => c.violation("valid:panic", json!({"sdl": sdl, "panic": p})),
                Ok(Err(e)) => c.violation("valid:refused", json!({"sdl": sdl, "error": e})),
                Ok(Ok(app)) => {
                    let a = mock::query(&app, "{ __typename c }").await;
                    c.eq(&a.json(), &json!({"data": {"__typename": "Query", "c": 7}}), "valid:answers", || json!({"sdl": sdl}));
                    c.count("valid-started", 1);
                }
            }
        }
    });
}

fn faults(c: &C) {
    let mut r = c.rng("faults");
    let mut kinds: BTreeSet<&'static str> = BTreeSet::new();
    for i in 0..c.n(90, 1200) {
        let mut g = valid_config(r.fork());
        // every kind gets its turn
        let mut ks = vec![i % (KINDS + 4)];
        for _ in 0..r.below(6) { ks.push(r.below(KINDS + 4)); }
        let mut settings = BTreeSet::new();
        for (n, k) in ks.iter().enumerate() {
            if *k >= KINDS { if settings.insert(*k) { inject_setting(&mut g, k - KINDS) } } else { inject(&mut g, *k, n); }
        }
        if g.want.is_empty() { continue }
        let sdl = render(&g);
        c.case(&sdl, true);
        if i < 2 { c.sample(|| json!({"config": sdl, "errors": g.want})); }
        c.count("faults-injected", g.want.len() as u64);
        c.max("faults-in-one-config", g.want.len() as u64);
        kinds.extend(g.kinds.iter());
        let got = match guard(|| all_errors(&sdl)) {
            Err(p) => { c.violation("faults:panic", json!({"sdl": sdl, "panic": p})); continue }
            Ok(Ok(())) => { c.violation("faults:accepted", json!({"sdl": sdl, "expected": g.want})); continue }
            Ok(Err(e)) => norm(&e),
        };
        let (mut a, mut b) = (got.clone(), g.want.clone());
        a.sort(); b.sort();
        if a != b {
            let lost: Vec<_> = diff(&b, &a);
            let more: Vec<_> = diff(&a, &b);
            let sig = if !lost.is_empty() && more.is_empty() { "faults:lost" } else if lost.is_empty() { "faults:repeated-or-unrelated" } else { "faults:different" };
            c.violation(sig, json!({"sdl": sdl, "lost": lost, "unexpected": more}));
        }
        // the order is a function of the configuration
        for _ in 0..2 {
            let again = guard(|| all_errors(&sdl)).ok().and_then(|r| r.err()).map(|e| norm(&e));
            c.eq(&again.as_ref(), &Some(&got), "faults:order", || json!({"sdl": sdl}));
        }
    }
    c.count("fault-kinds", kinds.len() as u64);
    for k in kinds { c.note_case(k); }
}
fn diff(a: &[(String, String)], b: &[(String, String)]) -> Vec<(String, String)> {
    let mut b = b.to_vec();
    a.iter().filter(|x| match b.iter().position(|y| y == *x) { Some(i) => { b.remove(i); false } None => true }).cloned().collect()
}

/// unknown or wrong arguments of directives: found while reading the text
fn text_faults(c: &C) {
    let mut r = c.rng("text");
    for i in 0..c.n(40, 500) {
        let mut g = valid_config(r.fork());
        let mut want: Vec<String> = vec![];
        for n in 0..r.range(1, 5) {
            let f = format!("bad{n}");
            let (dir, msg) = match (i + n) % 5 {
                0 => (format!("@http(url: \"http://up.test\", nope{n}: 1)"), format!("@http.nope{n}|Parsing failed because of unknown field `nope{n}`")),
                1 => (format!("@http(urll{n}: \"http://up.test\")"), format!("@http.urll{n}|Parsing failed because of unknown field `urll{n}`")),
                2 => ("@cache(maxAge: \"x\") @http(url: \"http://up.test\")".into(), "@cache.maxAge|Parsing failed because of invalid type: string \"x\"".to_string()),
                3 => ("@http(url: \"http://up.test\", method: NOPE)".into(), "@http.method|Parsing failed because of unknown variant `NOPE`".into()),
                _ => ("@call(steps: 5)".into(), "@call.steps|Parsing failed because of invalid type: integer `5`".into()),
            };
            g.query.push(format!("{f}: Int {dir}"));
            want.push(format!("Query.{f}.{msg}"));
        }
        let sdl = render(&g);
        c.case(&sdl, true);
        let got = match guard(|| mock::parse(&sdl).map(|_| ())) {
            Err(p) => { c.violation("text:panic", json!({"sdl": sdl, "panic": p})); continue }
            Ok(Ok(())) => { c.violation("text:accepted", json!({"sdl": sdl, "expected": want})); continue }
            Ok(Err(e)) => e,
        };
        c.count("text-faults", want.len() as u64);
        let mut left: Vec<String> = got.iter().map(|(t, m)| format!("{}|{m}", t.join("."))).collect();
        for w in &want {
            match left.iter().position(|l| l.starts_with(w)) {
                Some(i) => { left.remove(i); }
                None => c.violation("text:lost", json!({"sdl": sdl, "lost": w, "got": left})),
            }
        }
        c.check(left.is_empty(), "text:unexpected", || json!({"sdl": sdl, "unexpected": left}));
    }
}

// ---------------------------------------------------------------- hostile
/// whatever the grammar allows, without regard to sense
fn hostile_config(r: &mut Rng) -> String {
    let tn = ["A", "B", "D", "Q", "X1", "U", "V", "E", "Int", "String", "JSON", "Email", "A", "B", "D", "Int", "String", "Int", "String", "A", "B"];
    let wild = r.chance(2, 5);
    let fnm = ["a", "b", "c", "x", "y", "id", if wild && r.bool() { "__t" } else { "t9" }];
    fn ty(r: &mut Rng, tn: &[&str]) -> String {
        let t = *r.pick(tn);
        match r.below(7) { 0 => format!("[{t}]"), 1 => format!("{t}!"), 2 => format!("[{t}!]!"), 3 => format!("[[{t}]]"), _ => t.to_string() }
    }
    fn tpl(r: &mut Rng, fnm: &[&str]) -> String {
        let mut s = String::new();
        for _ in 0..r.below(4) {
            s += &match r.below(11) {
                0 => format!("{{{{.args.{}}}}}", r.pick(fnm)),
                1 => format!("{{{{.value.{}}}}}", r.pick(fnm)),
                2 => format!("{{{{.value.{}.{}}}}}", r.pick(fnm), r.pick(fnm)),
                3 => format!("{{{{.args.{}.{}.{}}}}}", r.pick(fnm), r.pick(fnm), r.pick(fnm)),
                4 => "{{.env.X}}".into(),
                5 => "{{.headers.a}}".into(),
                6 => "{{".into(),
                7 => "{{.}}".into(),
                8 => "/é ?#&=".into(),
                9 => "{{.args}}".into(),
                _ => "/p".into(),
            };
        }
        s
    }
    fn val(r: &mut Rng, d: usize, fnm: &[&str]) -> String {
        match r.below(if d == 0 { 7 } else { 9 }) {
            0 => "null".into(), 1 => "1".into(), 2 => "-1.5".into(), 3 => "true".into(), 4 => "\"s\"".into(), 5 => format!("\"{}\"", tpl(r, fnm)), 6 => "99999999999999999999".into(),
            7 => format!("[{}]", (0..r.below(3)).map(|_| val(r, d - 1, fnm)).collect::<Vec<_>>().join(", ")),
            _ => format!("{{{}}}", r.subset(fnm, 1, 3).iter().map(|k| format!("{k}: {}", val(r, d - 1, fnm))).collect::<Vec<_>>().join(", ")),
        }
    }
    fn url(r: &mut Rng, fnm: &[&str]) -> String { format!("{}{}", r.pick(&["http://u.test", "http://u.test/p", "", "nope", "{{.vars.v}}", "http://[", "//", "http://u.test:99999"]), tpl(r, fnm)) }
    fn dir(r: &mut Rng, fnm: &[&str]) -> String {
        match r.below(16) {
            0..=2 => {
                let mut s = format!("@http(url: \"{}\"", url(r, fnm));
                if r.chance(1, 3) { s += &format!(", method: {}", r.pick(&["GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "TRACE", "CONNECT"])); }
                if r.chance(1, 3) { s += &format!(", query: [{{key: \"{}\", value: \"{}\"}}]", r.pick(&["id", "", "a b", "x[]"]), tpl(r, fnm)); }
                if r.chance(1, 3) { s += &format!(", body: {}", val(r, 2, fnm)); }
                if r.chance(1, 4) { s += &format!(", batchKey: [{}]", r.subset(&["\"id\"", "\"\"", "\"a\""], 1, 2).join(", ")); }
                if r.chance(1, 5) { s += &format!(", headers: [{{key: \"{}\", value: \"{}\"}}]", r.pick(&["a", "", "a b"]), tpl(r, fnm)); }
                if r.chance(1, 6) { s += &format!(", select: {}", val(r, 2, fnm)); }
                if r.chance(1, 6) { s += ", encoding: ApplicationXWwwFormUrlencoded"; }
                if r.chance(1, 8) { s += ", dedupe: true"; }
                if r.chance(1, 10) { s += ", onRequest: \"f\", onResponseBody: \"g\""; }
                s + ")"
            }
            3 => format!("@expr(body: {})", val(r, 3, fnm)),
            4 => format!("@call(steps: [{}])", (0..r.below(3)).map(|_| format!("{{{}: \"{}\", args: {{{}: {}}}}}", r.pick(&["query", "mutation"]), r.pick(fnm), r.pick(fnm), val(r, 1, fnm))).collect::<Vec<_>>().join(", ")),
            5 => format!("@graphQL(url: \"{}\", name: \"{}\", args: [{{key: \"{}\", value: \"{}\"}}], batch: {})", url(r, fnm), r.pick(&["a", "", "a b"]), r.pick(fnm), tpl(r, fnm), r.bool()),
            6 => format!("@grpc(url: \"{}\", method: \"{}\", body: {}, batchKey: [{}])", url(r, fnm), r.pick(&["a.b.c", "", "..", "a", "a.b.c.d"]), val(r, 1, fnm), r.pick(&["", "\"id\"", "\"\""])),
            7 => format!("@js(name: \"{}\")", r.pick(&["", "f"])),
            8 => format!("@modify(name: \"{}\")", r.pick(&["a", "b", "c", "", "a b", "__x", "é"])),
            9 => "@modify(omit: true)".into(),
            10 => format!("@cache(maxAge: {})", r.pick(&["1", "1", "1000", "1000", "18446744073709551615"])),
            11 => format!("@protected{}", r.pick(&["", "(id: [])", "(id: [\"a\", \"a\"])"])),
            12 => format!("@discriminate{}", r.pick(&["", "(field: \"\")", "(field: \"a\")"])),
            13 => "@omit".into(),
            14 => "@unknown(a: 1)".into(),
            _ => format!("@alias(options: [\"{}\"])", r.pick(&["a", ""])),
        }
    }
    fn fields(r: &mut Rng, tn: &[&str], an: &[&str], fnm: &[&str], dirs: u32) -> String {
        let mut s = String::new();
        for f in r.subset(fnm, 2, 5) {
            s += &format!(" {f}");
            if dirs > 0 && r.chance(1, 3) {
                s += &format!("({})", r.subset(&fnm[..5], 1, 4).iter().map(|k| { let t = ty(r, an); let d = if r.chance(1, 4) { format!(" = {}", val(r, 1, fnm)) } else { String::new() }; format!("{k}: {t}{d}") }).chain(["zz: Int".to_string()]).collect::<Vec<_>>().join(", "));
            }
            s += &format!(": {}", ty(r, tn));
            if dirs == 4 && r.chance(9, 10) { s += " @http(url: \"http://u.test/a\")"; if r.chance(1, 3) { continue } if r.bool() { s += &format!(" @modify(name: \"n{f}\")"); continue } }
            while r.chance(dirs.min(2), if dirs == 1 { 30 } else { 6 }) { s += " "; s += &dir(r, fnm); }
        }
        if s.is_empty() || r.chance(1, 2) { s += if dirs > 0 { " k: Int @expr(body: 1)" } else { " k: Int" } }
        s
    }
    // arguments of types that lead to unions multiply the schema: not together
    let unions = r.chance(1, 2);
    let an: &[&str] = if unions { &["Int", "String", "Email", "JSON"] } else { &tn };
    let mut s = String::from("schema");
    if r.chance(2, 3) { s += &format!(" @server({})", [r.pick(&["", "", "", "", "hostname: \"x\"", "workers: 1", "vars: [{key: \"v\", value: \"http://v.test\"}]", "enableFederation: true", "version: HTTP2", "routes: {status: \"/s\"}", "pipelineFlush: false", "globalResponseTimeout: 1", "queryValidation: true", "script: {timeout: 1}", "headers: {cors: {}}", "headers: {setCookies: true, experimental: [\"\"]}", "batchRequests: true"]).to_string(), r.pick(&["", "introspection: false", "showcase: true", "apolloTracing: true", "responseValidation: true", "enableJIT: false"]).to_string()].iter().filter(|s| !s.is_empty()).cloned().chain(["port: 8001".to_string()]).collect::<Vec<_>>().join(", ")); }
    if r.chance(1, 2) { s += &format!(" @upstream({})", r.pick(&["batch: {delay: 0, maxSize: 1}", "batch: {delay: 1}", "proxy: {url: \"nope\"}", "httpCache: 1", "poolIdleTimeout: 1, connectTimeout: 1, timeout: 1", "allowedHeaders: [\"a b\", \"\"]", "http2Only: true", "onRequest: \"f\"", "userAgent: \"a\\nb\"", "verifySSL: false", "keepAliveInterval: 0, keepAliveTimeout: 0, keepAliveWhileIdle: true, tcpKeepAlive: 0, poolMaxIdlePerHost: 0"])); }
    if wild && r.chance(1, 4) { s += &format!(" @link(src: \"{}\", type: {}, id: \"{}\")", r.pick(&["", "x", "http://["]), r.pick(&["Config", "Protobuf", "Script", "Cert", "Key", "Operation", "Htpasswd", "Jwks", "Grpc"]), r.pick(&["", "a"])); }
    if r.chance(1, 6) { s += &format!(" @telemetry(export: {})", r.pick(&["{otlp: {url: \"\"}}", "{stdout: {pretty: true}}", "{prometheus: {path: \"\"}}", "{apollo: {apiKey: \"\", graphRef: \"\"}}", "{apollo: {apiKey: \"{{.env.K}}\", graphRef: \"a@b\"}}", "{otlp: {url: \"{{.env\"}}"])); }
    s += &format!(" {{ query: {}", if !wild || r.chance(9, 10) { "Q" } else { *r.pick(&["A", "U", "E", "Int", "Nope"]) });
    if wild && r.chance(1, 4) { s += &format!(" mutation: {}", r.pick(&["A", "Q", "U", "Nope", "Mutation"])); }
    s += " }\n";
    for t in ["A", "B", "D", "X1", "Q", "Mutation"] {
        if t != "Q" && wild && r.chance(1, 6) { continue }
        let kw = match if t == "Q" { 5 } else { r.below(8) } { 0 => "interface", 1 => "input", _ => "type" };
        s += &format!("{kw} {t}");
        if kw != "input" && wild && r.chance(1, 3) { s += &format!(" implements {}", r.subset(&["A", "B", "D", "X1", "U", "Nope"], 1, 3).iter().map(|x| x.to_string()).chain(["B".into()]).collect::<BTreeSet<_>>().into_iter().collect::<Vec<_>>().join(" & ")); }
        if wild && r.chance(1, 3) { s += &format!(" @addField(name: \"{}\", path: [{}])", r.pick(&["a", "n1", "", "x y"]), (0..r.below(4)).map(|_| format!("\"{}\"", r.pick(&["a", "b", "c", "x", "0", "", "id"]))).collect::<Vec<_>>().join(", ")); }
        if wild && r.chance(1, 20) { s += " @protected"; }
        if wild && r.chance(1, 8) { s += " "; s += &dir(r, &fnm); }
        let dirs = if kw == "input" { 0 } else if t == "Q" { 4 } else if wild { 2 } else { 1 };
        s += &format!(" {{{} }}\n", fields(r, &tn, an, &fnm, dirs));
    }
    if unions { s += &format!("union U = {}\n", (if wild && r.chance(1, 4) { r.subset(&["A", "U", "V", "E", "Int", "Nope"], 1, 3) } else { r.subset(&["A", "D"], 1, 2) }).iter().chain(["B"].iter()).cloned().collect::<Vec<_>>().join(" | ")); }
    if unions && r.bool() { s += &format!("union V = {}\n", (if wild && r.chance(1, 4) { r.subset(&["A", "U", "V"], 1, 3) } else { r.subset(&["A", "X1"], 1, 2) }).iter().chain(["D"].iter()).cloned().collect::<Vec<_>>().join(" | ")); }
    if !wild || r.chance(2, 3) { s += &format!("enum E {}\n", if !wild { "{ A B }" } else { *r.pick(&["{ A B }", "{ A B }", "{ A B }", "{ A B }", "", "{ A A }", "{ A @alias(options: [\"B\"]) B @alias(options: [\"A\", \"A\"]) }", "{ A B @deprecated }"]) }); }
    if r.chance(1, 5) { s += *r.pick(&["scalar Int\n", "scalar Z @specifiedBy(url: \"x\")\n", "type A { z: Int }\n", "extend type Q { zz: Int @expr(body: 1) }\n", "directive @unknown(a: Int) on FIELD_DEFINITION\n"]); }
    s
}
/// small edits of a text that was fine
fn mutate(r: &mut Rng, s: &str) -> String {
    let mut t: Vec<String> = vec![];
    let mut cur = String::new();
    for ch in s.chars() {
        if ch.is_alphanumeric() || ch == '_' { cur.push(ch) } else { if !cur.is_empty() { t.push(std::mem::take(&mut cur)) } t.push(ch.to_string()) }
    }
    for _ in 0..r.range(1, 3) {
        let i = r.below(t.len());
        let j = r.below(t.len());
        match r.below(6) {
            0 => { t.remove(i); }
            1 => { let x = t[i].clone(); t.insert(j, x); }
            2 => t.swap(i, j),
            3 => { let x = t[j].clone(); t[i] = x; }
            4 => t.insert(i, r.pick(&["{", "}", "\"", "\\", "@", "!", "0", "é", "\u{0}", "{{", "#", "\"\"\""]).to_string()),
            _ => t.truncate(i + 1),
        }
    }
    t.concat()
}
const SHAPES: &[&str] = &[
    "type Query { a: T @expr(body: {x: 1}) } type T { x: Int t: T }",
    "type Query { a: T @expr(body: {b: {a: {}}}) } type T { b: V } type V { a: T }",
    "type Query { a: [T!]! @expr(body: []) } type T { ts: [[T!]] }",
    "type Query { a: Int @call(steps: [{query: \"a\"}]) }",
    "type Query { a: Int @call(steps: [{query: \"b\"}, {query: \"c\"}]) b: Int @call(steps: [{query: \"c\"}]) c: Int @call(steps: [{query: \"a\"}]) }",
    "type Query { a: T @http(url: \"http://u\") } type T @call(steps: [{query: \"a\"}]) { x: Int }",
    "type Query { a: T @expr(body: {x: 1}) } type T @addField(name: \"y\", path: []) { x: Int }",
    "type Query { a: T @expr(body: {x: 1}) } type T @addField(name: \"y\", path: [\"t\", \"t\", \"t\", \"x\"]) { x: Int t: T }",
    "type Query { a: A @expr(body: {x: 1}) } interface A implements A { x: Int }",
    "type Query { a: A @expr(body: {x: 1}) } interface A implements B { x: Int } interface B implements C { x: Int } interface C implements A { x: Int } type D implements A & B { x: Int }",
    "type Query { a: U @expr(body: {x: 1}) } union U = U | T type T { x: Int }",
    "type Query { a(u: U): Int @expr(body: 1) } union U = V | T union V = U type T { x: Int }",
    "type Query { a(u: I): Int @expr(body: 1) } input I { u: U } union U = J | K input J { i: I } input K { u: U i: I }",
    "type Query { a(u: I!): Int @expr(body: 1) } input I { i: I! }",
    "type Query { a: Query }",
    "type Query { a: Query @http(url: \"http://u\") b: T } type T { q: Query t: T }",
    "type Query { a: T @expr(body: {x: 1}) } type T { x: Int y: Int @modify(name: \"x\") z: Int @modify(name: \"x\") }",
    "type Query { a: Int @modify(name: \"b\") @expr(body: 1) b: Int @modify(name: \"a\") @expr(body: 2) }",
    "type Query { a: Int @graphQL(url: \"http://u\", name: \"a\") b: R @graphQL(url: \"http://u\", name: \"r\") } type R { r: R s: [R] i: Int }",
    "type Query { a: I @http(url: \"http://u\") b(i: I): Int @http(url: \"http://u\") } type I { a: Int i: I }",
    "type Query { a: D @http(url: \"http://u\") @discriminate(field: \"\") } union D = A | B type A { x: D } type B { y: D }",
    "type Query { _entities: Int @expr(body: 1) _service: Int @expr(body: 1) _Any: Int @expr(body: 1) } scalar _Any",
    "type Query { a: T @expr(body: {x: 1}) } type T implements T { x: Int }",
];
fn shape_sdl(s: &str, r: &mut Rng) -> String { format!("schema {}{{ query: Query }}\n{s}\n", if r.bool() { "@server(enableFederation: true) " } else { "" }) }

/// one document per process line: what the child saw, in the order of the documents
pub fn probe(path: &str) -> i32 {
    let docs: Vec<String> = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let rt = rt_single();
    for (i, sdl) in docs.iter().enumerate() {
        println!("#{i}");
        std::io::stdout().flush().ok();
        let out = guard(|| {
            let run = |sdl: &str| -> Vec<String> {
                match mock::module(sdl) {
                    Err(e) => e.iter().map(|(t, m)| format!("text [{}] {m}", t.join("."))).collect(),
                    Ok(m) => match mock::blueprint(&m) {
                        Err(e) => e.iter().map(|(t, m)| format!("refused [{}] {m}", t.join("."))).collect(),
                        Ok(_) => vec![],
                    },
                }
            };
            let a = run(sdl);
            if a != run(sdl) { println!("!NONDETERMINISTIC"); }
            if !a.is_empty() { return a.join("\n").replace('\n', " ⏎ ") }
            let up = Upstream::new(|_| URes::json(json!({"x": 1})));
            match mock::app(sdl, mock::runtime(up)) {
                Err(e) => format!("!REFUSED-LATER {}", e.replace('\n', " ")),
                Ok(app) => rt.block_on(async {
                    let a = mock::query(&app, "{ __typename __schema { queryType { name } types { name fields { name type { name } } } } }").await;
                    if a.status == 200 && (a.json()["data"]["__typename"].is_string() || !a.errors().is_empty()) { "started".to_string() } else { format!("!NO-ANSWER {}", a.text()) }
                }),
            }
        });
        match out { Ok(o) if o.starts_with('!') => println!("{o}"), Ok(o) => println!("={o}"), Err(p) => println!("!PANIC {}", p.replace('\n', " ")) }
    }
    println!("#done");
    0
}

fn hostile(c: &C) {
    let mut r = c.rng("hostile");
    let mut docs: Vec<(&'static str, String)> = vec![];
    for s in SHAPES { docs.push(("shape", shape_sdl(s, &mut r))); }
    for _ in 0..c.n(900, 9000) { docs.push(("random", hostile_config(&mut r))); }
    for _ in 0..c.n(150, 3000) { let s = render(&valid_config(r.fork())); docs.push(("edited", mutate(&mut r, &s))); }
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("verif-c25-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let chunks: Vec<Vec<(&'static str, String)>> = docs.chunks(docs.len().div_ceil(8)).map(|x| x.to_vec()).collect();
    std::thread::scope(|s| {
        for (k, chunk) in chunks.iter().enumerate() {
            let (exe, dir, c) = (&exe, &dir, c.clone());
            s.spawn(move || {
                let mut from = 0;
                while from < chunk.len() {
                    let f = dir.join(format!("d{k}.json"));
                    std::fs::write(&f, serde_json::to_string(&chunk[from..].iter().map(|x| &x.1).collect::<Vec<_>>()).unwrap()).unwrap();
                    let o = dir.join(format!("o{k}"));
                    let mut child = Command::new(exe).arg("--sdl-batch").arg(&f).stdout(std::fs::File::create(&o).unwrap()).stderr(Stdio::null()).spawn().unwrap();
                    let (mut idle, mut size) = (0, 0);
                    let status = loop {
                        if let Some(st) = child.try_wait().unwrap() { break Some(st) }
                        std::thread::sleep(std::time::Duration::from_millis(20));
                        let now = std::fs::metadata(&o).map(|m| m.len()).unwrap_or(0);
                        if now != size { size = now; idle = 0 } else { idle += 1 }
                        if idle > 3000 { child.kill().ok(); child.wait().ok(); break None }
                    };
                    let out = std::fs::read_to_string(&o).unwrap_or_default();
                    let mut at = from;
                    let mut done = false;
                    for l in out.lines() {
                        if l == "#done" { done = true; continue }
                        if let Some(i) = l.strip_prefix('#') { at = from + i.parse::<usize>().unwrap_or(0); continue }
                        let (kind, sdl) = &chunk[at];
                        if let Some(m) = l.strip_prefix('!') {
                            let what = m.split(' ').next().unwrap().to_lowercase();
                            let sig = if what == "panic" { format!("hostile:panic:{}", m.rsplit(" at ").next().unwrap_or("").split(':').next().unwrap_or("")) } else { format!("hostile:{what}") };
                            c.violation(&sig, json!({"kind": kind, "sdl": sdl, "what": m}));
                        }
                        if std::env::var("C25_SHOW").is_ok() { eprintln!("{kind} {l}"); }
                        c.count("hostile-documents", 1);
                        c.count(if l == "=started" { "hostile-started" } else if l.starts_with("=text") { "hostile-refused-as-text" } else { "hostile-refused" }, 1);
                        c.case(sdl, l != "=started");
                    }
                    if done { break }
                    let (kind, sdl) = &chunk[at.min(chunk.len() - 1)];
                    c.violation(if status.is_none() { "hostile:hang" } else { "hostile:crash" }, json!({"kind": kind, "sdl": sdl, "exit": format!("{status:?}")}));
                    from = at + 1;
                }
            });
        }
    });
    std::fs::remove_dir_all(&dir).ok();
}
