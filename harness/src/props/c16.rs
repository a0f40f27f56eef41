//! C16: a query answers exactly what it selects, and asks the upstream for no more.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

use serde_json::{json, Map, Value};
use tailcall::core::json::{JsonLike, JsonLikeList, JsonObjectLike};

use crate::common::*;
use crate::mock::*;
use crate::props::c13::T;

pub fn run(c: &C) {
    c.rule("one case = one query (document, operation name, variables) executed against a generated schema and a deterministic upstream; non-trivial = it needs at least one upstream call and uses an alias, a fragment, a directive or a variable; distinct by schema, query and variables");
    c.assume("queries are valid: the gateway does not validate them (the existing suite pins that unknown names are ignored)");
    c.assume("the upstream answers every call with a value of the declared type; failures belong to C30");
    c.assume("what the upstream is asked is compared as a set: asking the same question twice is C02's subject");
    c.section("json-values", json_values);
    c.section("queries", queries);
    c.section("mutations", mutations);
    for (k, n) in [("answers", 500), ("calls", 1000), ("aliases", 500), ("fragments", 500), ("conditions", 300), ("variables", 300), ("defaults", 50), ("typed-fragments", 100), ("merged-selections", 100), ("mutation-fields", 100), ("unselected-resolvers", 300), ("json-values", 500)] { c.floor(k, n) }
}

// ------------------------------------------------------------- schema
#[derive(Clone, PartialEq, Debug)]
enum K { Plain, Resolver }

#[derive(Clone)]
struct F { name: String, ty: T, kind: K, args: Vec<A> }

#[derive(Clone)]
struct A { name: String, ty: T, default: Option<L> }

#[derive(Clone, Debug, Hash)]
enum L { Null, Int(i64), Float(f64b), Str(String), Bool(bool), Enum(String), List(Vec<L>), Obj(Vec<(String, L)>), Var(String) }
#[allow(non_camel_case_types)]
#[derive(Clone, Debug)]
struct f64b(f64);
impl std::hash::Hash for f64b { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.to_bits().hash(h) } }

impl L {
    fn show(&self) -> String {
        match self {
            L::Null => "null".into(),
            L::Int(n) => n.to_string(),
            L::Float(f) => format!("{:?}", f.0),
            L::Str(s) => json!(s).to_string(),
            L::Bool(b) => b.to_string(),
            L::Enum(e) => e.clone(),
            L::List(l) => format!("[{}]", l.iter().map(L::show).collect::<Vec<_>>().join(", ")),
            L::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", v.show())).collect::<Vec<_>>().join(", ")),
            L::Var(v) => format!("${v}"),
        }
    }
}

const SCALARS: &[&str] = &["Int", "Float", "String", "Boolean", "JSON"];

struct Sch {
    objs: BTreeMap<String, Vec<F>>,
    ifaces: BTreeMap<String, (Vec<F>, Vec<String>)>,
    unions: BTreeMap<String, Vec<String>>,
    enums: BTreeMap<String, Vec<String>>,
    inputs: BTreeMap<String, Vec<A>>,
    query: String,
    mutation: String,
}

fn named(base: &str, nn: bool) -> T { T { base: base.into(), nn: vec![nn] } }
fn wrap(r: &mut Rng, base: &str, max: usize) -> T {
    let d = *r.pick(&[0, 0, 0, 0, 1, 1, 2]);
    T { base: base.into(), nn: (0..=d.min(max)).map(|_| r.chance(1, 3)).collect() }
}

impl Sch {
    fn is_leaf(&self, base: &str) -> bool { SCALARS.contains(&base) || self.enums.contains_key(base) }
    /// the object types a value of this type can be of
    fn members(&self, name: &str) -> Vec<String> {
        if self.objs.contains_key(name) { return vec![name.into()] }
        self.ifaces.get(name).map(|i| i.1.clone()).or_else(|| self.unions.get(name).cloned()).unwrap_or_default()
    }
    fn is_abstract(&self, name: &str) -> bool { self.ifaces.contains_key(name) || self.unions.contains_key(name) }
    fn fields(&self, name: &str) -> &[F] { self.objs.get(name).or_else(|| self.ifaces.get(name).map(|i| &i.0)).map(|x| &x[..]).unwrap_or(&[]) }
    fn field(&self, ty: &str, name: &str) -> &F { self.fields(ty).iter().find(|f| f.name == name).unwrap_or_else(|| panic!("{ty}.{name}")) }

    fn sdl(&self) -> String {
        let mut s = format!("schema @server(port: 8000) @upstream(httpCache: 0) {{ query: {} mutation: {} }}\n", self.query, self.mutation);
        let args = |a: &[A]| if a.is_empty() { String::new() } else {
            format!("({})", a.iter().map(|a| format!("{}: {}{}", a.name, a.ty.show(), a.default.as_ref().map(|d| format!(" = {}", d.show())).unwrap_or_default())).collect::<Vec<_>>().join(", "))
        };
        let field = |o: &str, f: &F, root: bool| {
            let dir = match f.kind {
                K::Plain => String::new(),
                K::Resolver => format!(" @http(url: \"http://up.test/{o}/{}{}\", method: POST, body: \"{}\")", f.name, if root { "" } else { "/{{.value.id}}" }, if f.args.is_empty() { "{}" } else { "{{.args}}" }),
            };
            format!("  {}{}: {}{dir}\n", f.name, args(&f.args), f.ty.show())
        };
        for (n, fs) in &self.objs {
            let ifs: Vec<_> = self.ifaces.iter().filter(|i| i.1 .1.contains(n)).map(|i| i.0.clone()).collect();
            let imp = if ifs.is_empty() { String::new() } else { format!(" implements {}", ifs.join(" & ")) };
            s += &format!("type {n}{imp} {{\n{}}}\n", fs.iter().map(|f| field(n, f, *n == self.query || *n == self.mutation)).collect::<String>());
        }
        for (n, (fs, _)) in &self.ifaces { s += &format!("interface {n} {{\n{}}}\n", fs.iter().map(|f| field(n, f, false)).collect::<String>()) }
        for (n, m) in &self.unions { s += &format!("union {n} = {}\n", m.join(" | ")) }
        for (n, v) in &self.enums { s += &format!("enum {n} {{ {} }}\n", v.join(" ")) }
        for (n, fs) in &self.inputs {
            s += &format!("input {n} {{\n{}}}\n", fs.iter().map(|a| format!("  {}: {}{}\n", a.name, a.ty.show(), a.default.as_ref().map(|d| format!(" = {}", d.show())).unwrap_or_default())).collect::<String>());
        }
        s
    }
}

fn schema(r: &mut Rng) -> Sch {
    let mut s = Sch {
        objs: BTreeMap::new(), ifaces: BTreeMap::new(), unions: BTreeMap::new(), enums: BTreeMap::new(), inputs: BTreeMap::new(),
        query: (*r.pick(&["Query", "Query", "Root"])).into(), mutation: (*r.pick(&["Mutation", "Writes"])).into(),
    };
    for i in 0..r.range(1, 2) { s.enums.insert(format!("E{i}"), ["RED", "green", "B_3"][..r.range(1, 3)].iter().map(|x| x.to_string()).collect()); }
    // inputs: later ones refer to earlier ones
    for i in 0..r.range(1, 3) {
        let fs = (0..r.range(1, 4)).map(|k| arg(r, &s, format!("f{k}"))).collect();
        s.inputs.insert(format!("In{i}"), fs);
    }
    let n = r.range(2, 4);
    let names: Vec<String> = (0..n).map(|i| format!("T{i}")).collect();
    // a plain name has the same type wherever it is used
    let plain: Vec<(String, T)> = ["name", "n", "flag", "score", "tags", "grid", "meta", "kind", "x_1", "_u"].iter().map(|k| {
        let base = if *k == "kind" { "E0" } else { *r.pick(SCALARS) };
        let mut t = wrap(r, base, 2);
        if base == "JSON" { t.nn.truncate(1) }
        (k.to_string(), t)
    }).collect();
    if n >= 2 && r.chance(3, 4) {
        let m = r.subset(&names, 2, 3);
        if !m.is_empty() {
            let mut fs = vec![F { name: "id".into(), ty: named("Int", true), kind: K::Plain, args: vec![] }];
            for (k, t) in r.subset(&plain, 1, 4) { fs.push(F { name: k, ty: t, kind: K::Plain, args: vec![] }) }
            if r.chance(1, 3) { fs.push(F { name: "shared".into(), ty: named("Int", false), kind: K::Plain, args: vec![] }) }
            s.ifaces.insert("Node".into(), (fs, m));
        }
    }
    if r.chance(3, 4) {
        let m = r.subset(&names, 2, 3);
        if !m.is_empty() { s.unions.insert("Any".into(), m); }
    }
    let mut kinds: Vec<String> = names.clone();
    kinds.extend(s.ifaces.keys().cloned());
    kinds.extend(s.unions.keys().cloned());
    for (i, t) in names.iter().enumerate() {
        let mut fs = vec![F { name: "id".into(), ty: named("Int", true), kind: K::Plain, args: vec![] }];
        for (k, ty) in &plain {
            if r.chance(2, 5) || s.ifaces.values().any(|(f, m)| m.contains(t) && f.iter().any(|f| f.name == *k)) {
                fs.push(F { name: k.clone(), ty: ty.clone(), kind: K::Plain, args: vec![] })
            }
        }
        // embedded objects: of later types only, so that values are finite
        for k in 0..r.below(3) {
            if i + 1 < n { let b = r.pick(&names[i + 1..]).clone(); fs.push(F { name: format!("{}_o{k}", t.to_lowercase()), ty: wrap(r, &b, 2), kind: K::Plain, args: vec![] }) }
        }
        if s.ifaces.values().any(|i| i.1.contains(t) && i.0.iter().any(|f| f.name == "shared")) {
            fs.push(F { name: "shared".into(), ty: named("Int", false), kind: K::Resolver, args: vec![] })
        }
        for k in 0..r.range(1, 3) { let f = resolver(r, &s, &kinds, format!("{}_r{k}", t.to_lowercase())); fs.push(f) }
        r.shuffle(&mut fs[1..]);
        s.objs.insert(t.clone(), fs);
    }
    let mut q: Vec<F> = (0..r.range(2, 5)).map(|k| resolver(r, &s, &kinds, format!("q{k}"))).collect();
    // abstract types nothing refers to are not part of the schema
    for k in s.ifaces.keys().chain(s.unions.keys()) { q.push(F { name: format!("of_{}", k.to_lowercase()), ty: named(k, false), kind: K::Resolver, args: vec![] }) }
    s.objs.insert(s.query.clone(), q);
    let m = (0..r.range(2, 4)).map(|k| resolver(r, &s, &kinds, format!("m{k}"))).collect();
    s.objs.insert(s.mutation.clone(), m);
    s
}

fn resolver(r: &mut Rng, s: &Sch, kinds: &[String], name: String) -> F {
    let base = if r.chance(1, 4) { (*r.pick(&["Int", "String", "JSON", "E0"])).to_string() } else { r.pick(kinds).clone() };
    let ty = if base == "JSON" { named("JSON", false) } else { wrap(r, &base, 2) };
    let args = (0..r.below(4)).map(|k| arg(r, s, format!("a{k}"))).collect();
    F { name, ty, kind: K::Resolver, args }
}

fn arg(r: &mut Rng, s: &Sch, name: String) -> A {
    let mut bases: Vec<String> = ["Int", "String", "Boolean", "Float", "E0"].iter().map(|x| x.to_string()).collect();
    for i in s.inputs.keys() { bases.push(i.clone()); bases.push(i.clone()) }
    let base = r.pick(&bases).clone();
    let ty = wrap(r, &base, 2);
    let default = r.chance(1, 3).then(|| lit(r, s, &ty, 3, &mut None)).filter(|l| !matches!(l, L::Null) || ty.nullable());
    A { name, ty, default }
}

// ------------------------------------------------------------- arguments
/// Variables an operation declares.
#[derive(Default, Clone)]
struct Vars { decl: Vec<(String, T, Option<L>)>, not_null: BTreeSet<String> }

fn lit(r: &mut Rng, s: &Sch, ty: &T, depth: usize, vars: &mut Option<&mut Vars>) -> L { lit_at(r, s, ty, depth, vars, false) }

fn lit_at(r: &mut Rng, s: &Sch, ty: &T, depth: usize, vars: &mut Option<&mut Vars>, has_default: bool) -> L {
    if vars.is_some() && r.chance(1, 4) {
        let mut t = ty.clone();
        let last = t.nn.len() - 1;
        let mut default = None;
        let required = t.nn[last];
        if t.nn[last] {
            if r.chance(1, 3) {
                let d = lit(r, s, &t, 2, &mut None);
                t.nn[last] = false;
                default = Some(d);
            } else if has_default && r.chance(1, 3) { t.nn[last] = false }
        } else if r.chance(1, 5) { t.nn[last] = true } else if r.chance(1, 4) { default = Some(lit(r, s, &t, 2, &mut None)) }
        let v = vars.as_mut().unwrap();
        let same: Vec<String> = v.decl.iter().filter(|d| d.1 == t && d.2.is_some() == default.is_some() && !(required && matches!(d.2, Some(L::Null)))).map(|d| d.0.clone()).collect();
        if !same.is_empty() && r.bool() { let n = r.pick(&same).clone(); if required { v.not_null.insert(n.clone()); } return L::Var(n) }
        let name = format!("v{}", v.decl.len());
        v.decl.push((name.clone(), t, default));
        if required { v.not_null.insert(name.clone()); }
        return L::Var(name);
    }
    let d = ty.nn.len();
    if ty.nullable() && r.chance(1, 8) { return L::Null }
    if d > 1 {
        let inner = T { base: ty.base.clone(), nn: ty.nn[..d - 1].to_vec() };
        // a single value stands for a list of it
        if r.chance(1, 12) && inner.nn.len() == 1 { let mut i2 = inner.clone(); i2.nn[0] = true; return lit(r, s, &i2, depth, &mut None) }
        let n = if depth == 0 { 0 } else { r.below(4) };
        return L::List((0..n).map(|_| lit(r, s, &inner, depth.saturating_sub(1), vars)).collect());
    }
    match ty.base.as_str() {
        "Int" => L::Int(r.below(2000) as i64 - 1000),
        "Float" => L::Float(f64b(r.below(100) as f64 + 0.25)),
        "String" => L::Str((*r.pick(&["", "x", "a b", "q\"uote", "é", "back\\slash", "1", "null", "two\nlines"])).into()),
        "Boolean" => L::Bool(r.bool()),
        b if s.enums.contains_key(b) => L::Enum(r.pick(&s.enums[b]).clone()),
        b => {
            let mut fs = vec![];
            for f in &s.inputs[b] {
                let required = !f.ty.nullable() && f.default.is_none();
                if required || r.chance(3, 5) { fs.push((f.name.clone(), lit_at(r, s, &f.ty, depth.saturating_sub(1), vars, f.default.is_some()))) }
            }
            r.shuffle(&mut fs);
            L::Obj(fs)
        }
    }
}

/// The value an argument of this type has; None: it has none.
fn coerce(s: &Sch, l: &L, ty: &T, vars: &BTreeMap<String, Value>) -> Option<Value> {
    match l {
        L::Var(v) => return vars.get(v).cloned(),
        L::Null => return Some(Value::Null),
        _ => {}
    }
    let d = ty.nn.len();
    if d > 1 {
        let inner = T { base: ty.base.clone(), nn: ty.nn[..d - 1].to_vec() };
        return Some(match l {
            L::List(items) => items.iter().map(|i| coerce(s, i, &inner, vars).unwrap_or(Value::Null)).collect(),
            l => Value::Array(vec![coerce(s, l, &inner, vars)?]),
        });
    }
    Some(match l {
        L::Int(n) if ty.base == "Float" => json!(n),
        L::Int(n) => json!(n),
        L::Float(f) => json!(f.0),
        L::Str(x) => json!(x),
        L::Bool(b) => json!(b),
        L::Enum(e) => json!(e),
        L::Obj(o) => {
            let mut m = Map::new();
            for f in &s.inputs[&ty.base] {
                let given = o.iter().find(|x| x.0 == f.name).and_then(|x| coerce(s, &x.1, &f.ty, vars));
                if let Some(v) = given.or_else(|| f.default.as_ref().and_then(|d| coerce(s, d, &f.ty, &BTreeMap::new()))) { m.insert(f.name.clone(), v); }
            }
            Value::Object(m)
        }
        _ => unreachable!(),
    })
}

fn coerce_args(s: &Sch, defs: &[A], given: &[(String, L)], vars: &BTreeMap<String, Value>) -> Map<String, Value> {
    let mut m = Map::new();
    for a in defs {
        let v = given.iter().find(|x| x.0 == a.name).and_then(|x| coerce(s, &x.1, &a.ty, vars));
        if let Some(v) = v.or_else(|| a.default.as_ref().and_then(|d| coerce(s, d, &a.ty, &BTreeMap::new()))) { m.insert(a.name.clone(), v); }
    }
    m
}

fn to_json(l: &L) -> Value {
    match l {
        L::Null => Value::Null,
        L::Int(n) => json!(n),
        L::Float(f) => json!(f.0),
        L::Str(s) | L::Enum(s) => json!(s),
        L::Bool(b) => json!(b),
        L::List(v) => v.iter().map(to_json).collect(),
        L::Obj(o) => Value::Object(o.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
        L::Var(_) => unreachable!(),
    }
}

fn canon(v: &Value) -> String {
    match v {
        Value::Object(m) => { let b: BTreeMap<_, _> = m.iter().map(|(k, v)| (k, canon(v))).collect(); format!("{b:?}") }
        Value::Array(a) => format!("{:?}", a.iter().map(canon).collect::<Vec<_>>()),
        Value::Number(n) => n.as_f64().map(|f| f.to_string()).unwrap_or_default(),
        v => v.to_string(),
    }
}

// ------------------------------------------------------------- upstream
/// The value the upstream has for a field, given what it is asked.
fn answer(s: &Sch, seed: u64, owner: &str, field: &str, id: &str, args: &Value) -> Value {
    let mut r = Rng::new(h64(&(seed, owner, field, id, canon(args))));
    value(&mut r, s, &s.field(owner, field).ty)
}

fn value(r: &mut Rng, s: &Sch, ty: &T) -> Value {
    let d = ty.nn.len();
    if ty.nullable() && r.chance(1, 7) { return Value::Null }
    if d > 1 {
        let inner = T { base: ty.base.clone(), nn: ty.nn[..d - 1].to_vec() };
        return (0..r.below(4)).map(|_| value(r, s, &inner)).collect();
    }
    match ty.base.as_str() {
        "Int" => json!(r.below(100) as i64 - 50),
        "Float" => json!(r.below(100) as f64 / 4.0),
        "String" => json!(*r.pick(&["", "v", "a b", "\"", "é\n", "0", "null", "long text with {{.value}} braces"])),
        "Boolean" => json!(r.bool()),
        "JSON" => match short_floats(gen_json(r, 2)) { Value::Null if ty.nn[0] => json!({"j": []}), v => v },
        b if s.enums.contains_key(b) => json!(r.pick(&s.enums[b])),
        b => {
            let t = r.pick(&s.members(b)).clone();
            let mut m = Map::new();
            let mut fs: Vec<&F> = s.objs[&t].iter().collect();
            r.shuffle(&mut fs);
            for f in fs {
                if f.kind != K::Plain {
                    // data of the same name that is not what the resolver says
                    if r.chance(1, 4) { m.insert(f.name.clone(), json!("not asked for")); }
                    continue;
                }
                if f.ty.nullable() && r.chance(1, 8) { continue }
                let v = if f.name == "id" { json!(r.below(6)) } else { value(r, s, &f.ty) };
                m.insert(f.name.clone(), v);
            }
            for k in ["secret", "extra", "zz"] { if r.chance(1, 3) { m.insert(k.into(), json!({"leak": [1, k]})); } }
            // what an upstream calls its types matters only where the schema leaves the type open
            let name = if s.is_abstract(b) || r.chance(1, 2) { Some(t) } else if r.bool() { None } else { Some((*r.pick(&["UpstreamName", "T0", "T1", "Node", ""])).to_string()) };
            if let Some(n) = name { m.insert("__typename".into(), json!(n)); }
            Value::Object(m)
        }
    }
}

// ------------------------------------------------------------- queries
#[derive(Clone, Debug)]
enum Cond { Const(bool), Var(String) }
type Dirs = Vec<(bool, Cond)>; // (is @include, condition)

#[derive(Clone, Debug)]
enum S {
    Field { key: String, name: String, args: Vec<(String, L)>, dirs: Dirs, sub: Vec<S> },
    Inline { on: Option<String>, dirs: Dirs, sub: Vec<S> },
    Spread { name: String, dirs: Dirs },
}

/// A place fields are selected in: every response name means one field there.
struct Group { ty: String, entries: Vec<Entry>, frags: Vec<String> }
struct Entry { key: String, owner: String, name: String, args: Vec<(String, L)>, sub: Option<Group> }

struct Gen<'a> { r: &'a mut Rng, s: &'a Sch, vars: Vars, frags: Vec<(String, String, Vec<S>)>, nkey: usize, budget: usize, frag: usize, stats: BTreeMap<&'static str, u64> }

impl Gen<'_> {
    fn hit(&mut self, k: &'static str) { *self.stats.entry(k).or_default() += 1 }

    fn group(&mut self, ty: &str, depth: usize) -> Group {
        let s = self.s;
        let mut entries: Vec<Entry> = vec![];
        let mut owners = s.members(ty);
        if s.is_abstract(ty) { owners.extend(s.ifaces.keys().filter(|i| *i == ty || self.r.bool()).cloned().collect::<Vec<_>>()) }
        for owner in owners {
            let fs: Vec<F> = s.fields(&owner).to_vec();
            for f in &fs {
                if !self.r.chance(2, 5) { continue }
                for _ in 0..if self.r.chance(1, 5) { 2 } else { 1 } {
                    let leaf = s.is_leaf(&f.ty.base);
                    if !leaf && (depth == 0 || self.budget == 0) { continue }
                    let mut args = vec![];
                    for a in &f.args {
                        let required = !a.ty.nullable() && a.default.is_none();
                        if required || self.r.chance(3, 5) { args.push((a.name.clone(), lit_at(self.r, s, &a.ty, 3, &mut Some(&mut self.vars), a.default.is_some()))) }
                    }
                    self.r.shuffle(&mut args);
                    let unaliased = f.args.is_empty() && f.kind == K::Plain && leaf;
                    let key = if (unaliased || !entries.iter().any(|e| e.key == f.name)) && self.r.chance(3, 5) { f.name.clone() } else {
                        self.nkey += 1;
                        self.hit("aliases");
                        format!("{}{}", self.r.pick(&["k", "Z", "_a", "id_"]), self.nkey)
                    };
                    if entries.iter().any(|e| e.key == key && (e.owner != owner && !unaliased || e.owner == owner)) { continue }
                    let sub = if leaf { None } else { self.budget = self.budget.saturating_sub(1); Some(self.group(&f.ty.base, depth - 1)) };
                    entries.push(Entry { key, owner: owner.clone(), name: f.name.clone(), args, sub });
                }
            }
        }
        Group { ty: ty.into(), entries, frags: vec![] }
    }

    fn dirs(&mut self) -> Dirs {
        let mut d = vec![];
        if self.r.chance(1, 5) {
            for inc in [true, false] {
                if self.r.chance(3, 5) {
                    let c = if self.r.bool() { Cond::Const(self.r.chance(3, 5) == inc) } else {
                        let have: Vec<String> = self.vars.decl.iter().filter(|d| d.1.base == "Boolean" && d.1.nn.len() == 1 && d.1.nn[0]).map(|d| d.0.clone()).collect();
                        if !have.is_empty() && self.r.chance(2, 3) { Cond::Var(self.r.pick(&have).clone()) } else {
                            let v = format!("v{}", self.vars.decl.len());
                            let def = self.r.chance(1, 3).then(|| L::Bool(self.r.bool()));
                            self.vars.decl.push((v.clone(), named("Boolean", true), def));
                            Cond::Var(v)
                        }
                    };
                    self.hit("conditions");
                    d.push((inc, c));
                }
            }
            self.r.shuffle(&mut d);
        }
        d
    }

    /// Selections of this group's entries that are valid on `ty`.
    fn select(&mut self, g: &mut Group, ty: &str, depth: usize) -> Vec<S> {
        let s = self.s;
        let mut out = vec![];
        let mut idx: Vec<usize> = (0..g.entries.len()).filter(|i| g.entries[*i].owner == ty).collect();
        self.r.shuffle(&mut idx);
        let n = if idx.is_empty() { 0 } else { self.r.range(1, idx.len()) };
        for i in idx.into_iter().take(n) {
            for _ in 0..if self.r.chance(1, 8) { 2 } else { 1 } {
                let dirs = self.dirs();
                let e = &mut g.entries[i];
                let (key, name, args) = (e.key.clone(), e.name.clone(), e.args.clone());
                let sub = match e.sub.take() {
                    None => vec![],
                    Some(mut sg) => {
                        let t = sg.ty.clone();
                        let mut v = self.select(&mut sg, &t, self.frag);
                        if v.is_empty() { v.push(self.typename()) }
                        g.entries[i].sub = Some(sg);
                        v
                    }
                };
                let at = self.r.below(out.len() + 1);
                out.insert(at, S::Field { key, name, args, dirs, sub });
            }
        }
        if self.r.chance(1, 6) { let t = self.typename(); let at = self.r.below(out.len() + 1); out.insert(at, t) }
        if depth > 0 {
            let mine = s.members(ty);
            let mut types: Vec<Option<String>> = vec![None, Some(ty.to_string())];
            for t in s.objs.keys().chain(s.ifaces.keys()).chain(s.unions.keys()) {
                if t != ty && s.members(t).iter().any(|m| mine.contains(m)) { types.push(Some(t.clone())) }
            }
            let k = if s.is_abstract(ty) { self.r.range(1, 4) } else { *self.r.pick(&[0, 0, 1, 1, 2]) };
            for _ in 0..k {
                let on = self.r.pick(&types).clone();
                let inner = on.clone().unwrap_or(ty.to_string());
                let dirs = self.dirs();
                let item = if on.is_some() && self.r.chance(2, 5) {
                    // a fragment of this group again, or a new one
                    let known: Vec<String> = g.frags.iter().filter(|f| self.frags.iter().any(|x| &x.0 == *f && x.1 == inner)).cloned().collect();
                    let name = if !known.is_empty() && self.r.chance(1, 2) { self.r.pick(&known).clone() } else {
                        let mut sub = self.select(g, &inner, depth - 1);
                        if sub.is_empty() { sub.push(self.typename()) }
                        let name = format!("Fr{}", self.frags.len());
                        self.frags.push((name.clone(), inner.clone(), sub));
                        g.frags.push(name.clone());
                        name
                    };
                    S::Spread { name, dirs }
                } else {
                    let mut sub = self.select(g, &inner, depth - 1);
                    if sub.is_empty() { sub.push(self.typename()) }
                    S::Inline { on, dirs, sub }
                };
                self.hit("fragments");
                if inner != ty { self.hit("typed-fragments") }
                let at = self.r.below(out.len() + 1);
                out.insert(at, item);
            }
        }
        out
    }

    fn typename(&mut self) -> S {
        let key = (*self.r.pick(&["__typename", "__typename", "tn", "kind_of"])).to_string();
        S::Field { key, name: "__typename".into(), args: vec![], dirs: vec![], sub: vec![] }
    }
}

fn show_dirs(d: &Dirs) -> String {
    d.iter().map(|(inc, c)| format!(" @{}(if: {})", if *inc { "include" } else { "skip" }, match c { Cond::Const(b) => b.to_string(), Cond::Var(v) => format!("${v}") })).collect()
}
fn show(sel: &[S]) -> String {
    let mut o = String::from("{");
    for s in sel {
        o.push(' ');
        match s {
            S::Field { key, name, args, dirs, sub } => {
                if key != name { o += key; o += ": " }
                o += name;
                if !args.is_empty() { o += &format!("({})", args.iter().map(|(k, v)| format!("{k}: {}", v.show())).collect::<Vec<_>>().join(", ")) }
                o += &show_dirs(dirs);
                if !sub.is_empty() { o.push(' '); o += &show(sub) }
            }
            S::Inline { on, dirs, sub } => { o += "..."; if let Some(t) = on { o += &format!(" on {t}") } o += &show_dirs(dirs); o.push(' '); o += &show(sub) }
            S::Spread { name, dirs } => { o += &format!("...{name}{}", show_dirs(dirs)) }
        }
    }
    o += " }";
    o
}

// ------------------------------------------------------------- the oracle
struct Eval<'a> { s: &'a Sch, seed: u64, vars: &'a BTreeMap<String, Value>, frags: &'a [(String, String, Vec<S>)], calls: Vec<BTreeSet<String>>, roots: Vec<String>, merged: u64 }

impl<'a> Eval<'a> {
    fn on(&self, dirs: &Dirs) -> bool {
        dirs.iter().all(|(inc, c)| { let v = match c { Cond::Const(b) => *b, Cond::Var(v) => self.vars[v] == json!(true) }; v == *inc })
    }
    fn collect(&mut self, ty: &str, sel: &'a [S], out: &mut Vec<(String, Vec<&'a S>)>, seen: &mut BTreeSet<String>) {
        for x in sel {
            match x {
                S::Field { key, dirs, .. } => {
                    if !self.on(dirs) { continue }
                    match out.iter_mut().find(|o| o.0 == *key) { Some(o) => { o.1.push(x); self.merged += 1 } None => out.push((key.clone(), vec![x])) }
                }
                S::Inline { on, dirs, sub } => {
                    if !self.on(dirs) || on.as_ref().is_some_and(|t| !self.s.members(t).iter().any(|m| m == ty)) { continue }
                    self.collect(ty, sub, out, seen);
                }
                S::Spread { name, dirs } => {
                    if !self.on(dirs) { continue }
                    let f = self.frags.iter().find(|f| f.0 == *name).unwrap();
                    if !self.s.members(&f.1).iter().any(|m| m == ty) || !seen.insert(name.clone()) { continue }
                    self.collect(ty, &f.2, out, seen);
                }
            }
        }
    }
    fn object(&mut self, ty: &str, parent: &Value, sels: &[&'a [S]], root: bool) -> Value {
        let mut fields = vec![];
        let mut seen = BTreeSet::new();
        for s in sels { self.collect(ty, s, &mut fields, &mut seen) }
        let mut m = Map::new();
        for (key, items) in fields {
            let S::Field { name, args, .. } = items[0] else { unreachable!() };
            if name == "__typename" { m.insert(key, json!(ty)); continue }
            let f = self.s.field(ty, name);
            let v = match f.kind {
                K::Plain => parent.get(name).cloned().unwrap_or(Value::Null),
                K::Resolver => {
                    let a = Value::Object(coerce_args(self.s, &f.args, args, self.vars));
                    let id = if root { String::new() } else { parent["id"].to_string() };
                    let path = format!("/{ty}/{name}{}", if root { String::new() } else { format!("/{id}") });
                    let call = format!("{path} {}", canon(&a));
                    if root { self.calls.push(BTreeSet::new()); self.roots.push(call.clone()) }
                    if let Some(c) = self.calls.last_mut() { c.insert(call); }
                    answer(self.s, self.seed, ty, name, &id, &a)
                }
            };
            let subs: Vec<&'a [S]> = items.iter().map(|i| { let S::Field { sub, .. } = i else { unreachable!() }; &sub[..] }).collect();
            let v = self.complete(&f.ty.clone(), &v, &subs);
            m.insert(key, v);
        }
        Value::Object(m)
    }
    fn complete(&mut self, ty: &T, v: &Value, subs: &[&'a [S]]) -> Value {
        if v.is_null() || self.s.is_leaf(&ty.base) { return v.clone() }
        match v {
            Value::Array(a) => a.iter().map(|x| self.complete(ty, x, subs)).collect(),
            v => { let t = if self.s.is_abstract(&ty.base) { v["__typename"].as_str().unwrap().to_string() } else { ty.base.clone() }; self.object(&t, v, subs, false) }
        }
    }
}

#[derive(Clone)]
struct Case { head: String, extra: Vec<String>, order: u64, glue: &'static str, operation: Option<String>, given: Map<String, Value>, vars: BTreeMap<String, Value>, sel: Vec<S>, frags: Vec<(String, String, Vec<S>)>, stats: BTreeMap<&'static str, u64> }

impl Case {
    fn text(&self) -> String {
        let mut used: BTreeSet<String> = BTreeSet::new();
        fn spreads(sel: &[S], out: &mut BTreeSet<String>) { for x in sel { match x { S::Spread { name, .. } => { out.insert(name.clone()); } S::Field { sub, .. } | S::Inline { sub, .. } => spreads(sub, out) } } }
        spreads(&self.sel, &mut used);
        loop { let n = used.len(); for f in &self.frags { if used.contains(&f.0) { spreads(&f.2, &mut used) } } if used.len() == n { break } }
        let mut parts = vec![format!("{}{}", self.head, show(&self.sel))];
        parts.extend(self.extra.iter().cloned());
        for (n, t, sub) in &self.frags { if used.contains(n) { parts.push(format!("fragment {n} on {t} {}", show(sub))) } }
        Rng::new(self.order).shuffle(&mut parts);
        parts.join(self.glue)
    }
    /// Leaves out the nth selection; None when there is none or its parent would be empty.
    fn without(&self, n: usize) -> Option<Option<Case>> {
        fn cut(sel: &mut Vec<S>, n: &mut usize) -> Option<bool> {
            for i in 0..sel.len() {
                if *n == 0 { if sel.len() == 1 { return Some(false) } sel.remove(i); return Some(true) }
                *n -= 1;
                if let S::Field { sub, .. } | S::Inline { sub, .. } = &mut sel[i] { if let Some(x) = cut(sub, n) { return Some(x) } }
            }
            None
        }
        let mut c = self.clone();
        let mut n = n;
        let mut done = cut(&mut c.sel, &mut n);
        for f in &mut c.frags { if done.is_none() { done = cut(&mut f.2, &mut n) } }
        done.map(|d| d.then_some(c))
    }
}

fn gen_case(r: &mut Rng, s: &Sch, mutation: bool) -> Case {
    let root = if mutation { &s.mutation } else { &s.query };
    let mut g = Gen { r, s, vars: Vars::default(), frags: vec![], nkey: 0, budget: 10, frag: 0, stats: BTreeMap::new() };
    let (depth, frag) = (g.r.range(1, 3), g.r.range(0, 2));
    g.frag = frag;
    let mut grp = g.group(root, depth);
    let mut sel = g.select(&mut grp, root, frag);
    if sel.is_empty() { sel.push(g.typename()) }
    let (mut vars, frags, stats) = (g.vars, g.frags, g.stats);
    // variables: given, defaulted or left out
    let mut given = Map::new();
    let mut values = BTreeMap::new();
    r.shuffle(&mut vars.decl);
    let mut stats = stats;
    for (n, t, d) in &vars.decl {
        let may_miss = d.is_some() || t.nullable();
        if may_miss && r.chance(1, 3) {
            if let Some(d) = d { *stats.entry("defaults").or_default() += 1; values.insert(n.clone(), coerce(s, d, t, &BTreeMap::new()).unwrap()); }
            continue;
        }
        let mut t2 = t.clone();
        if d.is_some() || vars.not_null.contains(n) { let l = t2.nn.len() - 1; t2.nn[l] = true } // null for a variable with a default may stand at a place that takes no null
        let l = lit(r, s, &t2, 3, &mut None);
        *stats.entry("variables").or_default() += 1;
        given.insert(n.clone(), to_json(&l));
        values.insert(n.clone(), coerce(s, &l, &t2, &BTreeMap::new()).unwrap());
    }
    if r.chance(1, 5) { given.insert("unused".into(), gen_json(r, 1)); }
    let decl = if vars.decl.is_empty() { String::new() } else {
        format!("({})", vars.decl.iter().map(|(n, t, d)| format!("${n}: {}{}", t.show(), d.as_ref().map(|d| format!(" = {}", d.show())).unwrap_or_default())).collect::<Vec<_>>().join(", "))
    };
    let kw = if mutation { "mutation" } else { "query" };
    let several = r.chance(1, 4);
    let name = several || r.chance(1, 3) || !decl.is_empty() && r.bool();
    let op_name = (*r.pick(&["Op", "main", "_Q1"])).to_string();
    let head = if name { format!("{kw} {op_name}{decl} ") } else if decl.is_empty() && !mutation && r.bool() { String::new() } else { format!("{kw}{decl} ") };
    let mut extra = vec![];
    if several { extra.push("query Other { __typename other: __typename }".to_string()); if r.bool() { extra.push("mutation Third { __typename }".to_string()) } }
    Case { head, extra, order: r.next(), glue: *r.pick(&["\n", " ", "\n# comment\n"]), operation: (several || name && r.bool()).then_some(op_name), given, vars: values, sel, frags, stats }
}

fn upstream(s: &Arc<Sch>, seed: u64, delays: bool) -> (Arc<Upstream>, Arc<Mutex<Vec<String>>>) {
    let log = Arc::new(Mutex::new(vec![]));
    let (s, l2) = (s.clone(), log.clone());
    let up = Upstream::new(move |q| {
        let parts: Vec<&str> = q.path().trim_start_matches('/').split('/').collect();
        let args = match q.body_json() { Value::Object(o) => Value::Object(o), _ => json!({}) };
        let call = format!("{} {}", q.path(), canon(&args));
        let d = h64(&call) % 40;
        l2.lock().unwrap().push(call);
        let known = s.objs.get(parts[0]).is_some_and(|f| parts.len() > 1 && f.iter().any(|f| f.name == parts[1]));
        if !known || q.method != "POST" { return URes::status(404) }
        let v = answer(&s, seed, parts[0], parts[1], parts.get(2).copied().unwrap_or(""), &args);
        let res = URes::json(v);
        if delays { res.delay_ms(d) } else { res }
    });
    (up, log)
}

fn queries(c: &C) { exec(c, false, c.n(70, 700), 14) }
fn mutations(c: &C) { exec(c, true, c.n(30, 300), 8) }

fn exec(c: &C, mutation: bool, schemas: usize, per: usize) {
    let mut r = c.rng(if mutation { "mutations" } else { "queries" });
    for _ in 0..schemas {
        let s = Arc::new(schema(&mut r));
        let seed = r.next();
        let sdl = s.sdl();
        let rt = rt_paused();
        let (up, log) = upstream(&s, seed, true);
        let app = match app(&sdl, runtime(up)) {
            Ok(a) => a,
            Err(e) => { c.violation("schema-rejected", json!({"sdl": sdl, "error": e})); continue }
        };
        for _ in 0..per {
            let q = gen_case(&mut r, &s, mutation);
            one(c, &Place { rt: &rt, app: &app, s: &s, sdl: &sdl, seed, log: &log, mutation }, &q);
        }
    }
}

struct Judged { sig: Option<&'static str>, witness: Value, body: Value, want: Value, calls: usize, got_calls: Vec<String>, merged: u64, roots: usize }

struct Place<'a> { rt: &'a tokio::runtime::Runtime, app: &'a Arc<tailcall::core::app_context::AppContext>, s: &'a Sch, sdl: &'a str, seed: u64, log: &'a Mutex<Vec<String>>, mutation: bool }

fn judge(p: &Place, q: &Case) -> Judged {
    let s = p.s;
    let mut ev = Eval { s, seed: p.seed, vars: &q.vars, frags: &q.frags, calls: vec![], roots: vec![], merged: 0 };
    let root = if p.mutation { &s.mutation } else { &s.query };
    let want = ev.object(root, &Value::Null, &[&q.sel], true);
    let merged = ev.merged;
    let (calls, roots) = (ev.calls, ev.roots);
    let mut body = json!({"query": q.text()});
    if !q.given.is_empty() { body["variables"] = Value::Object(q.given.clone()) }
    if let Some(o) = &q.operation { body["operationName"] = json!(o) }
    p.log.lock().unwrap().clear();
    let res = p.rt.block_on(gql(p.app, body.clone(), &[]));
    let got_calls = std::mem::take(&mut *p.log.lock().unwrap());
    let got = res.data();
    let all: BTreeSet<String> = calls.iter().flatten().cloned().collect();
    let seen: BTreeSet<String> = got_calls.iter().cloned().collect();
    let mut sig = None;
    if !res.errors().is_empty() || res.status != 200 { sig = Some("unexpected-error") }
    else if canon(&got) != canon(&want) { sig = Some("wrong-data") }
    else if !same_order(&got, &want) { sig = Some("wrong-order") }
    else if seen.difference(&all).next().is_some() { sig = Some("unneeded-call") }
    else if all.difference(&seen).next().is_some() { sig = Some("missing-call") }
    else if p.mutation {
        // one after another, in the order they are written, each with everything below it
        let prefix = format!("/{}/", s.mutation);
        let mut parts: Vec<BTreeSet<String>> = vec![];
        for x in &got_calls {
            if x.starts_with(&prefix) { parts.push(BTreeSet::new()) }
            if let Some(p) = parts.last_mut() { p.insert(x.clone()); }
        }
        if !got_calls.iter().filter(|x| x.starts_with(&prefix)).eq(roots.iter()) { sig = Some("mutation-order") }
        else if parts != calls { sig = Some("mutations-overlap") }
    }
    let witness = json!({"request": body, "want": want, "got": res.json(), "calls": got_calls, "want_calls": calls, "upstream_seed": p.seed.to_string(), "sdl": p.sdl});
    Judged { sig, witness, body, want, calls: all.len(), got_calls, merged, roots: roots.len() }
}

fn one(c: &C, p: &Place, q: &Case) {
    let j = judge(p, q);
    let st = |k: &str| q.stats.get(k).copied().unwrap_or(0);
    let nontrivial = j.calls > 0 && st("aliases") + st("fragments") + st("conditions") + st("variables") > 0;
    c.case(&(p.sdl, j.body.to_string()), nontrivial);
    for (k, n) in &q.stats { c.count(k, *n) }
    c.count("answers", 1);
    c.count("calls", j.got_calls.len() as u64);
    c.count("merged-selections", j.merged);
    c.sample(|| json!({"request": j.body, "data": j.want}));
    let possible: usize = p.s.objs.iter().filter(|o| *o.0 != p.s.query && *o.0 != p.s.mutation).map(|o| o.1.iter().filter(|f| f.kind == K::Resolver).count()).sum();
    let used: BTreeSet<String> = j.got_calls.iter().map(|x| x.split('/').take(3).collect::<Vec<_>>().join("/")).collect();
    c.count("unselected-resolvers", possible.saturating_sub(used.len()) as u64);
    if p.mutation { c.count("mutation-fields", j.roots as u64) }
    if let Some(sig) = j.sig {
        // a smaller query that fails in the same way
        let (mut q, mut j, mut n, mut tries) = (q.clone(), j, 0, 0);
        while let Some(next) = q.without(n) {
            tries += 1;
            if tries > 400 { break }
            match next.map(|x| (judge(p, &x), x)) { Some((k, x)) if k.sig == Some(sig) => { q = x; j = k } _ => n += 1 }
        }
        c.violation(sig, j.witness);
    } else { c.check(true, "ok", || Value::Null); }
}

fn same_order(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => x.keys().eq(y.keys()) && x.values().zip(y.values()).all(|(a, b)| same_order(a, b)),
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_order(a, b)),
        _ => true,
    }
}

// ------------------------------------------------------------- values
/// What a value says must not depend on how it is represented.
fn json_values(c: &C) {
    let mut r = c.rng("json");
    for _ in 0..c.n(800, 8000) {
        let v = short_floats(gen_json(&mut r, 4));
        c.case(&("json", v.to_string()), v.is_object() || v.is_array());
        c.count("json-values", 1);
        let cv = async_graphql::Value::from_json(v.clone()).unwrap();
        let text: &'static str = Box::leak(v.to_string().into_boxed_str());
        let bv: serde_json_borrow::Value = serde_json::from_str(text).unwrap();
        check_value(c, &mut r.clone(), leak(v.clone()), &v, "serde");
        check_value(c, &mut r.clone(), leak(cv.clone()), &v, "const");
        check_value(c, &mut r.clone(), leak(bv.clone()), &v, "borrow");
        // conversions between representations
        let same = |x: Value, sig: &str| { c.check(canon(&x) == canon(&v) && same_order(&x, &v), sig, || json!({"from": v, "to": x})); };
        same(<Value as JsonLike>::clone_from(&cv), "convert:const-serde");
        same(<Value as JsonLike>::clone_from(&bv), "convert:borrow-serde");
        let cv2 = <async_graphql::Value as JsonLike>::clone_from(&bv);
        same(cv2.into_json().unwrap(), "convert:borrow-const");
        let cv3 = <async_graphql::Value as JsonLike>::clone_from(&v);
        same(cv3.into_json().unwrap(), "convert:serde-const");
        let bv2 = <serde_json_borrow::Value as JsonLike>::clone_from(&cv);
        same(serde_json::from_str(&serde_json::to_string(&bv2).unwrap()).unwrap(), "convert:const-borrow");
        r.next();
    }
}

fn look<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            Value::Object(m) => m.get(p)?,
            _ => return None,
        }
    }
    Some(v)
}

fn leak<T>(t: T) -> &'static T { Box::leak(Box::new(t)) }

fn check_value<J>(c: &C, r: &mut Rng, got: &'static J, want: &Value, name: &str)
where J: JsonLike<'static> + serde::Serialize + Clone + 'static, <J as JsonLike<'static>>::JsonObject: 'static {
    let out = |j: &J| serde_json::to_value(j).unwrap();
    let same = |j: &J, w: &Value| canon(&out(j)) == canon(w) && same_order(&out(j), w);
    let sig = |s: &str| format!("value:{name}:{s}");
    let w = |x: Value| json!({"value": want, "at": x});
    c.check(same(got, want), &sig("same"), || w(out(got)));
    c.eq(&got.is_null(), &want.is_null(), &sig("null"), || w(Value::Null));
    c.eq(&got.as_bool(), &want.as_bool(), &sig("bool"), || w(Value::Null));
    c.eq(&got.as_str(), &want.as_str(), &sig("str"), || w(Value::Null));
    c.eq(&got.as_i64(), &want.as_i64(), &sig("i64"), || w(Value::Null));
    c.eq(&got.as_u64(), &want.as_u64(), &sig("u64"), || w(Value::Null));
    c.eq(&got.as_f64(), &want.as_f64(), &sig("f64"), || w(Value::Null));
    c.eq(&got.as_array().map(|a| a.len()), &want.as_array().map(|a| a.len()), &sig("array"), || w(Value::Null));
    c.eq(&got.as_object().is_some(), &want.is_object(), &sig("object"), || w(Value::Null));
    // paths that exist, that nearly exist and that do not
    for _ in 0..4 {
        let mut path: Vec<String> = vec![];
        let mut at = want;
        for _ in 0..r.below(4) {
            match at {
                Value::Array(a) if !a.is_empty() => { let i = r.below(a.len()); path.push(i.to_string()); at = &a[i] }
                Value::Object(m) if !m.is_empty() => { let k = m.keys().nth(r.below(m.len())).unwrap().clone(); at = &m[&k]; path.push(k) }
                _ => break,
            }
        }
        if r.chance(1, 3) { path.push((*r.pick(&["a", "0", "7", "", "-1", "id"])).to_string()) }
        let g = got.get_path(&path);
        let x = look(want, &path);
        c.count("paths", 1);
        c.check(match (g, x) { (Some(g), Some(x)) => same(g, x), (None, None) => true, _ => false }, &sig("path"), || w(json!({"path": path, "got": g.map(&out), "want": x})));
        let k = path.last().cloned().unwrap_or("a".into());
        let g = got.get_key(&k);
        let x = want.as_object().and_then(|o| o.get(&k));
        c.check(match (g, x) { (Some(g), Some(x)) => same(g, x), (None, None) => true, _ => false }, &sig("key"), || w(json!({"key": k, "got": g.map(&out), "want": x})));
    }
    // every value below lists, in order, and nothing else
    let mut leaves = vec![];
    fn flat<'a>(v: &'a Value, out: &mut Vec<&'a Value>) { match v { Value::Array(a) => a.iter().for_each(|x| flat(x, out)), v => out.push(v) } }
    flat(want, &mut leaves);
    let mut seen = vec![];
    got.for_each(&mut |x| seen.push(out(x)));
    c.check(seen.len() == leaves.len() && seen.iter().zip(&leaves).all(|(a, b)| canon(a) == canon(b)), &sig("for-each"), || w(json!(seen)));
    let n = std::cell::Cell::new(0);
    let fail_at = if r.chance(1, 4) && !leaves.is_empty() { Some(r.below(leaves.len())) } else { None };
    let mut step = |x: &J| -> Result<J, usize> {
        let i = n.get();
        n.set(i + 1);
        if Some(i) == fail_at { return Err(i) }
        Ok(J::array(vec![x.clone(), J::string(i.to_string().into())]))
    };
    let by_ref = got.map_ref(&mut step).map(|x| out(&x));
    n.set(0);
    let by_val = got.clone().map(&mut |x| step(&x)).map(|x| out(&x));
    fn build(v: &Value, n: &mut usize) -> Value { match v { Value::Array(a) => a.iter().map(|x| build(x, n)).collect(), v => { *n += 1; json!([v, (*n - 1).to_string()]) } } }
    let expect = match fail_at { Some(i) => Err(i), None => Ok(build(want, &mut 0)) };
    let cmp = |a: &Result<Value, usize>| match (a, &expect) { (Ok(a), Ok(b)) => canon(a) == canon(b), (Err(a), Err(b)) => a == b, _ => false };
    c.check(cmp(&by_ref), &sig("map-ref"), || w(json!(by_ref.clone().ok())));
    c.check(cmp(&by_val), &sig("map"), || w(json!(by_val.clone().ok())));
    // objects
    if let (Some(o), Some(m)) = (got.as_object(), want.as_object()) {
        c.eq(&o.len(), &m.len(), &sig("len"), || w(Value::Null));
        c.eq(&o.is_empty(), &m.is_empty(), &sig("empty"), || w(Value::Null));
        let keys: Vec<String> = o.iter().map(|x| x.0.to_string()).collect();
        c.eq(&keys, &m.keys().cloned().collect::<Vec<_>>(), &sig("iter"), || w(Value::Null));
        let ok = o.iter().zip(m.values()).all(|((_, g), x)| same(g, x));
        c.check(ok, &sig("iter-values"), || w(Value::Null));
    }
    // construction
    c.check(same(&J::null(), &Value::Null), &sig("new-null"), || w(Value::Null));
    c.check(same(&J::string("t\"x".into()), &json!("t\"x")), &sig("new-string"), || w(Value::Null));
    c.check(same(&J::array(vec![got.clone(), J::null()]), &json!([want, null])), &sig("new-array"), || w(Value::Null));
    let mut o = <J as JsonLike>::JsonObject::new();
    let mut m = Map::new();
    const NAMES: &[&str] = &["b", "a", "z", "", "b"];
    for i in 0..r.below(6) {
        let k = *r.pick(NAMES);
        let v = J::array(vec![got.clone(), J::string(i.to_string().into())]);
        o.insert_key(k, v);
        m.insert(k.into(), json!([want, i.to_string()]));
        c.count("insertions", 1);
    }
    for k in NAMES { c.eq(&o.get_key(k).map(|x| canon(&out(x))), &m.get(*k).map(canon), &sig("inserted"), || w(json!(k))); }
    c.eq(&o.len(), &m.len(), &sig("inserted-len"), || w(Value::Null));
    let built = J::object(o);
    c.check(same(&built, &Value::Object(m.clone())), &sig("inserted-object"), || json!({"got": out(&built), "want": m}));
    let vec: Vec<(&str, J)> = [("q", got.clone()), ("p", J::null())].into_iter().collect();
    let fv = J::object(<J as JsonLike>::JsonObject::from_vec(vec));
    c.check(same(&fv, &json!({"q": want, "p": null})), &sig("from-vec"), || w(out(&fv)));
    c.check(got.clone().into_array().is_some() == want.is_array() && got.clone().into_object().is_some() == want.is_object(), &sig("into"), || w(Value::Null));
}
