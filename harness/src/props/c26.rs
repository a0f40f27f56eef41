//! C26: the published schema is true to the configuration.
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

use async_graphql::parser::types as gq;
use serde_json::{json, Map, Value};
use tailcall::core::Type;

use crate::common::*;
use crate::mock::*;
use crate::props::c13::{read, T};

pub fn run(c: &C) {
    c.rule("one case = one configuration whose published schema is read by introspection and from its printed form, or one query sent against it; non-trivial = it renames, hides or adds fields, or uses abstract types, inputs or defaults; distinct by configuration and query");
    c.assume("types nothing reachable from the root types refers to are not exposed; a `type` or `input` keyword is published as what its use makes it");
    c.assume("the gateway drops, rather than rejects, selections of names that the schema does not have (the existing suite pins this): such a selection must not return data");
    c.section("type-references", type_refs);
    c.section("published", published);
    c.section("queries", queries);
    c.section("library", library);
    c.floor("type-references", 60);
    c.floor("introspected", 100);
    c.floor("printed", 100);
    c.floor("fields-published", 1000);
    c.floor("queries-accepted", 300);
    c.floor("hidden-names", 100);
}

// ------------------------------------------------------------- references
fn type_refs(c: &C) {
    let mut all = vec![];
    for base in ["Int", "A_b1"] { for d in 1..=5usize { for m in 0..1u32 << d { all.push(T { base: base.into(), nn: (0..d).map(|i| m >> i & 1 == 1).collect() }) } } }
    for t in &all {
        c.case(t, true);
        c.count("type-references", 1);
        let ty = t.ty();
        let w = || json!(t.show());
        c.eq(&format!("{ty:?}"), &t.show(), "ref:debug", w);
        let doc = async_graphql::parser::parse_schema(format!("type Q {{ f: {} }}", t.show())).unwrap();
        let gq::TypeSystemDefinition::Type(def) = &doc.definitions[0] else { unreachable!() };
        let gq::TypeKind::Object(o) = &def.node.kind else { unreachable!() };
        let parsed = &o.fields[0].node.ty.node;
        c.eq(&Type::from(parsed), &ty, "ref:from-parsed", w);
        c.eq(&gq::Type::from(&ty).to_string(), &t.show(), "ref:to-parsed", w);
        c.eq(&Type::from(&gq::Type::from(&ty)), &ty, "ref:round", w);
        c.eq(&async_graphql::dynamic::TypeRef::from(&ty).to_string(), &t.show(), "ref:to-dynamic", w);
        c.eq(ty.name(), &t.base, "ref:name", w);
        c.eq(&ty.is_nullable(), &t.nullable(), "ref:nullable", w);
        c.eq(&ty.is_list(), &(t.nn.len() > 1), "ref:list", w);
        let last = t.nn.len() - 1;
        let with = |b: bool| { let mut x = t.clone(); x.nn[last] = b; x };
        c.eq(&ty.clone().into_required(), &with(true).ty(), "ref:required", w);
        c.eq(&ty.clone().into_nullable(), &with(false).ty(), "ref:nullable-of", w);
        let mut l = t.clone();
        l.nn.push(false);
        c.eq(&ty.clone().into_list(), &l.ty(), "ref:list-of", w);
        c.eq(&ty.clone().into_single(), &T { base: t.base.clone(), nn: vec![t.nn[0]] }.ty(), "ref:single", w);
        let mut n = t.clone();
        n.base = "Other".into();
        c.eq(&ty.clone().with_name("Other".into()), &n.ty(), "ref:rename", w);
        c.eq(&read(&ty), t, "ref:read", w);
        // as written in JSON
        let j = serde_json::to_value(&ty).unwrap();
        c.eq(&serde_json::from_value::<Type>(j.clone()).ok(), &Some(ty.clone()), "ref:json", || json!({"type": t.show(), "json": j}));
    }
    c.eq(&Type::from("X".to_string()), &T { base: "X".into(), nn: vec![false] }.ty(), "ref:from-string", || json!("X"));
}

// ------------------------------------------------------------------ model
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ar { pub name: String, pub ty: T, pub default: Option<Value>, pub doc: Option<String> }
#[derive(Clone, Debug)]
pub struct Fd {
    /// the name in the configuration and in upstream data
    pub src: String,
    /// the name in the schema
    pub name: String,
    pub ty: T,
    pub args: Vec<Ar>,
    pub doc: Option<String>,
    pub omit: bool,
    pub resolver: Option<String>,
    /// the path an added field reads
    pub path: Option<Vec<String>>,
}
#[derive(Clone, Debug)]
pub enum Ty {
    Obj { fields: Vec<Fd>, implements: BTreeSet<String>, doc: Option<String>, iface: bool },
    Input { fields: Vec<Ar>, doc: Option<String> },
    Enum { values: BTreeSet<String>, doc: Option<String> },
    Union { members: BTreeSet<String>, doc: Option<String> },
    Scalar,
}
#[derive(Clone, Debug)]
pub struct Sch { pub query: String, pub mutation: Option<String>, pub types: BTreeMap<String, Ty> }

const SCALARS: [&str; 5] = ["Int", "String", "Boolean", "Float", "ID"];
const CUSTOM: [&str; 7] = ["Email", "Date", "JSON", "Int64", "UInt8", "Url", "Bytes"];

pub fn gdoc(r: &mut Rng) -> Option<String> {
    if !r.chance(1, 3) { return None }
    Some(match r.below(6) {
        0 => "first line\nsecond line".into(),
        1 => "says \"quoted\" here".into(),
        2 => "back\\slash".into(),
        3 => "é漢字🎉".into(),
        _ => format!("text {}", r.below(1000)),
    })
}
fn q(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() { match ch { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c => o.push(c) } }
    o + "\""
}
/// A literal; enum names are marked by a leading `\u{1}`.
pub fn lit(v: &Value) -> String {
    match v {
        Value::String(s) if s.starts_with('\u{1}') => s[1..].to_string(),
        Value::String(s) => q(s),
        Value::Array(a) => format!("[{}]", a.iter().map(lit).collect::<Vec<_>>().join(", ")),
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{k}: {}", lit(v))).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}
pub fn plain(v: &Value) -> Value {
    match v {
        Value::String(s) => json!(s.trim_start_matches('\u{1}')),
        Value::Array(a) => a.iter().map(plain).collect(),
        Value::Object(m) => Value::Object(m.iter().map(|(k, v)| (k.clone(), plain(v))).collect()),
        v => v.clone(),
    }
}
/// A value of an input type.
pub fn input_value(r: &mut Rng, s: &Sch, t: &T, depth: usize) -> Value {
    fn go(r: &mut Rng, s: &Sch, base: &str, nn: &[bool], depth: usize) -> Value {
        let (top, rest) = nn.split_last().unwrap();
        if !top && (depth == 0 || r.chance(1, 8)) { return Value::Null }
        if !rest.is_empty() { return (0..if depth == 0 { 0 } else { r.below(3) }).map(|_| go(r, s, base, rest, depth - 1)).collect() }
        match s.types.get(base) {
            Some(Ty::Enum { values, .. }) => json!(format!("\u{1}{}", r.pick(&values.iter().cloned().collect::<Vec<_>>()))),
            Some(Ty::Input { fields, .. }) => {
                let mut m = Map::new();
                for f in fields {
                    if (f.ty.nullable() || f.default.is_some()) && (depth == 0 || r.chance(1, 3)) { continue }
                    m.insert(f.name.clone(), go(r, s, &f.ty.base, &f.ty.nn, depth.saturating_sub(1)));
                }
                Value::Object(m)
            }
            _ => scalar(r, base),
        }
    }
    go(r, s, &t.base, &t.nn, depth)
}
pub fn scalar(r: &mut Rng, name: &str) -> Value {
    match name {
        "Int" => json!(r.range(0, 2000) as i64 - 1000),
        "Float" => json!((r.range(0, 4000) as f64) / 8.0 - 100.0),
        "Boolean" => json!(r.bool()),
        "ID" => json!(format!("id{}", r.below(100))),
        "Email" => json!(format!("u{}@example.com", r.below(100))),
        "Date" => json!("2020-02-29T10:00:00Z"),
        "JSON" => json!({"any": [1, "x", null]}),
        "Int64" => json!((r.range(0, 1 << 50) as i64 - (1 << 49)).to_string()),
        "UInt8" => json!(r.below(256)),
        "Url" => json!("https://example.com/a?b=c"),
        _ => json!(r.pick(&["", "x", "two words", "é漢字", "quo\"te", "line\nbreak", "back\\slash"]).to_string()),
    }
}

/// A configuration together with the schema it is to publish.
pub fn schema(r: &mut Rng) -> Sch {
    let objs: Vec<&str> = { let mut v = r.subset(&["Account", "Post", "Zed"], 2, 3); if v.is_empty() { v.push("Post"); } v };
    let iface = r.chance(2, 5);
    let mut s = Sch { query: (if r.chance(1, 4) { "Root" } else { "Query" }).to_string(), mutation: None, types: BTreeMap::new() };
    let enums: Vec<&str> = r.subset(&["Color", "Kind"], 1, 2);
    for e in &enums { s.types.insert(e.to_string(), Ty::Enum { values: { let mut v: BTreeSet<String> = r.subset(&["RED", "Green", "b_1", "Zed", "Post"], 1, 2).iter().map(|x| x.to_string()).collect(); if v.is_empty() { v.insert("ONE".into()); } v }, doc: gdoc(r) }); }
    if r.chance(1, 4) { s.types.insert("Opaque".into(), Ty::Scalar); }
    // inputs: a later one may hold an earlier one
    let mut inputs: Vec<String> = vec![];
    for i in r.subset(&["Filter", "Page", "Range"], 1, 2) {
        let mut fs = vec![];
        for (k, n) in ["from", "to", "tags", "kind", "sub", "_x"].iter().enumerate() {
            if !r.chance(1, 2) && !(k == 0 && fs.is_empty()) { continue }
            let base = match r.below(5) { 0 if !enums.is_empty() => r.pick(&enums).to_string(), 1 if !inputs.is_empty() => r.pick(&inputs).clone(), 2 => r.pick(&CUSTOM).to_string(), 3 if s.types.contains_key("Opaque") && r.bool() => "Opaque".into(), _ => r.pick(&SCALARS).to_string() };
            let ty = T { base, nn: (0..*r.pick(&[1usize, 1, 2, 3])).map(|_| r.chance(1, 3)).collect() };
            fs.push(Ar { name: n.to_string(), default: r.chance(1, 3).then(|| default(r, &s, &ty)).flatten(), ty, doc: gdoc(r) });
        }
        if fs.is_empty() { continue }
        s.types.insert(i.to_string(), Ty::Input { fields: fs, doc: gdoc(r) });
        inputs.push(i.to_string());
    }
    let args = |r: &mut Rng, s: &Sch| -> Vec<Ar> {
        let mut out = vec![];
        for n in ["id", "first", "where", "kind"] {
            if !r.chance(1, 4) { continue }
            let base = match r.below(4) { 0 if !enums.is_empty() => r.pick(&enums).to_string(), 1 if !inputs.is_empty() => r.pick(&inputs).clone(), 2 => r.pick(&CUSTOM).to_string(), _ => r.pick(&SCALARS).to_string() };
            let ty = T { base, nn: (0..*r.pick(&[1usize, 1, 2, 3])).map(|_| r.chance(1, 3)).collect() };
            out.push(Ar { name: n.to_string(), default: r.chance(1, 3).then(|| default(r, s, &ty)).flatten(), ty, doc: gdoc(r) });
        }
        out
    };
    let leaf = |r: &mut Rng, s: &Sch| -> String { match r.below(6) { 0 if !enums.is_empty() => r.pick(&enums).to_string(), 1 => r.pick(&CUSTOM).to_string(), 2 if s.types.contains_key("Opaque") => "Opaque".into(), _ => r.pick(&SCALARS).to_string() } };
    let mut field = |r: &mut Rng, s: &Sch, n: &str, nest: &[&str]| -> Fd {
        let ty = if !nest.is_empty() && r.chance(1, 3) {
            let base = r.pick(nest).to_string();
            if r.bool() { T { base, nn: vec![false] } } else { T { base, nn: (0..*r.pick(&[2usize, 2, 3])).map(|_| r.bool()).collect() } }
        } else { T { base: leaf(r, s), nn: (0..*r.pick(&[1usize, 1, 1, 2, 3])).map(|_| r.chance(1, 3)).collect() } };
        Fd { src: n.into(), name: n.into(), ty, args: if r.chance(1, 4) { args(r, s) } else { vec![] }, doc: gdoc(r), omit: false, resolver: None, path: None }
    };
    let mut nest: Vec<&str> = objs.clone();
    if iface { nest.push("Node"); }
    let union = r.chance(2, 5) && objs.len() > 1;
    if union { nest.push("Any"); }
    if iface {
        let mut fs = vec![Fd { src: "nid".into(), name: "nid".into(), ty: T { base: "ID".into(), nn: vec![r.bool()] }, args: vec![], doc: gdoc(r), omit: false, resolver: None, path: None }];
        if r.bool() { fs.push(field(r, &s, "ntwo", &nest)); }
        s.types.insert("Node".into(), Ty::Obj { fields: fs, implements: BTreeSet::new(), doc: gdoc(r), iface: true });
    }
    let mut imp = 0;
    for (k, o) in objs.iter().enumerate() {
        let mut fs = vec![Fd { src: "key".into(), name: "key".into(), ty: T { base: "Int".into(), nn: vec![r.bool()] }, args: vec![], doc: None, omit: false, resolver: None, path: None }];
        for n in ["alpha", "beta", "gamma", "delta", "_e", "type2"] { if r.chance(1, 2) { fs.push(field(r, &s, n, &nest)); } }
        let mut implements = BTreeSet::new();
        if iface && (r.bool() || (k + 1 == objs.len() && imp == 0)) {
            imp += 1;
            implements.insert("Node".to_string());
            let Ty::Obj { fields: nf, .. } = &s.types["Node"] else { unreachable!() };
            for f in nf { let mut f = f.clone(); f.doc = gdoc(r); fs.push(f); }
        }
        // renamed, hidden and added fields
        let n = fs.len();
        let mine: Vec<usize> = (1..n).filter(|i| !fs[*i].src.starts_with('n')).collect();
        for i in mine {
            match r.below(8) { 0 => fs[i].name = format!("re_{}", fs[i].src), 1 => fs[i].omit = true, _ => {} }
        }
        s.types.insert(o.to_string(), Ty::Obj { fields: fs, implements, doc: gdoc(r), iface: false });
    }
    // added fields: a leaf of an object one holds
    for o in &objs {
        if !r.chance(1, 3) { continue }
        let Ty::Obj { fields, .. } = &s.types[*o] else { unreachable!() };
        let mut cand = vec![];
        for f in fields {
            if f.ty.nn.len() > 1 || !f.args.is_empty() || f.name != f.src || f.omit { continue }
            if let Some(Ty::Obj { fields: inner, iface: false, .. }) = s.types.get(&f.ty.base) {
                for g in inner { if g.args.is_empty() && g.name == g.src && !g.omit && g.path.is_none() && !matches!(s.types.get(&g.ty.base), Some(Ty::Obj { .. } | Ty::Union { .. })) && g.ty.base != "Any" { cand.push((f.src.clone(), g.clone())); } }
            }
        }
        if cand.is_empty() { continue }
        let (p, g) = r.pick(&cand).clone();
        let mut ty = g.ty.clone();
        let l = ty.nn.len() - 1;
        ty.nn[l] = false;
        let Some(Ty::Obj { fields, .. }) = s.types.get_mut(*o) else { unreachable!() };
        let doc = fields.iter().find(|f| f.src == p).unwrap().doc.clone();
        fields.push(Fd { src: "added".into(), name: "added".into(), ty, args: vec![], doc, omit: false, resolver: None, path: Some(vec![p, g.src]) });
    }
    if union { let mut m: BTreeSet<String> = r.subset(&objs, 2, 3).iter().map(|x| x.to_string()).collect(); if m.is_empty() { m.insert(objs[0].to_string()); } s.types.insert("Any".into(), Ty::Union { members: m, doc: gdoc(r) }); }
    // roots
    let mut root = |r: &mut Rng, s: &Sch, pre: &str, max: usize| -> Vec<Fd> {
        (0..r.range(1, max)).map(|i| {
            let n = format!("{pre}{i}");
            let mut f = field(r, s, &n, &nest);
            if !nest.is_empty() && r.chance(2, 3) { let base = r.pick(&nest).to_string(); f.ty = if r.bool() { T { base, nn: vec![false] } } else { T { base, nn: vec![r.bool(), r.bool()] } }; }
            if r.chance(1, 2) { f.args = args(r, s); }
            f.resolver = Some(format!("@http(url: \"http://up.test/{n}\")"));
            if r.chance(1, 8) { f.name = format!("re_{n}"); }
            if r.chance(1, 12) && i > 0 { f.omit = true; }
            f
        }).collect()
    };
    let qf = root(r, &s, "q", 5);
    s.types.insert(s.query.clone(), Ty::Obj { fields: qf, implements: BTreeSet::new(), doc: gdoc(r), iface: false });
    if r.chance(1, 4) {
        s.mutation = Some(if r.bool() { "Mutation" } else { "Write" }.to_string());
        let mf = root(r, &s, "m", 3);
        s.types.insert(s.mutation.clone().unwrap(), Ty::Obj { fields: mf, implements: BTreeSet::new(), doc: gdoc(r), iface: false });
    }
    s
}
fn default(r: &mut Rng, s: &Sch, t: &T) -> Option<Value> {
    let v = input_value(r, s, t, 2);
    if v.is_null() { None } else { Some(v) }
}
fn d(doc: &Option<String>) -> String { doc.as_ref().map(|x| format!("{} ", q(x))).unwrap_or_default() }
fn ars(a: &[Ar]) -> Vec<String> { a.iter().map(|a| format!("{}{}: {}{}", d(&a.doc), a.name, a.ty.show(), a.default.as_ref().map(|v| format!(" = {}", lit(v))).unwrap_or_default())).collect() }
impl Sch {
    pub fn sdl(&self) -> String {
        let mut o = format!("schema @server(port: 8000) {{ query: {}{} }}\n", self.query, self.mutation.as_ref().map(|m| format!(" mutation: {m}")).unwrap_or_default());
        for (n, t) in &self.types {
            match t {
                Ty::Obj { fields, implements, doc, iface } => {
                    let added: String = fields.iter().filter_map(|f| f.path.as_ref().map(|p| format!(" @addField(name: \"{}\", path: [{}])", f.name, p.iter().map(|x| q(x)).collect::<Vec<_>>().join(", ")))).collect();
                    let im = if implements.is_empty() { String::new() } else { format!(" implements {}", implements.iter().cloned().collect::<Vec<_>>().join(" & ")) };
                    o.push_str(&format!("{}{} {n}{im}{added} {{\n", d(doc), if *iface { "interface" } else { "type" }));
                    for f in fields.iter().filter(|f| f.path.is_none()) {
                        let args = if f.args.is_empty() { String::new() } else { format!("({})", ars(&f.args).join(", ")) };
                        let mut dirs = String::new();
                        if let Some(x) = &f.resolver { dirs.push_str(&format!(" {x}")) }
                        if f.omit { dirs.push_str(if f.src.len() % 2 == 0 { " @omit" } else { " @modify(omit: true)" }) } else if f.name != f.src { dirs.push_str(&format!(" @modify(name: \"{}\")", f.name)) }
                        o.push_str(&format!("  {}{}{args}: {}{dirs}\n", d(&f.doc), f.src, f.ty.show()));
                    }
                    o.push_str("}\n");
                }
                Ty::Input { fields, doc } => o.push_str(&format!("{}input {n} {{\n  {}\n}}\n", d(doc), ars(fields).join("\n  "))),
                Ty::Enum { values, doc } => o.push_str(&format!("{}enum {n} {{ {} }}\n", d(doc), values.iter().cloned().collect::<Vec<_>>().join(" "))),
                Ty::Union { members, doc } => o.push_str(&format!("{}union {n} = {}\n", d(doc), members.iter().cloned().collect::<Vec<_>>().join(" | "))),
                Ty::Scalar => o.push_str(&format!("scalar {n}\n")),
            }
        }
        o
    }
    /// The names a client can meet.
    pub fn reach(&self) -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![self.query.clone()];
        todo.extend(self.mutation.clone());
        while let Some(n) = todo.pop() {
            if !seen.insert(n.clone()) { continue }
            match self.types.get(&n) {
                Some(Ty::Obj { fields, implements, iface, .. }) => {
                    for f in fields.iter().filter(|f| !f.omit) { todo.push(f.ty.base.clone()); for a in &f.args { todo.push(a.ty.base.clone()) } }
                    todo.extend(implements.iter().cloned());
                    if *iface { for (m, t) in &self.types { if let Ty::Obj { implements, .. } = t { if implements.contains(&n) { todo.push(m.clone()) } } } }
                }
                Some(Ty::Input { fields, .. }) => for a in fields { todo.push(a.ty.base.clone()) },
                Some(Ty::Union { members, .. }) => todo.extend(members.iter().cloned()),
                _ => {}
            }
        }
        seen
    }
    pub fn obj(&self, n: &str) -> Option<&Vec<Fd>> { match self.types.get(n) { Some(Ty::Obj { fields, .. }) => Some(fields), _ => None } }
    pub fn members(&self, n: &str) -> Vec<String> {
        match self.types.get(n) {
            Some(Ty::Union { members, .. }) => members.iter().cloned().collect(),
            Some(Ty::Obj { iface: true, .. }) => self.types.iter().filter(|(_, t)| matches!(t, Ty::Obj { implements, .. } if implements.contains(n))).map(|(k, _)| k.clone()).collect(),
            Some(Ty::Obj { .. }) => vec![n.to_string()],
            _ => vec![],
        }
    }
    /// What is to be published, as JSON.
    fn want(&self) -> Value {
        let mut m = Map::new();
        let doc = |d: &Option<String>| d.clone().map(Value::from).unwrap_or(Value::Null);
        let ar = |a: &[Ar]| -> Value { Value::Object(a.iter().map(|a| (a.name.clone(), json!({"type": a.ty.show(), "default": a.default.as_ref().map(plain), "doc": doc(&a.doc)}))).collect()) };
        for n in self.reach() {
            if SCALARS.contains(&n.as_str()) { continue }
            m.insert(n.clone(), match self.types.get(&n) {
                None | Some(Ty::Scalar) => json!({"kind": "SCALAR"}),
                Some(Ty::Obj { fields, implements, doc: x, iface }) => {
                    let fs: Map<String, Value> = fields.iter().filter(|f| !f.omit).map(|f| (f.name.clone(), json!({"type": f.ty.show(), "args": ar(&f.args), "doc": doc(&f.doc)}))).collect();
                    let mut v = json!({"kind": if *iface { "INTERFACE" } else { "OBJECT" }, "fields": fs, "implements": implements, "doc": doc(x)});
                    if *iface { v["possible"] = json!(self.members(&n)); }
                    v
                }
                Some(Ty::Input { fields, doc: x }) => json!({"kind": "INPUT_OBJECT", "inputs": ar(fields), "doc": doc(x)}),
                Some(Ty::Enum { values, doc: x }) => json!({"kind": "ENUM", "values": values, "doc": doc(x)}),
                Some(Ty::Union { members, doc: x }) => json!({"kind": "UNION", "possible": members, "doc": doc(x)}),
            });
        }
        Value::Object(m)
    }
}

const INTROSPECT: &str = "{ __schema { queryType { name } mutationType { name } subscriptionType { name } directives { name } types { kind name description interfaces { name } possibleTypes { name } enumValues(includeDeprecated: true) { name } inputFields { name description defaultValue type { ...R } } fields(includeDeprecated: true) { name description type { ...R } args { name description defaultValue type { ...R } } } } } } fragment R on __Type { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name ofType { kind name } } } } } } } }";
fn iref(v: &Value) -> String {
    match v["kind"].as_str() {
        Some("NON_NULL") => format!("{}!", iref(&v["ofType"])),
        Some("LIST") => format!("[{}]", iref(&v["ofType"])),
        _ => v["name"].as_str().unwrap_or("?").to_string(),
    }
}
fn literal(s: &str) -> Value {
    async_graphql::parser::parse_query(format!("{{ f(a: {s}) }}")).ok().and_then(|d| {
        let op = d.operations.iter().next()?.1.clone();
        let gq::Selection::Field(f) = &op.node.selection_set.node.items[0].node else { return None };
        let v = f.node.arguments[0].1.node.clone().into_const()?;
        Some(tag(&v))
    }).unwrap_or(json!({"unreadable": s}))
}
/// A literal as JSON in which enum names differ from strings.
fn tag(v: &async_graphql_value::ConstValue) -> Value {
    use async_graphql_value::ConstValue as V;
    match v {
        V::Enum(n) => json!(format!("\u{1}{n}")),
        V::List(l) => l.iter().map(tag).collect(),
        V::Object(o) => Value::Object(o.iter().map(|(k, v)| (k.to_string(), tag(v))).collect()),
        v => v.clone().into_json().unwrap_or(Value::Null),
    }
}
fn names(v: &Value) -> BTreeSet<String> { v.as_array().map(|a| a.iter().map(|x| x["name"].as_str().unwrap_or("").to_string()).collect()).unwrap_or_default() }
/// The same shape from an introspection answer.
fn introspected(v: &Value) -> Value {
    let mut m = Map::new();
    let ar = |a: &Value| -> Value { Value::Object(a.as_array().cloned().unwrap_or_default().iter().map(|a| (a["name"].as_str().unwrap().to_string(), json!({"type": iref(&a["type"]), "default": a["defaultValue"].as_str().map(literal), "doc": a["description"]}))).collect()) };
    for t in v["types"].as_array().cloned().unwrap_or_default() {
        let n = t["name"].as_str().unwrap_or("").to_string();
        if n.starts_with("__") || SCALARS.contains(&n.as_str()) { continue }
        let k = t["kind"].as_str().unwrap_or("");
        m.insert(n, match k {
            "OBJECT" | "INTERFACE" => {
                let fs: Map<String, Value> = t["fields"].as_array().cloned().unwrap_or_default().iter().map(|f| (f["name"].as_str().unwrap().to_string(), json!({"type": iref(&f["type"]), "args": ar(&f["args"]), "doc": f["description"]}))).collect();
                let mut v = json!({"kind": k, "fields": fs, "implements": names(&t["interfaces"]), "doc": t["description"]});
                if k == "INTERFACE" { v["possible"] = json!(names(&t["possibleTypes"])); }
                v
            }
            "INPUT_OBJECT" => json!({"kind": k, "inputs": ar(&t["inputFields"]), "doc": t["description"]}),
            "ENUM" => json!({"kind": k, "values": names(&t["enumValues"]), "doc": t["description"]}),
            "UNION" => json!({"kind": k, "possible": names(&t["possibleTypes"]), "doc": t["description"]}),
            _ => json!({"kind": k}),
        });
    }
    Value::Object(m)
}
/// The same shape from the printed schema.
fn printed(sdl: &str) -> Result<(Value, Vec<String>), String> {
    let doc = async_graphql::parser::parse_schema(sdl).map_err(|e| e.to_string())?;
    let mut m = Map::new();
    let mut dirs = vec![];
    let ar = |a: &[async_graphql::Positioned<gq::InputValueDefinition>]| -> Value { Value::Object(a.iter().map(|a| (a.node.name.node.to_string(), json!({"type": a.node.ty.node.to_string(), "default": a.node.default_value.as_ref().map(|v| tag(&v.node)), "doc": a.node.description.as_ref().map(|d| d.node.clone())}))).collect()) };
    for def in &doc.definitions {
        let gq::TypeSystemDefinition::Type(t) = def else { if let gq::TypeSystemDefinition::Directive(d) = def { dirs.push(d.node.name.node.to_string()) } continue };
        let t = &t.node;
        for x in &t.directives { dirs.push(x.node.name.node.to_string()) }
        let docu = t.description.as_ref().map(|d| d.node.clone());
        let fields = |fs: &[async_graphql::Positioned<gq::FieldDefinition>], dirs: &mut Vec<String>| -> Map<String, Value> { fs.iter().map(|f| { for x in &f.node.directives { dirs.push(x.node.name.node.to_string()) } (f.node.name.node.to_string(), json!({"type": f.node.ty.node.to_string(), "args": ar(&f.node.arguments), "doc": f.node.description.as_ref().map(|d| d.node.clone())})) }).collect() };
        let v = match &t.kind {
            gq::TypeKind::Scalar => json!({"kind": "SCALAR"}),
            gq::TypeKind::Object(o) => json!({"kind": "OBJECT", "fields": fields(&o.fields, &mut dirs), "implements": o.implements.iter().map(|n| n.node.to_string()).collect::<BTreeSet<_>>(), "doc": docu}),
            gq::TypeKind::Interface(o) => json!({"kind": "INTERFACE", "fields": fields(&o.fields, &mut dirs), "implements": o.implements.iter().map(|n| n.node.to_string()).collect::<BTreeSet<_>>(), "doc": docu}),
            gq::TypeKind::Union(u) => json!({"kind": "UNION", "possible": u.members.iter().map(|n| n.node.to_string()).collect::<BTreeSet<_>>(), "doc": docu}),
            gq::TypeKind::Enum(e) => json!({"kind": "ENUM", "values": e.values.iter().map(|n| n.node.value.node.to_string()).collect::<BTreeSet<_>>(), "doc": docu}),
            gq::TypeKind::InputObject(i) => json!({"kind": "INPUT_OBJECT", "inputs": ar(&i.fields), "doc": docu}),
        };
        m.insert(t.name.node.to_string(), v);
    }
    Ok((Value::Object(m), dirs))
}
/// Where two JSON values first differ.
fn diff(a: &Value, b: &Value, at: &mut Vec<String>) -> Option<(Vec<String>, Value, Value)> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for k in x.keys().chain(y.keys()).collect::<BTreeSet<_>>() {
                at.push(k.clone());
                if let Some(d) = diff(x.get(k).unwrap_or(&json!("<absent>")), y.get(k).unwrap_or(&json!("<absent>")), at) { return Some(d) }
                at.pop();
            }
            None
        }
        _ if a == b => None,
        _ => Some((at.clone(), a.clone(), b.clone())),
    }
}
/// The kind of place a difference is at: names replaced.
fn place(p: &[String], want: &Value) -> String {
    let kind = want.get(&p[0]).map(|t| t["kind"].as_str().unwrap_or("").to_string()).unwrap_or("none".into());
    let mut out = vec![kind];
    let mut skip = false;
    for x in &p[1..] { if skip { skip = false; continue } out.push(x.clone()); if ["fields", "args", "inputs"].contains(&x.as_str()) { skip = true } }
    out.join("/")
}
fn compare(c: &C, how: &str, got: &Value, want: &Value, sdl: &str) {
    let mut want = want.clone();
    // defaults: what the enum names are marked with
    let _ = &mut want;
    for n in got.as_object().unwrap().keys().chain(want.as_object().unwrap().keys()).collect::<BTreeSet<_>>() {
        let (g, w) = (got.get(n).cloned().unwrap_or(json!("<absent>")), want.get(n).cloned().unwrap_or(json!("<absent>")));
        let mut at = vec![n.clone()];
        if let Some((p, a, b)) = diff(&g, &w, &mut at) {
            let k = if w == json!("<absent>") { format!("published:{}", g["kind"].as_str().unwrap_or("")) } else { place(&p, &want) };
            c.violation(&format!("{how}:{k}"), json!({"at": p, "got": a, "want": b, "config": sdl}));
        }
    }
}
fn marked(v: &Value) -> Value { v.clone() }

fn published(c: &C) {
    let mut r = c.rng("published");
    for case in 0..c.n(150, 3000) {
        let s = schema(&mut r);
        let sdl = s.sdl();
        c.case(&sdl, true);
        let m = match module(&sdl) { Ok(m) => m, Err(e) => { c.violation("config:unreadable", json!({"config": sdl, "errors": e})); continue } };
        let bp = match blueprint(&m) { Ok(b) => b, Err(e) => { c.violation("config:refused", json!({"config": sdl, "errors": e})); continue } };
        // as the model has it: names of enum values stay marked in defaults
        let want = want_marked(&s);
        c.count("fields-published", want.as_object().unwrap().values().map(|t| t["fields"].as_object().map_or(0, |f| f.len()) as u64 + t["inputs"].as_object().map_or(0, |f| f.len()) as u64).sum());
        let text = tailcall::core::print_schema::print_schema(bp.to_schema());
        match printed(&text) {
            Ok((got, dirs)) => {
                c.count("printed", 1);
                let mut w = want.clone();
                for t in w.as_object_mut().unwrap().values_mut() { if t["kind"] == "INTERFACE" { t.as_object_mut().unwrap().remove("possible"); } }
                compare(c, "printed", &got, &w, &sdl);
                c.check(dirs.is_empty(), "printed:directives", || json!({"directives": dirs, "printed": text}));
            }
            Err(e) => { c.violation("printed:unreadable", json!({"error": e, "printed": text, "config": sdl})); }
        }
        let app = match app_of(&m, runtime(Upstream::new(|_: &UReq| URes::json(json!(null))))) { Ok(a) => a, Err(e) => { c.violation("config:no-gateway", json!({"config": sdl, "error": e})); continue } };
        let (c2, s2) = (c.clone(), s.clone());
        let sdl2 = sdl.clone();
        rt_single().block_on(async move {
            let c = &c2;
            let res = query(&app, INTROSPECT).await;
            if !c.check(res.errors().is_empty(), "introspected:errors", || json!({"config": sdl2, "response": res.text()})) { return }
            let v = res.data()["__schema"].clone();
            c.count("introspected", 1);
            c.eq(&v["queryType"]["name"], &json!(s2.query), "introspected:query", || json!({"config": sdl2}));
            c.eq(&v["mutationType"]["name"], &json!(s2.mutation), "introspected:mutation", || json!({"config": sdl2}));
            c.eq(&v["subscriptionType"], &Value::Null, "introspected:subscription", || json!({"config": sdl2}));
            let dirs = names(&v["directives"]);
            c.check(dirs.iter().all(|d| ["skip", "include", "deprecated", "specifiedBy", "oneOf"].contains(&d.as_str())), "introspected:directives", || json!({"directives": dirs}));
            compare(c, "introspected", &introspected(&v), &want, &sdl2);
            // one type at a time
            for (n, t) in &s2.types {
                if !s2.reach().contains(n) {
                    let res = query(&app, &format!("{{ __type(name: \"{n}\") {{ name kind }} }}")).await;
                    c.eq(&res.data()["__type"], &Value::Null, "introspected:hidden-type", || json!({"type": n, "config": sdl2}));
                    c.count("hidden-types", 1);
                } else if let Ty::Enum { values, .. } = t {
                    let res = query(&app, &format!("query X {{ __type(name: \"{n}\") {{ name enumValues {{ name }} }} }}")).await;
                    c.eq(&names(&res.data()["__type"]["enumValues"]), values, "introspected:enum", || json!({"type": n, "config": sdl2}));
                }
            }
        });
        if case == 0 { c.sample(|| json!({"config": sdl, "printed": text})); }
    }
}
fn want_marked(s: &Sch) -> Value {
    let mut v = s.want();
    // `want` has defaults with the marks removed: put the marked ones back
    let set = |node: &mut Value, a: &[Ar]| for x in a { if let Some(d) = &x.default { node[&x.name]["default"] = marked(d); } };
    for (n, t) in v.as_object_mut().unwrap() {
        match s.types.get(n) {
            Some(Ty::Obj { fields, .. }) => for f in fields.iter().filter(|f| !f.omit) { set(&mut t["fields"][&f.name]["args"], &f.args) },
            Some(Ty::Input { fields, .. }) => set(&mut t["inputs"], fields),
            _ => {}
        }
    }
    v
}

// ---------------------------------------------------------------- queries
/// A value of an output type, as an upstream would send it.
pub fn output_value(r: &mut Rng, s: &Sch, base: &str, nn: &[bool], depth: usize) -> Value {
    let (top, rest) = nn.split_last().unwrap();
    let composite = matches!(s.types.get(base), Some(Ty::Obj { .. } | Ty::Union { .. }));
    if !top && (r.chance(1, 8) || (depth == 0 && composite && rest.is_empty())) { return Value::Null }
    if !rest.is_empty() { return (0..if depth == 0 && composite { 0 } else { r.below(4) }).map(|_| output_value(r, s, base, rest, depth.saturating_sub(1))).collect() }
    match s.types.get(base) {
        Some(Ty::Enum { values, .. }) => json!(r.pick(&values.iter().cloned().collect::<Vec<_>>())),
        Some(Ty::Obj { .. } | Ty::Union { .. }) => {
            let ms = s.members(base);
            let m = r.pick(&ms).clone();
            let mut o = Map::new();
            if m != base { o.insert("__typename".into(), json!(m)); }
            for f in s.obj(&m).unwrap() {
                if f.path.is_some() { continue }
                o.insert(f.src.clone(), output_value(r, s, &f.ty.base, &f.ty.nn, depth.saturating_sub(1)));
            }
            o.insert("unlisted".into(), json!("hidden"));
            Value::Object(o)
        }
        Some(Ty::Scalar) => r.pick(&[json!(1), json!("x"), json!([1, 2]), json!({"a": 1})]).clone(),
        _ => scalar(r, base),
    }
}
/// A selection: response key, field, arguments as text, what is below, and
/// the type condition under which it counts.
#[derive(Clone, Debug)]
pub enum Sel { Field { key: String, field: String, args: String, sub: Vec<Sel> }, On(String, Vec<Sel>), Typename(String) }
pub fn select(r: &mut Rng, s: &Sch, ty: &str, depth: usize, keys: &mut usize) -> Vec<Sel> {
    let mut out = vec![];
    if let Some(Ty::Union { members, .. }) = s.types.get(ty) {
        for m in members { if r.chance(3, 4) { let sub = select(r, s, m, depth, keys); out.push(Sel::On(m.clone(), sub)); } }
        if out.is_empty() || r.bool() { *keys += 1; out.push(Sel::Typename(format!("t{keys}"))); }
        return out;
    }
    let fields: Vec<Fd> = s.obj(ty).unwrap().iter().filter(|f| !f.omit).cloned().collect();
    for f in &fields {
        if !r.chance(2, 3) { continue }
        let composite = matches!(s.types.get(&f.ty.base), Some(Ty::Obj { .. } | Ty::Union { .. }));
        if composite && depth == 0 { continue }
        let sub = if composite { select(r, s, &f.ty.base, depth - 1, keys) } else { vec![] };
        let mut args = vec![];
        for a in &f.args { if (!a.ty.nullable() && a.default.is_none()) || r.bool() { let v = input_value(r, s, &a.ty, 2); args.push(format!("{}: {}", a.name, lit(&v))); } }
        *keys += 1;
        let key = if r.chance(1, 3) { format!("k{keys}") } else { f.name.clone() };
        out.push(Sel::Field { key, field: f.name.clone(), args: if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) }, sub });
    }
    if matches!(s.types.get(ty), Some(Ty::Obj { iface: true, .. })) { for m in s.members(ty) { if r.chance(1, 2) {
        // fields of its own, so that response keys do not meet
        let own: BTreeSet<String> = fields.iter().map(|f| f.name.clone()).collect();
        let sub: Vec<Sel> = select(r, s, &m, depth, keys).into_iter().filter(|x| match x { Sel::Field { key, .. } => !own.contains(key), _ => true }).collect();
        if !sub.is_empty() { out.push(Sel::On(m, sub)); }
    } } }
    if out.is_empty() || r.chance(1, 5) { *keys += 1; out.push(Sel::Typename(format!("t{keys}"))); }
    out
}
pub fn text(sel: &[Sel]) -> String {
    let v: Vec<String> = sel.iter().map(|x| match x {
        Sel::Typename(k) => format!("{k}: __typename"),
        Sel::On(t, sub) => format!("... on {t} {}", text(sub)),
        Sel::Field { key, field, args, sub } => format!("{}{field}{args}{}", if key == field { String::new() } else { format!("{key}: ") }, if sub.is_empty() { String::new() } else { format!(" {}", text(sub)) }),
    }).collect();
    format!("{{ {} }}", v.join(" "))
}
/// What a selection of an upstream value answers.
pub fn answer(s: &Sch, ty: &str, sel: &[Sel], v: &Value) -> Value {
    match v {
        Value::Array(a) => a.iter().map(|x| answer(s, ty, sel, x)).collect(),
        Value::Object(o) => {
            let actual = o.get("__typename").and_then(|x| x.as_str()).unwrap_or(ty).to_string();
            let mut m = Map::new();
            into(s, &actual, sel, o, &mut m);
            Value::Object(m)
        }
        v => v.clone(),
    }
}
fn into(s: &Sch, actual: &str, sel: &[Sel], o: &Map<String, Value>, m: &mut Map<String, Value>) {
    for x in sel {
        match x {
            Sel::Typename(k) => { m.insert(k.clone(), json!(actual)); }
            Sel::On(t, sub) => if t == actual || s.members(t).iter().any(|x| x == actual) { into(s, actual, sub, o, m) },
            Sel::Field { key, field, sub, .. } => {
                let Some(f) = s.obj(actual).and_then(|fs| fs.iter().find(|f| f.name == *field)) else { continue };
                let raw = match &f.path {
                    Some(p) => p.iter().fold(Value::Object(o.clone()), |v, k| v.get(k).cloned().unwrap_or(Value::Null)),
                    None => o.get(&f.src).cloned().unwrap_or(Value::Null),
                };
                let v = if matches!(s.types.get(&f.ty.base), Some(Ty::Obj { .. } | Ty::Union { .. })) { answer(s, &f.ty.base, sub, &raw) } else { raw };
                m.insert(key.clone(), v);
            }
        }
    }
}

fn queries(c: &C) {
    let mut r = c.rng("queries");
    for case in 0..c.n(90, 1500) {
        let s = schema(&mut r);
        let sdl = s.sdl();
        let mut data: BTreeMap<String, Value> = BTreeMap::new();
        for root in std::iter::once(&s.query).chain(s.mutation.iter()) { for f in s.obj(root).unwrap() { data.insert(f.src.clone(), output_value(&mut r, &s, &f.ty.base, &f.ty.nn, 4)); } }
        let d2 = data.clone();
        let up = Upstream::new(move |q: &UReq| URes::json(d2.get(q.path().trim_start_matches('/')).cloned().unwrap_or(Value::Null)));
        let app = match app(&sdl, runtime(up)) { Ok(a) => a, Err(e) => { c.violation("queries:no-gateway", json!({"config": sdl, "error": e})); continue } };
        let c2 = c.clone();
        let mut r2 = r.fork();
        rt_single().block_on(async move {
            let c = &c2;
            let r = &mut r2;
            for _ in 0..6 {
                let mutation = s.mutation.is_some() && r.chance(1, 3);
                let root = if mutation { s.mutation.clone().unwrap() } else { s.query.clone() };
                let mut keys = 0;
                let sel = select(r, &s, &root, 3, &mut keys);
                let text = format!("{}{}", if mutation { "mutation " } else if r.bool() { "query Name " } else { "" }, text(&sel));
                c.case(&(&sdl, &text), true);
                let mut m = Map::new();
                let o: Map<String, Value> = data.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                into(&s, &root, &sel, &o, &mut m);
                let res = query(&app, &text).await;
                c.count("queries-accepted", 1);
                let w = || json!({"config": sdl, "query": text, "upstream": data, "response": res.text()});
                if c.check(res.errors().is_empty(), "query:rejected", w) {
                    c.eq(&res.data(), &Value::Object(m), "query:data", w);
                }
                // names that are not part of the schema
                let mut hidden: Vec<(String, String)> = vec![];
                for f in s.obj(&root).unwrap() { if f.omit || f.name != f.src { hidden.push((f.src.clone(), String::new())) } }
                for f in s.obj(&root).unwrap().iter().filter(|f| !f.omit && f.args.iter().all(|a| a.ty.nullable() || a.default.is_some())) {
                    let Some(Ty::Obj { fields, iface: false, .. }) = s.types.get(&f.ty.base) else { continue };
                    for g in fields { if g.omit || g.name != g.src { hidden.push((g.src.clone(), f.name.clone())) } }
                    hidden.push(("unlisted".into(), f.name.clone()));
                }
                for (h, under) in hidden.into_iter().take(4) {
                    let inner = format!("{h} zz: {h}");
                    let q = format!("{}{{ {} }}", if mutation { "mutation " } else { "" }, if under.is_empty() { format!("__typename {inner}") } else { format!("{under} {{ __typename {inner} }}") });
                    let res = query(&app, &q).await;
                    c.count("hidden-names", 1);
                    let shown = res.text();
                    c.check(!shown.contains(&format!("\"{h}\":")) && !shown.contains("\"zz\":"), "query:hidden", || json!({"config": sdl, "query": q, "response": shown}));
                }
            }
        });
        if case == 0 { c.sample(|| json!({"config": "see published", "data": "random"})); }
    }
}

/// Texts the GraphQL library publishes wrongly.
fn library(c: &C) {
    for (name, doc) in [("three-quotes", "three \\\"\\\"\\\" quotes"), ("trailing-quote", "ends with \\\""), ("trailing-backslash", "ends with \\\\")] {
        let sdl = format!("schema {{ query: Query }}\n\"{doc}\" type Query {{ a: String @expr(body: \"x\") }}");
        let bp = blueprint(&module(&sdl).unwrap()).unwrap();
        let text = tailcall::core::print_schema::print_schema(bp.to_schema());
        c.case(&name, true);
        let got = async_graphql::parser::parse_schema(&text).ok().map(|_| ());
        c.check(got.is_some(), &format!("printed:unreadable:{name}"), || json!({"config": sdl, "printed": text}));
    }
    let _ = Arc::new(());
}
