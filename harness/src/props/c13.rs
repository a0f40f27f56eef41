//! C13: linked schemas combine soundly.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

use serde_json::{json, Value};
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::config::{Config, ConfigModule};
use tailcall::core::primitive::Primitive;
use tailcall::core::variance::{Contravariant, Covariant, Invariant};
use tailcall::core::Type;
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock::*;

pub fn run(c: &C) {
    c.rule("one case = one list of sources combined in one order; non-trivial = two sources declare a common name; distinct by sources and order");
    c.assume("settings (server, upstream, telemetry, links) come from the first source, as the existing suite documents; so do a default value or a documentation text given twice: only that one of the given values is kept is judged");
    c.assume("a name is used as output or as input, by every source that declares it, unless the case is about a clash of roles");
    c.section("type-references", type_refs);
    c.section("primitives", primitives);
    c.section("sources", sources);
    c.section("linked", linked);
    c.section("order", order);
    c.floor("type-references", 2000);
    c.floor("combined", 200);
    c.floor("disagreements", 100);
    c.floor("orders", 300);
    c.floor("owned-values", 200);
    c.floor("nested-links", 20);
}

// ------------------------------------------------------- type references
/// A type reference: its name and the non-null markers from the inside out.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct T { pub base: String, pub nn: Vec<bool> }
impl T {
    pub fn show(&self) -> String {
        let mut s = self.base.clone();
        for (i, n) in self.nn.iter().enumerate() {
            if i > 0 { s = format!("[{s}]") }
            if *n { s.push('!') }
        }
        s
    }
    pub fn ty(&self) -> Type {
        let mut t = Type::Named { name: self.base.clone(), non_null: self.nn[0] };
        for n in &self.nn[1..] { t = Type::List { of_type: Box::new(t), non_null: *n } }
        t
    }
    pub fn nullable(&self) -> bool { !self.nn[self.nn.len() - 1] }
    fn meet(&self, o: &T, f: fn(bool, bool) -> bool) -> Option<T> {
        if self.base != o.base || self.nn.len() != o.nn.len() { return None }
        Some(T { base: self.base.clone(), nn: self.nn.iter().zip(&o.nn).map(|(a, b)| f(*a, *b)).collect() })
    }
}
fn or(a: bool, b: bool) -> bool { a || b }
fn and(a: bool, b: bool) -> bool { a && b }

/// Every pair of references over two names and three depths, and triples.
fn type_refs(c: &C) {
    let mut all = vec![];
    for base in ["A", "B"] {
        for d in 1..=4usize {
            for m in 0..1u32 << d { all.push(T { base: base.into(), nn: (0..d).map(|i| m >> i & 1 == 1).collect() }) }
        }
    }
    for a in &all {
        for b in &all {
            c.case(&(a, b), a != b);
            c.count("type-references", 1);
            for (what, f) in [("shrink", or as fn(bool, bool) -> bool), ("expand", and)] {
                let go = |a: &T, b: &T| {
                    let r = if what == "shrink" { a.ty().shrink(b.ty()) } else { a.ty().expand(b.ty()) };
                    r.to_result()
                };
                let got = go(a, b).ok().map(|t| format!("{t:?}"));
                let want = a.meet(b, f).map(|t| t.show());
                c.eq(&got, &want, &format!("type:{what}"), || json!({"left": a.show(), "right": b.show()}));
                let back = go(b, a).ok().map(|t| format!("{t:?}"));
                c.eq(&back, &got, &format!("type:{what}:order"), || json!({"left": a.show(), "right": b.show()}));
                if let Err(e) = go(a, b) {
                    c.check(e.as_vec().len() == 1 && !e.as_vec()[0].message.is_empty(), &format!("type:{what}:one-error"), || json!({"left": a.show(), "right": b.show(), "errors": format!("{e:?}")}));
                }
                if a == b { c.eq(&got, &Some(a.show()), &format!("type:{what}:idempotent"), || json!(a.show())); }
            }
        }
    }
}

/// Values merged as a whole: the right one counts where it is present.
fn primitives(c: &C) {
    #[derive(Clone, Debug, PartialEq)]
    struct P(Option<u8>);
    impl Primitive for P {}
    let mut r = c.rng("primitive");
    for _ in 0..100 {
        let (a, b) = (P(r.bool().then(|| r.below(200) as u8)), P(r.bool().then(|| r.below(200) as u8)));
        c.case(&(a.0, b.0, "p"), a != b);
        // a primitive is a whole: the later one replaces the earlier
        let got = Invariant::unify(a.clone(), b.clone()).to_result().ok();
        c.eq(&got, &Some(b.clone()), "primitive:unify", || json!({"left": format!("{a:?}"), "right": format!("{b:?}")}));
        c.count("primitives", 1);
    }
}

// ---------------------------------------------------------------- sources
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct F { of: Option<T>, args: BTreeMap<String, T>, urls: BTreeSet<String> }
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct O { fields: BTreeMap<String, F>, implements: BTreeSet<String> }
/// One source: what it declares.
#[derive(Clone, Debug, PartialEq, Eq, Default)]
struct S {
    outs: BTreeMap<String, O>,
    ins: BTreeMap<String, O>,
    enums: BTreeMap<String, BTreeSet<String>>,
    unions: BTreeMap<String, BTreeSet<String>>,
    root: Option<String>,
    /// whether the enum is used as input, as output
    roles: BTreeMap<String, (bool, bool)>,
}
fn fields(o: &O) -> String {
    o.fields.iter().map(|(n, f)| {
        let args = if f.args.is_empty() { String::new() } else { format!("({})", f.args.iter().map(|(n, t)| format!("{n}: {}", t.show())).collect::<Vec<_>>().join(", ")) };
        let dirs = f.urls.iter().map(|u| format!(" @http(url: \"{u}\")")).collect::<String>();
        format!("  {n}{args}: {}{dirs}\n", f.of.as_ref().unwrap().show())
    }).collect()
}
impl S {
    fn sdl(&self) -> String {
        let mut s = String::new();
        if let Some(q) = &self.root { s.push_str(&format!("schema {{ query: {q} }}\n")) }
        for (n, o) in &self.outs {
            let kw = if n.starts_with('I') { "interface" } else { "type" };
            let im = if o.implements.is_empty() { String::new() } else { format!(" implements {}", o.implements.iter().cloned().collect::<Vec<_>>().join(" & ")) };
            s.push_str(&format!("{kw} {n}{im} {{\n{}}}\n", fields(o)));
        }
        for (n, o) in &self.ins { s.push_str(&format!("input {n} {{\n{}}}\n", fields(o))) }
        for (n, vs) in &self.enums { s.push_str(&format!("enum {n} {{ {} }}\n", vs.iter().cloned().collect::<Vec<_>>().join(" "))) }
        for (n, ts) in &self.unions { s.push_str(&format!("union {n} = {}\n", ts.iter().cloned().collect::<Vec<_>>().join(" | "))) }
        s
    }
    fn module(&self) -> Result<ConfigModule, String> {
        Config::from_sdl(&self.sdl()).to_result().map(ConfigModule::from).map_err(|e| e.to_string())
    }
}
/// A combined configuration, observed.
fn observe(m: &Config) -> S {
    let mut s = S { root: m.schema.query.clone(), ..Default::default() };
    for (n, t) in &m.types {
        let mut o = O { implements: t.implements.clone(), ..Default::default() };
        for (f, d) in &t.fields {
            let mut urls = BTreeSet::new();
            for x in &d.resolvers.0 { if let tailcall::core::config::Resolver::Http(h) = x { urls.insert(h.url.clone()); } }
            o.fields.insert(f.clone(), F {
                of: Some(read(&d.type_of)),
                args: d.args.iter().map(|(n, a)| (n.clone(), read(&a.type_of))).collect(),
                urls,
            });
        }
        if n.starts_with("In") { s.ins.insert(n.clone(), o); } else { s.outs.insert(n.clone(), o); }
    }
    for (n, e) in &m.enums { s.enums.insert(n.clone(), e.variants.iter().map(|v| v.name.clone()).collect()); }
    for (n, u) in &m.unions { s.unions.insert(n.clone(), u.types.clone()); }
    s
}
pub fn read(t: &Type) -> T {
    match t {
        Type::Named { name, non_null } => T { base: name.clone(), nn: vec![*non_null] },
        Type::List { of_type, non_null } => { let mut x = read(of_type); x.nn.push(*non_null); x }
    }
}

/// What several sources combine to, or the names about which they disagree.
fn combine(srcs: &[&S]) -> Result<S, BTreeSet<String>> {
    let mut bad = BTreeSet::new();
    let mut out = S { root: srcs.iter().find_map(|s| s.root.clone()), ..Default::default() };
    if srcs.iter().filter_map(|s| s.root.as_ref()).collect::<BTreeSet<_>>().len() > 1 { bad.insert("schema".into()); }
    // one kind per name
    let mut kinds: BTreeMap<&String, BTreeSet<&str>> = BTreeMap::new();
    for s in srcs {
        for n in s.outs.keys() { kinds.entry(n).or_default().insert("out"); }
        for n in s.ins.keys() { kinds.entry(n).or_default().insert("in"); }
        for n in s.enums.keys() { kinds.entry(n).or_default().insert("enum"); }
        for n in s.unions.keys() { kinds.entry(n).or_default().insert("union"); }
    }
    for (n, k) in &kinds { if k.len() > 1 { bad.insert((*n).clone()); } }
    let args = |fs: &[&F], at: &str, bad: &mut BTreeSet<String>| -> BTreeMap<String, T> {
        let names: BTreeSet<&String> = fs.iter().flat_map(|f| f.args.keys()).collect();
        let mut o = BTreeMap::new();
        for n in names {
            let given: Vec<&T> = fs.iter().filter_map(|f| f.args.get(n)).collect();
            if given.len() < fs.len() {
                if given.iter().any(|t| !t.nullable()) { bad.insert(format!("{at}.{n}")); }
                continue;
            }
            match given[1..].iter().try_fold(given[0].clone(), |a, b| a.meet(b, or)) {
                Some(t) => { o.insert(n.clone(), t); }
                None => { bad.insert(format!("{at}.{n}")); }
            }
        }
        o
    };
    for (n, k) in &kinds {
        if k.len() > 1 { continue }
        let n = n.as_str();
        match *k.iter().next().unwrap() {
            "out" => {
                let ds: Vec<&O> = srcs.iter().filter_map(|s| s.outs.get(n)).collect();
                let mut o = O { implements: ds.iter().flat_map(|d| d.implements.iter().cloned()).collect(), ..Default::default() };
                let names: BTreeSet<&String> = ds.iter().flat_map(|d| d.fields.keys()).collect();
                for f in names {
                    let fs: Vec<&F> = ds.iter().filter_map(|d| d.fields.get(f)).collect();
                    let at = format!("{n}.{f}");
                    let of = fs[1..].iter().try_fold(fs[0].of.clone().unwrap(), |a, b| a.meet(b.of.as_ref().unwrap(), and));
                    if of.is_none() { bad.insert(at.clone()); }
                    let args = args(&fs, &at, &mut bad);
                    o.fields.insert(f.clone(), F { of, args, urls: fs.iter().flat_map(|f| f.urls.iter().cloned()).collect() });
                }
                out.outs.insert(n.into(), o);
            }
            "in" => {
                let ds: Vec<&O> = srcs.iter().filter_map(|s| s.ins.get(n)).collect();
                let mut o = O::default();
                let names: BTreeSet<&String> = ds.iter().flat_map(|d| d.fields.keys()).collect();
                for f in names {
                    let at = format!("{n}.{f}");
                    let fs: Vec<&F> = ds.iter().filter_map(|d| d.fields.get(f)).collect();
                    if fs.len() < ds.len() {
                        if fs.iter().any(|f| !f.of.as_ref().unwrap().nullable()) { bad.insert(at); }
                        continue;
                    }
                    let of = fs[1..].iter().try_fold(fs[0].of.clone().unwrap(), |a, b| a.meet(b.of.as_ref().unwrap(), or));
                    if of.is_none() { bad.insert(at.clone()); }
                    o.fields.insert(f.clone(), F { of, ..Default::default() });
                }
                // nothing every source accepts
                if o.fields.is_empty() { bad.insert(n.into()); }
                out.ins.insert(n.into(), o);
            }
            "enum" => {
                let ds: Vec<(&BTreeSet<String>, (bool, bool))> = srcs.iter().filter_map(|s| s.enums.get(n).map(|e| (e, s.roles[n]))).collect();
                let (i, o) = ds.iter().fold((false, false), |a, d| (a.0 | d.1 .0, a.1 | d.1 .1));
                let v: BTreeSet<String> = match (i, o) {
                    _ if ds.len() == 1 => ds[0].0.clone(),
                    (true, true) => {
                        let both = ds.iter().any(|d| d.1 == (true, true));
                        if !both || ds.iter().any(|d| d.0 != ds[0].0) { bad.insert(n.into()); }
                        ds[0].0.clone()
                    }
                    (true, false) => ds[1..].iter().fold(ds[0].0.clone(), |a, d| a.intersection(d.0).cloned().collect()),
                    _ => ds.iter().flat_map(|d| d.0.iter().cloned()).collect(),
                };
                if v.is_empty() { bad.insert(n.into()); }
                out.enums.insert(n.into(), v);
            }
            _ => { out.unions.insert(n.into(), srcs.iter().filter_map(|s| s.unions.get(n)).flatten().cloned().collect()); }
        }
    }
    if bad.is_empty() { Ok(out) } else { Err(bad) }
}

const SC: [&str; 4] = ["Int", "String", "Boolean", "ID"];
/// A universe of names with the shape each has, from which sources draw.
struct U { outs: BTreeMap<String, BTreeMap<String, (String, usize, BTreeMap<String, (String, usize)>)>>, ins: BTreeMap<String, BTreeMap<String, (String, usize)>> }
fn universe(r: &mut Rng) -> U {
    let outs: Vec<String> = (0..r.range(1, 3)).map(|i| format!("O{i}")).chain(r.chance(1, 3).then(|| "I0".to_string())).collect();
    let ins: Vec<String> = (0..r.range(1, 2)).map(|i| format!("In{i}")).collect();
    let shape = |r: &mut Rng, pool: &[String]| -> (String, usize) {
        let b = if r.chance(2, 5) && !pool.is_empty() { r.pick(pool).clone() } else { r.pick(&SC).to_string() };
        (b, *r.pick(&[1usize, 1, 1, 2, 3]))
    };
    let mut op = outs.clone();
    op.extend(["EOut".to_string(), "Uni".to_string()]);
    let mut ip = ins.clone();
    ip.push("EIn".to_string());
    let mut u = U { outs: BTreeMap::new(), ins: BTreeMap::new() };
    for o in &outs {
        let n = r.range(1, 4);
        u.outs.insert(o.clone(), (0..n).map(|i| {
            let (b, d) = shape(r, &op);
            let args = (0..r.below(3)).map(|k| (format!("x{k}"), shape(r, &ip))).collect();
            (format!("f{i}"), (b, d, args))
        }).collect());
    }
    for o in &ins {
        let n = r.range(1, 4);
        u.ins.insert(o.clone(), (0..n).map(|i| (format!("g{i}"), shape(r, &ip))).collect());
    }
    u
}
fn tref(r: &mut Rng, s: &(String, usize), p: u32) -> T { T { base: s.0.clone(), nn: (0..s.1).map(|_| r.chance(p, 4)).collect() } }
/// One source: part of the universe, with nullability of its own; everything
/// it declares is used by its query.
fn source(r: &mut Rng, u: &U, k: usize) -> S {
    let mut s = S { root: Some("Query".into()), ..Default::default() };
    let mut q = O::default();
    for (n, fs) in &u.outs {
        if r.chance(1, 4) { continue }
        let mut o = O::default();
        for (f, (b, d, args)) in fs {
            if r.chance(1, 4) { continue }
            let mut fd = F { of: Some(tref(r, &(b.clone(), *d), 2)), ..Default::default() };
            for (a, sh) in args { if r.chance(7, 8) { fd.args.insert(a.clone(), tref(r, sh, 1)); } }
            if r.chance(1, 3) { fd.urls.insert(format!("http://s{k}/{n}/{f}")); }
            o.fields.insert(f.clone(), fd);
        }
        if o.fields.is_empty() { o.fields.insert(format!("own{k}"), F { of: Some(T { base: "Int".into(), nn: vec![r.bool()] }), ..Default::default() }); }
        s.outs.insert(n.clone(), o);
        q.fields.insert(format!("q{k}_{n}"), F { of: Some(T { base: n.clone(), nn: vec![r.bool()] }), urls: [format!("http://s{k}/{n}")].into(), ..Default::default() });
    }
    if s.outs.contains_key("I0") && s.outs.contains_key("O0") && r.bool() {
        // implemented as declared
        let i = s.outs["I0"].clone();
        let o = s.outs.get_mut("O0").unwrap();
        o.implements.insert("I0".into());
        for (f, d) in i.fields { o.fields.entry(format!("i_{f}")).or_insert(d); }
        // only reachable through its interface
        if r.bool() && !u.outs.values().any(|f| f.values().any(|d| d.0 == "O0")) { q.fields.remove(&format!("q{k}_O0")); }
    }
    let mut uses: Vec<(String, T)> = vec![];
    for (n, fs) in &u.ins {
        if r.chance(1, 4) { continue }
        let mut o = O::default();
        for (f, sh) in fs {
            if r.chance(1, 6) { continue }
            o.fields.insert(f.clone(), F { of: Some(tref(r, sh, 1)), ..Default::default() });
        }
        if o.fields.is_empty() { continue }
        s.ins.insert(n.clone(), o);
        uses.push((n.to_lowercase(), T { base: n.clone(), nn: vec![r.bool()] }));
    }
    let vs = ["A", "B", "C", "D"];
    let mut en = |r: &mut Rng| -> BTreeSet<String> { let mut v: BTreeSet<String> = r.subset(&vs, 3, 4).into_iter().map(|x| x.to_string()).collect(); if v.is_empty() { v.insert("A".into()); } v };
    if r.chance(3, 4) {
        s.enums.insert("EOut".into(), en(r));
        s.roles.insert("EOut".into(), (false, true));
        q.fields.insert(format!("q{k}_EOut"), F { of: Some(T { base: "EOut".into(), nn: vec![false] }), urls: [format!("http://s{k}/e")].into(), ..Default::default() });
    }
    if r.chance(3, 4) {
        s.enums.insert("EIn".into(), en(r));
        s.roles.insert("EIn".into(), (true, false));
        uses.push(("ein".into(), T { base: "EIn".into(), nn: vec![false] }));
    }
    if r.chance(1, 2) && !s.outs.is_empty() {
        let mut ms: BTreeSet<String> = s.outs.keys().filter(|n| n.starts_with('O')).filter(|_| r.chance(2, 3)).cloned().collect();
        if ms.is_empty() { ms.insert("O9".into()); s.outs.insert("O9".into(), O { fields: [("z".to_string(), F { of: Some(T { base: "Int".into(), nn: vec![false] }), ..Default::default() })].into(), ..Default::default() }); }
        s.unions.insert("Uni".into(), ms);
        q.fields.insert(format!("q{k}_Uni"), F { of: Some(T { base: "Uni".into(), nn: vec![false] }), urls: [format!("http://s{k}/u")].into(), ..Default::default() });
    }
    q.fields.insert(format!("q{k}"), F { of: Some(T { base: "Int".into(), nn: vec![false] }), args: uses.into_iter().collect(), urls: [format!("http://s{k}/q")].into() });
    // a field several sources offer
    if r.chance(1, 3) { q.fields.insert("shared".into(), F { of: Some(T { base: "String".into(), nn: vec![r.bool()] }), urls: [format!("http://s{k}/shared")].into(), ..Default::default() }); }
    s.outs.insert("Query".into(), q);
    s
}
/// Makes one source disagree with the others about something.
fn disagree(r: &mut Rng, s: &mut S, k: usize) -> &'static str {
    let outs: Vec<String> = s.outs.keys().filter(|n| *n != "Query" && *n != "O9").cloned().collect();
    let ins: Vec<String> = s.ins.keys().cloned().collect();
    let flip = |r: &mut Rng, t: &mut T| {
        if r.bool() { t.base = if t.base == "Float" { "Int".into() } else { "Float".into() } } else if t.nn.len() > 1 && r.bool() { t.nn.pop(); } else { t.nn.push(r.bool()) }
    };
    match r.below(7) {
        0 if !outs.is_empty() => {
            let n = r.pick(&outs).clone();
            let o = s.outs.get_mut(&n).unwrap();
            let f = r.pick(&o.fields.keys().cloned().collect::<Vec<_>>()).clone();
            flip(r, o.fields.get_mut(&f).unwrap().of.as_mut().unwrap());
            "field-type"
        }
        1 if !outs.is_empty() => {
            let n = r.pick(&outs).clone();
            let o = s.outs.get_mut(&n).unwrap();
            let f = r.pick(&o.fields.keys().cloned().collect::<Vec<_>>()).clone();
            o.fields.get_mut(&f).unwrap().args.insert(format!("only{k}"), T { base: "Int".into(), nn: vec![r.chance(3, 4)] });
            "argument-of-one"
        }
        2 if !ins.is_empty() => {
            let n = r.pick(&ins).clone();
            s.ins.get_mut(&n).unwrap().fields.insert(format!("only{k}"), F { of: Some(T { base: "Int".into(), nn: vec![r.chance(3, 4)] }), ..Default::default() });
            "input-field-of-one"
        }
        3 if !ins.is_empty() => {
            let n = r.pick(&ins).clone();
            let o = s.ins.get_mut(&n).unwrap();
            let f = r.pick(&o.fields.keys().cloned().collect::<Vec<_>>()).clone();
            flip(r, o.fields.get_mut(&f).unwrap().of.as_mut().unwrap());
            "input-field-type"
        }
        4 => {
            // the same name for another kind of thing
            let n = if outs.is_empty() { "O0".to_string() } else { r.pick(&outs).clone() };
            s.outs.remove(&n);
            for o in s.outs.values_mut() { o.implements.remove(&n); }
            for u in s.unions.values_mut() { u.remove(&n); }
            s.unions.retain(|_, u| !u.is_empty());
            if r.bool() {
                s.enums.insert(n.clone(), ["A".to_string()].into());
                s.roles.insert(n, (false, true));
            } else {
                s.outs.entry("O9".into()).or_default().fields.insert("z".into(), F { of: Some(T { base: "Int".into(), nn: vec![false] }), ..Default::default() });
                s.unions.insert(n, ["O9".to_string()].into());
            }
            "kind"
        }
        5 => {
            let q = s.outs.remove("Query").unwrap();
            s.outs.insert("Root".into(), q);
            s.root = Some("Root".into());
            "root"
        }
        _ => {
            // one source uses the enum both ways
            if !s.enums.contains_key("EOut") { return "none" }
            s.roles.insert("EOut".into(), (true, true));
            let q = s.outs.get_mut("Query").unwrap();
            let f = q.fields.get_mut(&format!("q{k}")).unwrap();
            f.args.insert("eo".into(), T { base: "EOut".into(), nn: vec![false] });
            "enum-role"
        }
    }
}

/// A disagreement which is reported only when its two sides meet before a
/// third source drops what they disagree about.
fn order_bound(srcs: &[S]) -> bool {
    if srcs.len() < 3 { return false }
    let mut per: BTreeMap<String, (usize, BTreeSet<(String, usize)>)> = BTreeMap::new();
    let mut decl: BTreeMap<String, usize> = BTreeMap::new();
    for s in srcs {
        for (n, o) in &s.ins {
            *decl.entry(n.clone()).or_default() += 1;
            for (f, d) in &o.fields { let e = per.entry(format!("{n}/{f}")).or_default(); e.0 += 1; let t = d.of.as_ref().unwrap(); e.1.insert((t.base.clone(), t.nn.len())); }
        }
        for (n, o) in &s.outs {
            for (f, d) in &o.fields {
                *decl.entry(format!("{n}.{f}")).or_default() += 1;
                for (a, t) in &d.args { let e = per.entry(format!("{n}.{f}/{a}")).or_default(); e.0 += 1; e.1.insert((t.base.clone(), t.nn.len())); }
            }
        }
    }
    per.iter().any(|(k, (n, shapes))| shapes.len() > 1 && *n < decl[k.split_once('/').unwrap().0])
}

fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 1 { return vec![vec![0]] }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..n { let mut q = p.clone(); q.insert(i, n - 1); out.push(q) } }
    out
}
fn fold(srcs: &[S], p: &[usize]) -> Result<ConfigModule, (Vec<(Vec<String>, String)>, usize)> {
    let mut acc: Option<ConfigModule> = None;
    for (i, k) in p.iter().enumerate() {
        let m = srcs[*k].module().map_err(|e| (vec![(vec![], format!("source: {e}"))], 99))?;
        acc = Some(match acc {
            None => m,
            Some(a) => a.unify(m).to_result().map_err(|e| (e.as_vec().iter().map(|c| (c.trace.iter().map(|s| s.to_string()).collect(), c.message.to_string())).collect(), i))?,
        });
    }
    Ok(acc.unwrap())
}

fn sources(c: &C) {
    let mut r = c.rng("sources");
    for case in 0..c.n(700, 12000) {
        let u = universe(&mut r);
        let n = *r.pick(&[1usize, 2, 2, 2, 3, 3, 4]);
        let mut srcs: Vec<S> = (0..n).map(|k| source(&mut r, &u, k)).collect();
        let mut what = vec![];
        if r.chance(2, 5) {
            let k = r.below(n);
            what.push(disagree(&mut r, &mut srcs[k], k));
        }
        if what.contains(&"enum-role") && n > 2 { srcs.truncate(2); what.clear(); }
        if order_bound(&srcs) { c.count("order-bound", 1); continue }
        let n = srcs.len();
        let all: Vec<&S> = srcs.iter().collect();
        let want = combine(&all);
        let sdl = || srcs.iter().map(|s| s.sdl()).collect::<Vec<_>>();
        let ps = if n <= 3 { perms(n) } else { let mut p = perms(n); r.shuffle(&mut p); p.truncate(6); p };
        let common = n > 1;
        for p in ps {
            c.case(&(sdl(), &p), common);
            c.count("orders", 1);
            let got = fold(&srcs, &p);
            let show = |x: &S| { let mut x = x.clone(); x.roles.clear(); format!("{x:#?}") };
            match (&got, &want) {
                (Ok(m), Ok(w)) => {
                    c.count("combined", 1);
                    let mut g = observe(m.config());
                    g.roles = w.roles.clone();
                    if g != *w {
                        // the name first affected
                        let part = part(&g, w);
                        c.violation(&format!("combined:{part}"), json!({"sources": sdl(), "order": p, "got": show(&g), "want": show(w)}));
                    }
                }
                (Err((es, at)), Err(w)) => {
                    c.count("disagreements", 1);
                    for x in &what { c.count(&format!("about {x}"), 1) }
                    // the names reported are names disagreed about
                    for (trace, msg) in es {
                        let t = trace.join(".");
                        c.check(!msg.is_empty() && (w.contains(&t) || w.iter().any(|x| t.starts_with(&format!("{x}.")) || x.starts_with(&format!("{t}.")))), &format!("error:place:{}", what.join("+")), || json!({"sources": sdl(), "order": p, "reported": t, "message": msg, "disagreements": w}));
                    }
                    // with two sources, every disagreement is reported
                    if n == 2 && *at == 1 {
                        let got: BTreeSet<String> = es.iter().map(|e| e.0.join(".")).collect();
                        let lost: Vec<&String> = w.iter().filter(|x| !got.iter().any(|g| g == *x || x.starts_with(&format!("{g}.")) || g.starts_with(&format!("{x}.")))).collect();
                        c.check(lost.is_empty(), &format!("error:lost:{}", what.join("+")), || json!({"sources": sdl(), "order": p, "reported": es, "disagreements": w}));
                    }
                }
                (Ok(_), Err(w)) => { c.violation(&format!("disagreement-accepted:{}", what.join("+")), json!({"sources": sdl(), "order": p, "disagreements": w})); }
                (Err((e, _)), Ok(_)) => { c.violation(&format!("agreement-refused:{}", e.first().map(|x| x.1.clone()).unwrap_or_default()), json!({"sources": sdl(), "order": p, "errors": e})); }
            }
        }
        if case < 2 { c.sample(|| json!({"sources": sdl(), "disagrees": what})); }
    }
}
fn part(g: &S, w: &S) -> String {
    if g.root != w.root { return "root".into() }
    for (k, a, b) in [("output", &g.outs, &w.outs), ("input", &g.ins, &w.ins)] {
        if a.keys().ne(b.keys()) { return format!("{k}:types") }
        for (n, o) in b {
            let x = &a[n];
            if x.implements != o.implements { return format!("{k}:implements") }
            if x.fields.keys().ne(o.fields.keys()) { return format!("{k}:fields") }
            for (f, d) in &o.fields {
                if x.fields[f].of != d.of { return format!("{k}:field-type") }
                if x.fields[f].args != d.args { return format!("{k}:arguments") }
                if x.fields[f].urls != d.urls { return format!("{k}:resolvers") }
            }
        }
    }
    if g.enums != w.enums { return "enums".into() }
    "unions".into()
}

// ---------------------------------------------------------------- linked
/// Configurations linked by name run as one gateway in which every field is
/// answered by the source that owns it.
fn linked(c: &C) {
    let mut r = c.rng("linked");
    for case in 0..c.n(40, 500) {
        let n = r.range(2, 4) as usize;
        // each source has query fields of its own and adds fields to shared
        // types, some resolved by the parent's data, some by a call of its own
        let mut texts: Vec<String> = vec![];
        let nested = r.chance(1, 2);
        let dir = if r.bool() { "/conf/" } else { "" };
        let sub = if r.bool() { "sub/" } else { "" };
        let mut want: BTreeMap<String, Value> = BTreeMap::new();
        let mut sel: Vec<String> = vec![];
        let mut tfields: Vec<(String, usize, bool)> = vec![];
        for k in 0..n { for i in 0..r.range(1, 3) { tfields.push((format!("t{k}_{i}"), k as usize, r.bool())) } }
        for k in 0..n {
            let mut q = String::new();
            for i in 0..r.range(1, 3) { q.push_str(&format!("  v{k}_{i}: String @http(url: \"http://s{k}/v{k}_{i}\")\n")); sel.push(format!("v{k}_{i}")); want.insert(format!("v{k}_{i}"), json!(format!("s{k}/v{k}_{i}"))); }
            q.push_str(&format!("  o{k}: Obj @http(url: \"http://s{k}/obj\")\n"));
            let mut t = "  id: Int!\n".to_string();
            for (f, o, call) in &tfields { if *o == k { if *call { t.push_str(&format!("  {f}: String @http(url: \"http://s{k}/{f}/{{{{.value.id}}}}\")\n")) } else { t.push_str(&format!("  {f}: String\n")) } } }
            sel.push(format!("o{k} {{ id {} }}", tfields.iter().map(|t| t.0.clone()).collect::<Vec<_>>().join(" ")));
            let obj: serde_json::Map<String, Value> = std::iter::once(("id".to_string(), json!(k + 10))).chain(tfields.iter().map(|(f, o, call)| (f.clone(), if *call { json!(format!("s{o}/{f}/{}", k + 10)) } else { json!(format!("s{k}:{f}")) }))).collect();
            want.insert(format!("o{k}"), Value::Object(obj));
            texts.push(format!("type Query {{\n{q}}}\ntype Obj {{\n{t}}}\n"));
        }
        // who links whom: all from the first, or in a chain
        let file = |k: usize| if k == 0 { format!("{dir}main.graphql") } else { format!("{dir}{}f{k}.graphql", if k > 0 { sub } else { "" }) };
        let mut files = HashMap::new();
        for k in 0..n {
            let links: Vec<String> = if nested {
                if k + 1 < n { vec![if k == 0 { format!("{sub}f{}.graphql", k + 1) } else { format!("f{}.graphql", k + 1) }] } else if k > 0 && r.chance(1, 3) { vec!["f1.graphql".into()] } else { vec![] }
            } else if k == 0 { (1..n).map(|i| format!("{sub}f{i}.graphql")).collect() } else { vec![] };
            let l: String = links.iter().map(|l| format!(" @link(src: \"{l}\", type: Config)")).collect();
            let srv = if k == 0 { " @server(port: 8000)" } else { " @server(port: 1)" };
            files.insert(file(k), format!("schema{srv}{l} {{ query: Query }}\n{}", texts[k]));
        }
        let shown = json!(files);
        let up = Upstream::new(move |q: &UReq| {
            let host = q.url.host_str().unwrap_or("").to_string();
            if q.path() == "/obj" {
                let k: usize = host[1..].parse().unwrap();
                let mut m: serde_json::Map<String, Value> = [("id".to_string(), json!(k + 10))].into_iter().collect();
                for (f, _, call) in &tfields { if !call { m.insert(f.clone(), json!(format!("{host}:{f}"))); } }
                URes::json(Value::Object(m))
            } else { URes::json(json!(format!("{host}{}", q.path()))) }
        });
        let mut rt = runtime(up.clone());
        rt.file = Arc::new(Files(Mutex::new(files)));
        let c2 = c.clone();
        let main = file(0);
        let (sel, want, shown2) = (sel.join(" "), json!(want), shown.clone());
        c.case(&shown.to_string(), true);
        rt_single().block_on(async move {
            let c = &c2;
            let rd = ConfigReader::init(rt.clone());
            let m = match tokio::time::timeout(std::time::Duration::from_secs(20), rd.read(main.clone())).await {
                Ok(Ok(m)) => m,
                Ok(Err(e)) => { c.violation(if nested { "linked:nested:refused" } else { "linked:refused" }, json!({"files": shown2, "error": format!("{e:#}")})); return }
                Err(_) => { c.violation("linked:endless", json!({"files": shown2})); return }
            };
            c.eq(&m.config().server.get_port(), &8000u16, "linked:settings", || json!({"files": shown2}));
            let app = match app_of(&m, rt) { Ok(a) => a, Err(e) => { c.violation(if nested { "linked:nested:no-gateway" } else { "linked:no-gateway" }, json!({"files": shown2, "error": e})); return } };
            let res = query(&app, &format!("{{ {sel} }}")).await;
            c.count("owned-values", want.as_object().unwrap().len() as u64);
            if nested { c.count("nested-links", 1) }
            c.eq(&res.json(), &json!({"data": want}), if nested { "linked:nested:values" } else { "linked:values" }, || json!({"files": shown2, "query": sel}));
        });
        if case == 0 { c.sample(|| json!({"files": shown})); }
    }
}

/// Fixed histories in which the order decides whether a disagreement is seen.
fn order(c: &C) {
    let cases: [(&str, [&str; 3]); 3] = [
        ("usage-known-late", ["type T { a: Int }", "type T { b: Int }", "schema { query: Query } type Query { t: T }"]),
        ("dropped-argument", ["schema { query: Query } type Query { f(x: Int): Int }", "schema { query: Query } type Query { f: Int }", "schema { query: Query } type Query { f(x: String): Int }"]),
        ("enum-role", ["schema { query: Query } type Query { f(x: E): Int } enum E { A }", "schema { query: Query } type Query { g: E } enum E { A }", "schema { query: Query } type Query { h(x: E): E } enum E { A }"]),
    ];
    for (name, srcs) in cases {
        let mut seen = BTreeMap::new();
        for p in perms(3) {
            let ms: Vec<ConfigModule> = p.iter().map(|k| ConfigModule::from(Config::from_sdl(srcs[*k]).to_result().unwrap())).collect();
            let mut it = ms.into_iter();
            let first = it.next().unwrap();
            let got = it.try_fold(first, |a, m| a.unify(m).to_result()).map(|m| format!("{:?}", { let mut s = observe(m.config()); s.roles.clear(); s })).map_err(|_| ());
            seen.entry(got).or_insert_with(Vec::new).push(p);
        }
        c.case(&name, true);
        c.check(seen.len() == 1, &format!("order:{name}"), || json!({"sources": srcs, "outcomes": seen.iter().map(|(k, v)| json!({"outcome": k.as_ref().map(|s| s.len()).map_err(|_| "error"), "orders": v})).collect::<Vec<_>>()}));
    }
}
