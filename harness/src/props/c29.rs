//! C29: configuration operators compose as documented.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::Arc;

use serde_json::{json, Map, Value};
use tailcall::core::verif::CanLift;

use crate::common::*;
use crate::mock::*;

pub fn run(c: &C) {
    c.rule("one case = one query against a generated configuration whose fields combine constants, templates, calls, renames, omissions, additions and selections; non-trivial = it selects at least one operated field; distinct by configuration and query");
    c.assume("a template is the JSON its rendering spells, or else that text: strings that spell numbers, booleans or JSON are read as such (pinned by tests/execution/test-expr-scalar-as-string.md)");
    c.assume("a step of a call without arguments receives what it is piped (the arguments of the caller, or the answer of the step before)");
    c.assume("several resolvers of a field are merged from left to right: objects by key, lists by joining, anything else by the last one");
    c.assume("aliases of enum values are read where a field has a resolver; plain values inside an answer stay as they are (pinned by tests/execution/test-alias-on-enum.md)");
    c.section("operators", operators);
    c.section("lift", lift);
    for (k, n) in [("answers", 300), ("expr", 300), ("call", 150), ("renamed", 150), ("added", 100), ("select", 50), ("merged", 50), ("enum-alias", 30), ("hidden", 50), ("echo", 80)] { c.floor(k, n) }
}

// ------------------------------------------------------------- templates
#[derive(Clone, Debug)]
enum Seg { L(String), E(Vec<String>) }

#[derive(Clone, Debug)]
enum X { Null, Int(i64), Float(f64), Str(String), Bool(bool), Tpl(Vec<Seg>), List(Vec<X>), Obj(Vec<(String, X)>) }

fn tpl_text(t: &[Seg]) -> String {
    t.iter().map(|s| match s { Seg::L(l) => l.clone(), Seg::E(p) => format!("{{{{.{}}}}}", p.join(".")) }).collect()
}

impl X {
    fn sdl(&self) -> String {
        match self {
            X::Null => "null".into(),
            X::Int(n) => n.to_string(),
            X::Float(f) => format!("{f:?}"),
            X::Str(s) => json!(s).to_string(),
            X::Bool(b) => b.to_string(),
            X::Tpl(t) => json!(tpl_text(t)).to_string(),
            X::List(l) => format!("[{}]", l.iter().map(X::sdl).collect::<Vec<_>>().join(", ")),
            X::Obj(o) => format!("{{{}}}", o.iter().map(|(k, v)| format!("{k}: {}", v.sdl())).collect::<Vec<_>>().join(", ")),
        }
    }
    fn eval(&self, s: &Scope) -> Value {
        match self {
            X::Null => Value::Null,
            X::Int(n) => json!(n),
            X::Float(f) => json!(f),
            X::Str(s) => json!(s),
            X::Bool(b) => json!(b),
            X::List(l) => Value::Array(l.iter().map(|x| x.eval(s)).collect()),
            X::Obj(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), x.eval(s))).collect()),
            X::Tpl(t) => {
                if let [Seg::E(p)] = &t[..] { if s.find(p) == Some(Value::Null) { return Value::Null } }
                let text: String = t.iter().map(|x| match x { Seg::L(l) => l.clone(), Seg::E(p) => s.find(p).map(|v| text(&v)).unwrap_or_default() }).collect();
                serde_json::from_str(&text).unwrap_or(Value::String(text))
            }
        }
    }
    fn has_tpl(&self) -> bool {
        match self { X::Tpl(_) => true, X::List(l) => l.iter().any(X::has_tpl), X::Obj(o) => o.iter().any(|(_, x)| x.has_tpl()), _ => false }
    }
}

fn text(v: &Value) -> String {
    match v { Value::Null => String::new(), Value::String(s) => s.clone(), v => v.to_string() }
}

struct Scope<'a> { value: &'a Value, args: &'a Value, w: &'a World }

fn at(v: &Value, path: &[String]) -> Option<Value> {
    let mut v = v;
    for p in path { v = match v { Value::Array(a) => a.get(p.parse::<usize>().ok()?)?, Value::Object(m) => m.get(p)?, _ => return None } }
    Some(v.clone())
}

impl Scope<'_> {
    fn find(&self, p: &[String]) -> Option<Value> {
        match p[0].as_str() {
            "value" => at(self.value, &p[1..]),
            "args" => at(self.args, &p[1..]),
            "vars" => self.w.vars.get(p.get(1)?).map(|s| json!(s)),
            "env" => self.w.env.get(p.get(1)?).map(|s| json!(s)),
            "headers" => self.w.headers.get(p.get(1)?).map(|s| json!(s)),
            _ => None,
        }
    }
}

// ------------------------------------------------------------- configuration
#[derive(Clone, Debug, PartialEq)]
enum Ty { Json, Int, Float, Str, Bool, Ints, En, Ens, Obj(usize), Objs(usize) }

#[derive(Clone, Debug)]
enum Op {
    Expr(X),
    Call(Vec<(String, Vec<(String, X)>)>),
    /// what the upstream holds for the parent's id
    Of(Option<X>),
    /// the upstream sends the body back
    Echo(Vec<(String, X)>, Option<X>),
    /// what the upstream holds at a fixed place
    Data,
}

#[derive(Clone, Debug)]
struct Fd { name: String, out: Option<String>, omit: bool, ty: Ty, args: Vec<(String, &'static str, Option<X>)>, ops: Vec<Op> }

impl Fd { fn shown(&self) -> &str { self.out.as_deref().unwrap_or(&self.name) } }

#[derive(Clone, Debug, Default)]
struct Obj { name: String, fields: Vec<Fd>, added: Vec<(String, Vec<String>)> }

#[derive(Clone, Debug, Default)]
struct World { objs: Vec<Obj>, query: Obj, vars: BTreeMap<String, String>, env: BTreeMap<String, String>, headers: BTreeMap<String, String>, seed: u64 }

const ALIAS: &[(&str, &str)] = &[("A", "A"), ("B", "B"), ("CC", "CC"), ("a1", "A"), ("a 2", "A"), ("cc", "CC")];

impl World {
    fn ty(&self, t: &Ty) -> String {
        match t { Ty::Json => "JSON".into(), Ty::Int => "Int".into(), Ty::Float => "Float".into(), Ty::Str => "String".into(), Ty::Bool => "Boolean".into(), Ty::Ints => "[Int]".into(), Ty::En => "E0".into(), Ty::Ens => "[E0]".into(), Ty::Obj(i) => self.objs[*i].name.clone(), Ty::Objs(i) => format!("[{}]", self.objs[*i].name) }
    }

    fn sdl(&self) -> String {
        let vars = self.vars.iter().map(|(k, v)| format!("{{key: {k:?}, value: {v:?}}}")).collect::<Vec<_>>().join(", ");
        let mut s = format!("schema @server(port: 8000, vars: [{vars}]) @upstream(allowedHeaders: [{}]) {{ query: Query }}\n", self.headers.keys().map(|k| format!("{k:?}")).collect::<Vec<_>>().join(", "));
        s += "enum E0 { A @alias(options: [\"a1\", \"a 2\"]) B CC @alias(options: [\"cc\"]) }\n";
        for o in self.objs.iter().chain([&self.query]) {
            let _ = write!(s, "type {}", o.name);
            for (n, p) in &o.added { let _ = write!(s, " @addField(name: {n:?}, path: {p:?})"); }
            s += " {\n";
            for f in &o.fields {
                let _ = write!(s, "  {}", f.name);
                if !f.args.is_empty() { let _ = write!(s, "({})", f.args.iter().map(|(n, t, d)| format!("{n}: {t}{}", d.as_ref().map(|d| format!(" = {}", d.sdl())).unwrap_or_default())).collect::<Vec<_>>().join(", ")); }
                let _ = write!(s, ": {}{}", self.ty(&f.ty), if f.name == "id" { "!" } else { "" });
                for op in &f.ops {
                    let sel = |x: &Option<X>| x.as_ref().map(|x| format!(", select: {}", x.sdl())).unwrap_or_default();
                    match op {
                        Op::Expr(x) => { let _ = write!(s, " @expr(body: {})", x.sdl()); }
                        Op::Call(steps) => {
                            let st = steps.iter().map(|(f, a)| if a.is_empty() { format!("{{query: {f:?}}}") } else { format!("{{query: {f:?}, args: {}}}", X::Obj(a.clone()).sdl()) }).collect::<Vec<_>>().join(", ");
                            let _ = write!(s, " @call(steps: [{st}])");
                        }
                        Op::Of(x) => { let _ = write!(s, " @http(url: \"http://up.test/of/{}/{}/{{{{.value.id}}}}\"{})", o.name, f.name, sel(x)); }
                        Op::Echo(q, x) => { let _ = write!(s, " @http(url: \"http://up.test/echo/{}\", query: [{}]{})", f.name, q.iter().map(|(k, v)| format!("{{key: {k:?}, value: {}}}", v.sdl())).collect::<Vec<_>>().join(", "), sel(x)); }
                        Op::Data => { let _ = write!(s, " @http(url: \"http://up.test/data/{}\")", f.name); }
                    }
                }
                match (&f.out, f.omit) {
                    (Some(n), _) => { let _ = write!(s, " @modify(name: {n:?})"); }
                    (None, true) => s += " @modify(omit: true)",
                    _ => {}
                }
                s += "\n";
            }
            s += "}\n";
        }
        s
    }

    /// what the upstream holds for a field, by the place it is asked at
    fn held(&self, ty: &Ty, key: &str) -> Value {
        let mut r = Rng::new(h64(&(self.seed, key)));
        self.raw(&mut r, ty, 3)
    }
    fn raw(&self, r: &mut Rng, ty: &Ty, depth: usize) -> Value {
        match ty {
            Ty::Json => gen_small(r, 2),
            Ty::Int => json!(r.below(2000) as i64 - 1000),
            Ty::Float => json!(r.below(100) as f64 + 0.5),
            Ty::Str => json!(r.string(&["a", "b ", "é", "-", "7", "true", "{", "z"], 4)),
            Ty::Bool => json!(r.bool()),
            Ty::Ints => json!((0..r.below(4)).map(|_| r.below(50)).collect::<Vec<_>>()),
            Ty::En => json!(r.pick(ALIAS).0),
            Ty::Ens => json!((0..r.below(3)).map(|_| r.pick(ALIAS).0).collect::<Vec<_>>()),
            Ty::Obj(i) => {
                let mut m = Map::new();
                for f in &self.objs[*i].fields {
                    if !f.ops.is_empty() { continue }
                    if f.name == "id" { m.insert("id".into(), json!(r.below(9))); continue }
                    if r.chance(1, 8) { if r.bool() { m.insert(f.name.clone(), Value::Null); } continue }
                    let leaf = !matches!(f.ty, Ty::Obj(_) | Ty::Objs(_));
                    if leaf || depth > 0 { m.insert(f.name.clone(), self.raw(r, &f.ty, depth.saturating_sub(1))); }
                }
                Value::Object(m)
            }
            Ty::Objs(i) => Value::Array((0..r.below(3)).map(|_| self.raw(r, &Ty::Obj(*i), depth)).collect()),
        }
    }

    // --------------------------------------------------------- the model
    fn op(&self, o: &Obj, f: &Fd, op: &Op, value: &Value, args: &Value) -> Value {
        let select = |v: Value, x: &Option<X>| match x { None => v, Some(x) => prefixed(x).eval(&Scope { value, args: &v, w: self }) };
        match op {
            Op::Expr(x) => x.eval(&Scope { value, args, w: self }),
            Op::Of(x) => select(self.held(&f.ty_held(), &format!("/of/{}/{}/{}", o.name, f.name, text(&value["id"]))), x),
            Op::Data => self.held(&f.ty, &format!("/data/{}", f.name)),
            Op::Echo(q, x) => {
                let s = Scope { value, args, w: self };
                let m: Map<String, Value> = q.iter().map(|(k, v)| (k.clone(), json!(match v { X::Tpl(t) => t.iter().map(|x| match x { Seg::L(l) => l.clone(), Seg::E(p) => s.find(p).map(|v| text(&v)).unwrap_or_default() }).collect::<String>(), _ => String::new() }))).collect();
                select(json!({"fn": f.name, "got": m}), x)
            }
            Op::Call(steps) => {
                let mut cur = args.clone();
                for (name, a) in steps {
                    if !a.is_empty() { cur = X::Obj(a.clone()).eval(&Scope { value, args: &cur, w: self }) }
                    let t = self.query.fields.iter().find(|f| f.name == *name).unwrap();
                    if !a.is_empty() { if let Value::Object(m) = &mut cur { for (n, _, d) in &t.args { if let (Some(X::Int(d)), None) = (d, m.get(n)) { m.insert(n.clone(), json!(d)); } } } }
                    cur = self.field(&self.query, t, value, &cur);
                }
                cur
            }
        }
    }

    /// the value of a field with resolvers, before selection
    fn field(&self, o: &Obj, f: &Fd, value: &Value, args: &Value) -> Value {
        let v = f.ops.iter().map(|op| self.op(o, f, op, value, args)).reduce(merge).unwrap_or_else(|| value.get(&f.name).cloned().unwrap_or(Value::Null));
        // a renamed field is resolved by its path
        if (!f.ops.is_empty() || f.out.is_some()) && matches!(f.ty, Ty::En | Ty::Ens) { canonical(v) } else { v }
    }
}

impl Fd {
    fn ty_held(&self) -> Ty { self.ty.clone() }
}

fn canonical(v: Value) -> Value {
    match v {
        Value::String(s) => json!(ALIAS.iter().find(|a| a.0 == s).map(|a| a.1)),
        Value::Array(a) => Value::Array(a.into_iter().map(canonical).collect()),
        v => v,
    }
}

/// a selection reads the answer of the upstream
fn prefixed(x: &X) -> X {
    match x {
        X::Tpl(t) => X::Tpl(t.iter().map(|s| match s { Seg::E(p) => Seg::E([vec!["args".to_string()], p.clone()].concat()), l => l.clone() }).collect()),
        X::List(l) => X::List(l.iter().map(prefixed).collect()),
        X::Obj(o) => X::Obj(o.iter().map(|(k, v)| (k.clone(), prefixed(v))).collect()),
        x => x.clone(),
    }
}

fn merge(a: Value, b: Value) -> Value {
    match (a, b) {
        (Value::Array(mut a), Value::Array(b)) => { a.extend(b); Value::Array(a) }
        (Value::Array(mut a), b) => { a.push(b); Value::Array(a) }
        (Value::Object(mut a), Value::Object(b)) => {
            for (k, v) in b { let v = match a.remove(&k) { Some(x) => merge(x, v), None => v }; a.insert(k, v); }
            Value::Object(a)
        }
        (_, b) => b,
    }
}

fn gen_small(r: &mut Rng, depth: usize) -> Value {
    match r.below(if depth == 0 { 5 } else { 7 }) {
        0 => json!(r.below(100)),
        1 => json!(r.below(10) as f64 + 0.25),
        2 => json!(*r.pick(&["x", "text", "", "é ü", "12", "true", "null", "a/b", "0x1", "[1]"])),
        3 => json!(r.bool()),
        4 => Value::Null,
        5 => Value::Array((0..r.below(3)).map(|_| gen_small(r, depth - 1)).collect()),
        _ => Value::Object((0..r.below(3)).map(|i| (format!("k{i}"), gen_small(r, depth - 1))).collect()),
    }
}

// ------------------------------------------------------------- generator
struct Src { paths: Vec<Vec<String>> }

fn expr(r: &mut Rng, s: &Src) -> Seg { Seg::E(r.pick(&s.paths).clone()) }

fn template(r: &mut Rng, s: &Src) -> X {
    X::Tpl(match r.below(5) {
        0 => vec![Seg::L((*r.pick(&["p ", "x-", "é:", "/"])).into()), expr(r, s)],
        1 => vec![expr(r, s), Seg::L((*r.pick(&[" q", "-", "/e"])).into()), expr(r, s)],
        _ => vec![expr(r, s)],
    })
}

fn tree(r: &mut Rng, s: &Src, depth: usize) -> X {
    match r.below(if depth == 0 { 8 } else { 11 }) {
        0 => X::Int(r.below(100) as i64 - 50),
        1 => X::Str((*r.pick(&["const", "12", "", "true", "{}", "é"])).into()),
        2 => X::Bool(r.bool()),
        3 => if r.bool() { X::Null } else { X::Float(r.below(9) as f64 + 0.5) },
        4..=7 => template(r, s),
        8 => X::List((0..r.below(3)).map(|_| tree(r, s, depth - 1)).collect()),
        _ => X::Obj((0..r.below(4)).map(|i| (format!("k{i}"), tree(r, s, depth - 1))).collect()),
    }
}

/// an object that fits a type
fn object(r: &mut Rng, w: &World, i: usize, s: &Src) -> X {
    let mut o = vec![("id".to_string(), X::Int(r.below(9) as i64))];
    for f in w.objs[i].fields.iter().filter(|f| f.ops.is_empty() && f.name != "id") {
        if r.chance(1, 5) { continue }
        let x = match f.ty {
            Ty::Json => tree(r, s, 1),
            Ty::Int => X::Int(r.below(100) as i64),
            Ty::Float => X::Float(r.below(10) as f64 + 0.5),
            Ty::Str => X::Str((*r.pick(&["s", "12", "é"])).into()),
            Ty::Bool => X::Bool(r.bool()),
            Ty::Ints => X::List((0..r.below(3)).map(|_| X::Int(r.below(9) as i64)).collect()),
            Ty::En | Ty::Ens => continue,
            Ty::Obj(j) => if r.bool() { object(r, w, j, s) } else { continue },
            Ty::Objs(j) => if r.bool() { X::List((0..r.below(3)).map(|_| object(r, w, j, s)).collect()) } else { continue },
        };
        o.push((f.name.clone(), x));
    }
    X::Obj(o)
}

fn sp(p: &[&str]) -> Vec<String> { p.iter().map(|x| x.to_string()).collect() }

fn sources(w: &World, o: Option<&Obj>, args: &[(String, &'static str, Option<X>)]) -> Src {
    let mut paths = vec![sp(&["vars", "v"]), sp(&["env", "EV"]), sp(&["headers", "tenant"])];
    for (n, ..) in args { paths.push(sp(&["args", n])); paths.push(sp(&["args", n])); }
    if args.is_empty() { paths.push(sp(&["vars", "none"])) }
    if let Some(o) = o {
        for f in o.fields.iter().filter(|f| f.ops.is_empty()) {
            paths.push(sp(&["value", &f.name]));
            match f.ty {
                Ty::Obj(j) => { paths.push(sp(&["value", &f.name, "id"])); for g in w.objs[j].fields.iter().filter(|g| g.ops.is_empty()).take(2) { paths.push(sp(&["value", &f.name, &g.name])) } }
                Ty::Json => { paths.push(sp(&["value", &f.name, "k0"])); }
                _ => {}
            }
        }
        paths.push(sp(&["value", "none"]));
    }
    Src { paths }
}

fn args(r: &mut Rng) -> Vec<(String, &'static str, Option<X>)> {
    if r.chance(1, 3) { return vec![] }
    let all: [(&str, &'static str); 4] = [("x", "Int!"), ("y", "JSON"), ("s", "String"), ("l", "[Int]")];
    let mut out: Vec<_> = r.subset(&all, 1, 2).into_iter().map(|(n, t)| (n.to_string(), t, None)).collect();
    if r.chance(1, 4) { out.push(("num".into(), "Int", Some(X::Int(r.below(5) as i64 + 100)))) }
    out
}

/// the arguments of a step for a function
fn pass(r: &mut Rng, f: &Fd, s: &Src) -> Vec<(String, X)> {
    let mut out = vec![];
    for (n, t, _) in &f.args {
        if !t.ends_with('!') && r.chance(1, 6) { continue }
        let x = match *t {
            "Int!" | "Int" => match s.paths.iter().filter(|p| p.len() == 2 && matches!(p[1].as_str(), "x" | "num" | "id")).cloned().collect::<Vec<_>>() {
                p if !p.is_empty() && r.bool() => X::Tpl(vec![expr(r, &Src { paths: p })]),
                _ => X::Int(r.below(50) as i64),
            },
            "String" => match s.paths.iter().filter(|p| matches!(p[0].as_str(), "vars" | "env" | "headers") || (p.len() == 2 && matches!(p[1].as_str(), "s" | "txt"))).cloned().collect::<Vec<_>>() {
                p if !p.is_empty() && r.bool() => X::Tpl(vec![expr(r, &Src { paths: p })]),
                _ => X::Str((*r.pick(&["given", "é", "12"])).into()),
            },
            "[Int]" => X::List((0..r.below(3)).map(|_| X::Int(r.below(9) as i64)).collect()),
            _ => tree(r, s, 1),
        };
        out.push((n.clone(), x));
    }
    out
}

fn selection(r: &mut Rng, paths: &[&[&str]]) -> Option<X> {
    if r.chance(1, 2) { return None }
    let s = Src { paths: paths.iter().map(|p| sp(p)).collect() };
    Some(match r.below(3) { 0 => X::Obj((0..r.range(1, 3)).map(|i| (format!("k{i}"), template(r, &s))).collect()), 1 => X::List((0..r.range(1, 3)).map(|_| template(r, &s)).collect()), _ => template(r, &s) })
}

fn echo_query(r: &mut Rng, s: &Src) -> Vec<(String, X)> {
    let scalar: Vec<Vec<String>> = s.paths.iter().filter(|p| matches!(p[0].as_str(), "vars" | "env" | "headers") || matches!(p[1].as_str(), "id" | "x" | "s" | "num" | "txt" | "flag")).filter(|p| p[1] != "none" && p.len() == 2).cloned().collect();
    let s = Src { paths: scalar };
    (0..r.range(1, 3)).map(|i| (format!("q{i}"), template(r, &s))).collect()
}

fn enum_op(r: &mut Rng, list: bool) -> Op {
    let one = |r: &mut Rng| X::Str(r.pick(ALIAS).0.into());
    Op::Expr(if list { X::List((0..r.below(4)).map(|_| one(r)).collect()) } else { one(r) })
}

fn world(r: &mut Rng) -> World {
    let mut w = World { seed: r.next(), ..World::default() };
    w.vars.insert("v".into(), "var text".into());
    w.env.insert("EV".into(), "env-text".into());
    w.headers.insert("tenant".into(), "t/1".into());
    w.query.name = "Query".into();
    let n = r.range(2, 4);
    for i in 0..n { w.objs.push(Obj { name: format!("T{i}"), ..Obj::default() }) }
    // data, from the innermost type outwards
    for i in (0..n).rev() {
        let mut fs = vec![("id".to_string(), Ty::Int)];
        let mut all = vec![("num", Ty::Int), ("txt", Ty::Str), ("flag", Ty::Bool), ("frac", Ty::Float), ("any", Ty::Json), ("more", Ty::Json), ("ints", Ty::Ints), ("en", Ty::En)];
        if i + 1 < n { all.push(("inner", Ty::Obj(r.range(i + 1, n - 1)))); all.push(("list", Ty::Objs(r.range(i + 1, n - 1)))); }
        for (k, t) in r.subset(&all, 3, 4) { fs.push((k.into(), t)) }
        if i + 1 < n && !fs.iter().any(|f| matches!(f.1, Ty::Obj(_))) { fs.push(("inner".into(), Ty::Obj(i + 1))) }
        w.objs[i].fields = fs.into_iter().map(|(name, ty)| Fd { name, out: None, omit: false, ty, args: vec![], ops: vec![] }).collect();
    }
    // functions: later ones call earlier ones
    let nf = r.range(3, 6);
    for k in 0..nf {
        let a = args(r);
        let s = sources(&w, None, &a);
        let (ty, op) = match r.below(7) {
            0 | 1 => (Ty::Json, Op::Expr(tree(r, &s, 2))),
            2 => { let j = r.below(n); (Ty::Obj(j), Op::Expr(object(r, &w, j, &s))) }
            3 => (Ty::Json, Op::Echo(echo_query(r, &s), selection(r, &[&["fn"], &["got", "q0"], &["got"], &["none"]]))),
            4 => if r.bool() { (Ty::En, enum_op(r, false)) } else { (Ty::Ens, enum_op(r, true)) },
            _ if k > 0 => call(r, &w, &s),
            _ => (Ty::Json, Op::Expr(template(r, &s))),
        };
        w.query.fields.push(Fd { name: format!("f{k}"), out: None, omit: false, ty, args: a, ops: vec![op] });
    }
    for k in 0..r.range(1, 2) {
        let j = r.below(n.min(2));
        w.query.fields.push(Fd { name: format!("d{k}"), out: None, omit: false, ty: if k == 1 { Ty::Objs(j) } else { Ty::Obj(j) }, args: vec![], ops: vec![Op::Data] });
    }
    // operated fields of the types
    for i in 0..n {
        let base = w.objs[i].clone();
        for k in 0..r.range(1, 5) {
            let a = args(r);
            let s = sources(&w, Some(&base), &a);
            let (ty, ops) = match r.below(10) {
                0..=2 => (Ty::Json, vec![Op::Expr(tree(r, &s, 2))]),
                3 if i + 1 < n => { let j = r.range(i + 1, n - 1); (Ty::Obj(j), vec![Op::Expr(object(r, &w, j, &s))]) }
                4 if i + 1 < n => { let j = r.range(i + 1, n - 1); (Ty::Objs(j), vec![Op::Expr(X::List((0..r.below(3)).map(|_| object(r, &w, j, &s)).collect()))]) }
                5 => (Ty::Json, vec![Op::Of(selection(r, &[&["k0"], &["k1"], &["k0", "k1"]]))]),
                6 if i + 1 < n => { let j = r.range(i + 1, n - 1); (if r.bool() { Ty::Obj(j) } else { Ty::Objs(j) }, vec![Op::Of(None)]) }
                7 => (Ty::Json, (0..r.range(2, 3)).map(|_| match r.below(4) { 0 => Op::Echo(echo_query(r, &s), None), 1 => Op::Expr(tree(r, &s, 1)), _ => Op::Expr(X::Obj((0..r.range(1, 3)).map(|i| (format!("k{i}"), tree(r, &s, 1))).collect())) }).collect()),
                8 => if r.bool() { (Ty::En, vec![enum_op(r, false)]) } else { (Ty::Ens, vec![enum_op(r, true)]) },
                _ => { let (t, o) = call(r, &w, &s); (t, vec![o]) }
            };
            // a call may lead outwards, where only plain data may follow
            w.objs[i].fields.push(Fd { name: format!("o{k}"), out: None, omit: false, ty, args: a, ops });
        }
    }
    // renames, omissions, additions
    for i in 0..=n {
        let o = if i == n { w.query.clone() } else { w.objs[i].clone() };
        let mut new = o.clone();
        for (k, f) in new.fields.iter_mut().enumerate() {
            if f.name == "id" || (i == n && f.name.starts_with('d')) { if r.chance(1, 6) { f.out = Some(format!("r{k}")) } continue }
            match r.below(8) { 0 => f.out = Some(format!("r{k}")), 1 => f.omit = true, 2 if i < n && f.name == "any" => f.out = Some("renamed".into()), _ => {} }
        }
        for k in 0..r.below(3) {
            if let Some(p) = path(r, &w, &o, i == n) { new.added.push((format!("a{k}"), p)) }
        }
        if i == n { w.query = new } else { w.objs[i] = new }
    }
    w
}

fn call(r: &mut Rng, w: &World, s: &Src) -> (Ty, Op) {
    let fs: Vec<Fd> = w.query.fields.iter().filter(|f| f.name.starts_with('f')).cloned().collect();
    let mut steps = vec![];
    let mut last = Ty::Json;
    let len = *r.pick(&[1, 1, 2, 2, 3]);
    let mut cur = Src { paths: s.paths.clone() };
    for i in 0..len {
        let f = r.pick(&fs).clone();
        let mut a = pass(r, &f, &cur);
        while a.is_empty() && !f.args.is_empty() && i == 0 { a = pass(r, &f, &cur) }
        last = f.ty.clone();
        steps.push((f.name.clone(), a));
        // what follows reads the answer
        cur.paths.retain(|p| p[0] != "args");
        match &f.ty {
            Ty::Json => for p in [&["args", "k0"][..], &["args", "k1"], &["args", "got", "q0"], &["args", "k0", "k1"]] { cur.paths.push(sp(p)) },
            Ty::Obj(_) => for p in [&["args", "id"][..], &["args", "any"], &["args", "txt"]] { cur.paths.push(sp(p)) },
            _ => {}
        }
    }
    (last, Op::Call(steps))
}

/// a path to plain data, that may start at an operated field
fn path(r: &mut Rng, w: &World, o: &Obj, root: bool) -> Option<Vec<String>> {
    let starts: Vec<&Fd> = o.fields.iter().filter(|f| match f.ty { Ty::Obj(_) | Ty::Objs(_) => true, Ty::Ints => true, _ => root && f.name.starts_with('d') }).collect();
    if starts.is_empty() { return None }
    let f = (*r.pick(&starts)).clone();
    let mut p = vec![f.name.clone()];
    let mut ty = f.ty;
    loop {
        match ty {
            Ty::Objs(j) => { p.push(r.below(2).to_string()); ty = Ty::Obj(j); }
            Ty::Ints => { p.push(r.below(2).to_string()); ty = Ty::Int; }
            Ty::Obj(j) => {
                let next: Vec<&Fd> = w.objs[j].fields.iter().filter(|f| f.ops.is_empty() && !matches!(f.ty, Ty::En | Ty::Ens)).collect();
                let g = (*r.pick(&next)).clone();
                p.push(g.name.clone());
                ty = g.ty;
                if matches!(ty, Ty::Obj(_)) && r.chance(1, 3) { break }
            }
            _ => break,
        }
    }
    Some(p)
}

// ------------------------------------------------------------- queries
#[derive(Clone, Debug)]
struct Sel { key: String, name: String, args: Vec<(String, X)>, what: What, sub: Vec<Sel> }
#[derive(Clone, Debug)]
enum What { Field(String), Added(usize), Typename }

fn leaf_of(w: &World, o: &Obj, p: &[String]) -> Ty {
    let mut ty = o.fields.iter().find(|f| f.name == p[0]).unwrap().ty.clone();
    for x in &p[1..] {
        ty = match ty {
            Ty::Objs(j) => Ty::Obj(j),
            Ty::Ints => Ty::Int,
            Ty::Obj(j) => w.objs[j].fields.iter().find(|f| f.name == *x).unwrap().ty.clone(),
            t => t,
        }
    }
    ty
}

fn literal(r: &mut Rng, t: &str) -> X {
    match t {
        "Int!" | "Int" => X::Int(r.below(90) as i64),
        "String" => X::Str((*r.pick(&["s", "two words", "7", "é", "true"])).into()),
        "[Int]" => X::List((0..r.below(3)).map(|_| X::Int(r.below(9) as i64)).collect()),
        _ => match r.below(6) { 0 => X::Int(5), 1 => X::Str("j".into()), 2 => X::Bool(true), 3 => X::List(vec![X::Int(1), X::Str("m".into())]), 4 => X::Null, _ => X::Obj(vec![("k0".into(), X::Int(3)), ("k1".into(), X::Str("deep".into()))]) },
    }
}

fn select(r: &mut Rng, w: &World, o: &Obj, depth: usize, c: &C) -> Vec<Sel> {
    let mut out = vec![];
    let mut pool: Vec<What> = o.fields.iter().filter(|f| !f.omit).map(|f| What::Field(f.name.clone())).collect();
    pool.extend((0..o.added.len()).map(What::Added));
    r.shuffle(&mut pool);
    if r.chance(1, 12) { pool.insert(0, What::Typename) }
    let n = r.range(1, 5);
    for what in pool {
        if out.len() >= n { break }
        let (name, f, ty) = match &what {
            What::Typename => { out.push(Sel { key: format!("t{}", out.len()), name: "__typename".into(), args: vec![], what, sub: vec![] }); continue }
            What::Field(x) => { let f = o.fields.iter().find(|f| f.name == *x).unwrap(); (f.shown().to_string(), f, f.ty.clone()) }
            What::Added(i) => { let (n, p) = &o.added[*i]; (n.clone(), o.fields.iter().find(|f| f.name == p[0]).unwrap(), leaf_of(w, o, p)) }
        };
        let sub = match ty {
            Ty::Obj(j) | Ty::Objs(j) => { if depth == 0 { continue } select(r, w, &w.objs[j], depth - 1, c) }
            _ => vec![],
        };
        for _ in 0..if f.args.is_empty() { 1 } else { r.range(1, 2) } {
            let mut a = vec![];
            for (n, t, _) in &f.args { if t.ends_with('!') || r.chance(3, 4) { a.push((n.clone(), literal(r, t))) } }
            out.push(Sel { key: if r.chance(1, 4) || !f.args.is_empty() { format!("{}_{}", name, out.len()) } else { name.clone() }, name: name.clone(), args: a, what: what.clone(), sub: sub.clone() });
        }
    }
    if out.is_empty() { out.push(Sel { key: "t".into(), name: "__typename".into(), args: vec![], what: What::Typename, sub: vec![] }) }
    out
}

fn print(s: &[Sel]) -> String {
    s.iter().map(|s| {
        let mut t = if s.key == s.name { s.name.clone() } else { format!("{}: {}", s.key, s.name) };
        if !s.args.is_empty() { let _ = write!(t, "({})", s.args.iter().map(|(k, v)| format!("{k}: {}", v.sdl())).collect::<Vec<_>>().join(", ")); }
        if !s.sub.is_empty() { let _ = write!(t, " {{ {} }}", print(&s.sub)); }
        t
    }).collect::<Vec<_>>().join(" ")
}

fn project(w: &World, o: &Obj, v: &Value, sels: &[Sel], c: &C) -> Value {
    let mut m = Map::new();
    for s in sels {
        let scope = Scope { value: v, args: &Value::Null, w };
        let mut args = X::Obj(s.args.clone()).eval(&scope);
        let source = match &s.what { What::Typename => None, What::Field(x) => Some(x), What::Added(i) => Some(&o.added[*i].1[0]) };
        if let Some(f) = source.and_then(|x| o.fields.iter().find(|f| f.name == *x)) {
            for (n, _, d) in &f.args { if let Some(X::Int(d)) = d { args.as_object_mut().unwrap().entry(n.clone()).or_insert(json!(d)); } }
        }
        let (raw, ty) = match &s.what {
            What::Typename => (json!(o.name), Ty::Str),
            What::Field(x) => {
                let f = o.fields.iter().find(|f| f.name == *x).unwrap();
                for op in &f.ops { c.count(match op { Op::Expr(_) => "expr", Op::Call(_) => "call", Op::Of(None) | Op::Data => "http", Op::Echo(_, None) => "echo", Op::Of(_) | Op::Echo(..) => "select" }, 1); if matches!(op, Op::Echo(_, Some(_))) { c.count("echo", 1) } }
                if f.out.is_some() { c.count("renamed", 1) }
                if f.ops.len() > 1 { c.count("merged", 1) }
                if !f.ops.is_empty() && matches!(f.ty, Ty::En | Ty::Ens) { c.count("enum-alias", 1) }
                (w.field(o, f, v, &args), f.ty.clone())
            }
            What::Added(i) => {
                let p = &o.added[*i].1;
                let f = o.fields.iter().find(|f| f.name == p[0]).unwrap();
                c.count("added", 1);
                (at(&w.field(o, f, v, &args), &p[1..]).unwrap_or(Value::Null), leaf_of(w, o, p))
            }
        };
        m.insert(s.key.clone(), shape(w, &ty, &raw, s, c));
    }
    Value::Object(m)
}

fn shape(w: &World, ty: &Ty, raw: &Value, s: &Sel, c: &C) -> Value {
    match (ty, raw) {
        (Ty::Obj(j), Value::Object(_)) => project(w, &w.objs[*j], raw, &s.sub, c),
        (Ty::Objs(j), Value::Array(a)) => Value::Array(a.iter().map(|x| shape(w, &Ty::Obj(*j), x, s, c)).collect()),
        (_, raw) => raw.clone(),
    }
}

/// where two answers differ first, and what is there
fn differs(w: &World, o: &Obj, got: &Value, want: &Value, sels: &[Sel]) -> (Value, String) {
    for s in sels {
        let (g, x) = (&got[&s.key], &want[&s.key]);
        if g == x { continue }
        let f = match &s.what {
            What::Typename => return (json!("__typename"), "typename".into()),
            What::Field(n) => o.fields.iter().find(|f| f.name == *n),
            What::Added(i) => o.fields.iter().find(|f| f.name == o.added[*i].1[0]),
        }.unwrap();
        let ty = match &s.what { What::Added(i) => leaf_of(w, o, &o.added[*i].1), _ => f.ty.clone() };
        if let Ty::Obj(j) | Ty::Objs(j) = ty {
            if let (Value::Object(_), Value::Object(_)) = (g, x) { return differs(w, &w.objs[j], g, x, &s.sub) }
            if let (Value::Array(a), Value::Array(b)) = (g, x) {
                if a.len() == b.len() { for (a, b) in a.iter().zip(b) { if a != b { return differs(w, &w.objs[j], a, b, &s.sub) } } }
            }
        }
        let ops = f.ops.iter().map(|op| match op { Op::Expr(_) => "expr", Op::Call(_) => "call", Op::Of(_) | Op::Data | Op::Echo(..) => "http" }).collect::<Vec<_>>().join("+");
        let kind = format!("{}{}{ops}", if matches!(s.what, What::Added(_)) { "added:" } else { "" }, if f.out.is_some() { "renamed:" } else { "" });
        return (json!({"selection": format!("{} in {}", print(&[s.clone()]), o.name), "field": format!("{f:?}"), "added": format!("{:?}", o.added), "got": g, "want": x}), kind);
    }
    (json!("nothing"), "errors".into())
}

fn operators(c: &C) {
    let mut r = c.rng("operators");
    let rt = rt_paused();
    let mut refused: BTreeMap<String, u64> = BTreeMap::new();
    let total = c.n(160, 2500);
    for _ in 0..total {
        let w = world(&mut r);
        let sdl = w.sdl();
        let w2 = w.clone();
        let up = Upstream::new(move |q: &UReq| {
            let p = q.path();
            let parts: Vec<&str> = p.trim_start_matches('/').split('/').collect();
            match parts[..] {
                ["echo", f] => URes::json(json!({"fn": f, "got": q.query().into_iter().map(|(k, v)| (k, json!(v))).collect::<Map<_, _>>()})),
                ["data", f] => { let f = w2.query.fields.iter().find(|x| x.name == f).unwrap(); URes::json(w2.held(&f.ty, &p)) }
                ["of", o, f, _] => { let f = w2.objs.iter().find(|x| x.name == o).unwrap().fields.iter().find(|x| x.name == f).unwrap(); URes::json(w2.held(&f.ty, &p)) }
                _ => URes::json(json!({"unexpected": p})),
            }
        });
        let c2 = c.clone();
        let env: Vec<(&str, &str)> = w.env.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        let app = match rt.block_on(async { app(&sdl, runtime_env(up.clone(), &env)) }) {
            Ok(a) => a,
            Err(e) => { *refused.entry(e.chars().take(150).collect()).or_default() += 1; c.check(false, "config:refused", || json!({"error": e, "config": sdl})); continue }
        };
        for _ in 0..6 {
            let sels = select(&mut r, &w, &w.query, 4, c);
            let q = format!("{{ {} }}", print(&sels));
            let headers: Vec<(&str, &str)> = w.headers.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            let got = rt.block_on(async { send(&app, "POST", "/graphql", &headers, json!({"query": q}).to_string()).await });
            let want = project(&w, &w.query, &Value::Null, &sels, c);
            let body = got.as_ref().map(|g| g.json()).unwrap_or(Value::Null);
            c2.count("answers", 1);
            let ok = body["data"] == want && body.get("errors").is_none();
            let (place, kind) = if ok { Default::default() } else { differs(&w, &w.query, &body["data"], &want, &sels) };
            c2.check(ok, &format!("operators:answer:{kind}"), || json!({"differs": place, "query": q, "got": body, "want": want, "config": sdl}));
            c2.case(&(&sdl, &q), true);
            c2.sample(|| json!({"query": q, "answer": body}));
        }
        // what is omitted or renamed isn't there under its old name
        for (path, o) in w.objs.iter().map(|o| (o.name.as_str(), o)).chain([("Query", &w.query)]) {
            let q = format!("{{ __type(name: {path:?}) {{ fields {{ name }} }} }}");
            let body = rt.block_on(async { query(&app, &q).await }).json();
            let Some(fs) = body["data"]["__type"]["fields"].as_array() else { continue };
            let mut names: Vec<String> = fs.iter().filter_map(|f| f["name"].as_str().map(String::from)).collect();
            let mut want: Vec<String> = o.fields.iter().filter(|f| !f.omit).map(|f| f.shown().to_string()).chain(o.added.iter().map(|a| a.0.clone())).collect();
            names.sort();
            want.sort();
            c.count("hidden", o.fields.iter().filter(|f| f.omit || f.out.is_some()).count() as u64);
            c.check(names == want, "operators:visible-fields", || json!({"type": path, "got": names, "want": want, "config": sdl}));
        }
    }
    for (e, n) in refused { c.count(&format!("refused: {e}"), n) }
}

fn lift(c: &C) {
    let mut r = c.rng("lift");
    for _ in 0..c.n(50, 500) {
        let v = gen_json(&mut r, 3);
        c.check(*v.clone().lift() == v && v.clone().lift().take() == v, "lift:changes-value", || json!(v));
    }
    let x = Arc::new(5);
    let y = x.clone().lift().take();
    c.check(Arc::ptr_eq(&x, &y), "lift:other-value", || json!(null));
}
