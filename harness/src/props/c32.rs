//! C32: the N+1 report names the paths that call an upstream once per item.
use std::collections::{BTreeMap, BTreeSet};

use serde_json::{json, Value};
use tailcall::core::config::Config;
use tailcall_valid::Validator;

use crate::common::*;
use crate::mock::*;

pub fn run(c: &C) {
    c.rule("one case = one configuration and its report, or one reported or unreported path executed against a counting upstream; non-trivial = the report has a path, or the path crosses a list; distinct by configuration and path");
    c.assume("a field with a resolver is batched iff each of its resolvers is (batchKey given, or batch: true for a GraphQL upstream); constants, scripts and calls to other fields count as resolvers that are not batched");
    c.assume("paths are made of fields: members of a union and implementers of an interface are not looked into, and a path goes on below an unbatched resolver only while no list has been crossed");
    c.assume("with recursive types there are infinitely many paths: there each reported path must be real, and for each top-level field or entity each resolver that it can lead to must be reported at least once; the query type is not used as the type of a field");
    c.section("acyclic", acyclic);
    c.section("cyclic", cyclic);
    c.section("served", served);
    c.floor("configs", 250);
    c.floor("paths", 1200);
    c.floor("clean-configs", 10);
    c.floor("entity-paths", 100);
    c.floor("cyclic-configs", 150);
    c.floor("cyclic-pairs", 400);
    c.floor("served-npo", 40);
    c.floor("served-clean", 40);
}

#[derive(Clone, Debug, Hash, PartialEq)]
enum R { No, Plain(&'static str), Batched(&'static str), Mixed, BothBatched }
impl R {
    fn has(&self) -> bool { *self != R::No }
    fn batched(&self) -> bool { matches!(self, R::Batched(_) | R::BothBatched) }
    fn render(&self, id: &str) -> String {
        let http = format!("@http(url: \"http://u.test/{id}\")");
        let bhttp = format!("@http(url: \"http://u.test/{id}\", query: [{{key: \"id\", value: \"{{{{.value.id}}}}\"}}], batchKey: [\"id\"])");
        let gql = format!("@graphQL(url: \"http://g.test/q\", name: \"{id}\")");
        let bgql = format!("@graphQL(url: \"http://g.test/q\", name: \"{id}\", batch: true)");
        let bgrpc = format!("@grpc(url: \"http://p.test/\", method: \"a.B.{id}\", batchKey: [\"id\"])");
        match self {
            R::No => String::new(),
            R::Plain("http") => http,
            R::Plain("graphql") => gql,
            R::Plain("graphql-false") => format!("@graphQL(url: \"http://g.test/q\", name: \"{id}\", batch: false)"),
            R::Plain("grpc") => format!("@grpc(url: \"http://p.test/\", method: \"a.B.{id}\")"),
            R::Plain("expr") => "@expr(body: 1)".into(),
            R::Plain("js") => "@js(name: \"f\")".into(),
            R::Plain("http-nokey") => format!("@http(url: \"http://u.test/{id}\", batchKey: [])"),
            R::Plain(_) => format!("@call(steps: [{{query: \"f0\", args: {{a: {}}}}}])", json!(id)),
            R::Batched("http") => bhttp,
            R::Batched("graphql") => bgql,
            R::Batched(_) => bgrpc,
            R::Mixed => format!("{bhttp} {http}"),
            R::BothBatched => format!("{bhttp} {bgql}"),
        }
    }
}
fn resolver(r: &mut Rng, p: u32) -> R {
    if !r.chance(p, 100) { return R::No }
    match r.below(20) {
        0..=5 => R::Plain("http"),
        6 => R::Plain("graphql"),
        7 => R::Plain("graphql-false"),
        8 => R::Plain("grpc"),
        9 => R::Plain("expr"),
        10 => R::Plain("js"),
        11 => R::Plain("call"),
        12 => R::Plain("http-nokey"),
        13 | 14 => R::Batched("http"),
        15 | 16 => R::Batched("graphql"),
        17 => R::Batched("grpc"),
        18 => R::Mixed,
        _ => R::BothBatched,
    }
}

#[derive(Clone, Debug, Hash)]
struct F { name: String, ty: String, wrap: usize, r: R }
impl F {
    fn list(&self) -> bool { self.wrap >= 2 }
    fn ty(&self) -> String {
        let t = &self.ty;
        match self.wrap { 0 => t.clone(), 1 => format!("{t}!"), 2 => format!("[{t}]"), 3 => format!("[{t}!]!"), 4 => format!("[{t}]!"), _ => format!("[[{t}!]]") }
    }
}
#[derive(Clone, Debug, Hash)]
struct T { name: String, fields: Vec<F>, r: R }
#[derive(Clone, Debug, Hash)]
struct W { types: Vec<T>, query: String }

impl W {
    fn sdl(&self) -> String {
        let mut s = format!("schema @server @upstream(batch: {{delay: 1, maxSize: 100}}) {{ query: {} }}\n", self.query);
        for t in &self.types {
            s += &format!("type {} {} {{\n", t.name, t.r.render(&format!("e{}", t.name)));
            for f in &t.fields { s += &format!("  {}: {} {}\n", f.name, f.ty(), f.r.render(&format!("{}{}", t.name, f.name))); }
            s += "}\n";
        }
        s
    }
    fn get(&self, n: &str) -> Option<&T> { self.types.iter().find(|t| t.name == n) }
    /// All paths below `t`, with states never repeated on one path.
    fn paths(&self, t: &str, list: bool, seen: &mut Vec<(String, bool)>, pre: &mut Vec<String>, out: &mut Vec<(Vec<String>, (String, String))>) {
        if out.len() > 20_000 { return }
        let st = (t.to_string(), list);
        if seen.contains(&st) { return }
        let Some(ty) = self.get(t) else { return };
        seen.push(st);
        for f in &ty.fields {
            pre.push(f.name.clone());
            if list && f.r.has() && !f.r.batched() { out.push((pre.clone(), (ty.name.clone(), f.name.clone()))) }
            else { self.paths(&f.ty, list || f.list(), seen, pre, out) }
            pre.pop();
        }
        seen.pop();
    }
    /// What a reported path ends at, if it is one that has to be reported.
    fn walk(&self, p: &[String]) -> Option<(String, String)> {
        let e = self.types.iter().find(|t| t.r.has() && entity(&t.name) == p[0]);
        if let (Some(t), 1) = (e, p.len()) { return (!t.r.batched()).then(|| (t.name.clone(), String::new())) }
        let (mut ty, mut list, rest) = match e { Some(t) if t.r.batched() => (t, true, &p[1..]), Some(_) => return None, None => (self.get(&self.query)?, false, p) };
        for (i, n) in rest.iter().enumerate() {
            let f = ty.fields.iter().find(|f| f.name == *n)?;
            if list && f.r.has() && !f.r.batched() { return (i + 1 == rest.len()).then(|| (ty.name.clone(), f.name.clone())) }
            list |= f.list();
            ty = self.get(&f.ty)?;
        }
        None
    }
    fn all(&self) -> Vec<(Vec<String>, (String, String))> {
        let mut out = vec![];
        self.paths(&self.query, false, &mut vec![], &mut vec![], &mut out);
        for t in &self.types {
            if !t.r.has() { continue }
            let e = entity(&t.name);
            if t.r.batched() { self.paths(&t.name, true, &mut vec![], &mut vec![e], &mut out) }
            else { out.push((vec![e], (t.name.clone(), String::new()))) }
        }
        out
    }
}
fn entity(t: &str) -> String { format!("__entities(representations: [{{ __typename: \"{t}\"}}])") }
fn show(p: &[String]) -> String {
    let mut s = String::from("query");
    for x in p { s += &format!(" {{ {x}"); }
    s + &" }".repeat(p.len())
}
fn unshow(l: &str) -> Option<Vec<String>> {
    let l = l.strip_prefix("query { ")?;
    let mut out = vec![];
    let mut rest = l;
    if rest.starts_with("__entities") {
        let i = rest.find("}])")? + 3;
        out.push(rest[..i].to_string());
        rest = rest[i..].trim_start();
        rest = rest.strip_prefix("{ ").unwrap_or(rest);
    }
    let n = rest.split_whitespace().filter(|w| *w == "}").count();
    for w in rest.split_whitespace() { if w != "{" && w != "}" { out.push(w.to_string()) } }
    (n == out.len()).then_some(out)
}

fn name(r: &mut Rng, i: usize) -> String {
    match r.below(8) { 0 => format!("f_{i}"), 1 => format!("F{i}x"), 2 => format!("z{i}"), 3 => format!("query{i}"), _ => format!("f{i}") }
}
/// Types T0 … Tn; in an acyclic world fields lead to higher numbers only.
fn world(r: &mut Rng, cyclic: bool) -> W {
    let n = r.range(2, if cyclic { 6 } else { 7 });
    let query = if r.chance(1, 4) { "Root".to_string() } else { "Query".to_string() };
    let p = *r.pick(&[0, 15, 30, 50, 80]);
    let lists = *r.pick(&[0u32, 10, 30, 60, 100]);
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    let tn = |i: usize| format!("T{}", order[i]);
    let mut types = vec![];
    for i in 0..=n {
        // i = 0 is the query type, type k is tn(k - 1)
        let k = r.range(1, if cyclic { 4 } else { 4 });
        let mut fields: Vec<F> = vec![];
        for j in 0..k {
            let to_scalar = i == n && !cyclic || r.chance(if cyclic { 2 } else { 3 }, 10);
            let ty = if to_scalar { r.pick(&["String", "Int", "ID", "Missing"]).to_string() } else if cyclic { tn(r.below(n)) } else { tn(r.range(i, n - 1)) };
            let wrap = if r.chance(lists, 100) { r.range(2, 5) } else { r.below(2) };
            let rs = if i == 0 { let x = resolver(r, 100); if r.chance(1, 3) { R::No } else { x } } else { resolver(r, p) };
            fields.push(F { name: name(r, j), ty, wrap, r: rs });
        }
        fields.sort_by(|a, b| a.name.cmp(&b.name));
        fields.dedup_by(|a, b| a.name == b.name);
        r.shuffle(&mut fields);
        types.push(T { name: if i == 0 { query.clone() } else { tn(i - 1) }, fields, r: if i > 0 && r.chance(1, 4) { resolver(r, 100) } else { R::No } });
    }
    r.shuffle(&mut types);
    W { types, query }
}

fn report(c: &C, w: &W, cfg: Option<&Config>) -> Option<Vec<String>> {
    let sdl = w.sdl();
    let cfg = match cfg {
        Some(x) => x.clone(),
        None => match guard(|| Config::from_sdl(&sdl).to_result()) {
            Ok(Ok(x)) => x,
            Ok(Err(e)) => { c.inconclusive(&format!("configuration refused: {e} {sdl}")); return None }
            Err(e) => { c.violation("panic:read", json!({"sdl": sdl, "panic": e})); return None }
        },
    };
    let rep = match guard(|| cfg.n_plus_one()) {
        Ok(x) => x,
        Err(e) => { c.violation("panic:report", json!({"sdl": sdl, "panic": e})); return None }
    };
    let text = rep.to_string();
    let lines: Vec<String> = text.lines().map(|x| x.to_string()).collect();
    c.check(lines.len() == rep.size(), "size", || json!({"sdl": sdl, "size": rep.size(), "text": text}));
    Some(lines)
}

fn acyclic(c: &C) {
    let mut r = c.rng("acyclic");
    for _ in 0..c.n(700, 20_000) {
        let w = world(&mut r, false);
        let want: Vec<String> = w.all().iter().map(|x| show(&x.0)).collect();
        if want.len() > 3000 { continue }
        let Some(got) = report(c, &w, None) else { return };
        c.case(&w, !want.is_empty());
        c.count("configs", 1);
        c.count("paths", want.len() as u64);
        c.count("clean-configs", want.is_empty() as u64);
        c.count("entity-paths", want.iter().filter(|x| x.contains("__entities")).count() as u64);
        c.max("longest-path", want.iter().map(|x| x.matches('{').count() as u64).max().unwrap_or(0));
        if !want.is_empty() { c.sample(|| json!({"sdl": w.sdl(), "report": got})); }
        let (mut a, mut b) = (want.clone(), got.clone());
        a.sort(); b.sort();
        let missing: Vec<&String> = a.iter().filter(|x| !b.contains(x)).collect();
        let extra: Vec<&String> = b.iter().filter(|x| !a.contains(x)).collect();
        c.check(missing.is_empty(), "missing", || json!({"sdl": w.sdl(), "missing": missing, "got": got}));
        c.check(extra.is_empty(), "extra", || json!({"sdl": w.sdl(), "extra": extra, "got": got}));
        if missing.is_empty() && extra.is_empty() { c.check(a == b, "repeated", || json!({"sdl": w.sdl(), "got": got, "want": want})); }
        // The report doesn't depend on how often or in which order types are declared.
        if r.chance(1, 4) {
            let mut w2 = w.clone();
            r.shuffle(&mut w2.types);
            for t in &mut w2.types { r.shuffle(&mut t.fields); }
            let Some(got2) = report(c, &w2, None) else { return };
            let mut g2 = got2.clone();
            g2.sort();
            c.check(b == g2, "order", || json!({"sdl": w.sdl(), "shuffled": w2.sdl(), "got": b, "again": g2}));
        }
    }
}

fn cyclic(c: &C) {
    let mut r = c.rng("cyclic");
    for _ in 0..c.n(700, 20_000) {
        let w = world(&mut r, true);
        let all = w.all();
        if all.len() > 3000 { c.count("skipped-large", 1); continue }
        let Some(got) = report(c, &w, None) else { return };
        c.case(&w, !all.is_empty());
        c.count("cyclic-configs", 1);
        let ends: BTreeMap<String, (String, (String, String))> = all.iter().map(|(p, e)| (show(p), (p[0].clone(), e.clone()))).collect();
        let mut pairs: BTreeSet<(String, (String, String))> = ends.values().cloned().collect();
        let all_pairs = pairs.clone();
        c.count("cyclic-pairs", pairs.len() as u64);
        let mut seen = BTreeSet::new();
        for l in &got {
            c.check(unshow(l).is_some(), "cyclic:unreadable", || json!({"sdl": w.sdl(), "line": l}));
            let end = unshow(l).and_then(|p| w.walk(&p).map(|e| (p[0].clone(), e)));
            c.check(seen.insert(l.clone()), "cyclic:repeated", || json!({"sdl": w.sdl(), "line": l}));
            match end {
                Some(e) => { pairs.remove(&e); c.check(all_pairs.contains(&e), "cyclic:oracle", || json!({"sdl": w.sdl(), "line": l})); }
                None => { c.violation("cyclic:extra", json!({"sdl": w.sdl(), "line": l, "real": ends.keys().collect::<Vec<_>>()})); }
            }
        }
        c.check(pairs.is_empty(), "cyclic:missing", || json!({"sdl": w.sdl(), "missing": pairs, "got": got}));
    }
}

/// Reported paths really call once per item, others don't.
fn served(c: &C) {
    let rt = rt_single();
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let mut r = c.rng("served");
        for _ in 0..c.n(50, 1200) {
            // every type has `id`, every resolver is an HTTP call answering each of its fields
            let mut w = world(&mut r, false);
            w.query = "Query".into();
            for t in &mut w.types {
                if t.name == "Root" { t.name = "Query".into() }
                t.r = R::No;
                let q = t.name == "Query";
                for f in &mut t.fields {
                    if f.ty == "Missing" || f.ty == "ID" { f.ty = "Int".into() }
                    if f.wrap == 5 { f.wrap = 3 }
                    let object = f.ty.starts_with('T');
                    if f.r.has() { f.r = if f.r.batched() && !q && object { R::Batched("http") } else { R::Plain("http") } }
                    if q { f.r = R::Plain("http") }
                }
                if !q { t.fields.push(F { name: "id".into(), ty: "Int".into(), wrap: 1, r: R::No }); }
            }
            // keep only what Query reaches, small
            let mut want: Vec<(Vec<String>, (String, String))> = w.all();
            let npo: BTreeSet<String> = want.drain(..).map(|x| show(&x.0)).collect();
            let paths = leaf_paths(&w);
            if paths.len() > 200 { continue }
            let mut s = String::from("schema @server(port: 8000) @upstream(batch: {delay: 3, maxSize: 1000}) { query: Query }\n");
            for t in &w.types {
                s += &format!("type {} {{\n", t.name);
                for f in &t.fields {
                    let id = format!("{}.{}", t.name, f.name);
                    let d = match &f.r {
                        R::Batched(_) => format!("@http(url: \"http://u.test/{id}\", query: [{{key: \"gid\", value: \"{{{{.value.id}}}}\"}}], batchKey: [\"gid\"])"),
                        R::Plain(_) if t.name == "Query" => format!("@http(url: \"http://u.test/{id}\")"),
                        R::Plain(_) => format!("@http(url: \"http://u.test/{id}\", query: [{{key: \"id\", value: \"{{{{.value.id}}}}\"}}])"),
                        _ => String::new(),
                    };
                    s += &format!("  {}: {} {}\n", f.name, f.ty(), d);
                }
                s += "}\n";
            }
            let wd = w.clone();
            let next = std::sync::atomic::AtomicU64::new(1);
            let up = Upstream::new(move |q: &UReq| {
                let id = q.path().trim_start_matches('/').to_string();
                let (t, f) = id.split_once('.').unwrap();
                let f = wd.get(t).unwrap().fields.iter().find(|x| x.name == f).unwrap();
                let body = if matches!(f.r, R::Batched(_)) {
                    // one entry per id asked for; lists get two entries
                    let mut out = vec![];
                    for (k, v) in q.query() {
                        if k != "gid" { continue }
                        for _ in 0..(if f.list() { 2 } else { 1 }) {
                            let mut x = value(&wd, &f.ty, &next);
                            if x.is_object() { x["gid"] = json!(v.parse::<u64>().unwrap_or(0)); }
                            out.push(x);
                        }
                    }
                    Value::Array(out)
                } else if f.list() { json!([value(&wd, &f.ty, &next), value(&wd, &f.ty, &next), value(&wd, &f.ty, &next)]) } else { value(&wd, &f.ty, &next) };
                URes::json(body)
            });
            let app = match app(&s, runtime(up.clone())) {
                Ok(x) => x,
                Err(e) => { c.inconclusive(&format!("served: refused {e} {s}")); return }
            };
            // Compare with the report of the very configuration that is served.
            let rep = match guard(|| Config::from_sdl(&s).to_result()) {
                Ok(Ok(x)) => x.n_plus_one().to_string().lines().map(|x| x.to_string()).collect::<BTreeSet<_>>(),
                _ => { c.inconclusive("served: unreadable"); return }
            };
            c.check(rep == npo, "served:report", || json!({"sdl": s, "got": rep, "want": npo}));
            for (path, prefixes) in paths {
                up.take();
                let mut q = show(&path);
                let last_obj = w.get(&prefixes.last().unwrap().2.ty).is_some();
                if last_obj { let n = path.len(); q = q.replacen(&format!("{}{}", path[n - 1], " }".repeat(n)), &format!("{} {{ id }}{}", path[n - 1], " }".repeat(n)), 1); }
                let res = query(&app, &q).await;
                let calls = up.take();
                let mut lists = false;
                let mut hit: Option<String> = None;
                for (i, (t, _, f)) in prefixes.iter().enumerate() {
                    if f.r.has() {
                        let id = format!("/{}.{}", t, f.name);
                        let n = calls.iter().filter(|x| x.path() == id).count();
                        let p = show(&path[..=i]);
                        if lists && matches!(f.r, R::Plain(_)) {
                            c.case(&(&s, &p), true);
                            c.count("served-npo", 1);
                            c.check(rep.contains(&p), "served:unreported", || json!({"sdl": s, "path": p, "calls": n, "query": q}));
                            c.check(n >= 2, "served:not-npo", || json!({"sdl": s, "path": p, "calls": n, "query": q, "answer": res.text()}));
                            hit = Some(p);
                            break;
                        }
                        c.case(&(&s, &p), lists);
                        c.count("served-clean", 1);
                        c.check(!rep.contains(&p), "served:wrongly-reported", || json!({"sdl": s, "path": p, "calls": n, "query": q}));
                        c.check(n == 1, "served:calls", || json!({"sdl": s, "path": p, "calls": n, "query": q, "answer": res.text()}));
                    }
                    if f.list() { lists = true }
                }
                if hit.is_none() { c.check(!rep.iter().any(|x| *x == show(&path)), "served:reported-clean", || json!({"sdl": s, "path": path})); }
            }
        }
    });
}
fn value(w: &W, ty: &str, next: &std::sync::atomic::AtomicU64) -> Value {
    let Some(t) = w.get(ty) else { return if ty == "String" { json!("s") } else { json!(1) } };
    let mut m = serde_json::Map::new();
    for f in &t.fields {
        if f.r.has() { continue }
        let v = if f.name == "id" { json!(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) }
            else if f.list() { json!([value(w, &f.ty, next), value(w, &f.ty, next)]) } else { value(w, &f.ty, next) };
        m.insert(f.name.clone(), v);
    }
    Value::Object(m)
}
type Step<'a> = (String, bool, &'a F);
/// All paths from the query type to a field without sub-fields but `id`.
fn leaf_paths(w: &W) -> Vec<(Vec<String>, Vec<Step<'_>>)> {
    fn go<'a>(w: &'a W, t: &str, p: &mut Vec<String>, st: &mut Vec<Step<'a>>, out: &mut Vec<(Vec<String>, Vec<Step<'a>>)>) {
        if out.len() > 300 { return }
        let ty = w.get(t).unwrap();
        for f in &ty.fields {
            if f.name == "id" && !p.is_empty() { continue }
            p.push(f.name.clone());
            st.push((ty.name.clone(), false, f));
            match w.get(&f.ty) {
                Some(x) if x.fields.iter().any(|f| f.name != "id") => go(w, &f.ty, p, st, out),
                _ => out.push((p.clone(), st.clone())),
            }
            p.pop();
            st.pop();
        }
    }
    let mut out = vec![];
    go(w, "Query", &mut vec![], &mut vec![], &mut out);
    out
}
