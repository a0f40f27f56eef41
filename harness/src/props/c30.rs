// C30
//! C30: failures of upstreams are contained and reported where they happened.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;

use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;

use crate::common::*;
use crate::mock::{self, UReq, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one query over a generated schema whose upstream calls each fail or answer by an assignment drawn for the case; non-trivial = at least one selected call fails or answers in the wrong shape; distinct by query, schema and assignment");
    c.assume("an error of any field makes the whole data null: the nearest position that may be null is the data itself (pinned by the project's own snapshots); values of built-in scalars aren't checked");
    c.section("faults", faults);
    c.section("batched", batched);
    c.section("sources", sources);
    for (k, n) in [("failing-requests", 300), ("clean-requests", 300), ("fault:transport", 40), ("fault:status", 40), ("fault:unreadable", 40), ("fault:null", 40), ("fault:enum", 10), ("fault:scalar", 10), ("fault:list", 10), ("fault:object", 8), ("healed-requests", 150), ("batched-requests", 100), ("source-requests", 100), ("errors-checked", 300)] { c.floor(k, n) }
}

// ---------------------------------------------------------------- the schema
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum B { Int, Str, Enum, Email, P, T(usize) }
#[derive(Clone, Copy, Debug, Hash)]
struct Ty { base: B, list: bool, nn: bool, item_nn: bool }
#[derive(Clone, Debug, Hash)]
struct F { name: String, ty: Ty, call: bool, cached: bool, dedupe: bool }
#[derive(Clone, Debug, Hash)]
struct World { types: Vec<Vec<F>>, p: Vec<F>, root: Vec<F>, seed: u64 }

/// Whether the upstream was healthy when an answer that may be kept was given
type Kept = Arc<Mutex<BTreeMap<u64, bool>>>;

impl Ty {
    fn sdl(&self) -> String {
        let n = match self.base { B::Int => "Int".into(), B::Str => "String".into(), B::Enum => "E".into(), B::Email => "Email".into(), B::P => "P".into(), B::T(i) => format!("T{i}") };
        let bang = |b: bool| if b { "!" } else { "" };
        if self.list { format!("[{n}{}]{}", bang(self.item_nn), bang(self.nn)) } else { format!("{n}{}", bang(self.nn)) }
    }
    fn item(&self) -> Ty { Ty { list: false, nn: self.item_nn, item_nn: false, base: self.base } }
}

fn ty(r: &mut Rng, base: B) -> Ty { Ty { base, list: r.chance(1, 3), nn: r.chance(2, 5), item_nn: r.bool() } }

fn world(r: &mut Rng) -> World {
    let n = 3;
    let plain = |r: &mut Rng, name: &str, base: B| F { name: name.into(), ty: ty(r, base), call: false, cached: false, dedupe: false };
    let id = F { name: "id".into(), ty: Ty { base: B::Int, list: false, nn: true, item_nn: false }, call: false, cached: false, dedupe: false };
    let p = vec![plain(r, "x", B::Int), plain(r, "y", B::Enum), plain(r, "z", B::Email), plain(r, "w", B::Str)];
    let call = |r: &mut Rng, name: String, base: B| F { name, ty: ty(r, base), call: true, cached: r.chance(1, 6), dedupe: r.chance(1, 4) };
    let types = (0..n).map(|i| {
        let mut f = vec![id.clone(), plain(r, "s", B::Str), plain(r, "e", B::Enum), plain(r, "m", B::Email), plain(r, "p", B::P)];
        for k in 0..r.range(1, 3) { let b = if i + 1 < n && r.chance(3, 4) { B::T(r.range(i + 1, n - 1)) } else { *r.pick(&[B::Str, B::Enum, B::Email, B::P]) }; f.push(call(r, format!("r{k}"), b)) }
        f
    }).collect();
    let root = (0..4).map(|k| { let b = if r.chance(4, 5) { B::T(r.below(n)) } else { *r.pick(&[B::Str, B::Enum, B::Email, B::P]) }; call(r, format!("q{k}"), b) }).collect();
    World { types, p, root, seed: r.next() }
}

impl World {
    fn fields(&self, b: B) -> Option<&[F]> { match b { B::P => Some(&self.p), B::T(i) => Some(&self.types[i]), _ => None } }
    fn sdl(&self) -> String {
        let mut s = "schema @server(port: 8000) { query: Query }\nenum E { A B C }\n".to_string();
        let field = |o: &str, f: &F| {
            let mut t = format!("  {}: {}", f.name, f.ty.sdl());
            if f.call {
                let q = if o == "Query" { "" } else { ", query: [{key: \"id\", value: \"{{.value.id}}\"}]" };
                t += &format!(" @http(url: \"http://up.test/{o}/{}\"{q}{})", f.name, if f.dedupe { ", dedupe: true" } else { "" });
                if f.cached { t += " @cache(maxAge: 60000)" }
            }
            t
        };
        let mut object = |n: &str, fs: &[F]| s += &format!("type {n} {{\n{}\n}}\n", fs.iter().map(|f| field(n, f)).collect::<Vec<_>>().join("\n"));
        object("P", &self.p);
        for (i, t) in self.types.iter().enumerate() { object(&format!("T{i}"), t) }
        object("Query", &self.root);
        s
    }
    fn value(&self, t: Ty, r: &mut Rng) -> Value {
        if !t.nn && r.chance(1, 8) { return Value::Null }
        if t.list { return Value::Array((0..r.below(4)).map(|_| self.value(t.item(), r)).collect()) }
        match t.base {
            B::Int => json!(r.below(1000)),
            B::Str => json!(r.pick(&["", "text", "é\"\n", "null", "0"])),
            B::Enum => json!(r.pick(&["A", "B", "C"])),
            B::Email => json!(r.pick(&["a@b.co", "x.y@z.test"])),
            b => Value::Object(self.fields(b).unwrap().iter().filter(|f| !f.call).map(|f| (f.name.clone(), if f.name == "id" { json!(r.below(1_000_000)) } else { self.value(f.ty, r) })).collect()),
        }
    }
    /// Puts one value of the wrong shape somewhere
    fn spoil(&self, t: Ty, v: &mut Value, r: &mut Rng, top: bool) {
        if t.list {
            if let Value::Array(a) = v { if !a.is_empty() && r.chance(4, 5) { let i = r.below(a.len()); return self.spoil(t.item(), &mut a[i], r, false) } }
            *v = if t.nn && r.bool() { Value::Null } else if let Some(_) = self.fields(t.base) { json!({"id": 1}) } else { json!("A") };
            return;
        }
        match t.base {
            B::Int | B::Str => if t.nn { *v = Value::Null },
            B::Enum => *v = match r.below(4) { 0 if t.nn => Value::Null, 1 => json!(3), 2 => json!("a"), _ => json!("D") },
            B::Email => *v = match r.below(3) { 0 if t.nn => Value::Null, 1 => json!(4), _ => json!("no email") },
            b => {
                if let Value::Object(o) = v {
                    if r.chance(4, 5) {
                        let fs: Vec<&F> = self.fields(b).unwrap().iter().filter(|f| !f.call && f.name != "id").collect();
                        let f = *r.pick(&fs);
                        if f.ty.nn && r.chance(1, 3) { o.remove(&f.name); return }
                        if let Some(x) = o.get_mut(&f.name) { return self.spoil(f.ty, x, r, false) }
                    }
                }
                *v = match r.below(4) { 0 if t.nn => Value::Null, 1 => json!("text"), 2 if top => json!([{"id": 2}]), _ => json!(7) };
            }
        }
    }
    /// What the upstream answers; None: what a failed call's message has to contain
    fn answer(&self, o: &str, f: &F, id: Option<&str>, healthy: bool, kept: &Kept) -> (URes, Result<Value, String>, &'static str) {
        // an answer that was kept stays what it was
        let healthy = if f.cached { kept.lock().unwrap().get(&h64(&(o, &f.name, id))).copied().unwrap_or(healthy) } else { healthy };
        let mut r = Rng::new(h64(&(self.seed, o, &f.name, id)));
        let mut v = self.value(f.ty, &mut r);
        let k = r.below(100);
        if !healthy {
            let mark = format!("mk{}", r.below(1_000_000));
            match k {
                0..=3 => { let m = format!("{mark} {}", r.pick(&["refused", "said \"no\"", "é", "[1, 2]"])); return (URes::fail(&m), Err(m), "transport") }
                4..=7 => { let st = *r.pick(&[400u16, 401, 403, 404, 409, 418, 429, 500, 502, 503, 504]); let mut a = URes::json(v); a.status = st; return (a, Err(st.to_string()), "status") }
                8..=11 => { let b = v.to_string(); return (URes::bytes(match r.below(4) { 0 => b"<html>".to_vec(), 1 => format!("{b}]").into_bytes(), 2 => b"{\"a\"".to_vec(), _ => b"\xff\xfe\"".to_vec() }), Err(String::new()), "unreadable") }
                12..=21 => { for _ in 0..r.range(1, 2) { self.spoil(f.ty, &mut v, &mut r, true) } }
                _ => {}
            }
        }
        (URes::json(v.clone()), Ok(v), "")
    }
}

// ---------------------------------------------------------------- the query
struct Sel { f: F, out: String, skip: bool, pos: (usize, usize), sub: Vec<Sel> }

fn select(w: &World, r: &mut Rng, fs: &[F], depth: usize, text: &mut String, line: &mut usize) -> Vec<Sel> {
    let mut out = vec![];
    let mut chosen: Vec<F> = fs.iter().filter(|_| r.chance(1, 2)).cloned().collect();
    if chosen.is_empty() { chosen.push(r.pick(fs).clone()) }
    if r.chance(1, 6) { let f = r.pick(&chosen).clone(); chosen.push(f) }
    for (i, f) in chosen.into_iter().enumerate() {
        if depth > 5 && matches!(f.ty.base, B::T(_)) && f.call { continue }
        *line += 1;
        let indent = r.range(1, 9);
        let dup = out.iter().any(|s: &Sel| s.out == f.name);
        let alias = (dup || r.chance(1, 5)).then(|| format!("a{i}"));
        let skip = r.chance(1, 12);
        let dir = if !skip { *r.pick(&["", "", "", " @include(if: true)"]) } else { *r.pick(&[" @skip(if: true)", " @include(if: false)"]) };
        let pos = (*line, indent + 1);
        *text += &format!("\n{}{}{}{dir}", " ".repeat(indent), alias.as_ref().map(|a| format!("{a}: ")).unwrap_or_default(), f.name);
        let sub = match w.fields(f.ty.base) { Some(fs) => { *text += " {"; let s = select(w, r, fs, depth + 1, text, line); *text += " }"; s } None => vec![] };
        out.push(Sel { out: alias.unwrap_or(f.name.clone()), f, skip, pos, sub });
    }
    if out.is_empty() {
        // a selection can't be empty
        *line += 1;
        *text += "\n__typename";
    }
    out
}

#[derive(Debug)]
struct Fault { pos: (usize, usize), path: Option<Vec<Value>>, msg: String, kind: &'static str }

struct Model<'a> { w: &'a World, healthy: bool, kept: &'a Kept, faults: Vec<Fault> }

impl Model<'_> {
    fn fault(&mut self, s: &Sel, path: &[Value], msg: &str, kind: &'static str) -> Value { self.faults.push(Fault { pos: s.pos, path: Some(path.to_vec()), msg: msg.into(), kind }); Value::Null }
    fn complete(&mut self, t: Ty, v: &Value, s: &Sel, path: &mut Vec<Value>) -> Value {
        if v.is_null() { return if t.nn { self.fault(s, path, "non-null", "null") } else { Value::Null } }
        if t.list {
            let Value::Array(a) = v else { return self.fault(s, path, "list", "list") };
            return Value::Array(a.iter().enumerate().map(|(i, x)| { path.push(json!(i)); let y = self.complete(t.item(), x, s, path); path.pop(); y }).collect());
        }
        match t.base {
            B::Int | B::Str => v.clone(),
            B::Enum => if matches!(v.as_str(), Some("A" | "B" | "C")) { v.clone() } else { self.fault(s, path, "E", "enum") },
            B::Email => if v.as_str().is_some_and(|x| x.contains('@')) { v.clone() } else { self.fault(s, path, "Email", "scalar") },
            b => {
                if v.is_array() { return self.fault(s, path, "", "list") }
                let Value::Object(o) = v else { return self.fault(s, path, "", "object") };
                let B::T(_) = b else { return self.object(o, &s.sub, "P", path) };
                let name = t.sdl().replace('!', "");
                self.object(o, &s.sub, &name, path)
            }
        }
    }
    fn object(&mut self, o: &serde_json::Map<String, Value>, sub: &[Sel], name: &str, path: &mut Vec<Value>) -> Value {
        let mut out = serde_json::Map::new();
        if sub.is_empty() { out.insert("__typename".into(), json!(name)); }
        for s in sub {
            if s.skip { continue }
            path.push(json!(s.out));
            let id = (name != "Query").then(|| o.get("id").map(|v| v.to_string())).flatten();
            let v = if s.f.call {
                match self.w.answer(name, &s.f, id.as_deref(), self.healthy, self.kept) {
                    (_, Ok(v), _) => self.complete(s.f.ty, &v, s, path),
                    (_, Err(msg), kind) => { self.faults.push(Fault { pos: s.pos, path: None, msg, kind }); Value::Null }
                }
            } else { self.complete(s.f.ty, o.get(&s.f.name).unwrap_or(&Value::Null), s, path) };
            path.pop();
            out.insert(s.out.clone(), v);
        }
        Value::Object(out)
    }
}

fn judge(c: &C, got: &Value, want: &Value, faults: &[Fault], place: &str, show: &dyn Fn() -> Value) {
    let errs = got.get("errors").and_then(|e| e.as_array()).cloned().unwrap_or_default();
    let with = |extra: Value| json!({"case": show(), "answer": got, "failures": faults.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>(), "detail": extra});
    if faults.is_empty() {
        c.count("clean-requests", 1);
        c.check(errs.is_empty(), &format!("{place}:success-turned-into-error"), || with(Value::Null));
        c.check(got.get("data") == Some(want), &format!("{place}:data"), || with(json!({ "want": want })));
        return;
    }
    c.count("failing-requests", 1);
    for f in faults { c.count(&format!("fault:{}", f.kind), 1) }
    let kinds: std::collections::BTreeSet<&str> = faults.iter().map(|f| f.kind).collect();
    if !c.check(!errs.is_empty(), &format!("{place}:failure-turned-into-data:{}", kinds.iter().next().unwrap()), || with(Value::Null)) { return }
    c.check(got.get("data").is_some_and(|d| d.is_null()), &format!("{place}:data-of-a-failed-request"), || with(Value::Null));
    for e in &errs {
        c.count("errors-checked", 1);
        let msg = e["message"].as_str().unwrap_or("");
        let locs: Vec<(usize, usize)> = e["locations"].as_array().map(|l| l.iter().map(|p| (p["line"].as_u64().unwrap_or(0) as usize, p["column"].as_u64().unwrap_or(0) as usize)).collect()).unwrap_or_default();
        let path = e["path"].as_array().cloned();
        let here: Vec<&Fault> = faults.iter().filter(|f| locs == [f.pos]).collect();
        if !c.check(!here.is_empty(), &format!("{place}:location"), || with(e.clone())) { continue }
        let said: Vec<&&Fault> = here.iter().filter(|f| msg.contains(&f.msg) && !msg.trim().is_empty()).collect();
        if !c.check(!said.is_empty(), &format!("{place}:message:{}", here[0].kind), || with(e.clone())) { continue }
        c.check(said.iter().any(|f| match &f.path { Some(p) => path.as_ref() == Some(p), None => true }), &format!("{place}:path:{}", here[0].kind), || with(e.clone()));
    }
}

fn faults(c: &C) {
    let mut r = c.rng("faults");
    for _ in 0..c.n(110, 1800) {
        let w = world(&mut r);
        let healthy = Arc::new(Mutex::new(false));
        let kept: Kept = Default::default();
        let (w2, h2, k2) = (w.clone(), healthy.clone(), kept.clone());
        let byname: BTreeMap<String, F> = w.types.iter().enumerate().flat_map(|(i, t)| t.iter().map(move |f| (format!("/T{i}/{}", f.name), f.clone()))).chain(w.root.iter().map(|f| (format!("/Query/{}", f.name), f.clone()))).collect();
        let slow = r.chance(1, 3);
        let up = Upstream::new(move |u: &UReq| {
            let p = u.path().to_string();
            let o = p.split('/').nth(1).unwrap_or("").to_string();
            let Some(f) = byname.get(&p) else { return URes::status(404) };
            let (id, now) = (u.q("id").filter(|i| !i.is_empty()), *h2.lock().unwrap());
            let (a, v, _) = w2.answer(&o, f, id.as_deref(), now, &k2);
            if f.cached && v.is_ok() { k2.lock().unwrap().entry(h64(&(&o, &f.name, id.as_deref()))).or_insert(now); }
            if slow { a.delay_ms(h64(&p) % 5) } else { a }
        });
        let app: Arc<AppContext> = match mock::app(&w.sdl(), mock::runtime(up.clone())) { Ok(a) => a, Err(e) => { c.inconclusive(&format!("the schema isn't accepted: {e}\n{}", w.sdl())); return } };
        let rt = rt_paused();
        let c2 = c.clone();
        let (r2, w2, up2) = (&mut r, &w, up.clone());
        rt.block_on(async move {
            let c = &c2;
            for _ in 0..6 {
                // some requests at once, each on its own
                let mut qs = vec![];
                for _ in 0..r2.range(1, 3) {
                    let mut text = "{".to_string();
                    let mut line = 1;
                    let sel = select(w2, r2, &w2.root, 1, &mut text, &mut line);
                    text += " }";
                    qs.push((text, sel));
                }
                for pass in [false, true] {
                    *healthy.lock().unwrap() = pass;
                    let res = futures_util::future::join_all(qs.iter().map(|(q, _)| tokio::time::timeout(Duration::from_secs(30), mock::gql(&app, json!({ "query": q }), &[])))).await;
                    for ((q, sel), res) in qs.iter().zip(res) {
                        let mut m = Model { w: w2, healthy: pass, kept: &kept, faults: vec![] };
                        let mut want = m.object(&Default::default(), sel, "Query", &mut vec![]);
                        if sel.iter().all(|s| s.skip) && !sel.is_empty() { want = json!({}) }
                        let faults = m.faults;
                        let show = || json!({"query": q, "schema": w2.sdl(), "seed": w2.seed, "healthy": pass, "calls": up2.log.lock().unwrap().iter().map(|u| u.url.to_string()).collect::<Vec<_>>()});
                        // what was answered before may come from the cache
                        c.case(&(q, w2, pass), !faults.is_empty());
                        c.sample(|| json!({"query": q, "failures": faults.iter().map(|f| format!("{f:?}")).collect::<Vec<_>>()}));
                        if pass { c.count("healed-requests", 1) }
                        match res {
                            Err(_) => c.violation("no-answer", show()),
                            Ok(res) => {
                                judge(c, &res.json(), &want, &faults, if pass { "healed" } else { "faults" }, &show)
                            }
                        }
                    }
                }
                up2.take();
            }
        });
    }
}

// ---------------------------------------------------------------- calls that are made together
fn batched(c: &C) {
    let mut r = c.rng("batched");
    for _ in 0..c.n(150, 3000) {
        let n = r.range(1, 6);
        let max = r.range(1, 7);
        let nn = r.chance(1, 3);
        let post = r.bool();
        let bad: Vec<usize> = (1..=n).filter(|_| r.chance(1, 6)).collect();
        let missing: Vec<usize> = (1..=n).filter(|_| r.chance(1, 8)).collect();
        let how = r.below(3);
        let bang = if nn { "!" } else { "" };
        let src = |f: &str| if post { format!("@http(url: \"http://up.test/{f}\", method: POST, body: {{id: \"{{{{.value.id}}}}\"}}, batchKey: [\"id\"])") } else { format!("@http(url: \"http://up.test/{f}\", query: [{{key: \"id\", value: \"{{{{.value.id}}}}\"}}], batchKey: [\"id\"])") };
        let sdl = format!("schema @server(port: 8000) @upstream(batch: {{delay: 2, maxSize: {max}}}) {{ query: Query }}\ntype C {{ id: Int v: String }}\ntype U {{ id: Int!\n c: C{bang} {}\n d: C {} }}\ntype Query {{ us: [U!] @http(url: \"http://up.test/us\") }}", src("c"), src("d"));
        let (bad2, missing2) = (bad.clone(), missing.clone());
        let up = Upstream::new(move |u: &UReq| {
            if u.path() == "/us" { return URes::json(Value::Array((1..=n).map(|i| json!({ "id": i })).collect())) }
            let ids: Vec<usize> = if post { let b = u.body_json(); let l = if b.is_array() { b.as_array().unwrap().clone() } else { vec![b] }; l.iter().map(|x| x["id"].to_string().trim_matches('"').parse().unwrap_or(0)).collect() } else { u.qs("id").iter().map(|i| i.parse().unwrap_or(0)).collect() };
            if u.path() == "/c" && ids.iter().any(|i| bad2.contains(i)) {
                return match how { 0 => URes::fail("mk77 broke"), 1 => URes { status: 503, ..URes::json(json!([])) }, _ => URes::bytes("<html>mk77".as_bytes().to_vec()) };
            }
            URes::json(Value::Array(ids.iter().filter(|i| u.path() == "/d" || !missing2.contains(i)).map(|i| json!({"id": i, "v": format!("v{i}")})).collect()))
        });
        let app = match mock::app(&sdl, mock::runtime(up.clone())) { Ok(a) => a, Err(e) => { c.inconclusive(&format!("the schema isn't accepted: {e}\n{sdl}")); return } };
        // which fields are selected
        let (with_c, with_d) = *r.pick(&[(true, true), (true, false), (false, true), (true, true)]);
        let q = format!("{{\n us {{\n  id{}{} }} }}", if with_c { "\n   c { id v }" } else { "\n" }, if with_d { "\n    d { v }" } else { "" });
        let mut faults = vec![];
        let item = |i: usize| json!({"id": i, "v": format!("v{i}")});
        let mut us = vec![];
        for i in 1..=n {
            let mut o = json!({ "id": i });
            if with_c {
                o["c"] = if missing.contains(&i) { if nn { faults.push(Fault { pos: (4, 4), path: Some(vec![json!("us"), json!(i - 1), json!("c")]), msg: "non-null".into(), kind: "null" }) } Value::Null } else { item(i) };
            }
            if with_d { o["d"] = json!({"v": format!("v{i}")}) }
            us.push(o);
        }
        if with_c && !bad.is_empty() { faults.push(Fault { pos: (4, 4), path: None, msg: match how { 0 => "mk77 broke".into(), 1 => "503".into(), _ => "".into() }, kind: "batch" }) }
        let want = json!({ "us": us });
        c.case(&(&sdl, &q, &bad, &missing, how), !faults.is_empty());
        c.count("batched-requests", 1);
        let c2 = c.clone();
        rt_single().block_on(async move {
            let c = &c2;
            let show = || json!({"schema": sdl, "query": q, "failing ids": bad, "missing ids": missing, "calls": up.log.lock().unwrap().iter().map(|u| format!("{} {}", u.url, u.body_str())).collect::<Vec<_>>()});
            match tokio::time::timeout(Duration::from_secs(20), mock::gql(&app, json!({ "query": q }), &[])).await {
                Err(_) => c.violation("batched:no-answer", show()),
                Ok(res) => judge(c, &res.json(), &want, &faults, "batched", &show),
            }
        });
    }
}

// ---------------------------------------------------------------- GraphQL upstreams, which report errors of their own
fn sources(c: &C) {
    let mut r = c.rng("sources");
    for _ in 0..c.n(250, 5000) {
        let batch = r.chance(1, 3);
        let n = r.range(1, 4);
        let nns: Vec<bool> = (0..n).map(|_| r.chance(1, 4)).collect();
        // (data, errors, whole call fails)
        let answers: Vec<(Value, Vec<Value>, Option<String>)> = (0..n).map(|i| {
            let errs: Vec<Value> = if r.bool() { (0..r.range(1, 2)).map(|k| {
                let mut e = json!({"message": format!("mk{i}-{k} {}", r.pick(&["no user", "é \"x\"", "a\nb"])), "locations": [{"line": r.range(1, 3), "column": r.range(1, 40)}], "path": [format!("f{i}"), r.below(3), "name"]});
                if r.bool() { e["extensions"] = json!({"code": r.pick(&["NOT_FOUND", "E1"]), "n": r.below(9), "deep": {"l": [1, null]}}) }
                e
            }).collect() } else { vec![] };
            let data = if !errs.is_empty() && r.bool() { Value::Null } else { json!({"id": i, "name": format!("n{i}")}) };
            (data, errs, (r.chance(1, 8)).then(|| format!("mk{i} down")))
        }).collect();
        let sdl = format!("schema @server(port: 8000) @upstream(batch: {{delay: 2, maxSize: 10}}) {{ query: Query }}\ntype G {{ id: Int name: String }}\ntype Query {{ ok: Int @expr(body: 1)\n{} }}", (0..n).map(|i| format!("f{i}: G{} @graphQL(url: \"http://up.test/g{}\", name: \"f{i}\"{})", if nns[i] { "!" } else { "" }, if batch { String::new() } else { i.to_string() }, if batch { ", batch: true" } else { "" })).collect::<Vec<_>>().join("\n"));
        let a2 = answers.clone();
        let up = Upstream::new(move |u: &UReq| {
            let one = |i: usize| { let (d, e, _) = &a2[i]; let mut o = json!({ "data": {format!("f{i}"): d} }); if !e.is_empty() { o["errors"] = Value::Array(e.clone()) } o };
            let which = |t: &str| (0..a2.len()).find(|i| t.contains(&format!("f{i}"))).unwrap_or(0);
            match u.body_json() {
                Value::Array(l) => {
                    let ids: Vec<usize> = l.iter().map(|q| which(&q.to_string())).collect();
                    if let Some(m) = ids.iter().find_map(|i| a2[*i].2.clone()) { return URes::fail(&m) }
                    URes::json(Value::Array(ids.into_iter().map(one).collect()))
                }
                b => { let i = which(&b.to_string()); match &a2[i].2 { Some(m) => URes::fail(m), None => URes::json(one(i)) } }
            }
        });
        let app = match mock::app(&sdl, mock::runtime(up.clone())) { Ok(a) => a, Err(e) => { c.inconclusive(&format!("the schema isn't accepted: {e}\n{sdl}")); return } };
        let q = format!("{{\n ok{} }}", (0..n).map(|i| format!("\n f{i} {{ id name }}")).collect::<String>());
        c.count("source-requests", 1);
        c.case(&(&sdl, answers.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>()), answers.iter().any(|a| a.2.is_some() || !a.1.is_empty()));
        let c2 = c.clone();
        rt_single().block_on(async move {
            let c = &c2;
            let show = || json!({"schema": sdl, "query": q, "answers": answers.iter().map(|a| json!({"data": a.0, "errors": a.1, "fails": a.2})).collect::<Vec<_>>()});
            let Ok(res) = tokio::time::timeout(Duration::from_secs(20), mock::gql(&app, json!({ "query": q }), &[])).await else { c.violation("sources:no-answer", show()); return };
            let got = res.json();
            let errs = got["errors"].as_array().cloned().unwrap_or_default();
            let with = |x: Value| json!({"case": show(), "answer": got, "detail": x});
            let down: Vec<usize> = (0..n).filter(|i| answers[*i].2.is_some()).collect();
            let nulls: Vec<usize> = (0..n).filter(|i| !down.contains(i) && nns[*i] && answers[*i].0.is_null()).collect();
            // every error of an upstream that answered is handed on as it is
            for i in 0..n {
                if down.contains(&i) { continue }
                for e in &answers[i].1 {
                    c.count("errors-checked", 1);
                    let same = errs.iter().filter(|g| g["message"] == e["message"] && g["locations"] == e["locations"] && g["path"] == e["path"] && g.get("extensions") == e.get("extensions")).count();
                    c.check(same == 1, "sources:error-of-the-upstream", || with(e.clone()));
                }
            }
            let own: Vec<&Value> = errs.iter().filter(|g| !(0..n).any(|i| !down.contains(&i) && answers[i].1.iter().any(|e| e["message"] == g["message"]))).collect();
            if down.is_empty() && nulls.is_empty() {
                c.check(own.is_empty(), "sources:success-turned-into-error", || with(json!(own)));
                let mut want = json!({"ok": 1});
                for i in 0..n { want[format!("f{i}")] = answers[i].0.clone() }
                c.eq(&got["data"], &want, "sources:data", || with(Value::Null));
            } else {
                c.check(got["data"].is_null(), "sources:data-of-a-failed-request", || with(Value::Null));
                c.check(!own.is_empty(), "sources:failure-turned-into-data", || with(Value::Null));
                for e in own {
                    let line = e["locations"][0]["line"].as_u64().unwrap_or(0) as usize;
                    let i = line.wrapping_sub(3);
                    let said = if down.contains(&i) { e["message"].as_str().unwrap_or("").contains(answers[i].2.as_deref().unwrap_or("-")) } else { nulls.contains(&i) && e["path"] == json!([format!("f{i}")]) };
                    c.check(said, "sources:where-it-failed", || with(e.clone()));
                }
            }
        });
    }
}
