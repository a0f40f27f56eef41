//! C17: a response depends on its own request only, not on what came before.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

use base64::Engine;
use serde_json::{json, Map, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::{ConfigModule, Content, Extensions};
use tailcall::core::rest::{EndpointSet, Unchecked};

use crate::common::*;
use crate::mock::{self, URes, UReq, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one request of a history against a shared application, judged against the answer of a fresh application to that request alone; non-trivial = the application has served or is serving another request with the same document or an overlapping field; distinct by configuration, document, operation name, variables, credentials and position");
    c.assume("the upstream is a deterministic function of the request it gets (and, in the 'changes' section, of a counter that only moves between requests); response headers are C20's subject: status and body are compared here; keys of @cache are expected to cover what the upstream's answer depends on, so cached fields take part with answers that don't depend on forwarded headers; data loaders get batch.headers naming the forwarded headers");
    c.section("histories", histories);
    c.section("concurrent", concurrent);
    c.section("changes", changes);
    c.section("threads", threads);
    c.floor("same-document-different-answer", 60);
    c.floor("batches", 40);
    c.floor("operation-name-matters", 20);
    c.floor("constant-document-repeated", 10);
    c.floor("overlapped", 60);
    c.floor("rest-requests", 10);
    c.floor("answered-with-data", 250);
}

// ---- the world ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
struct RootF { name: String, sdl: String, args: Vec<(&'static str, &'static str)>, list: bool, leaf: bool, cst: bool }
#[derive(Clone)]
struct World { sdl: String, query: Vec<RootF>, mutation: Vec<RootF>, nested: Vec<RootF>, batch: bool, rest: Option<String>, rest_args: Vec<(String, Vec<&'static str>, bool)>, bp: Arc<Blueprint>, m: ConfigModule }

#[derive(Clone, Copy, PartialEq)]
struct Opt { cache: bool, loader: bool }

const AUTH: &str = "u1:{PLAIN}p1\nu2:{PLAIN}p2\n";

fn gen_root(r: &mut Rng, i: usize, o: Opt, mutation: bool, nested: bool) -> RootF {
    let name = format!("{}{i}", if mutation { "m" } else if nested { "n" } else { "f" });
    let kind = if mutation { 2 } else { r.below(if o.loader { 13 } else { 12 }) };
    let dedupe = if r.chance(1, 3) { ", dedupe: true" } else { "" };
    let cache = if o.cache && r.chance(1, 3) { " @cache(maxAge: 100000)" } else { "" };
    let protected = if r.chance(1, 6) { " @protected" } else { "" };
    let base = if nested { format!("http://up/{name}/{{{{.value.id}}}}") } else { format!("http://up/{name}") };
    let q = "query: [{key: \"a\", value: \"{{.args.a}}\"}, {key: \"s\", value: \"{{.args.s}}\", skipEmpty: true}]";
    let a: Vec<(&'static str, &'static str)> = vec![("a", "Int"), ("s", "String")];
    let f = |sig: &str, ty: &str, dir: String, args: Vec<(&'static str, &'static str)>, list: bool, leaf: bool, cst: bool| RootF { name: name.clone(), sdl: format!("  {name}{sig}: {ty} {dir}{protected}\n"), args, list, leaf, cst };
    match kind {
        0 => f("", "Int", format!("@expr(body: {})", r.below(100)), vec![], false, true, true),
        1 => f("", "Node", format!("@expr(body: {{id: {}, s: \"const {}\", k: [1, {}]}})", r.below(100), r.below(10), r.below(10)), vec![], false, false, true),
        2 => f("(a: Int, s: String)", "Node", format!("@http(url: \"{base}\", method: POST, body: \"{{{{.args}}}}\")"), a, false, false, false),
        3 => f("(a: Int, s: String)", "[Node]", format!("@http(url: \"{base}/list\", {q}{dedupe}){cache}"), a, true, false, false),
        4 | 5 => f("(a: Int, s: String)", "Node", format!("@http(url: \"{base}/u\", {q}, headers: [{{key: \"x-u\", value: \"{{{{.headers.xuser}}}}\"}}]{dedupe})"), a, false, false, false),
        6 => f("(a: Int, s: String)", "String", format!("@expr(body: \"x{{{{.args.a}}}}y{{{{.args.s}}}}\")"), a, false, true, false),
        7 => f("", "String", "@expr(body: \"hi {{.headers.xuser}}\")".into(), vec![], false, true, false),
        8 => f("(a: Int, s: String)", "Int", format!("@http(url: \"{base}/num\", {q}{dedupe}){cache}"), a, false, true, false),
        12 => f("(a: Int!)", "Node", format!("@http(url: \"{base}/batch\", query: [{{key: \"id\", value: \"{{{{.args.a}}}}\"}}], batchKey: [\"id\"]{dedupe})"), vec![("a", "Int!")], false, false, false),
        _ => f("(a: Int, s: String = \"dflt\")", "Node", format!("@http(url: \"{base}/n\", {q}{dedupe}){cache}"), a, false, false, false),
    }
}

fn gen_world(r: &mut Rng, o: Opt, rest_ok: bool) -> Result<World, String> {
    let query: Vec<RootF> = (0..r.range(3, 7)).map(|i| gen_root(r, i, o, false, false)).collect();
    let mutation: Vec<RootF> = (0..r.range(1, 2)).map(|i| gen_root(r, i, o, true, false)).collect();
    let nested: Vec<RootF> = (0..r.range(1, 3)).map(|i| gen_root(r, i, Opt { loader: false, ..o }, false, true)).collect();
    let batch = r.bool();
    let join = |v: &[RootF]| v.iter().map(|f| f.sdl.clone()).collect::<String>();
    let up = if o.loader { " @upstream(batch: {delay: 1, maxSize: 50, headers: [\"xuser\", \"authorization\"]}, allowedHeaders: [\"xuser\"])" } else { " @upstream(allowedHeaders: [\"xuser\"])" };
    let any_list = r.bool();
    let sdl = format!("schema @server(port: 8000{}) {up} @link(id: \"a\", src: \"x\", type: Htpasswd) {{ query: Query{} }}\ntype Query {{\n{}}}\n{}type Node {{ id: Int! s: String k: [Int] q: String u: String e: Int kid: Node{}\n{}}}\n",
        if batch { ", batchRequests: true" } else { "" }, if mutation.is_empty() { "" } else { " mutation: Mutation" }, join(&query), if mutation.is_empty() { String::new() } else { format!("type Mutation {{\n{}}}\n", join(&mutation)) }, if any_list { " kids: [Node]" } else { "" }, join(&nested));
    let cfg = mock::parse(&sdl).map_err(|e| format!("{e:?} {sdl}"))?;
    let mut ext = Extensions::default();
    ext.htpasswd.push(Content { id: Some("a".into()), content: AUTH.into() });
    let m = ConfigModule::new(cfg, ext);
    let bp = Arc::new(mock::blueprint(&m).map_err(|e| format!("{e:?} {sdl}"))?);
    let mut rest = None;
    let mut rest_args = vec![];
    if rest_ok {
        let mut s = String::new();
        for f in &query {
            if !f.args.is_empty() && f.args[0].1 == "Int!" { continue }
            let has = !f.args.is_empty();
            let sub = if f.leaf { "" } else { " { id s q u e }" };
            s += &if has { format!("query R{0}($a: Int, $s: String) @rest(method: GET, path: \"/{0}/$a\", query: {{s: $s}}) {{ {0}(a: $a, s: $s){sub} }}\n", f.name) } else { format!("query R{0} @rest(method: GET, path: \"/{0}\") {{ {0}{sub} }}\n", f.name) };
            rest_args.push((f.name.clone(), if has { vec!["a", "s"] } else { vec![] }, has));
        }
        rest = Some(s);
    }
    Ok(World { sdl, query, mutation, nested, batch, rest, rest_args, bp, m })
}

/// The same schema with nothing in it that allows to share work.
fn unshared(w: &World) -> World {
    let sdl = w.sdl.replace(", dedupe: true", "").replace(" @cache(maxAge: 100000)", "");
    let mut ext = Extensions::default();
    ext.htpasswd.push(Content { id: Some("a".into()), content: AUTH.into() });
    let m = ConfigModule::new(mock::parse(&sdl).unwrap(), ext);
    World { bp: Arc::new(mock::blueprint(&m).unwrap()), m, sdl, ..w.clone() }
}

fn build(w: &World, up: Arc<Upstream>) -> Arc<AppContext> {
    let rt = mock::runtime(up);
    let bp = (*w.bp).clone();
    match &w.rest {
        None => Arc::new(AppContext::new(bp, rt, EndpointSet::default())),
        Some(o) => {
            let set = EndpointSet::<Unchecked>::try_new(o).ok().and_then(|s| futures_util::FutureExt::now_or_never(s.into_checked(&bp, rt.clone()))).and_then(|s| s.ok());
            Arc::new(AppContext::new(bp, rt, set.expect("endpoints")))
        }
    }
}

/// What the upstream says is a function of what it is asked (and of `epoch`).
fn upstream(epoch: Arc<AtomicU64>, fails: u64, slow: u64) -> Arc<Upstream> {
    let n = AtomicU64::new(0);
    Upstream::new(move |q: &UReq| {
        let body = q.body_str();
        let u = q.header("x-u").or(q.header("xuser")).unwrap_or("-").to_string();
        let qs = q.url.query().unwrap_or("").to_string();
        // answers of fields that may be cached don't depend on the forwarded headers
        let u = if q.path().ends_with("/u") || q.method == "POST" || q.path().ends_with("/batch") { u } else { "any".into() };
        let h = h64(&(q.method.clone(), q.path(), &qs, &body, &u));
        let e = epoch.load(Ordering::SeqCst);
        let node = |h: u64, d: usize| -> Value { let mut m = json!({"id": h % 997, "s": format!("s{}", h % 31), "k": [h % 7, h % 5], "q": format!("{} {}?{} {}", q.method, q.path(), qs, body), "u": u, "e": e}); if d > 0 { m["kid"] = json!({"id": (h >> 5) % 997, "s": "kid", "e": e}); m["kids"] = json!([{"id": (h >> 9) % 997, "e": e}, {"id": (h >> 11) % 997, "e": e}]); } m };
        let d = n.fetch_add(1, Ordering::SeqCst);
        let ms = if slow > 0 { h64(&(h, d)) % slow } else { 0 };
        if fails > 0 && h % fails == 0 { return URes::status(500).delay_ms(ms) }
        let v = if q.path().ends_with("/list") { json!((0..h % 3).map(|i| node(h64(&(h, i)), 1)).collect::<Vec<_>>()) }
            else if q.path().ends_with("/num") { json!((h % 1000) * 10 + e) }
            else if q.path().ends_with("/batch") { json!(q.qs("id").iter().map(|id| { let mut m = node(h64(&(q.path(), id, &u)), 0); m["id"] = json!(id.parse::<i64>().unwrap_or(0)); m["q"] = json!("batch"); m }).collect::<Vec<_>>()) }
            else { node(h, 1) };
        URes::json(v).delay_ms(ms)
    })
}

// ---- documents and requests --------------------------------------------------------------

#[derive(Clone, Debug, Default)]
struct Doc { text: String, ops: Vec<String>, anonymous: bool, cst: Vec<bool> }

fn gen_sel(r: &mut Rng, w: &World, depth: usize, alias: &mut usize) -> String {
    let mut s = String::new();
    let mut leaf = ["id", "s", "k", "q", "u", "e"].to_vec();
    r.shuffle(&mut leaf);
    for x in leaf.iter().take(r.range(1, 4)) { s += &format!(" {x}{}", dir(r)); }
    if r.chance(1, 5) { s += " __typename"; }
    if depth < 2 {
        if r.chance(1, 3) { s += &format!(" kid {{{}}}", gen_sel(r, w, depth + 1, alias)); }
        if r.chance(1, 2) && !w.nested.is_empty() { let f = r.pick(&w.nested).clone(); s += &field(r, w, &f, depth + 1, alias); }
    }
    s + " "
}
fn dir(r: &mut Rng) -> &'static str { if r.chance(1, 8) { *r.pick(&[" @skip(if: $b)", " @include(if: $b)", " @include(if: $c)", " @skip(if: $c)"]) } else { "" } }
fn field(r: &mut Rng, w: &World, f: &RootF, depth: usize, alias: &mut usize) -> String {
    *alias += 1;
    let al = if r.bool() || !f.args.is_empty() { format!("x{alias}: ") } else { String::new() };
    let mut args = vec![];
    for (n, t) in &f.args {
        if t.ends_with('!') { args.push(format!("{n}: {}", r.below(4))); continue }
        match r.below(4) { 0 => {} 1 => args.push(format!("{n}: ${n}")), 2 => args.push(format!("{n}: {}", if *n == "a" { r.below(3).to_string() } else { format!("\"l{}\"", r.below(3)) })), _ => args.push(format!("{n}: ${n}")) }
    }
    let args = if args.is_empty() { String::new() } else { format!("({})", args.join(", ")) };
    let sub = if f.leaf { String::new() } else { format!(" {{{}}}", gen_sel(r, w, depth, alias)) };
    format!(" {al}{}{args}{}{sub}", f.name, dir(r))
}
fn gen_doc(r: &mut Rng, w: &World) -> Doc {
    let n = *r.pick(&[1, 1, 2, 3]);
    let mut d = Doc { anonymous: n == 1 && r.bool(), ..Default::default() };
    // operations of a document resemble each other: same shape, other fields or literals
    for i in 0..n {
        let mutation = !w.mutation.is_empty() && r.chance(1, 5);
        let mut al = 0;
        let mut s = String::new();
        let mut cst = !mutation;
        let only_const = r.chance(1, 4);
        let pool: Vec<&RootF> = if mutation { w.mutation.iter().collect() } else { w.query.iter().filter(|f| !only_const || f.cst).collect() };
        let k = if mutation { 1 } else { r.range(1, 3) };
        for _ in 0..k { if !pool.is_empty() { let f = (*r.pick(&pool)).clone(); if mutation || !f.cst { cst = false; } s += &field(r, w, &f, 0, &mut al); } }
        if r.chance(1, 4) || s.is_empty() { s += &format!(" __typename{}", dir(r)); }
        if r.chance(1, 6) && !mutation { s += *r.pick(&[" __schema { queryType { name } }", " __type(name: \"Node\") { name kind }", " __type(name: $t) { name kind }"]); }
        let name = format!("Op{i}");
        let kw = if mutation { "mutation" } else { "query" };
        d.text += &format!("{kw} {}($a: Int{}, $s: String, $b: Boolean = {}, $c: Boolean = true, $t: String = \"Query\") {{{s} }}\n", if d.anonymous { "" } else { &name }, if r.chance(1, 4) { " = 7" } else { "" }, r.bool());
        d.ops.push(name);
        d.cst.push(cst);
    }
    d
}

#[derive(Clone, Debug, Hash, PartialEq, Eq, PartialOrd, Ord)]
enum Req { Gql { items: Vec<(usize, String)>, batch: bool, auth: u8, user: u8 }, Rest { path: String, auth: u8, user: u8 } }

fn gen_item(r: &mut Rng, docs: &[Doc]) -> (usize, String) {
    let i = r.below(docs.len());
    let d = &docs[i];
    let mut b = Map::new();
    b.insert("query".into(), json!(d.text));
    if !d.anonymous {
        match r.below(8) {
            0 => {}
            1 => { b.insert("operationName".into(), json!("Nope")); }
            _ => { b.insert("operationName".into(), json!(r.pick(&d.ops))); }
        }
    }
    if r.chance(3, 4) {
        let mut v = Map::new();
        if r.bool() { v.insert("a".into(), json!(r.below(3))); }
        if r.bool() { v.insert("s".into(), match r.below(3) { 0 => Value::Null, 1 => json!("one"), _ => json!("two") }); }
        if r.chance(2, 3) { v.insert("b".into(), json!(r.bool())); }
        if r.bool() { v.insert("c".into(), json!(r.bool())); }
        if r.chance(1, 4) { v.insert("t".into(), json!(r.pick(&["Node", "Query", "Int", "Unknown"]))); }
        b.insert("variables".into(), Value::Object(v));
    }
    (i, Value::Object(b).to_string())
}
fn gen_req(r: &mut Rng, w: &World, docs: &[Doc]) -> Req {
    let (auth, user) = (r.below(4) as u8, r.below(3) as u8);
    if w.rest.is_some() && !w.rest_args.is_empty() && r.chance(1, 4) {
        let (n, args, has) = r.pick(&w.rest_args).clone();
        let mut p = format!("/api/{n}");
        if has { p += &format!("/{}", r.below(3)); }
        if args.contains(&"s") { p += *r.pick(&["?s=one", "?s=two", "?s=%20x"]); }
        return Req::Rest { path: p, auth, user };
    }
    let batch = w.batch && r.chance(1, 2);
    let mut items: Vec<(usize, String)> = (0..if batch { r.range(1, 4) } else { 1 }).map(|_| gen_item(r, docs)).collect();
    if batch && items.len() > 1 && r.chance(1, 4) { let x = items[0].clone(); items.push(x); }
    Req::Gql { items, batch, auth, user }
}
fn headers(auth: u8, user: u8) -> Vec<(String, String)> {
    let b = |s: &str| format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(s));
    let mut h = vec![];
    match auth { 0 => {} 1 => h.push(("authorization".into(), b("u1:p1"))), 2 => h.push(("authorization".into(), b("u2:p2"))), _ => h.push(("authorization".into(), b("u1:wrong"))) }
    match user { 0 => {} 1 => h.push(("xuser".into(), "ann".into())), _ => h.push(("xuser".into(), "bob".into())) }
    h
}
async fn run_req(app: &Arc<AppContext>, q: &Req) -> (u16, String) {
    let (auth, user) = match q { Req::Gql { auth, user, .. } | Req::Rest { auth, user, .. } => (*auth, *user) };
    let h = headers(auth, user);
    let mut hv: Vec<(&str, &str)> = h.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    hv.push(("content-type", "application/json"));
    let res = match q {
        Req::Gql { items, batch, .. } => {
            let body = if *batch { format!("[{}]", items.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(",")) } else { items[0].1.clone() };
            mock::send(app, "POST", "/graphql", &hv, body).await
        }
        Req::Rest { path, .. } => mock::send(app, "GET", path, &hv, "").await,
    };
    match res { Ok(r) => (r.status, r.text()), Err(e) => (0, e) }
}
/// The requests a request stands for, each to be answered as if alone.
fn parts(q: &Req) -> Vec<Req> {
    match q {
        Req::Gql { items, batch: true, auth, user } => items.iter().map(|i| Req::Gql { items: vec![i.clone()], batch: false, auth: *auth, user: *user }).collect(),
        q => vec![q.clone()],
    }
}

struct Alone { map: BTreeMap<(u64, Req), (u16, String, Vec<(String, String)>)>, epoch: Arc<AtomicU64>, fails: u64 }
impl Alone {
    async fn get(&mut self, w: &World, q: &Req) -> (u16, String, Vec<(String, String)>) {
        let e = self.epoch.load(Ordering::SeqCst);
        if let Some(x) = self.map.get(&(e, q.clone())) { return x.clone() }
        let up = upstream(self.epoch.clone(), self.fails, 0);
        let app = build(w, up.clone());
        let (s, t) = run_req(&app, q).await;
        let calls = up.take().iter().map(|u| (format!("{} {}", u.method, u.path()), u.body_str())).collect::<Vec<_>>();
        let v = (s, t, calls);
        self.map.insert((e, q.clone()), v.clone());
        v
    }
    /// (status, body) a request is expected to get
    async fn want(&mut self, w: &World, q: &Req) -> (u16, String) {
        let ps = parts(q);
        if let Req::Gql { batch: true, .. } = q {
            let mut v = vec![];
            for p in &ps { v.push(self.get(w, p).await.1); }
            (200, format!("[{}]", v.join(",")))
        } else { let a = self.get(w, &ps[0]).await; (a.0, a.1) }
    }
}

fn same(a: &(u16, String), b: &(u16, String)) -> bool {
    a.0 == b.0 && match (serde_json::from_str::<Value>(&a.1), serde_json::from_str::<Value>(&b.1)) { (Ok(x), Ok(y)) => x == y, _ => a.1 == b.1 }
}
fn sig(q: &Req, what: &str) -> String { format!("{what}:{}", match q { Req::Rest { .. } => "rest", Req::Gql { batch: true, .. } => "batch", _ => "single" }) }

struct Seen { docs: BTreeMap<usize, Vec<(String, String)>>, consts: BTreeMap<usize, usize> }
impl Seen {
    fn note(&mut self, c: &C, docs: &[Doc], q: &Req, answers: &[String]) {
        if let Req::Rest { .. } = q { c.count("rest-requests", 1); }
        if let Req::Gql { items, batch, .. } = q {
            if *batch && items.len() > 1 { c.count("batches", 1); }
            for ((i, body), a) in items.iter().zip(answers) {
                let op = serde_json::from_str::<Value>(body).unwrap()["operationName"].to_string();
                let past = self.docs.entry(*i).or_default();
                if past.iter().any(|x| x.1 != *a) { c.count("same-document-different-answer", 1); }
                if past.iter().any(|x| x.0 != op && x.1 != *a) { c.count("operation-name-matters", 1); }
                c.count(if a.starts_with("{\"data\":{") { "answered-with-data" } else { "answered-with-error" }, 1);
                past.push((op, a.clone()));
                if docs[*i].cst.iter().any(|x| *x) { let n = self.consts.entry(*i).or_default(); *n += 1; if *n > 1 { c.count("constant-document-repeated", 1); } }
            }
        }
    }
}

fn show(q: &Req) -> Value {
    match q {
        Req::Gql { items, batch, auth, user } => json!({"batch": batch, "headers": headers(*auth, *user), "items": items.iter().map(|x| serde_json::from_str::<Value>(&x.1).unwrap()).collect::<Vec<_>>()}),
        Req::Rest { path, auth, user } => json!({"GET": path, "headers": headers(*auth, *user)}),
    }
}

/// The shortest part of the history after which the last request still goes wrong.
async fn shrink(w: &World, alone: &mut Alone, past: &[Req], q: &Req) -> Vec<Value> {
    let want = alone.want(w, q).await;
    let fails = alone.fails;
    let epoch = alone.epoch.clone();
    let bad = |h: Vec<Req>| { let epoch = epoch.clone(); let want = want.clone(); async move { let app = build(w, upstream(epoch, fails, 0)); for x in &h { run_req(&app, x).await; } !same(&run_req(&app, q).await, &want) } };
    for j in 0..past.len() { if bad(vec![past[j].clone()]).await { return vec![show(&past[j])] } }
    past.iter().map(show).collect()
}

fn histories(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("hist");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(110, 3000) {
            let o = Opt { cache: r.bool(), loader: false };
            let rest = r.chance(1, 3);
            let w = match gen_world(&mut r, o, rest) { Ok(w) => w, Err(e) => { c.violation("config:rejected", json!(e)); continue } };
            let fails = *r.pick(&[0, 0, 7]);
            let epoch = Arc::new(AtomicU64::new(0));
            let up = upstream(epoch.clone(), fails, 0);
            let app = build(&w, up.clone());
            let mut alone = Alone { map: BTreeMap::new(), epoch, fails };
            let docs: Vec<Doc> = (0..r.range(1, 3)).map(|_| gen_doc(&mut r, &w)).collect();
            let mut seen = Seen { docs: BTreeMap::new(), consts: BTreeMap::new() };
            let mut past: Vec<Req> = vec![];
            for k in 0..r.range(5, 12) {
                let q = if !past.is_empty() && r.chance(1, 6) { r.pick(&past).clone() } else { gen_req(&mut r, &w, &docs) };
                c.case(&(&w.sdl, &q, k), k > 0);
                let got = run_req(&app, &q).await;
                let want = alone.want(&w, &q).await;
                if let Req::Gql { items, .. } = &q { let mut a = vec![]; for p in parts(&q) { a.push(alone.get(&w, &p).await.1); } debug_assert!(a.len() == items.len()); seen.note(c, &docs, &q, &a); } else { seen.note(c, &docs, &q, &[]); }
                if !same(&got, &want) {
                    let h = shrink(&w, &mut alone, &past, &q).await;
                    c.violation(&sig(&q, "history"), json!({"sdl": w.sdl, "before": h, "request": show(&q), "alone": want, "got": got}));
                }
                if k == 3 { c.sample(|| json!({"request": show(&q), "answer": got.1})); }
                past.push(q);
            }
            c.count("documents", docs.len() as u64);
            c.count("requests", past.len() as u64);
            c.count("upstream-calls", up.seen() as u64);
        }
    });
}

/// Requests overlapping in (virtual) time.
fn concurrent(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("conc");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(60, 2000) {
            let cache = r.chance(1, 3);
            let w = match gen_world(&mut r, Opt { cache, loader: false }, false) { Ok(w) => w, Err(e) => { c.violation("config:rejected", json!(e)); continue } };
            let fails = *r.pick(&[0, 0, 7]);
            let epoch = Arc::new(AtomicU64::new(0));
            let up = upstream(epoch.clone(), fails, 40);
            let app = build(&w, up.clone());
            let mut alone = Alone { map: BTreeMap::new(), epoch, fails };
            let docs: Vec<Doc> = (0..r.range(1, 2)).map(|_| gen_doc(&mut r, &w)).collect();
            let n = r.range(4, 14);
            let mut reqs: Vec<(Req, u64)> = (0..n).map(|_| (gen_req(&mut r, &w, &docs), r.below(60) as u64)).collect();
            for i in 1..n { if r.chance(1, 3) { let j = r.below(i); reqs[i].0 = reqs[j].0.clone(); } }
            if r.chance(1, 4) { for x in reqs.iter_mut() { x.1 = 0; } }
            let inflight = AtomicU64::new(0);
            let answers = futures_util::future::join_all(reqs.iter().map(|(q, at)| { let (app, inflight) = (&app, &inflight); async move {
                tokio::time::sleep(std::time::Duration::from_millis(*at)).await;
                if inflight.fetch_add(1, Ordering::SeqCst) > 0 { c.count("overlapped", 1); }
                let a = run_req(app, q).await;
                inflight.fetch_sub(1, Ordering::SeqCst);
                a
            } })).await;
            let mut calls: BTreeMap<String, i64> = BTreeMap::new();
            for u in up.take() { *calls.entry(format!("{} {}", u.method, u.path())).or_default() += 1; }
            let mut alone_calls: BTreeMap<String, i64> = BTreeMap::new();
            for ((q, at), got) in reqs.iter().zip(&answers) {
                c.case(&(&w.sdl, q, at, "c"), true);
                let want = alone.want(&w, q).await;
                for p in parts(q) { for (k, _) in alone.get(&w, &p).await.2 { *alone_calls.entry(k).or_default() += 1; } }
                if !same(got, &want) { c.violation(&sig(q, "concurrent"), json!({"sdl": w.sdl, "requests": reqs.iter().map(|(q, at)| json!([at, show(q)])).collect::<Vec<_>>(), "request": show(q), "at": at, "alone": want, "got": got})); }
            }
            // work that may not be shared is done once per request
            let text = |p: &str| -> String { let n = p.split('/').nth(1).unwrap_or("").to_string(); w.query.iter().chain(&w.mutation).chain(&w.nested).find(|f| f.name == n).map(|f| f.sdl.clone()).unwrap_or_default() };
            let plain = unshared(&w);
            let mut apart = Alone { map: BTreeMap::new(), epoch: alone.epoch.clone(), fails };
            let mut apart_calls: BTreeMap<String, i64> = BTreeMap::new();
            for (q, _) in &reqs { for p in parts(q) { for (k, _) in apart.get(&plain, &p).await.2 { *apart_calls.entry(k).or_default() += 1; } } }
            for (k, n) in &alone_calls {
                let t = text(k);
                let shared = t.contains("dedupe: true") || t.contains("@cache");
                let got = calls.get(k).copied().unwrap_or(0);
                c.count("call-counts", 1);
                if shared { let n = apart_calls.get(k).copied().unwrap_or(0).max(*n); c.check(got >= 1 && got <= n, "calls:shared", || json!({"sdl": w.sdl, "call": k, "without-sharing": n, "together": got, "requests": reqs.iter().map(|(q, at)| json!([at, show(q)])).collect::<Vec<_>>()})); }
                else { c.check(got == *n, "calls:unshared", || json!({"sdl": w.sdl, "call": k, "alone": n, "together": got, "requests": reqs.iter().map(|(q, at)| json!([at, show(q)])).collect::<Vec<_>>()})); }
            }
            for (k, n) in &calls { c.check(alone_calls.contains_key(k), "calls:unexpected", || json!({"sdl": w.sdl, "call": k, "together": n})); }
        }
    });
}

/// The upstream's data changes between requests; nothing is cached, so nothing old may be served.
fn changes(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("chg");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(40, 1000) {
            let rest = r.chance(1, 4);
            let w = match gen_world(&mut r, Opt { cache: false, loader: false }, rest) { Ok(w) => w, Err(e) => { c.violation("config:rejected", json!(e)); continue } };
            let epoch = Arc::new(AtomicU64::new(1));
            let app = build(&w, upstream(epoch.clone(), 0, 0));
            let mut alone = Alone { map: BTreeMap::new(), epoch: epoch.clone(), fails: 0 };
            let docs: Vec<Doc> = (0..2).map(|_| gen_doc(&mut r, &w)).collect();
            let mut past: Vec<Req> = vec![];
            for k in 0..8 {
                let q = if !past.is_empty() && r.bool() { r.pick(&past).clone() } else { gen_req(&mut r, &w, &docs) };
                c.case(&(&w.sdl, &q, k, "e"), past.contains(&q));
                if past.contains(&q) { c.count("asked-again-after-change", 1); }
                let got = run_req(&app, &q).await;
                let want = alone.want(&w, &q).await;
                c.check(same(&got, &want), &sig(&q, "stale"), || json!({"sdl": w.sdl, "before": past.iter().map(show).collect::<Vec<_>>(), "request": show(&q), "alone": want, "got": got}));
                past.push(q);
                epoch.fetch_add(1, Ordering::SeqCst);
            }
        }
    });
}

/// The same on real threads, data loaders included.
fn threads(c: &C) {
    let mut r = c.rng("thr");
    let rt = rt_multi(6);
    let lone = rt_single();
    for _ in 0..c.n(14, 400) {
        let cache = r.bool();
        let w = match gen_world(&mut r, Opt { cache, loader: true }, false) { Ok(w) => w, Err(e) => { c.violation("config:rejected", json!(e)); continue } };
        let epoch = Arc::new(AtomicU64::new(0));
        let app = build(&w, upstream(epoch.clone(), 0, 4));
        let docs: Vec<Doc> = (0..2).map(|_| gen_doc(&mut r, &w)).collect();
        let reqs: Vec<Req> = (0..24).map(|_| gen_req(&mut r, &w, &docs)).collect();
        let mut seqs: Vec<Vec<usize>> = (0..8).map(|_| (0..6).map(|_| r.below(reqs.len())).collect()).collect();
        if r.bool() { let s = seqs[0].clone(); for x in seqs.iter_mut() { *x = s.clone(); } }
        let mut alone = Alone { map: BTreeMap::new(), epoch, fails: 0 };
        let reqs = Arc::new(reqs);
        let got: Vec<Vec<(usize, (u16, String))>> = rt.block_on(async {
            let hs: Vec<_> = seqs.iter().cloned().map(|s| { let (app, reqs) = (app.clone(), reqs.clone()); tokio::spawn(async move { let mut out = vec![]; for i in s { out.push((i, run_req(&app, &reqs[i]).await)); } out }) }).collect();
            let mut v = vec![];
            for h in hs { match h.await { Ok(x) => v.push(x), Err(e) => { c.violation("threads:panic", json!({"sdl": w.sdl, "error": e.to_string()})); } } }
            v
        });
        for (i, g) in got.into_iter().flatten() {
            let want = lone.block_on(alone.want(&w, &reqs[i]));
            c.case(&(&w.sdl, &reqs[i], "t"), true);
            c.count("threaded-requests", 1);
            c.check(same(&g, &want), &sig(&reqs[i], "threads"), || json!({"sdl": w.sdl, "request": show(&reqs[i]), "alone": want, "got": g}));
        }
        let _ = &w.m;
    }
}
