// C22
//! C22: concurrent clients never see or use each other's data or credentials.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use base64::Engine;
use serde_json::{json, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::data_loader::{DataLoader, Loader};
use tailcall::core::http::DataLoaderRequest;
use tailcall::core::rest::EndpointSet;

use crate::common::*;
use crate::mock::{self, Files, UReq, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one request of one client among many running at once, judged by whose credentials the upstream saw for what the client was given, or one pair of upstream requests that may or may not be loaded together; non-trivial = requests of other clients with other credentials were running at the same time; distinct by configuration, fields, arguments, credentials and round");
    c.assume("the answer of an upstream is a function of the request it gets, the forwarded headers included; keys are compared by 64-bit hashes, deliberate collisions aren't searched for; two requests for the loader that differ only in the method are equal by the project's own unit test");
    c.section("keys", keys);
    c.section("loader", loader);
    c.section("gateway", gateway);
    for (k, n) in [("pairs-equal", 2000), ("pairs-different", 5000), ("loads", 500), ("loads-shared", 50), ("requests", 1500), ("identities-at-once", 3), ("requests-at-once", 8), ("calls-for-several", 30), ("calls-shared", 30), ("refused", 30), ("cookies-checked", 200), ("failing-clients", 50)] { c.floor(k, n) }
}

// ---------------------------------------------------------------- what may be loaded together
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Rq { url: String, method: &'static str, body: Option<String>, headers: Vec<(String, String)>, significant: BTreeSet<String> }

const URLS: &[&str] = &["http://a.test/x", "http://a.test/x?id=1", "http://a.test/x?id=2", "http://a.test/x?id=1&id=2", "http://a.test/x?id=1%262", "http://b.test/x", "https://a.test/x", "http://a.test:81/x", "http://a.test/x#f"];
const NAMES: &[&str] = &["x-a", "x-b", "authorization", "cookie", "X-A"];
const VALUES: &[&str] = &["1", "2", "", "12", "x-a", "Bearer t", "Bearer u", "1, 2", "a=1; b=2"];

fn rq(r: &mut Rng, significant: &BTreeSet<String>) -> Rq {
    Rq {
        url: r.pick(&URLS[..]).to_string(),
        method: "GET",
        body: (r.chance(1, 3)).then(|| r.pick(&["{\"a\":1}", "{\"a\":2}", "x", "{\"a\":1} "]).to_string()),
        headers: (0..r.below(4)).map(|_| (r.pick(&NAMES[..]).to_string(), r.pick(&VALUES[..]).to_string())).collect(),
        significant: significant.clone(),
    }
}

impl Rq {
    fn request(&self) -> reqwest::Request {
        let mut q = reqwest::Request::new(self.method.parse().unwrap(), self.url.parse().unwrap());
        for (k, v) in &self.headers { q.headers_mut().append(k.parse::<reqwest::header::HeaderName>().unwrap(), v.parse().unwrap()); }
        if let Some(b) = &self.body { *q.body_mut() = Some(b.clone().into()) }
        q
    }
    fn key(&self) -> DataLoaderRequest { DataLoaderRequest::new(self.request(), self.significant.clone()) }
    /// all that decides whether two requests can be answered by one
    fn id(&self) -> (String, Option<String>, Vec<(String, String)>) {
        let names: BTreeSet<String> = self.significant.iter().map(|n| n.to_lowercase()).collect();
        let mut hs: Vec<(String, String)> = self.headers.iter().map(|(k, v)| (k.to_lowercase(), v.clone())).filter(|h| names.contains(&h.0)).collect();
        hs.sort_by(|a, b| a.0.cmp(&b.0));
        (url::Url::parse(&self.url).unwrap().to_string(), self.body.clone(), hs)
    }
}

fn h(x: &impl Hash) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }

fn keys(c: &C) {
    let mut r = c.rng("keys");
    for _ in 0..c.n(20_000, 400_000) {
        let sig: BTreeSet<String> = r.subset(NAMES, 1, 2).into_iter().map(|x| x.to_string()).collect();
        let a = rq(&mut r, &sig);
        let mut b = if r.bool() { a.clone() } else { rq(&mut r, &sig) };
        // one thing is different
        match r.below(9) {
            0 => b.url = r.pick(&URLS[..]).to_string(),
            1 => b.body = r.pick(&[None, Some("{\"a\":2}".to_string()), Some("x".into())]).clone(),
            2 => if !b.headers.is_empty() { let i = r.below(b.headers.len()); b.headers[i].1 = r.pick(&VALUES[..]).to_string() },
            3 => if !b.headers.is_empty() { let i = r.below(b.headers.len()); b.headers[i].0 = r.pick(&NAMES[..]).to_string() },
            4 => if !b.headers.is_empty() { let i = r.below(b.headers.len()); b.headers.remove(i); },
            5 => b.headers.push((r.pick(&NAMES[..]).to_string(), r.pick(&VALUES[..]).to_string())),
            6 => { let i = r.below(b.headers.len() + 1); b.headers.insert(i, (r.pick(&["x-free", "accept"]).to_string(), r.pick(&VALUES[..]).to_string())) }
            7 => if b.headers.len() > 1 { let v = b.headers[0].1.clone(); b.headers[0].1 = b.headers[1].1.clone(); b.headers[1].1 = v },
            _ => {}
        }
        let (ka, kb) = (a.key(), b.key());
        // The order in which one header's values come is kept by the id
        let same = a.id() == b.id();
        c.case(&(&a, &b), a != b);
        c.count(if same { "pairs-equal" } else { "pairs-different" }, 1);
        let show = || json!({"one": format!("{a:?}"), "other": format!("{b:?}"), "may be answered by one": same});
        c.check((ka == kb) == same && (kb == ka) == same, if same { "keys:same-kept-apart" } else { "keys:different-loaded-together" }, show);
        if same { c.check(h(&ka) == h(&kb), "keys:hash-of-equal-keys", show); }
        // as the map of a data loader sees them
        let m: HashMap<DataLoaderRequest, u8> = [(ka.clone(), 1u8), (kb.clone(), 2)].into_iter().collect();
        c.check(m.len() == 2 - same as usize && m.get(&kb) == Some(&2) && m.get(&ka) == Some(&(1 + same as u8)), "keys:map", show);
        // the copy is what is sent
        let bv = r.bool().then(|| "k7".to_string());
        let k = kb.clone().with_batching_value(bv.clone());
        let k2 = k.clone();
        let sent = k2.to_request();
        let want = b.request();
        let hs = |q: &reqwest::Request| q.headers().iter().map(|(k, v)| (k.to_string(), v.clone())).collect::<Vec<_>>();
        let body = |q: &reqwest::Request| q.body().and_then(|b| b.as_bytes()).map(|b| b.to_vec());
        c.check(k2 == kb && sent.url() == want.url() && sent.method() == want.method() && hs(&sent) == hs(&want) && body(&sent) == body(&want) && k2.batching_value() == bv.as_ref() && DataLoaderRequest::headers(&k2) == &sig, "keys:copy", || json!({"request": format!("{b:?}"), "copy": format!("{sent:?}"), "batching value": k2.batching_value()}));
    }
}

/// Answers with what it was asked, as a backend that trusts the headers would
struct Echo { calls: AtomicUsize, keys: AtomicUsize, slow: u64, fails: bool }
type Told = (String, Option<String>, Vec<(String, String)>);
#[async_trait::async_trait]
impl Loader<DataLoaderRequest> for Echo {
    type Value = Told;
    type Error = Arc<anyhow::Error>;
    async fn load(&self, keys: &[DataLoaderRequest]) -> Result<HashMap<DataLoaderRequest, Told>, Self::Error> {
        self.calls.fetch_add(1, Ordering::SeqCst);
        self.keys.fetch_add(keys.len(), Ordering::SeqCst);
        tokio::time::sleep(Duration::from_millis(h64(&keys.len()) % (self.slow + 1))).await;
        if self.fails && keys.len() == 2 { return Err(Arc::new(anyhow::anyhow!("two"))) }
        Ok(keys.iter().map(|k| {
            let q = k.to_request();
            let names: BTreeSet<String> = DataLoaderRequest::headers(k).iter().map(|n| n.to_lowercase()).collect();
            let mut hs: Vec<(String, String)> = q.headers().iter().map(|(k, v)| (k.to_string(), v.to_str().unwrap_or("").to_string())).filter(|h| names.contains(&h.0)).collect();
            hs.sort_by(|a, b| a.0.cmp(&b.0));
            (k.clone(), (q.url().to_string(), q.body().and_then(|b| b.as_bytes()).map(|b| String::from_utf8_lossy(b).into_owned()), hs))
        }).collect())
    }
}

fn loader(c: &C) {
    let mut r = c.rng("loader");
    let rt = rt_multi(4);
    for round in 0..c.n(60, 1500) {
        let sig: BTreeSet<String> = r.subset(NAMES, 1, 2).into_iter().map(|x| x.to_string()).collect();
        let all = r.range(2, 30);
        let pool: Vec<Rq> = (0..r.range(1, 12)).map(|_| rq(&mut r, &sig)).collect();
        let asks: Vec<Vec<Rq>> = (0..all).map(|_| (0..r.range(1, 3)).map(|_| r.pick(&pool).clone()).collect()).collect();
        let dl = DataLoader::new(Echo { calls: 0.into(), keys: 0.into(), slow: *r.pick(&[0, 0, 3]), fails: r.chance(1, 5) }).delay(Duration::from_millis(*r.pick(&[0u64, 1, 3]))).max_batch_size(*r.pick(&[1usize, 2, 3, 10, 1000]));
        let dl = Arc::new(dl);
        let seed = r.next();
        let (c2, dl2, asks2) = (c.clone(), dl.clone(), asks.clone());
        rt.block_on(async move {
            let c = &c2;
            let mut set = vec![];
            for (i, ask) in asks2.into_iter().enumerate() {
                let dl = dl2.clone();
                set.push(tokio::spawn(async move {
                    if h64(&(seed, i)) % 3 == 0 { tokio::time::sleep(Duration::from_millis(h64(&(seed, i, 1)) % 4)).await }
                    let got = if ask.len() == 1 && h64(&(seed, i, 2)) % 2 == 0 { dl.load_one(ask[0].key()).await.map(|v| v.map(|v| (ask[0].key(), v)).into_iter().collect::<HashMap<_, _>>()) } else { dl.load_many(ask.iter().map(|a| a.key())).await };
                    (ask, got)
                }));
            }
            for t in set {
                let Ok((ask, got)) = t.await else { c.violation("loader:panic", json!(last_panic())); continue };
                c.count("loads", ask.len() as u64);
                c.case(&(round, &ask), true);
                match got {
                    Err(e) => { c.check(e.to_string() == "two", "loader:error", || json!(e.to_string())); }
                    Ok(m) => for a in &ask {
                        c.check(m.get(&a.key()) == Some(&a.id()), "loader:value-of-another", || json!({"asked": format!("{a:?}"), "given": format!("{:?}", m.get(&a.key()))}));
                    }
                }
            }
        });
        let asked: usize = asks.iter().map(|a| a.len()).sum();
        c.count("loads-shared", asked.saturating_sub(dl.loader().keys.load(Ordering::SeqCst)) as u64);
    }
}

// ---------------------------------------------------------------- the gateway
const PROTO: &str = "syntax = \"proto3\"; package p;\nmessage Id { int32 id = 1; }\nmessage Ids { repeated Id ids = 1; }\nmessage Who { int32 id = 1; string who = 2; }\nmessage Whos { repeated Who items = 1; }\nservice S { rpc Get (Id) returns (Who); rpc Many (Ids) returns (Whos); }\n";
const USERS: &str = "u0:{PLAIN}p0\nu1:{PLAIN}p1\nu2:{PLAIN}p2\nu3:{PLAIN}p3\n";

#[derive(Clone, Debug, Hash)]
struct Fld { name: String, sdl: String, id: bool, derived: bool, protected: bool }

/// One client: the headers it sends
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Client { n: usize, headers: Vec<(String, String)>, known: bool, fails: bool }

impl Client {
    fn all(&self, k: &str) -> String { let v: Vec<&str> = self.headers.iter().filter(|h| h.0 == k).map(|h| h.1.as_str()).collect(); if v.is_empty() { "-".into() } else { v.join("|") } }
    fn who(&self) -> String { format!("a={};t={};c={}", self.all("authorization"), self.all("xtoken"), self.all("cookie")) }
}

fn ident(u: &UReq) -> String {
    let all = |k: &str| { let v: Vec<&str> = u.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(k)).map(|h| h.1.as_str()).collect(); if v.is_empty() { "-".to_string() } else { v.join("|") } };
    format!("a={};t={};c={}", all("authorization"), all("xtoken"), all("cookie"))
}

fn fields(r: &mut Rng) -> Vec<Fld> {
    let mut out = vec![];
    for i in 0..r.range(4, 9) {
        let name = format!("f{i}");
        let dedupe = if r.chance(1, 2) { ", dedupe: true" } else { "" };
        let cache = if r.chance(1, 3) { " @cache(maxAge: 100000)" } else { "" };
        let protected = r.chance(1, 5);
        let p = if protected { " @protected" } else { "" };
        let derived = r.chance(1, 4);
        let hd = if derived { ", headers: [{key: \"xderived\", value: \"{{.headers.xtoken}}\"}]" } else { "" };
        let same = if r.chance(1, 3) { "shared".to_string() } else { name.clone() };
        let (ty, dir) = match r.below(9) {
            0 => ("Who".to_string(), format!("@http(url: \"http://up.test/{same}\", query: [{{key: \"id\", value: \"{{{{.args.id}}}}\"}}]{hd}{dedupe})")),
            1 | 2 => ("Who".into(), format!("@http(url: \"http://up.test/{same}\", query: [{{key: \"id\", value: \"{{{{.args.id}}}}\"}}], batchKey: [\"id\"]{hd}{dedupe})")),
            3 | 4 => ("Who".into(), format!("@http(url: \"http://up.test/{same}\", method: POST, body: {{id: \"{{{{.args.id}}}}\"}}, batchKey: [\"id\"]{hd}{dedupe})")),
            5 => ("Who".into(), format!("@graphQL(url: \"http://gql.test/{same}\", name: \"who\", args: [{{key: \"id\", value: \"{{{{.args.id}}}}\"}}], batch: true{hd}{dedupe})")),
            6 => ("Who".into(), format!("@graphQL(url: \"http://gql.test/{same}\", name: \"who\", args: [{{key: \"id\", value: \"{{{{.args.id}}}}\"}}]{hd}{dedupe})")),
            7 => ("Who!".into(), format!("@grpc(url: \"http://grpc.test\", method: \"p.S.Many\", body: {{id: \"{{{{.args.id}}}}\"}}, batchKey: [\"items\", \"id\"]{}{dedupe})", hd)),
            _ => ("Who".into(), format!("@grpc(url: \"http://grpc.test\", method: \"p.S.Get\", body: {{id: \"{{{{.args.id}}}}\"}}{hd}{dedupe})")),
        };
        out.push(Fld { sdl: format!("  {name}(id: Int!): {ty} {dir}{cache}{p}\n"), name, id: true, derived, protected });
    }
    out.push(Fld { name: "me".into(), sdl: "  me: String @expr(body: \"t={{.headers.xtoken}}\")\n".into(), id: false, derived: false, protected: false });
    out
}

fn build(sdl: &str, up: Arc<Upstream>) -> Result<Arc<AppContext>, String> {
    let mut rt = mock::runtime(up);
    rt.file = Arc::new(Files(Mutex::new([("app.graphql", sdl), ("p.proto", PROTO), ("h", USERS)].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect())));
    let rt2 = rt.clone();
    let bp = std::thread::spawn(move || rt_single().block_on(async move {
        let m = ConfigReader::init(rt2).read("app.graphql").await.map_err(|e| format!("{e:#}"))?;
        Blueprint::try_from(&m).map_err(|e| format!("{e}"))
    })).join().map_err(|_| last_panic())??;
    Ok(Arc::new(AppContext::new(bp, rt, EndpointSet::default())))
}

fn varint(mut n: usize, out: &mut Vec<u8>) { loop { let b = (n & 0x7f) as u8; n >>= 7; if n == 0 { out.push(b); return } out.push(b | 0x80) } }
fn field(tag: u8, b: &[u8]) -> Vec<u8> { let mut v = vec![tag]; varint(b.len(), &mut v); v.extend(b); v }
fn five(p: &[u8]) -> Vec<u8> { let mut v = vec![0]; v.extend((p.len() as u32).to_be_bytes()); v.extend(p); v }
fn who(id: usize, who: &str) -> Vec<u8> { let mut v = vec![]; if id > 0 { v.push(8); varint(id, &mut v) } if !who.is_empty() { v.extend(field(0x12, who.as_bytes())) } v }
fn read_varint(b: &[u8], i: &mut usize) -> usize { let (mut n, mut s) = (0, 0); while *i < b.len() { let x = b[*i]; *i += 1; n |= ((x & 0x7f) as usize) << s; s += 7; if x & 0x80 == 0 { break } } n }
/// ids of an `Id` or an `Ids` message
fn grpc_ids(b: &[u8]) -> Vec<usize> {
    let (mut i, mut out) = (5, vec![]);
    while i < b.len() {
        let t = b[i]; i += 1;
        if t == 8 { out.push(read_varint(b, &mut i)) } else { let n = read_varint(b, &mut i); let mut j = i + 1; out.push(if n > 0 { read_varint(b, &mut j) } else { 0 }); i += n }
    }
    if out.is_empty() { out.push(0) }
    out
}
fn number_after(t: &str, pat: &str) -> usize { t.find(pat).map(|i| t[i + pat.len()..].chars().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap_or(0)).unwrap_or(0) }

/// The ids a call asks for
fn call_ids(u: &UReq) -> Vec<usize> {
    match u.url.host_str() {
        Some("grpc.test") => grpc_ids(&u.body),
        Some("gql.test") => { let b = u.body_json(); match &b { Value::Array(l) => l.iter().map(|q| number_after(q["query"].as_str().unwrap_or(""), "id:")).collect(), b => vec![number_after(b["query"].as_str().unwrap_or(""), "id:")] } }
        _ if u.method == "POST" => { let b = u.body_json(); let l = if let Value::Array(l) = b { l } else { vec![b] }; l.iter().map(|x| x["id"].to_string().trim_matches('"').parse().unwrap_or(0)).collect() }
        _ => u.qs("id").iter().map(|i| i.parse().unwrap_or(0)).collect(),
    }
}

fn gateway(c: &C) {
    let mut r = c.rng("gateway");
    let rt = rt_multi(6);
    for round in 0..c.n(90, 1500) {
        let fs = fields(&mut r);
        let listed: Vec<&str> = r.subset(&["xtoken", "authorization", "cookie", "x-none"], 1, 3);
        let sdl = format!("schema @server(port: 8000, headers: {{setCookies: true, experimental: [\"x-who\"]}}) @upstream(batch: {{delay: {}, maxSize: {}, headers: {}}}, allowedHeaders: [\"xtoken\", \"cookie\", \"Authorization\"])\n @link(id: \"p\", src: \"p.proto\", type: Protobuf) @link(id: \"h\", src: \"h\", type: Htpasswd) {{ query: Query }}\ntype Who {{ id: Int who: String }}\ntype Query {{\n{}}}\n", r.pick(&[1, 2, 5]), r.pick(&[1, 2, 3, 100]), json!(listed), fs.iter().map(|f| f.sdl.clone()).collect::<String>());
        let derived: BTreeMap<String, bool> = fs.iter().map(|f| (f.name.clone(), f.derived)).collect();
        let slow = *r.pick(&[0u64, 2, 8]);
        let n = Arc::new(AtomicUsize::new(0));
        let up = Upstream::new(move |u: &UReq| {
            let me = ident(u);
            let k = n.fetch_add(1, Ordering::SeqCst);
            let ms = if slow > 0 { h64(&(&me, k)) % slow } else { 0 };
            let _ = &derived;
            if me.contains("fails") { return URes::status(403).header("set-cookie", "id=fails").delay_ms(ms) }
            let ids = call_ids(u);
            let one = |id: usize| json!({"id": id, "who": me});
            let a = match (u.url.host_str(), u.path()) {
                (Some("grpc.test"), "/p.S/Get") => URes::bytes(five(&who(ids[0], &me))).header("grpc-status", "0"),
                (Some("grpc.test"), _) => URes::bytes(five(&ids.iter().flat_map(|i| field(0x0a, &who(*i, &me))).collect::<Vec<u8>>())).header("grpc-status", "0"),
                (Some("gql.test"), _) => if u.body_json().is_array() { URes::json(Value::Array(ids.iter().map(|i| json!({"data": {"who": one(*i)}})).collect())) } else { URes::json(json!({"data": {"who": one(ids[0])}})) },
                // one call of a loader may ask for one or for several
                _ => if u.method == "POST" && !u.body_json().is_array() || (u.method == "GET" && ids.len() == 1 && !u.headers.iter().any(|h| h.0 == "x-many")) { if u.path().ends_with("one") { URes::json(one(ids[0])) } else { URes::json(json!([one(ids[0])])) } } else { URes::json(Value::Array(ids.iter().map(|i| one(*i)).collect())) },
            };
            a.header("set-cookie", &format!("id={}", h64(&me))).header("x-who", &h64(&me).to_string()).delay_ms(ms)
        });
        // fields that aren't batched are answered with one object
        let sdl = sdl.lines().map(|l| if l.contains("@http") && !l.contains("batchKey") { l.replacen("\", query", "/one\", query", 1) } else { l.to_string() }).collect::<Vec<_>>().join("\n");
        let app = match build(&sdl, up.clone()) { Ok(a) => a, Err(e) => { c.inconclusive(&format!("the schema isn't accepted: {e}\n{sdl}")); return } };
        // the clients
        let many = r.range(2, 6);
        let clients: Vec<Client> = (0..many).map(|i| {
            let known = r.chance(3, 4);
            let fails = r.chance(1, 6);
            let mut hs = vec![];
            let b = |s: String| format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(s));
            match r.below(4) { 0 if !known => {} 1 if !known => hs.push(("authorization".to_string(), b(format!("u{i}:wrong")))), _ => hs.push(("authorization".to_string(), b(if known { format!("u{}:p{}", i % 4, i % 4) } else { format!("x{i}:p0") }))) }
            match r.below(5) { 0 => {} 1 => hs.push(("xtoken".into(), "same".into())), 2 => { hs.push(("xtoken".into(), "same".into())); hs.push(("xtoken".into(), format!("second{i}"))) } _ => hs.push(("xtoken".into(), format!("token{i}"))) }
            match r.below(4) { 0 => hs.push(("cookie".into(), format!("sid={i}"))), 1 => hs.push(("cookie".into(), "sid=same".into())), _ => {} }
            // values under each other's names
            if r.chance(1, 6) { hs = vec![("xtoken".into(), "v1".into())] } else if r.chance(1, 6) { hs = vec![("cookie".into(), "v1".into())] }
            let known = known && hs.iter().any(|h| h.0 == "authorization");
            if fails { hs.push(("xtoken".into(), format!("fails{i}"))) }
            if r.bool() { hs.push(("x-ignored".into(), format!("{i}"))) }
            Client { n: i, headers: hs, known, fails }
        }).collect();
        let ids: Vec<usize> = (1..=r.range(1, 5)).collect();
        for wave in 0..2 {
            let mut reqs = vec![];
            for _ in 0..r.range(8, 30) {
                let cl = r.pick(&clients).clone();
                let mut sel: Vec<(String, Fld, usize)> = vec![];
                for k in 0..r.range(1, 5) {
                    let f = if k == 0 && r.chance(2, 3) { fs[0].clone() } else { r.pick(&fs).clone() };
                    // some ids are only asked for by one client
                    let id = if r.chance(1, 3) { 1000 + cl.n * 10 + r.below(3) } else { *r.pick(&ids) };
                    sel.push((format!("a{k}"), f, id));
                }
                let wait = if r.chance(1, 3) { r.below(6) as u64 } else { 0 };
                reqs.push((cl, sel, wait));
            }
            up.take();
            let at_once: BTreeSet<String> = reqs.iter().map(|q| q.0.who()).collect();
            c.max("identities-at-once", at_once.len() as u64);
            c.max("requests-at-once", reqs.len() as u64);
            let (c2, app2, up2, sdl2, reqs2) = (c.clone(), app.clone(), up.clone(), sdl.clone(), reqs.clone());
            let nclients = at_once.len();
            rt.block_on(async move {
                let c = &c2;
                let mut tasks = vec![];
                for (cl, sel, wait) in reqs2 {
                    let app = app2.clone();
                    tasks.push(tokio::spawn(async move {
                        if wait > 0 { tokio::time::sleep(Duration::from_millis(wait)).await }
                        let q = format!("{{ {} }}", sel.iter().map(|(a, f, id)| if f.id { format!("{a}: {}(id: {id}) {{ id who }}", f.name) } else { format!("{a}: {}", f.name) }).collect::<Vec<_>>().join(" "));
                        let hs: Vec<(&str, &str)> = cl.headers.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
                        let res = tokio::time::timeout(Duration::from_secs(30), mock::gql(&app, json!({ "query": q }), &hs)).await;
                        (cl, sel, q, res)
                    }));
                }
                for t in tasks {
                    let Ok((cl, sel, q, res)) = t.await else { c.violation("gateway:panic", json!(last_panic())); continue };
                    c.count("requests", 1);
                    c.case(&(round, wave, &cl, &q), nclients > 1);
                    let Ok(res) = res else { c.violation("gateway:no-answer", json!({"query": q, "client": format!("{cl:?}"), "schema": sdl2})); continue };
                    let show = || json!({"query": q, "client": format!("{cl:?}"), "schema": sdl2, "answer": res.text(), "answer headers": res.headers, "calls": up2.log.lock().unwrap().iter().map(|u| json!([u.url.as_str(), u.body_str(), ident(u)])).collect::<Vec<_>>()});
                    let calls = sel.iter().any(|s| s.1.id && (!s.1.protected || cl.known));
                    let refused = sel.iter().any(|s| s.1.protected) && !cl.known;
                    let errs = res.errors();
                    // nothing that's somebody else's
                    for other in at_once.iter().filter(|o| **o != cl.who()) { c.check(!res.text().contains(&json!(other).to_string()), "gateway:data-of-another-client", show); }
                    // cookies of several calls are joined
                    for cookie in res.all("set-cookie").iter().chain(res.all("x-who").iter()).flat_map(|v| v.split("; ")) {
                        c.count("cookies-checked", 1);
                        let mine = h64(&cl.who()).to_string();
                        c.check(cookie.trim_start_matches("id=") == mine || (cl.fails && cookie == "id=fails"), "gateway:cookie-of-another-client", show);
                    }
                    if refused {
                        c.count("refused", 1);
                        c.check(!errs.is_empty() && res.data().is_null(), "gateway:unknown-client-let-in", show);
                    } else if cl.fails && calls {
                        c.count("failing-clients", 1);
                        c.check(!errs.is_empty() && res.data().is_null(), "gateway:failure-hidden-by-another-client", show);
                    } else {
                        let first = cl.headers.iter().find(|h| h.0 == "xtoken").map(|h| h.1.clone()).unwrap_or_default();
                        let want: serde_json::Map<String, Value> = sel.iter().map(|(a, f, id)| (a.clone(), if f.id { json!({"id": id, "who": cl.who()}) } else { json!(format!("t={first}")) })).collect();
                        c.check(errs.is_empty() && res.data() == Value::Object(want.clone()), "gateway:not-what-the-client-gets-alone", show);
                    }
                }
            });
            // what the upstream saw
            let mut asked: BTreeMap<String, BTreeSet<usize>> = BTreeMap::new();
            let mut derived: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
            let mut wanted = 0usize;
            for (cl, sel, _) in &reqs {
                for s in sel { if s.1.id { asked.entry(cl.who()).or_default().insert(s.2); wanted += 1 } }
                derived.entry(cl.who()).or_default().insert(cl.headers.iter().find(|h| h.0 == "xtoken").map(|h| h.1.clone()).unwrap_or_default());
            }
            let log = up.take();
            c.count("calls-shared", wanted.saturating_sub(log.iter().map(|u| call_ids(u).len()).sum()) as u64);
            for u in &log {
                let me = ident(u);
                let ids = call_ids(u);
                if ids.len() > 1 { c.count("calls-for-several", 1) }
                let show = || json!({"call": u.show(), "ids": ids, "clients": reqs.iter().map(|q| q.0.who()).collect::<BTreeSet<_>>(), "schema": sdl});
                match asked.get(&me) {
                    None => c.violation("gateway:call-with-mixed-credentials", show()),
                    Some(mine) => { c.check(ids.iter().all(|i| mine.contains(i)), "gateway:call-for-another-client", show); }
                }
                if let Some(d) = u.header("xderived") { c.check(derived.get(&me).is_some_and(|s| s.contains(d)), "gateway:header-derived-from-another-client", show); }
            }
        }
    }
}
