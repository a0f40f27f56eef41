//! C18: protected data is served only to requests that authenticate.
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::Arc;

use base64::Engine;
use jsonwebtoken::{Algorithm, EncodingKey, Header};
use serde_json::{json, Map, Value};
use tailcall::core::app_context::AppContext;
use tailcall::core::blueprint::{Auth, Basic, Jwt, Provider};
use tailcall::core::config::{Config, ConfigModule, Content, Extensions};
use tailcall::core::http::RequestContext;
use tailcall::core::rest::{EndpointSet, Unchecked};
use tailcall::core::verif::{verify, AuthError, AuthVerifier, Verification};

use crate::common::*;
use crate::mock::{self, URes, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one verification decision (algebra term, credential against a provider tree) or one request of a history against one application; non-trivial = protection applies; distinct by configuration, query and credential");
    c.assume("htpasswd hashing itself is outside (the stand-in for the git dependency htpasswd-verify compares {PLAIN} entries); tokens are HS256; expiry is probed at least one minute beyond the library's 60 s leeway; requests whose only protected fields are skipped by a directive or sit under another type condition are judged for leaks only");
    c.section("algebra", algebra);
    c.section("trees", trees);
    c.section("tokens", tokens);
    c.section("histories", histories);
    c.section("rest", rest);
    c.section("abstract", abstract_types);
    c.floor("tree-accepts", 150);
    c.floor("tree-rejects", 300);
    c.floor("token-accepts", 50);
    c.floor("token-rejects", 300);
    c.floor("authorized", 150);
    c.floor("unauthorized", 250);
    c.floor("public", 40);
    c.floor("mixed-unauthorized", 30);
    c.floor("rest-unauthorized", 10);
}

// ---- the algebra -------------------------------------------------------------------------

fn algebra(c: &C) {
    let vs = || vec![Verification::Succeed, Verification::Fail(AuthError::Missing), Verification::Fail(AuthError::Parse("a".into())), Verification::Fail(AuthError::Parse("b".into())), Verification::Fail(AuthError::Invalid)];
    let rank = |v: &Verification| match v { Verification::Succeed => 9, Verification::Fail(AuthError::Missing) => 0, Verification::Fail(AuthError::Parse(s)) => if s == "a" { 1 } else { 2 }, Verification::Fail(AuthError::Invalid) => 3 };
    for a in vs() {
        c.check(a.to_result().is_ok() == (a == Verification::Succeed), "algebra:to_result", || json!(format!("{a:?}")));
        if let Err(e) = a.to_result() { c.check(Verification::Fail(e) == a, "algebra:to_result-error", || json!(format!("{a:?}"))); }
        for b in vs() {
            c.case(&format!("{a:?}{b:?}"), true);
            let and = a.clone().and(b.clone());
            let want = if a == Verification::Succeed { b.clone() } else { a.clone() };
            c.check(and == want, "algebra:and", || json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "got": format!("{and:?}")}));
            let or = a.or(b.clone());
            let want = if rank(&a) >= rank(&b) { a.clone() } else { b.clone() };
            c.check(or == want, "algebra:or", || json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "got": format!("{or:?}")}));
            let f = a.clone().fold(b.clone(), |_| Verification::Fail(AuthError::Parse("f".into())));
            let want = if a == Verification::Succeed { b.clone() } else { Verification::Fail(AuthError::Parse("f".into())) };
            c.check(f == want, "algebra:fold", || json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "got": format!("{f:?}")}));
            let f = Verification::from_result::<u8, u8>(if a == Verification::Succeed { Ok(1) } else { Err(2) }, |x| if x == 1 { Verification::Succeed } else { Verification::Fail(AuthError::Invalid) }, |y| if y == 2 { b.clone() } else { Verification::Succeed });
            let want = if a == Verification::Succeed { Verification::Succeed } else { b.clone() };
            c.check(f == want, "algebra:from_result", || json!({"a": format!("{a:?}"), "b": format!("{b:?}"), "got": format!("{f:?}")}));
        }
    }
    for (e, words) in [(AuthError::Missing, "Missing"), (AuthError::Parse("why".into()), "why"), (AuthError::Invalid, "Invalid")] {
        c.check(e.to_string().contains(words), "algebra:message", || json!(e.to_string()));
    }
}

// ---- credentials and providers -----------------------------------------------------------

const KEYS_: &[&str] = &["key-one", "key-two-longer-than-the-first", "k3"];
const USERS: &[(&str, &str)] = &[("u1", "p1"), ("u2", "p:2"), ("u3", "пароль"), ("u1x", "p1"), ("u4", "p 4=")];

#[derive(Clone, Debug)]
enum Prov { Basic(Vec<(String, String)>), Jwt { keys: Vec<(String, usize)>, iss: Option<String>, aud: BTreeSet<String>, optional_kid: bool } }

#[derive(Clone, Debug, Hash)]
enum Cred { None, Basic(String, String), Jwt { key: usize, kid: Option<String>, alg: &'static str, exp: Option<i64>, tamper: u8, iss: Option<String>, aud: Vec<String>, aud_list: bool }, Raw(String) }

fn b64(s: &[u8]) -> String { base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(s) }
fn now() -> i64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64 }

impl Prov {
    fn provider(&self) -> Provider {
        match self {
            Prov::Basic(us) => Provider::Basic(Basic { htpasswd: htpasswd(us) }),
            Prov::Jwt { keys, iss, aud, optional_kid } => Provider::Jwt(Jwt { issuer: iss.clone(), audiences: aud.iter().cloned().collect::<HashSet<_>>(), optional_kid: *optional_kid, jwks: serde_json::from_value(jwks(keys)).unwrap() }),
        }
    }
    fn accepts(&self, cr: &Cred) -> bool {
        match (self, cr) {
            (Prov::Basic(us), Cred::Basic(u, p)) => us.iter().any(|(a, b)| a == u && b == p),
            (Prov::Jwt { keys, iss, aud, optional_kid }, Cred::Jwt { key, kid, alg, exp, tamper, iss: ti, aud: ta, .. }) => {
                if *alg != "HS256" || *tamper != 0 { return false }
                match exp { None => return false, Some(e) if *e < 0 => return false, _ => {} }
                let known = match kid { Some(k) => keys.iter().find(|x| x.0 == *k).map(|x| x.1 == *key).unwrap_or(false), None => *optional_kid && keys.iter().any(|x| x.1 == *key) };
                known && iss.as_ref().map(|i| ti.as_ref() == Some(i)).unwrap_or(true) && (aud.is_empty() || ta.iter().any(|a| aud.contains(a)))
            }
            _ => false,
        }
    }
}
fn htpasswd(us: &[(String, String)]) -> String { us.iter().map(|(u, p)| format!("{u}:{{PLAIN}}{p}\n")).collect() }
fn jwks(keys: &[(String, usize)]) -> Value {
    json!({"keys": keys.iter().map(|(kid, k)| json!({"kty": "oct", "kid": kid, "alg": "HS256", "k": b64(KEYS_[*k].as_bytes())})).collect::<Vec<_>>()})
}
fn header(cr: &Cred) -> Option<String> {
    match cr {
        Cred::None => None,
        Cred::Basic(u, p) => Some(format!("Basic {}", base64::engine::general_purpose::STANDARD.encode(format!("{u}:{p}")))),
        Cred::Raw(s) => Some(s.clone()),
        Cred::Jwt { key, kid, alg, exp, tamper, iss, aud, aud_list } => {
            let mut cl = Map::new();
            if let Some(e) = exp { cl.insert("exp".into(), json!(now() + e)); }
            if let Some(i) = iss { cl.insert("iss".into(), json!(i)); }
            if *aud_list || aud.len() > 1 { cl.insert("aud".into(), json!(aud)); } else if aud.len() == 1 { cl.insert("aud".into(), json!(aud[0])); }
            let mut h = Header::new(match *alg { "HS384" => Algorithm::HS384, "HS512" => Algorithm::HS512, _ => Algorithm::HS256 });
            h.kid = kid.clone();
            let t = jsonwebtoken::encode(&h, &cl, &EncodingKey::from_secret(KEYS_[*key].as_bytes())).unwrap();
            let mut parts: Vec<String> = t.split('.').map(|s| s.to_string()).collect();
            if *alg == "none" {
                parts[0] = b64(json!({"alg": "none", "typ": "JWT", "kid": kid}).to_string().as_bytes());
                parts[2] = String::new();
            }
            let last = |s: &str| { let c0 = s.as_bytes()[0]; format!("{}{}", if c0 == b'A' { 'B' } else { 'A' }, &s[1..]) };
            match tamper {
                1 => parts[2] = last(&parts[2]),
                2 => { let mut m = cl.clone(); m.insert("exp".into(), json!(now() + 999_999)); m.insert("sub".into(), json!("root")); parts[1] = b64(Value::Object(m).to_string().as_bytes()); }
                3 => { parts[2] = String::new(); }
                4 => { parts.pop(); }
                5 => { parts.push("x".into()); }
                6 => { let s = parts[2].clone(); parts[2] = s[..s.len() - 4].to_string(); }
                _ => {}
            }
            Some(format!("Bearer {}", parts.join(".")))
        }
    }
}
fn gen_prov(r: &mut Rng, claims: bool) -> Prov {
    if r.chance(3, 5) {
        let mut us: Vec<(String, String)> = r.subset(USERS, 3, 5).into_iter().map(|x| (x.0.to_string(), x.1.to_string())).collect();
        if r.chance(1, 4) { us.push(("u1".into(), "other".into())); us.retain({ let mut seen = HashSet::new(); move |x: &(String, String)| seen.insert(x.0.clone()) }); }
        Prov::Basic(us)
    } else {
        let mut keys: Vec<(String, usize)> = vec![];
        for kid in ["kid0", "kid1"] { if r.chance(2, 3) { keys.push((kid.into(), r.below(2))); } }
        if keys.is_empty() { keys.push(("kid0".into(), 0)); }
        Prov::Jwt { keys, iss: if claims && r.bool() { Some("me".into()) } else { None }, aud: if claims && r.bool() { r.subset(&["them", "us", "x"], 1, 2).into_iter().map(|s| s.to_string()).collect() } else { BTreeSet::new() }, optional_kid: claims && r.bool() }
    }
}
/// a credential: mostly one that some provider accepts, or a near miss
fn gen_cred(r: &mut Rng, ps: &[Prov]) -> Cred {
    match r.below(10) {
        0 => Cred::None,
        1 => Cred::Raw(r.pick(&["", "Basic", "Bearer", "Bearer ", "Basic !!!", "Basic dTE=", "Bearer a.b.c", "Bearer ..", "Digest dTE6cDE=", "Basic dTE6cDE= x", "dTE6cDE=", "Bearer dTE6cDE=", "Basic dTE6cDE", "Bearer null"]).to_string()),
        2 => { let u = r.pick(USERS).0.to_string(); let p = r.pick(USERS).1.to_string(); Cred::Basic(u, p) }
        n => {
            let p = r.pick(ps).clone();
            match p {
                Prov::Basic(us) if !us.is_empty() => {
                    let (u, p) = r.pick(&us).clone();
                    if n < 7 { return Cred::Basic(u, p) }
                    match r.below(7) {
                        0 => Cred::Basic(u.to_uppercase(), p),
                        1 => Cred::Basic(u, p.chars().take(1).collect()),
                        2 => Cred::Basic(u, format!("{p}x")),
                        3 => Cred::Basic(u, String::new()),
                        4 => Cred::Basic(p, u),
                        5 => Cred::Basic(String::new(), p),
                        _ => Cred::Basic(format!("{u} "), p),
                    }
                }
                Prov::Basic(_) => Cred::None,
                Prov::Jwt { keys, iss, aud, optional_kid } => {
                    let (kid, key) = r.pick(&keys).clone();
                    let mut cr = (key, Some(kid), "HS256", Some(3600i64), 0u8, iss.clone(), aud.iter().take(1).cloned().collect::<Vec<_>>(), r.bool());
                    if optional_kid && r.bool() { cr.1 = None; }
                    if n >= 6 { match r.below(12) {
                        0 => cr.0 = (cr.0 + 1) % 3,
                        1 => cr.1 = Some(r.pick(&["kid0", "kid1", "kid2", ""]).to_string()),
                        2 => cr.1 = None,
                        3 => cr.2 = *r.pick(&["HS384", "HS512", "none"]),
                        4 => cr.3 = Some(-(r.range(200, 100000) as i64)),
                        5 => cr.3 = None,
                        6 | 7 => cr.4 = r.range(1, 6) as u8,
                        8 => cr.5 = r.pick(&[None, Some("me2"), Some("Me"), Some("")]).map(|s: &str| s.to_string()),
                        9 => cr.6 = vec![r.pick(&["other", "them2", "Them", ""]).to_string()],
                        10 => cr.6 = vec!["other".into(), r.pick(&["them", "us", "zz"]).to_string()],
                        _ => cr.6 = vec![],
                    } }
                    Cred::Jwt { key: cr.0, kid: cr.1, alg: cr.2, exp: cr.3, tamper: cr.4, iss: cr.5, aud: cr.6, aud_list: cr.7 }
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
enum Tree { P(usize), And(Box<Tree>, Box<Tree>), Or(Box<Tree>, Box<Tree>) }
fn gen_tree(r: &mut Rng, n: usize, d: usize) -> Tree {
    if d == 0 || r.chance(1, 4) { return Tree::P(r.below(n)) }
    let a = Box::new(gen_tree(r, n, d - 1));
    let b = Box::new(gen_tree(r, n, d - 1));
    if r.bool() { Tree::And(a, b) } else { Tree::Or(a, b) }
}
impl Tree {
    fn auth(&self, ps: &[Prov]) -> Auth { match self { Tree::P(i) => Auth::Provider(ps[*i].provider()), Tree::And(a, b) => a.auth(ps).and(b.auth(ps)), Tree::Or(a, b) => a.auth(ps).or(b.auth(ps)) } }
    fn holds(&self, ps: &[Prov], cr: &Cred) -> bool { match self { Tree::P(i) => ps[*i].accepts(cr), Tree::And(a, b) => a.holds(ps, cr) && b.holds(ps, cr), Tree::Or(a, b) => a.holds(ps, cr) || b.holds(ps, cr) } }
}
fn ctx(h: &Option<String>, twice: bool) -> Option<RequestContext> {
    let up = Upstream::new(|_| URes::json(json!(1)));
    let mut cx = RequestContext::new(mock::runtime(up));
    if let Some(h) = h {
        let v = http::HeaderValue::from_str(h).ok()?;
        cx.allowed_headers.append("authorization", v.clone());
        if twice { cx.allowed_headers.append("authorization", v); }
    }
    Some(cx)
}

fn trees(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("trees");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(250, 6000) {
            let ps: Vec<Prov> = (0..r.range(1, 4)).map(|_| gen_prov(&mut r, true)).collect();
            let t = { let d = r.below(4); gen_tree(&mut r, ps.len(), d) };
            let v = AuthVerifier::from(t.auth(&ps));
            for _ in 0..6 {
                let cr = gen_cred(&mut r, &ps);
                let h = header(&cr);
                let Some(cx) = ctx(&h, false) else { continue };
                let info = || json!({"providers": format!("{ps:?}"), "tree": format!("{t:?}"), "credential": format!("{cr:?}"), "header": h});
                let want = t.holds(&ps, &cr);
                c.case(&(format!("{ps:?}{t:?}"), &cr), true);
                c.count(if want { "tree-accepts" } else { "tree-rejects" }, 1);
                let got = verify(&v, &cx).await;
                c.check((got == Verification::Succeed) == want, if want { "tree:rejected" } else { "tree:accepted" }, || json!({"input": info(), "got": format!("{got:?}")}));
                if h.is_none() { c.check(got == Verification::Fail(AuthError::Missing), "tree:missing", || json!({"input": info(), "got": format!("{got:?}")})); }
                // the same decision again: no state is kept
                let again = verify(&v, &cx).await;
                c.check(again == got, "tree:not-repeatable", info);
            }
        }
    });
}

/// every single mutation of a valid credential, systematically
fn tokens(c: &C) {
    let rt = rt_paused();
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let base = |key, kid: Option<&str>, alg, exp, tamper, iss: Option<&str>, aud: &[&str], list| Cred::Jwt { key, kid: kid.map(|s| s.to_string()), alg, exp, tamper, iss: iss.map(|s| s.to_string()), aud: aud.iter().map(|s| s.to_string()).collect(), aud_list: list };
        for optional_kid in [false, true] { for iss in [None, Some("me")] { for aud in [vec![], vec!["them"], vec!["us", "them"]] {
            let p = Prov::Jwt { keys: vec![("kid0".into(), 0), ("kid1".into(), 1)], iss: iss.map(|s: &str| s.into()), aud: aud.iter().map(|s| s.to_string()).collect(), optional_kid };
            let v = AuthVerifier::from(Auth::Provider(p.provider()));
            let mut crs = vec![];
            for key in 0..3 { for kid in [None, Some("kid0"), Some("kid1"), Some("kid"), Some("")] { crs.push(base(key, kid, "HS256", Some(600), 0, Some("me"), &["them"], false)); } }
            for alg in ["HS384", "HS512", "none"] { for kid in [None, Some("kid0")] { crs.push(base(0, kid, alg, Some(600), 0, Some("me"), &["them"], false)); } }
            for exp in [None, Some(-130), Some(-86400), Some(30), Some(100_000_000)] { crs.push(base(0, Some("kid0"), "HS256", exp, 0, Some("me"), &["them"], true)); }
            for t in 0..=6 { crs.push(base(0, Some("kid0"), "HS256", Some(600), t, Some("me"), &["them"], true)); }
            for i in [None, Some("me"), Some("me "), Some("ME"), Some(""), Some("m")] { for a in [vec![], vec!["them"], vec!["x"], vec!["x", "them"], vec!["them", "x"], vec!["us"], vec![""], vec!["the"]] { for l in [false, true] { crs.push(base(0, Some("kid0"), "HS256", Some(600), 0, i, &a, l)); } } }
            for cr in crs {
                let h = header(&cr);
                for twice in [false, true] {
                    let Some(cx) = ctx(&h, twice) else { continue };
                    let want = p.accepts(&cr) && !twice;
                    c.case(&(format!("{p:?}"), &cr, twice), true);
                    let got = verify(&v, &cx).await;
                    if twice && p.accepts(&cr) { continue } // repeated credentials: not judged
                    c.count(if want { "token-accepts" } else { "token-rejects" }, 1);
                    c.check((got == Verification::Succeed) == want, if want { "token:rejected" } else { "token:accepted" }, || json!({"provider": format!("{p:?}"), "credential": format!("{cr:?}"), "header": h, "got": format!("{got:?}")}));
                }
            }
        } } }
        // basic: every truncation and extension of a valid pair
        for (u, pw) in USERS {
            let p = Prov::Basic(vec![(u.to_string(), pw.to_string()), ("zed".into(), "zz".into())]);
            let v = AuthVerifier::from(Auth::Provider(p.provider()));
            let mut crs = vec![Cred::Basic(u.to_string(), pw.to_string())];
            for i in 0..pw.len() { if pw.is_char_boundary(i) { crs.push(Cred::Basic(u.to_string(), pw[..i].to_string())); crs.push(Cred::Basic(u.to_string(), pw[i..].to_string())); } }
            for i in 0..u.len() { crs.push(Cred::Basic(u[..i].to_string(), pw.to_string())); }
            for s in ["", "x", "\n", " ", "\u{0}"] { crs.push(Cred::Basic(u.to_string(), format!("{pw}{s}"))); crs.push(Cred::Basic(format!("{u}{s}"), pw.to_string())); }
            crs.push(Cred::Basic("zed".into(), pw.to_string()));
            crs.push(Cred::Basic(u.to_string(), "zz".into()));
            crs.push(Cred::Basic(u.to_string(), format!("{{PLAIN}}{pw}")));
            for cr in crs {
                let h = header(&cr);
                let Some(cx) = ctx(&h, false) else { continue };
                let want = p.accepts(&cr);
                c.case(&(format!("{p:?}"), &cr), true);
                c.count(if want { "token-accepts" } else { "token-rejects" }, 1);
                let got = verify(&v, &cx).await;
                c.check((got == Verification::Succeed) == want, if want { "basic:rejected" } else { "basic:accepted" }, || json!({"provider": format!("{p:?}"), "credential": format!("{cr:?}"), "got": format!("{got:?}")}));
            }
        }
    });
}

// ---- the gateway -------------------------------------------------------------------------

/// None = not protected; Some(None) = by all providers; Some(ids)
type Prot = Option<Option<Vec<usize>>>;
const IDS: &[&str] = &["a", "b", "c"];

#[derive(Clone, Debug)]
enum Kind { Const, Http, Plain, Obj(usize, bool, bool) } // type index, list, own http resolver
#[derive(Clone, Debug)]
struct F { name: String, kind: Kind, prot: Prot }
#[derive(Clone, Debug)]
struct T { name: String, fields: Vec<F>, prot: Prot }
#[derive(Clone, Debug)]
struct World { provs: Vec<Prov>, types: Vec<T>, batch: bool }

fn gen_prot(r: &mut Rng, n: usize, num: u32, den: u32) -> Prot {
    if !r.chance(num, den) { return None }
    Some(match r.below(5) { 0 | 1 => None, 2 => Some(vec![]), _ => { let mut v: Vec<usize> = (0..n).filter(|_| r.bool()).collect(); if v.is_empty() { v.push(r.below(n)); } Some(v) } })
}
fn gen_world(r: &mut Rng) -> World {
    let provs: Vec<Prov> = (0..r.range(1, 3)).map(|_| gen_prov(r, false)).collect();
    let n = provs.len();
    let mut types = vec![];
    for (i, name) in ["Query", "A", "B"].iter().enumerate() {
        let mut fields = vec![];
        for k in 0..r.range(2, 4) {
            let kind = if i == 0 { match r.below(3) { 0 => Kind::Const, 1 => Kind::Http, _ => Kind::Plain } } else { match r.below(4) { 0 => Kind::Const, 1 => Kind::Http, _ => Kind::Plain } };
            let kind = if i == 0 && matches!(kind, Kind::Plain) { Kind::Http } else { kind };
            // a type of nothing but resolvers is a type of its own kind (fix_dangling_resolvers)
            let kind = if i > 0 && k == 0 { Kind::Plain } else { kind };
            fields.push(F { name: format!("{}{k}", name.to_lowercase()), kind, prot: gen_prot(r, n, 1, 3) });
        }
        if i < 2 {
            for k in 0..r.range(1, 2) { let http = i == 0 || r.bool(); fields.push(F { name: format!("o{}{k}", name.to_lowercase()), kind: Kind::Obj(i + 1, r.bool(), http), prot: gen_prot(r, n, 1, 4) }); }
            if i == 0 { fields.push(F { name: "ob".into(), kind: Kind::Obj(2, r.bool(), true), prot: gen_prot(r, n, 1, 4) }); }
        }
        types.push(T { name: name.to_string(), fields, prot: if i == 0 { gen_prot(r, n, 1, 12) } else { gen_prot(r, n, 1, 3) } });
    }
    World { provs, types, batch: r.chance(1, 4) }
}
fn prot_sdl(p: &Prot) -> String { match p { None => String::new(), Some(None) => " @protected".into(), Some(Some(ids)) => format!(" @protected(id: {})", json!(ids.iter().map(|i| IDS[*i]).collect::<Vec<_>>())) } }
fn sdl(w: &World) -> String {
    let mut s = format!("schema @server(port: 8000{}) {{ query: Query }}\n", if w.batch { ", batchRequests: true" } else { "" });
    for t in &w.types {
        s += &format!("type {}{} {{\n", t.name, prot_sdl(&t.prot));
        for f in &t.fields {
            let (ty, dir) = match &f.kind {
                Kind::Const => ("String".to_string(), format!("@expr(body: \"SECRET-{}\")", f.name)),
                Kind::Http => ("String".to_string(), format!("@http(url: \"http://u/{}\")", f.name)),
                Kind::Plain => ("String".to_string(), String::new()),
                Kind::Obj(i, list, http) => (if *list { format!("[{}]", w.types[*i].name) } else { w.types[*i].name.clone() }, if *http { format!("@http(url: \"http://u/{}\")", f.name) } else { String::new() }),
            };
            s += &format!("  {}: {ty} {dir}{}\n", f.name, prot_sdl(&f.prot));
        }
        s += "}\n";
    }
    s
}
fn build(w: &World, up: Arc<Upstream>, ops: Option<&str>) -> Result<Arc<AppContext>, String> {
    let rt = mock::runtime(up);
    let m = module_of(w)?;
    match ops {
        None => mock::app_of(&m, rt),
        Some(o) => {
            let bp = mock::blueprint(&m).map_err(|e| format!("{e:?}"))?;
            let set = futures_util::FutureExt::now_or_never(EndpointSet::<Unchecked>::try_new(o).map_err(|e| e.to_string())?.into_checked(&bp, rt.clone())).ok_or("pending")?.map_err(|e| e.to_string())?;
            Ok(Arc::new(AppContext::new(bp, rt, set)))
        }
    }
}
fn module_of(w: &World) -> Result<ConfigModule, String> {
    let cfg = Config::from_sdl(&sdl(w));
    let cfg = tailcall_valid::Validator::to_result(cfg).map_err(|e| format!("{e:?}"))?;
    let mut ext = Extensions::default();
    for (i, p) in w.provs.iter().enumerate() {
        match p {
            Prov::Basic(us) => ext.htpasswd.push(Content { id: Some(IDS[i].into()), content: htpasswd(us) }),
            Prov::Jwt { keys, .. } => ext.jwks.push(Content { id: Some(IDS[i].into()), content: serde_json::from_value(jwks(keys)).unwrap() }),
        }
    }
    Ok(ConfigModule::new(cfg, ext))
}
/// what the upstream says under the path of an object field
fn obj_value(w: &World, i: usize, list: bool) -> Value {
    let mut m = Map::new();
    for f in &w.types[i].fields {
        match &f.kind {
            Kind::Plain => { m.insert(f.name.clone(), json!(format!("SECRET-{}", f.name))); }
            Kind::Obj(j, l, false) => { m.insert(f.name.clone(), obj_value(w, *j, *l)); }
            _ => {}
        }
    }
    if list { json!([m, m]) } else { Value::Object(m) }
}
fn upstream(w: &World) -> Arc<Upstream> {
    let mut answers: BTreeMap<String, Value> = BTreeMap::new();
    for t in &w.types { for f in &t.fields { match &f.kind {
        Kind::Http => { answers.insert(format!("/{}", f.name), json!(format!("SECRET-{}", f.name))); }
        Kind::Obj(j, l, true) => { answers.insert(format!("/{}", f.name), obj_value(w, *j, *l)); }
        _ => {}
    } } }
    let ms = answers.len() as u64;
    Upstream::new(move |q| match answers.get(q.path()) { Some(v) => URes::json(v.clone()).delay_ms(1 + ms % 3), None => URes::status(404) })
}
#[derive(Clone, Debug)]
struct Sel { alias: Option<String>, f: usize, sub: Vec<Sel>, typename: bool }
fn gen_sel(r: &mut Rng, w: &World, t: usize, d: usize) -> Vec<Sel> {
    let mut out = vec![];
    let mut idx: Vec<usize> = (0..w.types[t].fields.len()).collect();
    r.shuffle(&mut idx);
    let k = r.range(1, idx.len().min(4));
    for f in idx.into_iter().take(k) {
        let sub = if let Kind::Obj(j, ..) = w.types[t].fields[f].kind { gen_sel(r, w, j, d + 1) } else { vec![] };
        out.push(Sel { alias: if r.chance(1, 5) { Some(format!("x{d}{f}")) } else { None }, f, sub, typename: r.chance(1, 6) });
    }
    out
}
fn print_sel(w: &World, t: usize, s: &[Sel]) -> String {
    let mut o = String::from("{ ");
    for x in s {
        let f = &w.types[t].fields[x.f];
        if let Some(a) = &x.alias { o += &format!("{a}: "); }
        o += &f.name;
        if let Kind::Obj(j, ..) = f.kind { o.push(' '); let mut p = print_sel(w, j, &x.sub); if x.typename { p.insert_str(1, " __typename"); } o += &p; }
        o.push(' ');
    }
    o + "}"
}
fn all(w: &World) -> BTreeSet<usize> { (0..w.provs.len()).collect() }
fn reqs(w: &World, p: &Prot) -> BTreeSet<usize> { match p { None => BTreeSet::new(), Some(Some(ids)) if !ids.is_empty() => ids.iter().copied().collect(), _ => all(w) } }
/// the providers a selected field needs by itself
fn field_reqs(w: &World, t: usize, f: &F) -> BTreeSet<usize> {
    let mut s = reqs(w, &w.types[t].prot);
    s.extend(reqs(w, &f.prot));
    if let Kind::Obj(j, ..) = f.kind { s.extend(reqs(w, &w.types[j].prot)); }
    s
}
struct Need { req: BTreeSet<usize>, public: usize, protected: usize, secrets: Vec<(String, BTreeSet<usize>)> }
fn need(w: &World, t: usize, s: &[Sel], n: &mut Need) {
    for x in s {
        let f = &w.types[t].fields[x.f];
        let q = field_reqs(w, t, f);
        if q.is_empty() { n.public += 1 } else { n.protected += 1 }
        n.secrets.push((f.name.clone(), q.clone()));
        n.req.extend(q);
        if let Kind::Obj(j, ..) = f.kind { need(w, j, &x.sub, n); }
    }
}
fn expect(w: &World, t: usize, s: &[Sel]) -> Value {
    let mut m = Map::new();
    for x in s {
        let f = &w.types[t].fields[x.f];
        let v = match &f.kind { Kind::Obj(j, l, _) => { let mut o = expect(w, *j, &x.sub); if x.typename { o["__typename"] = json!(w.types[*j].name); } if *l { json!([o, o]) } else { o } } _ => json!(format!("SECRET-{}", f.name)) };
        m.insert(x.alias.clone().unwrap_or(f.name.clone()), v);
    }
    Value::Object(m)
}

/// judge one answer
fn judge(c: &C, w: &World, s: &[Sel], cr: &Cred, answer: &Value, text: &str, tag: &str, info: &dyn Fn() -> Value) -> bool {
    let mut n = Need { req: BTreeSet::new(), public: 0, protected: 0, secrets: vec![] };
    need(w, 0, s, &mut n);
    let ok = |q: &BTreeSet<usize>| q.iter().all(|i| w.provs[*i].accepts(cr));
    let errors = answer.get("errors").and_then(|e| e.as_array()).map(|e| e.len()).unwrap_or(0);
    if ok(&n.req) {
        c.count(if n.protected > 0 { "authorized" } else { "public" }, 1);
        c.check(errors == 0 && answer.get("data") == Some(&expect(w, 0, s)), &format!("{tag}:{}", if n.protected > 0 { "authorized-not-served" } else { "public-affected" }), || json!({"input": info(), "answer": answer, "want": expect(w, 0, s)}));
        true
    } else {
        c.count("unauthorized", 1);
        if n.public > 0 { c.count("mixed-unauthorized", 1); }
        c.check(errors > 0 && answer["errors"].to_string().contains("uthenticat"), &format!("{tag}:no-authentication-error"), || json!({"input": info(), "answer": answer}));
        for (f, q) in &n.secrets {
            if !ok(q) { c.check(!text.contains(&format!("SECRET-{f}\"")), &format!("{tag}:leak"), || json!({"input": info(), "field": f, "answer": answer})); }
        }
        false
    }
}
/// protected paths no request of the group was entitled to
fn judge_calls(c: &C, w: &World, group: &[(Vec<Sel>, Cred)], paths: &BTreeSet<String>, tag: &str, info: &dyn Fn() -> Value) {
    for (t, ty) in w.types.iter().enumerate() { for f in &ty.fields {
        let q = field_reqs(w, t, f);
        if q.is_empty() || !paths.contains(&format!("/{}", f.name)) { continue }
        let allowed = group.iter().any(|(_, cr)| q.iter().all(|i| w.provs[*i].accepts(cr)));
        c.check(allowed, &format!("{tag}:protected-call"), || json!({"input": info(), "path": f.name}));
    } }
}

fn histories(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("hist");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(180, 4000) {
            let w = gen_world(&mut r);
            let up = upstream(&w);
            let app = match build(&w, up.clone(), None) { Ok(a) => a, Err(e) => { c.violation("config:rejected", json!({"sdl": sdl(&w), "providers": format!("{:?}", w.provs), "error": e})); continue } };
            let pool: Vec<Vec<Sel>> = (0..r.range(2, 4)).map(|_| gen_sel(&mut r, &w, 0, 0)).collect();
            let mut past: Vec<Value> = vec![];
            for _ in 0..r.range(3, 9) {
                let n = if r.chance(1, 3) { r.range(2, 4) } else { 1 };
                let mut group: Vec<(Vec<Sel>, Cred)> = (0..n).map(|_| (r.pick(&pool).clone(), gen_cred(&mut r, &w.provs))).collect();
                if n > 1 && r.bool() { let s = group[0].0.clone(); for g in group.iter_mut() { g.0 = s.clone(); } }
                let as_batch = w.batch && n > 1 && r.bool();
                if as_batch { let cr = group[0].1.clone(); for g in group.iter_mut() { g.1 = cr.clone(); } }
                up.take();
                let desc = json!(group.iter().map(|(s, cr)| json!({"query": print_sel(&w, 0, s), "credential": format!("{cr:?}")})).collect::<Vec<_>>());
                let info = || json!({"sdl": sdl(&w), "providers": format!("{:?}", w.provs), "requests": desc, "batch": as_batch, "before": past});
                c.case(&(sdl(&w), desc.to_string()), true);
                let answers: Vec<(Value, String)> = if as_batch {
                    let h = header(&group[0].1);
                    let hv: Vec<(&str, &str)> = h.iter().map(|h| ("authorization", h.as_str())).collect();
                    let body = json!(group.iter().map(|(s, _)| json!({"query": print_sel(&w, 0, s)})).collect::<Vec<_>>());
                    let res = mock::gql(&app, body, &hv).await;
                    match res.json().as_array() { Some(a) => a.iter().map(|v| (v.clone(), v.to_string())).collect(), None => vec![(res.json(), res.text())] }
                } else {
                    let hs: Vec<Option<String>> = group.iter().map(|g| header(&g.1)).collect();
                    let futs = group.iter().zip(&hs).map(|((s, _), h)| { let app = app.clone(); let q = print_sel(&w, 0, s); async move { let hv: Vec<(&str, &str)> = h.iter().map(|h| ("authorization", h.as_str())).collect(); mock::gql(&app, json!({"query": q}), &hv).await } });
                    futures_util::future::join_all(futs).await.into_iter().map(|r| (r.json(), r.text())).collect()
                };
                if !c.check(answers.len() == group.len(), "history:answers", || json!({"input": info(), "answers": answers.len()})) { continue }
                for ((s, cr), (a, t)) in group.iter().zip(&answers) { judge(c, &w, s, cr, a, t, if as_batch { "batch" } else if n > 1 { "concurrent" } else { "single" }, &info); }
                let paths: BTreeSet<String> = up.take().iter().map(|q| q.path().to_string()).collect();
                judge_calls(c, &w, &group, &paths, "history", &info);
                past.push(desc.clone());
            }
        }
    });
}

fn rest(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("rest");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        for _ in 0..c.n(25, 600) {
            let mut w = gen_world(&mut r);
            w.batch = false;
            let up = upstream(&w);
            let pool: Vec<Vec<Sel>> = (0..r.range(1, 3)).map(|_| gen_sel(&mut r, &w, 0, 0)).collect();
            let ops: String = pool.iter().enumerate().map(|(i, s)| format!("query Q{i} @rest(method: GET, path: \"/r{i}\") {}\n", print_sel(&w, 0, s))).collect();
            let mut apps = vec![];
            for (i, s) in pool.iter().enumerate() {
                let one = format!("query Q{i} @rest(method: GET, path: \"/r{i}\") {}\n", print_sel(&w, 0, s));
                match build(&w, up.clone(), Some(&one)) { Ok(a) => apps.push(a), Err(e) => { c.violation("rest:rejected", json!({"sdl": sdl(&w), "operations": ops, "error": e})); } }
            }
            if apps.len() != pool.len() { continue }
            for _ in 0..6 {
                let i = r.below(pool.len());
                let cr = gen_cred(&mut r, &w.provs);
                let h = header(&cr);
                let hv: Vec<(&str, &str)> = h.iter().map(|h| ("authorization", h.as_str())).collect();
                let info = || json!({"sdl": sdl(&w), "providers": format!("{:?}", w.provs), "operation": print_sel(&w, 0, &pool[i]), "credential": format!("{cr:?}")});
                up.take();
                c.case(&(sdl(&w), i, &cr), true);
                let res = match mock::send(&apps[i], "GET", &format!("/api/r{i}"), &hv, "").await { Ok(r) => r, Err(e) => { c.violation("rest:no-answer", json!({"input": info(), "error": e})); continue } };
                let text = res.text();
                let mut n = Need { req: BTreeSet::new(), public: 0, protected: 0, secrets: vec![] };
                need(&w, 0, &pool[i], &mut n);
                let ok = |q: &BTreeSet<usize>| q.iter().all(|i| w.provs[*i].accepts(&cr));
                if ok(&n.req) {
                    let served = n.secrets.iter().all(|(f, _)| matches!(w.types.iter().flat_map(|t| &t.fields).find(|x| x.name == *f).unwrap().kind, Kind::Obj(..)) || text.contains(&format!("SECRET-{f}\"")));
                    c.count("rest-authorized", 1);
                    c.check(served, "rest:not-served", || json!({"input": info(), "answer": text}));
                } else {
                    c.count("rest-unauthorized", 1);
                    for (f, q) in &n.secrets { if !ok(q) { c.check(!text.contains(&format!("SECRET-{f}\"")), "rest:leak", || json!({"input": info(), "field": f, "answer": text})); } }
                    c.check(text.contains("uthenticat"), "rest:no-authentication-error", || json!({"input": info(), "answer": text}));
                }
                let paths: BTreeSet<String> = up.take().iter().map(|q| q.path().to_string()).collect();
                judge_calls(c, &w, &[(pool[i].clone(), cr.clone())], &paths, "rest", &info);
            }
        }
    });
}

/// protection of the members of unions and of the types behind interfaces, and of skipped fields
fn abstract_types(c: &C) {
    let rt = rt_paused();
    let mut r = c.rng("abs");
    let c2 = c.clone();
    rt.block_on(async move {
        let c = &c2;
        let text = r#"schema @server(port: 8000) { query: Query }
union U = A | B
interface I { id: String }
interface J { s: String b: String }
type A implements I @protected(id: ["a"]) { id: String a: String }
type B implements I & J { id: String b: String s: String @protected }
type Query {
  us: [U] @http(url: "http://u/us") @discriminate(field: "kind")
  js: [J] @http(url: "http://u/js") @discriminate(field: "kind")
  is: [I] @http(url: "http://u/us") @discriminate(field: "kind")
  k: String @expr(body: "SECRET-k") @protected
  open: String @expr(body: "open")
}"#;
        let cfg = tailcall_valid::Validator::to_result(Config::from_sdl(text)).unwrap();
        let mut ext = Extensions::default();
        ext.htpasswd.push(Content { id: Some("a".into()), content: "u1:{PLAIN}p1\n".into() });
        let m = ConfigModule::new(cfg, ext);
        let up = Upstream::new(|q| if q.path() == "/js" { URes::json(json!([{"kind": "B", "id": "idb", "b": "b", "s": "SECRET-s"}])) } else { URes::json(json!([{"kind": "A", "id": "SECRET-ida", "a": "SECRET-a"}, {"kind": "B", "id": "idb", "b": "b", "s": "SECRET-s"}])) });
        let app = match mock::app_of(&m, mock::runtime(up.clone())) { Ok(a) => a, Err(e) => { c.violation("abstract:rejected", json!(e)); return } };
        let qs: &[(&str, bool)] = &[ // query, judged as protected
            ("{ us { ... on A { a id } ... on B { b } } }", true), ("{ us { ... on A { a } } }", true), ("{ us { ... on B { s } } }", true),
            ("{ is { id } }", true), ("{ is { ... on I { id } } }", true), ("{ us { ... on I { z: id } } }", true), ("{ js { s } }", true), ("{ us { ... on J { s } } }", true), ("{ us { ... on B { ... on J { s } } } }", true),
            ("fragment F on I { id } { us { ... on A { ...F } } }", true), ("fragment F on J { s } { is { ...F } }", true), ("{ js { b } }", false),
            ("{ is { ... on A { a } } }", true), ("query($x: Boolean = true) { k @skip(if: $x) open }", true), ("query($x: Boolean = false) { k @include(if: $x) open }", true),
            ("{ open z: k }", true), ("{ k }", true), ("{ open ... on Query { k } }", true), ("fragment F on Query { k } query { open ...F }", true),
            ("{ us { ... on B { b } } }", false), ("{ open }", false), ("{ us { __typename ... on B { b } } open }", false),
            ("{ open __schema { types { name } } }", false),
        ];
        for _ in 0..c.n(120, 1500) {
            let (q, prot) = *r.pick(qs);
            let cr = match r.below(4) { 0 => Cred::Basic("u1".into(), "p1".into()), 1 => Cred::None, 2 => Cred::Basic("u1".into(), "no".into()), _ => Cred::Raw("Bearer x".into()) };
            let good = matches!(&cr, Cred::Basic(_, p) if p == "p1");
            let h = header(&cr);
            let hv: Vec<(&str, &str)> = h.iter().map(|h| ("authorization", h.as_str())).collect();
            c.case(&(q, &cr), prot);
            let res = mock::gql(&app, json!({"query": q}), &hv).await;
            let text = res.text();
            let info = || json!({"query": q, "credential": format!("{cr:?}"), "answer": text});
            if good || !prot { c.check(res.errors().is_empty() && res.data().is_object(), "abstract:not-served", info); c.count("abstract-served", 1); }
            else { c.check(!text.contains("SECRET"), "abstract:leak", info); c.count("abstract-refused", 1); }
        }
    });
}
