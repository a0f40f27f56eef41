//! C31: error reports keep every message, detail and cause.
use std::collections::BTreeMap;

use serde_json::{json, Value};
use tailcall::core::blueprint::BlueprintError;
use tailcall::core::jit::graphql_error::{ErrorExtensions, GraphQLError};
use tailcall::core::jit::Positioned;
use tailcall::core::verif::AuthError;
use tailcall::core::{cache, ir, worker, Errata};
use tailcall_valid::{Cause, ValidationError};

use crate::common::*;

pub fn run(c: &C) {
    c.rule("one case = one error (tree of causes, chain of wraps or combination of validation errors) and its rendering; non-trivial = it has a description, location or cause; distinct by error");
    c.assume("layout is compared up to trailing blanks of a line");
    c.section("trees", trees);
    c.section("conversions", conversions);
    c.section("chains", chains);
    c.section("repeats", repeats);
    c.section("kinds", kinds);
    c.section("responses", responses);
    c.floor("trees", 400);
    c.floor("deep-trees", 60);
    c.floor("coloured", 300);
    c.floor("conversions", 200);
    c.floor("chains", 100);
    c.floor("repeats", 200);
}

#[derive(Clone, Debug, Hash)]
struct E { msg: String, desc: Option<String>, trace: Vec<String>, causes: Vec<E> }

struct Ids(usize);
impl Ids {
    fn tok(&mut self, r: &mut Rng, odd: bool) -> String {
        self.0 += 1;
        let t = format!("m{}q", self.0);
        if !odd { return t }
        match r.below(14) {
            0 => format!("{t} two\nlines {t}b"),
            1 => format!("•{t}"),
            2 => format!("{t}: with colon"),
            3 => format!("  {t} indented"),
            4 => format!("{t}\n\nafter a blank"),
            5 => format!("{t} é漢字🎉"),
            6 => format!("{t} [at a.b]"),
            7 => format!("{t}\n"),
            8 => "x".repeat(r.range(60, 400)) + &t,
            9 => format!("{t}\nCaused by:\n  • no"),
            10 => format!("🎉{t}"),
            _ => t,
        }
    }
}
fn gen(r: &mut Rng, ids: &mut Ids, d: usize, odd: bool) -> E {
    let mut e = E { msg: ids.tok(r, odd), desc: None, trace: vec![], causes: vec![] };
    if odd && r.chance(1, 25) { e.msg = String::new(); }
    if r.bool() { e.desc = Some(if odd && r.chance(1, 20) { String::new() } else { ids.tok(r, odd) }); }
    if r.bool() {
        let n = *r.pick(&[1, 1, 2, 3, 4, 5, 9, 20]);
        e.trace = (0..n).map(|i| { let n = ids.0; ids.0 += 1; match r.below(6) { 0 => format!("@t{n}"), 1 => format!("{i}"), 2 => format!("t{n}.x"), 3 => "same".into(), 4 => format!("t{n} é"), _ => format!("t{n}") } }).collect();
    }
    if d > 0 {
        let n = match r.below(12) { 0..=3 => 0, 4 | 5 => 1, 6..=8 => 2, 9 => 3, 10 => r.range(4, 8), _ => r.range(9, 24) };
        let n = if d < 3 { n.min(5) } else { n };
        e.causes = (0..n).map(|_| gen(r, ids, d - 1, odd)).collect();
        // the same cause twice is two causes
        if n >= 2 && r.chance(1, 6) { let k = r.below(n); e.causes[k] = e.causes[0].clone(); }
    }
    e
}
fn real(e: &E) -> Errata {
    let mut x = Errata::new(&e.msg);
    if let Some(d) = &e.desc { x = x.description(d.clone()); }
    if !e.trace.is_empty() { x = x.trace(e.trace.clone()); }
    if !e.causes.is_empty() { x = x.caused_by(e.causes.iter().map(real).collect()); }
    x
}
fn own(e: &E) -> String {
    let mut s = e.msg.clone();
    if let Some(d) = &e.desc { s += ": "; s += d; }
    if !e.trace.is_empty() { s += " [at "; s += &e.trace.join("."); s += "]"; }
    s
}
fn text(e: &E) -> String {
    let mut s = own(e);
    if !e.causes.is_empty() {
        s += "\nCaused by:\n";
        s += &e.causes.iter().map(|x| {
            let t = text(x);
            t.split('\n').enumerate().map(|(i, l)| if i == 0 { format!("  • {l}") } else { format!("    {l}") }).collect::<Vec<_>>().join("\n")
        }).collect::<Vec<_>>().join("\n");
    }
    s
}
/// the own parts of every error of the tree, outermost and first first
fn parts(e: &E, out: &mut Vec<String>) {
    out.push(e.msg.clone());
    if let Some(d) = &e.desc { out.push(d.clone()) }
    if !e.trace.is_empty() { out.push(e.trace.join(".")) }
    for x in &e.causes { parts(x, out) }
}
fn depth(e: &E) -> usize { 1 + e.causes.iter().map(depth).max().unwrap_or(0) }
fn size(e: &E) -> usize { 1 + e.causes.iter().map(size).sum::<usize>() }
fn norm(s: &str) -> String { let v: Vec<&str> = s.split('\n').map(|l| l.trim_end()).collect(); v.join("\n").trim_end().to_string() }
fn plain(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(ch) = it.next() {
        if ch == '\u{1b}' && it.peek() == Some(&'[') { for x in it.by_ref() { if x == 'm' { break } } } else { out.push(ch) }
    }
    out
}
/// every part in order, none lost: a subsequence walk over the text; and as often as it was put in
fn conserved(parts: &[String], text: &str) -> Result<(), String> {
    let mut rest = text;
    for p in parts {
        for line in p.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()) {
            match rest.find(line) { Some(i) => rest = &rest[i + line.len()..], None => return Err(format!("`{line}` is missing or out of order")) }
        }
    }
    // unique tokens: same number of occurrences in and out
    let count = |s: &str| { let mut m: BTreeMap<String, usize> = BTreeMap::new(); for w in s.split(|ch: char| !ch.is_ascii_alphanumeric()) { if w.starts_with('m') && w.ends_with('q') { *m.entry(w.to_string()).or_default() += 1; } } m };
    let mut want = BTreeMap::new();
    for p in parts { for (k, n) in count(p) { *want.entry(k).or_insert(0) += n; } }
    let got = count(text);
    if want != got { let d: Vec<_> = want.iter().filter(|(k, n)| got.get(*k) != Some(n)).map(|(k, n)| format!("{k}: {n} in, {} out", got.get(k).copied().unwrap_or(0))).chain(got.keys().filter(|k| !want.contains_key(*k)).map(|k| format!("{k}: not put in"))).collect(); return Err(d.join("; ")) }
    Ok(())
}

fn trees(c: &C) {
    let mut r = c.rng("trees");
    colored::control::set_override(true);
    for i in 0..c.n(600, 15000) {
        let odd = i % 3 != 0;
        let d = r.range(0, 5);
        let e = gen(&mut r, &mut Ids(0), d, odd);
        if size(&e) > 300 { continue }
        c.case(&e, d > 0 || e.desc.is_some() || !e.trace.is_empty());
        c.count("trees", 1);
        if depth(&e) >= 3 { c.count("deep-trees", 1); }
        c.max("causes", size(&e) as u64);
        c.max("depth", depth(&e) as u64);
        let x = match guard(|| real(&e)) { Ok(x) => x, Err(p) => { c.violation("tree:panic", json!({"error": format!("{e:?}"), "panic": p})); continue } };
        let got = match guard(|| x.to_string()) { Ok(s) => s, Err(p) => { c.violation("tree:panic", json!({"error": format!("{e:?}"), "panic": p})); continue } };
        c.eq(&norm(&got), &norm(&text(&e)), "tree:text", || json!({"error": format!("{e:?}")}));
        let mut ps = vec![]; parts(&e, &mut ps);
        if let Err(why) = conserved(&ps, &got) { c.violation("tree:lost", json!({"error": format!("{e:?}"), "why": why, "text": got})); }
        // colour only adds styling
        let coloured = x.clone().color(true).to_string();
        c.count("coloured", 1);
        c.check(norm(&plain(&coloured)) == norm(&got), "colour:text", || json!({"error": format!("{e:?}"), "coloured": coloured, "plain": got}));
        if !e.msg.is_empty() { c.check(coloured.contains('\u{1b}'), "colour:none", || json!({"coloured": coloured})); }
        let off = x.clone().color(true).color(false).to_string();
        c.check(off == got, "colour:off", || json!({"error": format!("{e:?}"), "off": off, "plain": got}));
        // turning colour on before or after the causes are attached
        let inner: Vec<Errata> = e.causes.iter().map(|x| real(x).color(true)).collect();
        if !inner.is_empty() {
            let mut y = Errata::new(&e.msg).caused_by(inner);
            if let Some(d) = &e.desc { y = y.description(d.clone()); }
            if !e.trace.is_empty() { y = y.trace(e.trace.clone()); }
            let t = y.clone().color(false).to_string();
            c.check(t == got, "colour:off", || json!({"error": format!("{e:?}"), "off": t, "plain": got}));
            c.check(norm(&plain(&y.to_string())) == norm(&got), "colour:text", || json!({"error": format!("{e:?}"), "coloured": y.to_string()}));
        }
        // through anyhow and boxes and back
        let back = Errata::from(anyhow::Error::from(x.clone()));
        c.check(back == x, "tree:identity", || json!({"error": format!("{e:?}"), "back": back.to_string()}));
        let boxed: Box<dyn std::error::Error> = Box::new(x.clone());
        if let Err(why) = conserved(&ps, &Errata::from(boxed).to_string()) { c.violation("tree:box", json!({"error": format!("{e:?}"), "why": why})); }
        // setters keep what was there
        let y = x.clone().description("other description".to_string()).to_string();
        let z = x.clone().trace(vec!["p".into(), "q".into(), "r".into()]).to_string();
        let mut e2 = e.clone(); e2.desc = Some("other description".into());
        let mut e3 = e.clone(); e3.trace = vec!["p".into(), "q".into(), "r".into()];
        c.eq(&norm(&y), &norm(&text(&e2)), "tree:description", || json!({"error": format!("{e:?}")}));
        c.eq(&norm(&z), &norm(&text(&e3)), "tree:trace", || json!({"error": format!("{e:?}")}));
        let w = x.clone().message("other".into()).to_string();
        let mut e4 = e.clone(); e4.msg = "other".into();
        c.eq(&norm(&w), &norm(&text(&e4)), "tree:message", || json!({"error": format!("{e:?}")}));
        if i < 3 { c.sample(|| json!({"text": got})); }
    }
    colored::control::unset_override();
}

/// flat lists of causes, as the configuration compiler collects them
fn gen_causes(r: &mut Rng, ids: &mut Ids, max: usize) -> Vec<E> {
    (0..r.range(1, max)).map(|_| { let odd = r.bool(); gen(r, ids, 0, odd) }).collect()
}
fn conversions(c: &C) {
    let mut r = c.rng("conversions");
    for _ in 0..c.n(400, 12000) {
        let mut ids = Ids(0);
        let groups: Vec<Vec<E>> = (0..r.range(1, 3)).map(|_| gen_causes(&mut r, &mut ids, 9)).collect();
        let all: Vec<E> = groups.concat();
        c.case(&all, true);
        c.count("conversions", 1);
        let info = || json!({"causes": format!("{all:?}")});
        let mut ps = vec![];
        for e in &all { parts(e, &mut ps) }
        let cause_str = |e: &E| { let mut x = Cause::new(e.msg.clone()); if let Some(d) = &e.desc { x = x.description(d.clone()); } x.trace(e.trace.clone()) };
        let strings = || groups.iter().map(|g| ValidationError::from(g.iter().map(cause_str).collect::<Vec<_>>())).reduce(|a, b| a.combine(b)).unwrap();
        let want = |head: &str| text(&E { msg: head.into(), desc: None, trace: vec![], causes: all.clone() });
        // String
        let t = Errata::from(strings()).to_string();
        c.eq(&norm(&t), &norm(&want("Invalid Configuration")), "convert:string", info);
        if let Err(why) = conserved(&ps, &t) { c.violation("convert:string-lost", json!({"input": info(), "why": why})); }
        // through anyhow
        let a = Errata::from(anyhow::Error::from(strings()));
        c.check(a.to_string() == t, "convert:anyhow", || json!({"input": info(), "got": a.to_string()}));
        // &str
        let refs = all.iter().map(|e| { let mut x = Cause::new(e.msg.as_str()); if let Some(d) = &e.desc { x = x.description(d.as_str()); } x.trace(e.trace.clone()) }).collect::<Vec<_>>();
        let v = ValidationError::from(refs);
        let t = Errata::from(v.clone()).to_string();
        c.eq(&norm(&t), &norm(&want("Invalid Configuration")), "convert:str", info);
        // blueprint errors and back
        for (via, b) in [("str", BlueprintError::from_validation_str(v.clone())), ("string", BlueprintError::from_validation_string(strings()))] {
            let s = BlueprintError::to_validation_string(b);
            let b = if via == "str" { BlueprintError::from_validation_str(v.clone()) } else { BlueprintError::from_validation_string(strings()) };
            let t = Errata::from(b).to_string();
            c.eq(&norm(&t), &norm(&want("Blueprint Error")), &format!("convert:blueprint-{via}"), info);
            c.check(s == strings(), &format!("convert:blueprint-back-{via}"), || json!({"input": info(), "got": s.to_string()}));
        }
        // as the errors of a bad answer
        let x = ir::Error::from(v);
        let t = x.to_string();
        let msgs: Vec<String> = all.iter().map(|e| e.msg.clone()).collect();
        c.eq(&norm(&t), &norm(&text(&E { msg: "API Validation Error".into(), desc: None, trace: vec![], causes: msgs.iter().map(|m| E { msg: m.clone(), desc: None, trace: vec![], causes: vec![] }).collect() })), "convert:api", info);
        c.check(x.extend().message == t, "convert:api-extend", || json!({"input": info(), "got": x.extend().message}));
    }
}

#[derive(Debug, thiserror::Error)]
#[error("{0}")]
struct Link(String, #[source] Option<Box<dyn std::error::Error + Send + Sync>>);

fn chains(c: &C) {
    let mut r = c.rng("chains");
    for _ in 0..c.n(400, 10000) {
        let mut ids = Ids(0);
        let mut want: Vec<String> = vec![];
        let base = r.below(5);
        let mut err: anyhow::Error = match base {
            0 => { let t = ids.tok(&mut r, false); want.push(t.clone()); anyhow::anyhow!(t) }
            1 => { let e = gen(&mut r, &mut ids, 2, false); parts(&e, &mut want); real(&e).into() }
            2 => {
                let g = gen_causes(&mut r, &mut ids, 5);
                want.push("Invalid Configuration".into());
                for e in &g { parts(e, &mut want) }
                ValidationError::from(g.iter().map(|e| { let mut x = Cause::new(e.msg.clone()); if let Some(d) = &e.desc { x = x.description(d.clone()); } x.trace(e.trace.clone()) }).collect::<Vec<_>>()).into()
            }
            3 => { let t = ids.tok(&mut r, false); want.push(t.clone()); std::io::Error::new(std::io::ErrorKind::Other, t).into() }
            _ => {
                let n = r.range(1, 6);
                let toks: Vec<String> = (0..n).map(|_| ids.tok(&mut r, false)).collect();
                let mut l: Option<Box<dyn std::error::Error + Send + Sync>> = None;
                for t in toks.iter().rev() { l = Some(Box::new(Link(t.clone(), l.take()))); }
                want.extend(toks);
                anyhow::Error::from_boxed(l.unwrap())
            }
        };
        let n = r.below(6);
        for _ in 0..n { let t = ids.tok(&mut r, false); err = err.context(t.clone()); want.insert(0, t); }
        c.case(&(base, &want), n > 0);
        c.count("chains", 1);
        let dbg = format!("{err:?}");
        let t = Errata::from(err).to_string();
        if let Err(why) = conserved(&want, &t) { c.violation("chain:lost", json!({"error": dbg, "want": want, "text": t, "why": why})); }
        // nested as they occurred: a wrap is less indented than what it wraps
        if matches!(base, 0 | 3) || base == 4 {
            let ind: Vec<usize> = want.iter().filter_map(|w| t.split('\n').find(|l| l.contains(w.as_str())).map(|l| l.chars().take_while(|ch| *ch == ' ' || *ch == '•').count())).collect();
            c.check(ind.windows(2).all(|w| w[0] < w[1]), "chain:nesting", || json!({"error": dbg, "text": t}));
        }
    }
}

/// A chain keeps every link, also when links say the same, and a trace keeps every step, also empty ones.
fn repeats(c: &C) {
    let mut r = c.rng("repeats");
    for _ in 0..c.n(300, 6000) {
        let pool = ["same", "other", "Request failed", "same same"];
        let n = r.range(1, 7);
        let toks: Vec<String> = (0..n).map(|_| r.pick(&pool).to_string()).collect();
        c.case(&("chain", &toks), n > 1);
        c.count("repeats", 1);
        let split = r.below(n);
        let mut l: Option<Box<dyn std::error::Error + Send + Sync>> = None;
        for t in toks[split..].iter().rev() { l = Some(Box::new(Link(t.clone(), l.take()))); }
        let mut err = anyhow::Error::from_boxed(l.unwrap());
        for t in toks[..split].iter().rev() { err = err.context(t.clone()); }
        let text = Errata::from(err).to_string();
        let got: Vec<String> = text.split('\n').map(|l| l.trim_start_matches([' ', '•']).trim_end().to_string()).filter(|l| l != "Caused by:").collect();
        c.check(got == toks, "repeats:chain", || json!({"links": toks, "text": text}));
        // the same as a tree, with traces
        let trace: Vec<String> = (0..r.below(6)).map(|_| r.pick(&["a", "", "a", "0", "@http", " "]).to_string()).collect();
        let kids: Vec<Errata> = (0..r.below(5)).map(|_| Errata::new(*r.pick(&pool)).description(r.pick(&["same", "d"]).to_string())).collect();
        let e = Errata::new("same").description("same".to_string()).trace(trace.clone()).caused_by(kids.clone());
        let text = e.to_string();
        let first = text.split('\n').next().unwrap_or("").to_string();
        let want = if trace.is_empty() { "same: same".to_string() } else { format!("same: same [at {}]", trace.join(".")) };
        c.case(&("tree", &trace, kids.iter().map(|k| k.to_string()).collect::<Vec<_>>()), true);
        c.check(first.trim_end() == want.trim_end(), "repeats:trace", || json!({"trace": trace, "text": text}));
        let got: Vec<String> = text.split('\n').skip(1).map(|l| l.trim_start_matches([' ', '•']).trim_end().to_string()).filter(|l| l != "Caused by:").collect();
        c.check(got == kids.iter().map(|k| k.to_string()).collect::<Vec<_>>(), "repeats:causes", || json!({"causes": kids.iter().map(|k| k.to_string()).collect::<Vec<_>>(), "text": text}));
        let on = e.color(true).color(false).to_string();
        c.check(on == text, "repeats:colour", || json!({"text": text, "again": on}));
    }
}

/// each kind of error shows what it was made of
fn kinds(c: &C) {
    let mut r = c.rng("kinds");
    let bad_json = |s: &str| serde_json::from_str::<Value>(s).unwrap_err();
    for i in 0..c.n(60, 2000) {
        let mut ids = Ids(0);
        let a = ids.tok(&mut r, true);
        let b = ids.tok(&mut r, true);
        let js = match i % 3 { 0 => "{", 1 => "[1,]", _ => "tru" };
        let one = |m: &str, d: &str| E { msg: m.into(), desc: Some(d.into()), trace: vec![], causes: vec![] };
        // messages of the script worker
        let anyhow_w = anyhow::anyhow!(a.clone());
        let workers: Vec<(worker::Error, Vec<String>)> = vec![
            (worker::Error::InitializationFailed, vec!["initialize".into()]),
            (worker::Error::Communication, vec!["communication".into()]),
            (worker::Error::RequestCloneFailed, vec!["Clone".into()]),
            (worker::Error::JsRuntimeStopped, vec!["Stopped".into()]),
            (worker::Error::RuntimeNotInitialized, vec!["not initialized".into()]),
            (worker::Error::CLI(a.clone()), vec![a.clone()]),
            (worker::Error::InvalidFunction(a.clone()), vec![a.clone(), "is not a function".into()]),
            (worker::Error::Rquickjs(a.clone()), vec![a.clone()]),
            (worker::Error::DeserializeFailed(a.clone()), vec![a.clone()]),
            (worker::Error::GlobalThisNotInitialised(a.clone()), vec!["not initialized".into(), a.clone()]),
            (worker::Error::FunctionValueParseError(a.clone(), b.clone()), vec![a.clone(), b.clone()]),
            (worker::Error::from(bad_json(js)), vec![bad_json(js).to_string()]),
            (worker::Error::from(anyhow_w), vec![a.clone()]),
        ];
        for (w, parts) in &workers {
            c.case(&w.to_string(), true);
            for (how, t) in [("display", w.to_string()), ("debug", format!("{w:?}"))] {
                if let Err(why) = conserved(parts, &t) { c.violation(&format!("worker:{how}"), json!({"text": t, "parts": parts, "why": why})); }
            }
            let t = ir::Error::from(w.clone()).to_string();
            c.eq(&norm(&t), &norm(&text(&one("Worker Error", &w.to_string()))), "ir:worker", || json!({"worker": w.to_string()}));
            let t = Errata::from(tailcall::core::Error::from(w.clone())).to_string();
            if let Err(why) = conserved(parts, &t) { c.violation("core:worker", json!({"text": t, "parts": parts, "why": why})); }
        }
        for (e, t) in [
            (ir::Error::IO(a.clone()), one("IOException", &a)),
            (ir::Error::Deserialize(a.clone()), one("Deserialization Error", &a)),
            (ir::Error::ExprEval(a.clone()), one("Expression Evaluation Error", &a)),
            (ir::Error::Entity(a.clone()), one("Entity Resolver Error", &a)),
            (ir::Error::Auth(AuthError::Missing), one("Authentication Failure", "Missing Authorization Header")),
            (ir::Error::Auth(AuthError::Parse(a.clone())), one("Authentication Failure", &a)),
            (ir::Error::Auth(AuthError::Invalid), one("Authentication Failure", "Invalid Authorization Header")),
            (ir::Error::Cache(cache::Error::Kv(a.clone())), one("Cache Error", &format!("Kv Error: {a}"))),
            (ir::Error::Cache(cache::Error::from(bad_json(js))), one("Cache Error", &format!("Serde Json Error: {}", bad_json(js)))),
        ] {
            c.case(&text(&t), true);
            c.eq(&norm(&e.to_string()), &norm(&text(&t)), "ir:text", || json!({"error": format!("{e:?}")}));
            // wrapped in anyhow and back it is the same error
            let back = ir::Error::from(anyhow::Error::from(e.clone()));
            c.check(format!("{back:?}") == format!("{e:?}"), "ir:anyhow", || json!({"error": format!("{e:?}"), "back": format!("{back:?}")}));
            let back = ir::Error::from(std::sync::Arc::new(anyhow::Error::from(e.clone())));
            c.check(format!("{back:?}") == format!("{e:?}"), "ir:arc", || json!({"error": format!("{e:?}"), "back": format!("{back:?}")}));
            c.check(tailcall::core::jit::Error::IR(e.clone()).to_string() == e.to_string(), "jit:text", || json!({"error": format!("{e:?}")}));
        }
        let other = ir::Error::from(anyhow::anyhow!(a.clone())).to_string();
        if let Err(why) = conserved(&[a.clone()], &other) { c.violation("ir:other", json!({"text": other, "why": why})); }
        let io = Errata::from(std::io::Error::new(std::io::ErrorKind::NotFound, a.clone())).to_string();
        c.eq(&norm(&io), &norm(&text(&one("IO Error", &a))), "errata:io", || json!({}));
        // gRPC: text and extensions
        let details = gen_json(&mut r, 2);
        let code = r.below(17) as i32;
        let g = ir::Error::GRPC { grpc_code: code, grpc_description: a.clone(), grpc_status_message: b.clone(), grpc_status_details: async_graphql::Value::from_json(details.clone()).unwrap() };
        let t = g.to_string();
        c.case(&(&t, details.to_string()), true);
        if let Err(why) = conserved(&[code.to_string(), a.clone(), b.clone()], &t) { c.violation("grpc:text", json!({"text": t, "why": why})); }
        let ext = serde_json::to_value(g.extend().extensions).unwrap();
        c.eq(&short_floats(ext), &short_floats(json!({"grpcCode": code, "grpcDescription": a, "grpcStatusMessage": b, "grpcStatusDetails": details})), "grpc:extensions", || json!({"text": t}));
    }
}

/// what a client is told: the error, where in the document, and on which path
fn responses(c: &C) {
    let mut r = c.rng("responses");
    for _ in 0..c.n(200, 4000) {
        let mut ids = Ids(0);
        let a = ids.tok(&mut r, true);
        let b = ids.tok(&mut r, true);
        let (line, column) = (r.range(1, 500), r.range(1, 200));
        let path: Vec<tailcall::core::jit::PathSegment> = (0..r.below(8)).map(|_| if r.bool() { tailcall::core::jit::PathSegment::Index(r.below(100)) } else { tailcall::core::jit::PathSegment::Field(std::borrow::Cow::Owned(r.string(&["a", "b", "xy", "_1"], 4))) }).collect();
        let grpc = r.bool();
        let e = if grpc { ir::Error::GRPC { grpc_code: 5, grpc_description: a.clone(), grpc_status_message: b.clone(), grpc_status_details: async_graphql::Value::Null } } else { ir::Error::IO(a.clone()) };
        c.case(&(&a, line, column, path.len()), true);
        let p = Positioned::new(tailcall::core::jit::Error::IR(e.clone()), async_graphql::Pos { line, column }.into()).with_path(path.clone());
        let v = serde_json::to_value(GraphQLError::from(p)).unwrap();
        let mut want = json!({"message": e.to_string(), "locations": [{"line": line, "column": column}]});
        if !path.is_empty() { want["path"] = serde_json::to_value(&path).unwrap(); }
        if grpc { want["extensions"] = json!({"grpcCode": 5, "grpcDescription": a, "grpcStatusMessage": b, "grpcStatusDetails": null}); }
        let mut got = v.clone();
        if !grpc { if let Some(o) = got.as_object_mut() { if o.get("extensions").map(|x| x.as_object().map(|m| m.is_empty()).unwrap_or(x.is_null())).unwrap_or(false) { o.remove("extensions"); } } }
        c.eq(&got, &want, "response:error", || json!({"error": format!("{e:?}")}));
        for seg in &path { if let tailcall::core::jit::PathSegment::Index(i) = seg { c.check(v["path"].as_array().unwrap().contains(&json!(i)), "response:index", || v.clone()); } }
    }
}
