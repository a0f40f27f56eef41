//! C07: templates parse, print and render exactly what they say.
use std::collections::{BTreeMap, BTreeSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

use async_graphql_value::ConstValue;
use serde_json::{json, Value};
use tailcall::core::blueprint::DynamicValue;
use tailcall::core::mustache::{Mustache, PathStringEval, Segment};
use tailcall::core::verif::ValueExt;

use crate::common::*;
use crate::mock::{self, TCtx, URes, UReq, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one template text parsed, printed and rendered, one structured value rendered, or one gateway request through configured templates; non-trivial = it holds at least one brace pair or expression; distinct by text");
    c.assume("a literal consisting of a single double quote next to an expression is dropped by design (it lets a body be the raw value of one expression)");
    c.section("parse", parse);
    c.section("render", render);
    c.section("dynamic", dynamic);
    c.section("gateway", gateway);
    c.section("config-time", config_time);
    c.floor("expressions_parsed", 800);
    c.floor("literal_only", 200);
    c.floor("rendered", 400);
}

#[derive(Clone, Debug, PartialEq)]
enum Seg {
    L(String),
    E(Vec<String>),
}

fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

/// An expression at the start of `s`: `{{`, an optional dot, names separated by dots (blanks around
/// names allowed), `}}`. Returns its names and length.
fn ref_expr(s: &str) -> Option<(Vec<String>, usize)> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let at = |i: usize| cs.get(i).copied();
    if at(0) != Some('{') || at(1) != Some('{') {
        return None;
    }
    i += 2;
    if at(i) == Some('.') {
        i += 1;
    }
    let mut names = vec![];
    loop {
        while at(i).map(is_ws).unwrap_or(false) { i += 1; }
        let mut name = String::new();
        if !at(i).map(|c| c.is_ascii_alphabetic()).unwrap_or(false) {
            return None;
        }
        while let Some(ch) = at(i) {
            if ch.is_ascii_alphanumeric() || ch == '_' { name.push(ch); i += 1; } else { break; }
        }
        names.push(name);
        while at(i).map(is_ws).unwrap_or(false) { i += 1; }
        if at(i) == Some('.') { i += 1; continue; }
        break;
    }
    if at(i) == Some('}') && at(i + 1) == Some('}') {
        Some((names, cs[..i + 2].iter().map(|c| c.len_utf8()).sum()))
    } else {
        None
    }
}

/// Reference: sequential scan; a `{{` that opens no complete expression makes the whole text literal.
fn ref_parse(s: &str) -> Vec<Seg> {
    let mut out = vec![];
    let mut p = 0;
    while p < s.len() {
        if let Some((n, len)) = ref_expr(&s[p..]) {
            out.push(Seg::E(n));
            p += len;
        } else if s[p..].starts_with("{{") {
            return vec![Seg::L(s.to_string())];
        } else if let Some(q) = s[p..].find("{{") {
            out.push(Seg::L(s[p..p + q].to_string()));
            p += q;
        } else {
            out.push(Seg::L(s[p..].to_string()));
            p = s.len();
        }
    }
    out
}

fn segs(m: &Mustache) -> Vec<Seg> {
    m.segments().iter().map(|s| match s { Segment::Literal(l) => Seg::L(l.clone()), Segment::Expression(e) => Seg::E(e.clone()) }).collect()
}

fn drop_quotes(v: Vec<Seg>) -> Vec<Seg> {
    v.into_iter().filter(|s| !matches!(s, Seg::L(t) if t == "\"" || t.is_empty())).collect()
}

fn merge_lits(v: Vec<Seg>) -> Vec<Seg> {
    let mut out: Vec<Seg> = vec![];
    for s in v {
        match (out.last_mut(), s) {
            (Some(Seg::L(a)), Seg::L(b)) => a.push_str(&b),
            (_, s) => out.push(s),
        }
    }
    out
}

const FRAG: &[&str] = &["{{", "}}", "{", "}", ".", "a", "_b1", " ", "\n", "\t", "\"", "é", "1", "/", "{{.args.id}}", "{{value.a_b}}", "{{ a }}", "{{a . b}}", "{{.a.b.c}}", "x=", "&", "{{headers.X}}", "\\", "日", "\r", "{{.}}", "{{a.}}", "{{1a}}", "{{a-b}}", "text ", "{{ .a}}", "{{a}", "{{_a}}", "{{A9_z}}"];
const SAFE: &[&str] = &["{{.args.id}}", "{{value.a_b}}", "{{ a }}", "{{a . b}}", "{{.a.b.c}}", "x=", "&", "/", "{", "} ", "é", "\"k\":", "\"", " ", "日", "{{.vars.x}}", "{{\nname\t}}", "}}", ".", "a.b"];

/// a name of any shape the grammar allows
fn gen_name(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 4) { s.push((b"abcxyzABQZ"[r.below(10)]) as char); }
    for _ in 0..match r.below(5) { 0 => 0, 1 => 12, n => n } { s.push_str(*r.pick(&["_", "_", "__", "1", "0", "9z", "id", "V2", "_x", "name"])); }
    s
}
fn gen_expr(r: &mut Rng) -> String {
    let n = match r.below(6) { 0 => r.range(5, 12), 1 => 1, k => k };
    let sep = if r.chance(1, 5) { " . " } else { "." };
    let parts: Vec<String> = (0..n).map(|_| gen_name(r)).collect();
    format!("{{{{{}{}}}}}", if r.bool() { "." } else { "" }, parts.join(sep))
}
fn gen_template(r: &mut Rng) -> String {
    match r.below(6) {
        0 => r.string(FRAG, 9),
        1 | 2 => { let n = if r.chance(1, 6) { 20 } else { 6 }; let mut s = String::new(); for _ in 0..r.below(n) { if r.bool() { s.push_str(&gen_expr(r)); } else { s.push_str(*r.pick(SAFE)); } } s }
        _ => r.string(SAFE, 8),
    }
}

fn parse(c: &C) {
    let mut r = c.rng("parse");
    for _ in 0..c.n(3000, 80000) {
        let s = gen_template(&mut r);
        let m = Mustache::parse(&s);
        let want = merge_lits(drop_quotes(ref_parse(&s)));
        let got = merge_lits(segs(&m));
        c.note_case(s.clone());
        c.eq(&got, &want, "parse:segments", || json!(s));
        let n = want.iter().filter(|x| matches!(x, Seg::E(_))).count();
        c.count("expressions_parsed", n as u64);
        if n == 0 { c.count("literal_only", 1); }
        c.check(m.is_const() == (n == 0), "parse:is-const", || json!(s));
        let es: Vec<Vec<String>> = m.expression_segments().into_iter().cloned().collect();
        let we: Vec<Vec<String>> = want.iter().filter_map(|x| match x { Seg::E(e) => Some(e.clone()), _ => None }).collect();
        c.eq(&es, &we, "parse:expressions", || json!(s));
        for w in ["args", "a", "b", "zz", "value", "arg"] {
            c.check(m.expression_contains(w) == we.iter().any(|e| e.iter().any(|p| p == w)), "parse:expression-contains", || json!({"template": s, "name": w}));
        }
        // printing
        let p = m.to_string();
        let wp: String = want.iter().map(|x| match x { Seg::L(l) => l.clone(), Seg::E(e) => format!("{{{{.{}}}}}", e.join(".")) }).collect();
        c.eq(&p, &wp, "print:text", || json!(s));
        let m2 = Mustache::parse(&p);
        c.check(merge_lits(segs(&m2)) == got, "print:reparsed-differs", || json!({"template": s, "printed": p, "reparsed": format!("{m2:?}")}));
        c.check(m2.to_string() == p, "print:not-idempotent", || json!(s));
        let h = |m: &Mustache| { let mut h = DefaultHasher::new(); m.hash(&mut h); h.finish() };
        if m2 == m { c.check(h(&m2) == h(&m), "parse:hash", || json!(s)); }
        // a text with nothing but literals is kept as it is
        if n == 0 && s != "\"" { c.check(p == s, "parse:literal-text-changed", || json!({"text": s, "got": p})); }
        c.case(&s, s.contains("{{"));
        c.sample(|| json!({"template": s, "segments": format!("{got:?}")}));
    }
}

fn lookup<'a>(v: &'a Value, path: &[String]) -> Option<&'a Value> {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Object(m) => m.get(p)?,
            Value::Array(a) => a.get(p.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}

fn text(v: &Value) -> String {
    match v { Value::String(s) => s.clone(), v => v.to_string() }
}

fn ref_render(segs: &[Seg], ctx: &Value) -> String {
    segs.iter().map(|s| match s { Seg::L(l) => l.clone(), Seg::E(e) => lookup(ctx, e).map(text).unwrap_or_default() }).collect()
}

fn gen_ctx(r: &mut Rng) -> Value {
    json!({"args": {"id": gen_json(r, 1), "a": gen_scalar(r)}, "value": {"a_b": gen_json(r, 2), "b": gen_scalar(r)}, "a": r.pick(&[json!("top"), json!({"b": {"c": "deep {{.a}}"}}), json!({"b": 1}), json!([1])]), "vars": {"x": gen_scalar(r)}, "name": gen_scalar(r), "headers": {"X": "h"}})
}

fn render(c: &C) {
    let mut r = c.rng("render");
    for _ in 0..c.n(1200, 30000) {
        let s = gen_template(&mut r);
        let mut ctx = gen_ctx(&mut r);
        if r.bool() { let k = r.pick(&["args", "value", "a", "vars"]).to_string(); ctx.as_object_mut().unwrap().remove(&k); }
        let m = Mustache::parse(&s);
        let want = ref_render(&drop_quotes(ref_parse(&s)), &ctx);
        let det = || json!({"template": s, "context": ctx});
        c.eq(&m.render(&ctx), &want, "render:text", det);
        let t = TCtx::new(ctx.clone());
        c.eq(&m.render(&t), &want, "render:text-in-other-context", det);
        // unresolved expressions are kept by partial rendering
        let wp: String = drop_quotes(ref_parse(&s)).iter().map(|x| match x { Seg::L(l) => l.clone(), Seg::E(e) => lookup(&ctx, e).map(text).unwrap_or_else(|| format!("{{{{.{}}}}}", e.join("."))) }).collect();
        c.eq(&PathStringEval::new().eval_partial(&m, &ctx), &wp, "render:partial", det);
        c.count("rendered", 1);
        c.case(&format!("{s}{ctx}"), s.contains("{{"));
        c.sample(|| json!({"template": s, "context": ctx, "rendered": want}));
    }
}

fn gen_dyn(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 || r.chance(1, 3) {
        return if r.chance(2, 3) { json!(gen_template(r)) } else { gen_scalar(r) };
    }
    if r.bool() {
        Value::Array((0..r.below(4)).map(|_| gen_dyn(r, depth - 1)).collect())
    } else {
        let mut m = serde_json::Map::new();
        for _ in 0..r.below(4) { m.insert(r.pick(KEYS).to_string(), gen_dyn(r, depth - 1)); }
        Value::Object(m)
    }
}

fn has_expr(s: &str) -> bool {
    ref_parse(s).iter().any(|x| matches!(x, Seg::E(_)))
}

/// A string holding expressions becomes the JSON its rendering spells, or that text.
fn ref_dyn(v: &Value, ctx: &Value, prefix: Option<&str>) -> Value {
    match v {
        Value::String(s) if has_expr(s) => {
            let segs: Vec<Seg> = drop_quotes(ref_parse(s)).into_iter().map(|x| match (x, prefix) { (Seg::E(mut e), Some(p)) => { e.insert(0, p.to_string()); Seg::E(e) } (x, _) => x }).collect();
            let t = ref_render(&segs, ctx);
            serde_json::from_str(&t).unwrap_or(Value::String(t))
        }
        Value::Array(a) => Value::Array(a.iter().map(|x| ref_dyn(x, ctx, prefix)).collect()),
        Value::Object(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), ref_dyn(x, ctx, prefix))).collect()),
        v => v.clone(),
    }
}

fn any_expr(v: &Value) -> bool {
    match v {
        Value::String(s) => has_expr(s),
        Value::Array(a) => a.iter().any(any_expr),
        Value::Object(m) => m.values().any(any_expr),
        _ => false,
    }
}

fn cj(v: &ConstValue) -> Value {
    v.clone().into_json().unwrap()
}

fn dynamic(c: &C) {
    let mut r = c.rng("dyn");
    for _ in 0..c.n(900, 25000) {
        let v = gen_dyn(&mut r, 3);
        let ctx = gen_ctx(&mut r);
        let det = || json!({"value": v, "context": ctx});
        let d: DynamicValue<ConstValue> = match DynamicValue::try_from(&v) { Ok(d) => d, Err(e) => { c.violation("dynamic:rejected", json!({"e": e.to_string(), "in": det()})); continue; } };
        c.check(d.is_const() == !any_expr(&v), "dynamic:is-const", det);
        let got = cj(&d.render_value(&ctx));
        let want = ref_dyn(&v, &ctx, None);
        c.check(got == want, "dynamic:rendered", || json!({"got": got, "want": want, "in": det()}));
        c.check(got.to_string() == want.to_string(), "dynamic:key-order-or-number-text", || json!({"got": got, "want": want, "in": det()}));
        match ConstValue::try_from(&d) {
            Ok(x) => { c.check(!any_expr(&v) && cj(&x) == v, "dynamic:constant-changed", || json!({"got": cj(&x), "in": det()})); }
            Err(_) => { c.check(any_expr(&v), "dynamic:constant-refused", det); }
        }
        // every expression is looked up under the prefix, nothing else changes
        let wrapped = json!({"args": ctx, "value": {"a_b": "outside"}});
        let p = d.clone().prepend("args");
        let gotp = cj(&p.render_value(&wrapped));
        let wantp = ref_dyn(&v, &wrapped, Some("args"));
        c.check(gotp == wantp, "dynamic:prefixed", || json!({"got": gotp, "want": wantp, "in": det()}));
        c.check(gotp == want, "dynamic:prefix-changes-more-than-the-path", || json!({"got": gotp, "want": want, "in": det()}));
        c.count("dynamic_values", 1);
        c.case(&format!("{v}{ctx}"), any_expr(&v));
        c.sample(det);
    }
}

fn gateway(c: &C) {
    let mut r = c.rng("gateway");
    let rt = rt_paused();
    // a template in a constant/templated field, with every source of values
    for _ in 0..c.n(40, 600) {
        let exprs: &[(&str, &dyn Fn(&Value) -> Value)] = &[
            ("args.s", &|x| x["s"].clone()), ("args.n", &|x| x["n"].clone()), ("vars.v", &|_| json!("var text")), ("env.E", &|_| json!("env text")), ("headers.tenant", &|x| x["tenant"].clone()), ("args.o.k", &|x| x["o"]["k"].clone()), ("vars.none", &|_| Value::Null), ("env.NONE", &|_| Value::Null), ("headers.none", &|_| Value::Null),
        ];
        let lits = ["", " ", "a ", "é", "/", ": ", "{ ", "x=\\\"q\\\""];
        let mut leaf = |r: &mut Rng| -> (String, Vec<(Option<usize>, String)>) {
            let mut t = String::new();
            let mut parts = vec![];
            for _ in 0..r.range(1, 4) {
                let l = r.pick(&lits).to_string();
                t.push_str(&l);
                parts.push((None, l.replace("\\\"", "\"")));
                if r.chance(3, 4) {
                    let i = r.below(exprs.len());
                    let e = exprs[i].0;
                    t.push_str(&match r.below(3) { 0 => format!("{{{{{e}}}}}"), 1 => format!("{{{{.{e}}}}}"), _ => format!("{{{{.{}}}}}", e.replace('.', " . ")) });
                    parts.push((Some(i), String::new()));
                }
            }
            (t, parts)
        };
        let (t1, p1) = leaf(&mut r);
        let (t2, p2) = leaf(&mut r);
        let sdl = format!(
            "schema @server(port: 8000, vars: [{{key: \"v\", value: \"var text\"}}]) @upstream(allowedHeaders: [\"tenant\"]) {{ query: Query }}\ninput O {{ k: String! }}\ntype Query {{ f(s: String!, n: Int!, o: O!): JSON @expr(body: {{a: \"{t1}\", b: [\"{t2}\", 1, true, null, \"plain {{ }}\"], c: {{d: 1.5, e: \"{t1}\"}}}}) }}"
        );
        let up = Upstream::new(|_| URes::json(json!(null)));
        let app = match mock::app(&sdl, mock::runtime_env(up, &[("E", "env text")])) { Ok(a) => a, Err(e) => { c.count("templates_refused", 1); c.case(&sdl, false); let _ = e; continue; } };
        let input = json!({"s": r.pick(&["x", "", "1", "true", "{\"a\":1}", "a \"b\"", "日本", "null"]), "n": r.below(1000) as i64 - 500, "tenant": r.pick(&["t-1", "42"]), "o": {"k": r.pick(&["deep", "7"])}});
        let show = |parts: &Vec<(Option<usize>, String)>| -> Value {
            // neighbouring literals form one literal; a lone quote is dropped (see assumptions)
            let mut segs: Vec<Seg> = vec![];
            for (i, l) in parts {
                match i { None => segs.push(Seg::L(l.clone())), Some(i) => segs.push(Seg::E(vec![i.to_string()])) }
            }
            let segs = drop_quotes(merge_lits(segs));
            let has = segs.iter().any(|s| matches!(s, Seg::E(_)));
            let t: String = segs.iter().map(|s| match s { Seg::L(l) => l.clone(), Seg::E(e) => { let v = exprs[e[0].parse::<usize>().unwrap()].1(&input); if v.is_null() { String::new() } else { text(&v) } } }).collect();
            if has { serde_json::from_str(&t).unwrap_or(Value::String(t)) } else { Value::String(t) }
        };
        let res = rt.block_on(mock::gql(&app, json!({"query": "query($s: String!, $n: Int!, $o: O!) { f(s: $s, n: $n, o: $o) }", "variables": {"s": input["s"], "n": input["n"], "o": input["o"]}}), &[("tenant", input["tenant"].as_str().unwrap())]));
        let (a, b) = (show(&p1), show(&p2));
        let want = json!({"a": a, "b": [b, 1, true, null, "plain { }"], "c": {"d": 1.5, "e": a}});
        c.check(res.data()["f"] == want, "gateway:templated-value", || json!({"sdl": sdl, "input": input, "got": res.text(), "want": want}));
        c.count("gateway_templates", 1);
        c.case(&format!("{sdl}{input}"), true);
        c.sample(|| json!({"sdl": sdl, "input": input, "got": res.data()}));
    }
    // select: every expression is taken from the upstream's answer
    for _ in 0..c.n(15, 200) {
        let sel = [("\"{{.a}}\"", json!("A")), ("\"x {{.a}} y {{.n}}\"", json!("x A y 5")), ("\"{{.n}}{{.a}}\"", json!("5A")), ("{k: \"{{.d.e}}\", l: [\"{{.n}}\", \"c\", \"<{{.d.e}}>\"]}", json!({"k": true, "l": [5, "c", "<true>"]})), ("\"{{.d}}\"", json!({"e": true})), ("\"no {{.missing}} value\"", json!("no  value"))];
        let (t, want) = r.pick(&sel);
        let up = Upstream::new(|_| URes::json(json!({"a": "A", "n": 5, "d": {"e": true}})));
        let sdl = format!("schema @server(port: 8000) {{ query: Query }}\ntype Query {{ f: JSON @http(url: \"http://up/x\", select: {t}) }}");
        let app = match mock::app(&sdl, mock::runtime(up)) { Ok(a) => a, Err(e) => { c.violation("select:config", json!({"sdl": sdl, "e": e})); continue; } };
        let res = rt.block_on(mock::query(&app, "{ f }"));
        c.check(res.data()["f"] == *want, "select:templated-value", || json!({"sdl": sdl, "got": res.text(), "want": want}));
        c.case(&sdl, true);
    }
    // url, query, header and body templates together
    for _ in 0..c.n(30, 400) {
        let up = Upstream::new(|u: &UReq| URes::json(json!({"path": u.path(), "q": u.query(), "h": u.header("x-h"), "b": u.body_json()})));
        let sdl = "schema @server(port: 8000, vars: [{key: \"v\", value: \"var\"}]) @upstream(allowedHeaders: [\"tenant\"]) { query: Query mutation: Mutation }\ntype Query { x: Int @expr(body: 1) }\ntype Mutation { f(s: String!, n: Int!): JSON @http(url: \"http://up/{{.args.s}}/v/{{.args.n}}.json\", method: POST, query: [{key: \"k\", value: \"{{.args.s}}-{{.env.E}}\"}, {key: \"c\", value: \"const\"}], headers: [{key: \"x-h\", value: \"{{.headers.tenant}}/{{.vars.v}}\"}], body: {a: \"{{.args.s}}\", n: \"{{.args.n}}\", t: \"<{{.vars.v}}|{{.args.n}}>\", lit: 5}) }";
        let app = mock::app(sdl, mock::runtime_env(up.clone(), &[("E", "env")])).unwrap();
        let s = r.pick(&["abc", "a1", "Z_z", "~x"]).to_string();
        let n = r.below(100) as i64 - 50;
        let res = rt.block_on(mock::gql(&app, json!({"query": "mutation($s: String!, $n: Int!) { f(s: $s, n: $n) }", "variables": {"s": s, "n": n}}), &[("tenant", "T")]));
        let want = json!({"path": format!("/{s}/v/{n}.json"), "q": [["k", format!("{s}-env")], ["c", "const"]], "h": "T/var", "b": {"a": s, "n": n.to_string(), "t": format!("<var|{n}>"), "lit": 5}});
        c.check(res.data()["f"] == want, "gateway:request-templates", || json!({"got": res.text(), "want": want}));
        c.case(&format!("req{s}{n}"), true);
    }
}

/// Sources are read through templates of the environment: known names are replaced, others kept.
fn config_time(c: &C) {
    use tailcall::core::config::reader::ConfigReader;
    let mut r = c.rng("cfg");
    let rt = rt_single();
    for k in 0..c.n(10, 100) {
        let up = Upstream::new(|_| URes::json(json!(null)));
        let host = format!("host{}", r.below(100));
        let rtm = mock::runtime_env(up, &[("HOST", &host), ("NUM", "9")]);
        let sdl = "schema @server(port: 8000) { query: Query }\ntype Query { f(a: Int!): Int @http(url: \"http://{{.env.HOST}}/x/{{.args.a}}/{{env.NUM}}/{{.env.UNKNOWN}}\") }";
        rt.block_on(async {
            rtm.file.write("/app.graphql", sdl.as_bytes()).await.unwrap();
            let mut cfg = tailcall::core::config::Config::default();
            let _ = &mut cfg;
            let reader = ConfigReader::init(rtm.clone());
            match reader.read("/app.graphql").await {
                Ok(m) => {
                    let text = m.to_sdl();
                    let want = format!("http://{host}/x/{{{{.args.a}}}}/9/{{{{.env.UNKNOWN}}}}");
                    c.check(text.contains(&want), "config-time:environment-in-sources", || json!({"want": want, "sdl": text}));
                }
                Err(e) => { c.violation("config-time:read", json!(format!("{e:#}"))); }
            }
        });
        c.case(&(k, host), true);
    }
    let _ = (BTreeMap::<u8, u8>::new(), BTreeSet::<u8>::new());
}
