//! C11: custom scalars accept exactly their documented values.
use async_graphql_value::{ConstValue, Value as AstValue};
use serde_json::{json, Value};
use tailcall::core::json::JsonLike;
use tailcall::core::scalar::Scalar;

use crate::common::*;
use crate::mock::{self, URes, Upstream};

pub const NAMES: &[&str] = &["Empty", "Email", "PhoneNumber", "Date", "DateTime", "Url", "JSON", "Int8", "Int16", "Int32", "Int64", "Int128", "UInt8", "UInt16", "UInt32", "UInt64", "UInt128", "Bytes"];

pub fn run(c: &C) {
    c.rule("one case = one value judged by one scalar; non-trivial = a string or number; distinct by scalar and value");
    c.assume("email, phone number, URL and date texts are drawn from forms that the cited specifications clearly allow or clearly forbid; `Empty` and `JSON` accept anything; an integer written as a float (1.0) is left open");
    c.section("names", names);
    c.section("verdicts", verdicts);
    c.section("bounds", bounds);
    c.section("responses", responses);
    c.section("arguments", arguments);
    c.section("argument-only", argument_only);
    c.floor("accepted", 500);
    c.floor("rejected", 500);
    c.floor("responses", 300);
    c.floor("arguments", 100);
}

fn names(c: &C) {
    for n in NAMES {
        let s = Scalar::find(n);
        c.check(s.is_some_and(|s| s.name() == *n), "scalar-missing", || json!(n));
        c.check(Scalar::is_predefined(n), "not-predefined", || json!(n));
        for v in [n.to_lowercase(), format!("{n} "), format!("{n}1"), n[1..].to_string()] {
            if NAMES.contains(&v.as_str()) || v == "ID" { continue; }
            c.check(Scalar::find(&v).is_none() && !Scalar::is_predefined(&v), "unknown-name-found", || json!(v));
        }
        c.case(n, true);
    }
    for n in ["Boolean", "Float", "ID", "Int", "String"] { c.check(Scalar::is_predefined(n) && Scalar::find(n).is_none(), "builtin-name", || json!(n)); }
}

fn word(r: &mut Rng, max: usize) -> String {
    (0..r.range(1, max)).map(|_| *r.pick(&['a', 'b', 'x', 'z', 'Q', '0', '7'])).collect()
}

fn bits(n: &str) -> Option<(bool, u32)> {
    let (u, d) = if let Some(d) = n.strip_prefix("UInt") { (true, d) } else { (false, n.strip_prefix("Int")?) };
    Some((u, d.parse().ok()?))
}

fn email(r: &mut Rng) -> (String, bool) {
    let good = format!("{}{}@{}.{}", word(r, 8), r.pick(&["", ".b", "+tag", "_x", "-y", "%z"]), word(r, 6), r.pick(&["com", "co.uk", "example.org", "x-y.io"]));
    if r.bool() { return (good, true); }
    let (l, d) = good.split_once('@').unwrap();
    let bad = match r.below(8) {
        0 => l.to_string(),
        1 => format!("@{d}"),
        2 => format!("{l}@"),
        3 => format!("{l} x@{d}"),
        4 => format!("{l}@{d} "),
        5 => format!("{l}@@{d}"),
        6 => String::new(),
        _ => format!("{l}@-{d}"),
    };
    (bad, false)
}

fn phone(r: &mut Rng) -> (String, bool) {
    let digits: String = (0..7).map(|_| (b'0' + r.below(10) as u8) as char).collect();
    let good = match r.below(4) { 0 => format!("+1202{digits}"), 1 => format!("+4420{digits}9"), 2 => format!("+9198765{}", &digits[..5]), _ => format!("+4930{digits}") };
    if r.bool() { return (good, true); }
    (match r.below(6) { 0 => good[1..].to_string(), 1 => String::new(), 2 => "+".into(), 3 => "phone".into(), 4 => format!("+999{digits}1"), _ => "+1".into() }, false)
}

fn days(y: i64, m: i64) -> i64 {
    match m { 2 => if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 }
}

fn date(r: &mut Rng) -> (String, bool) {
    let y = *r.pick(&[1i64, 1900, 1970, 1999, 2000, 2023, 2024, 2100, 9999]);
    let mut m = 1 + r.below(12) as i64;
    let mut d = if r.chance(1, 3) { days(y, m) } else { 1 + r.below(28) as i64 };
    let (mut h, mut mi, mut s) = (r.below(24), r.below(60), r.below(60));
    let frac = *r.pick(&["", ".5", ".123", ".123456789"]);
    let off = *r.pick(&["Z", "+00:00", "-08:00", "+05:30", "+14:00", "-12:00"]);
    let ok = r.bool();
    let text = |y: i64, m: i64, d: i64, h: usize, mi: usize, s: usize| format!("{y:04}-{m:02}-{d:02}T{h:02}:{mi:02}:{s:02}{frac}{off}");
    if ok { return (text(y, m, d, h, mi, s), true); }
    let t = match r.below(10) {
        0 => { m = *r.pick(&[0, 13]); text(y, m, d, h, mi, s) }
        1 => { d = days(y, m) + 1; text(y, m, d, h, mi, s) }
        2 => { d = 0; text(y, m, d, h, mi, s) }
        3 => { h = *r.pick(&[24, 25, 99]); text(y, m, d, h, mi, s) }
        4 => { mi = 60; text(y, m, d, h, mi, s) }
        5 => { s = 61; text(y, m, d, h, mi, s) }
        6 => text(y, m, d, h, mi, s).replace(off, ""),
        7 => text(y, m, d, h, mi, s).replace('-', "/"),
        8 => String::new(),
        _ => format!("{}x", text(y, m, d, h, mi, s)),
    };
    (t, false)
}

fn url(r: &mut Rng) -> (String, bool) {
    let good = format!("{}://{}{}{}{}", r.pick(&["http", "https", "ftp"]), r.pick(&["example.com", "127.0.0.1", "[::1]", "user:pw@h.io", "xn--bcher-kva.ch"]), r.pick(&["", ":80", ":65535"]), r.pick(&["", "/", "/a/b%20c", "/\u{e9}"]), r.pick(&["", "?q=1&r=", "#frag", "?a#b"]));
    if r.bool() { return (good, true); }
    (match r.below(7) { 0 => String::new(), 1 => "example.com".into(), 2 => "/a/b".into(), 3 => "http://".into(), 4 => "http://a:65536/".into(), 5 => "http://a b/".into(), _ => "://x".into() }, false)
}

/// floats that every decimal round trip keeps
fn eighths(v: Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => json!((n.as_f64().unwrap().clamp(-1e6, 1e6) * 8.0).round() / 8.0),
        Value::Array(a) => Value::Array(a.into_iter().map(eighths).collect()),
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, v)| (k, eighths(v))).collect()),
        v => v,
    }
}

/// a value for the scalar and whether it belongs to its domain
pub fn sample(r: &mut Rng, n: &str) -> (Value, bool) {
    if n == "Empty" || n == "JSON" { return (eighths(gen_json(r, 2)), true); }
    // the wrong kind altogether
    if r.chance(1, 5) {
        let text = n == "Bytes" || matches!(n, "Email" | "PhoneNumber" | "Date" | "DateTime" | "Url") || bits(n).is_some_and(|b| b.1 >= 64);
        let v = match r.below(8) { 0 => Value::Null, 1 => json!(true), 2 => json!([]), 3 => json!({}), 4 => json!(1.5), 5 => json!({"a": "b"}), 6 => json!([1]), _ => if text { json!(12) } else { json!("12") } };
        return (v, false);
    }
    if let Some((u, w)) = bits(n) {
        if w < 64 {
            let (lo, hi): (i64, i64) = if u { (0, (1 << w) - 1) } else { (-(1 << (w - 1)), (1 << (w - 1)) - 1) };
            let v: i128 = match r.below(8) { 0 => lo as i128, 1 => hi as i128, 2 => lo as i128 - 1, 3 => hi as i128 + 1, 4 => lo as i128 - r.next() as i128 % (1 << 40), 5 => hi as i128 + r.next() as i128 % (1 << 40), 6 => *r.pick(&[i64::MIN as i128, i64::MAX as i128, u64::MAX as i128, 0, -1, 1, 1 << 32, 1 << 31, 256, 65536]), _ => lo as i128 + (r.next() as i128).rem_euclid(hi as i128 - lo as i128 + 1) };
            let v = v.clamp(i64::MIN as i128, u64::MAX as i128);
            let ok = v >= lo as i128 && v <= hi as i128;
            return (if v >= 0 { json!(v as u64) } else { json!(v as i64) }, ok);
        }
        let (lo, hi) = match (u, w) { (false, 64) => (i64::MIN.to_string(), i64::MAX.to_string()), (true, 64) => ("0".to_string(), u64::MAX.to_string()), (false, _) => (i128::MIN.to_string(), i128::MAX.to_string()), _ => ("0".to_string(), u128::MAX.to_string()) };
        fn bump(s: &str) -> String {
            // one further from zero, in decimal text
            let (sign, d) = match s.strip_prefix('-') { Some(d) => ("-", d), None => ("", s) };
            let mut d: Vec<u8> = d.bytes().collect();
            let mut i = d.len();
            loop { if i == 0 { d.insert(0, b'1'); break; } i -= 1; if d[i] == b'9' { d[i] = b'0'; } else { d[i] += 1; break; } }
            format!("{sign}{}", String::from_utf8(d).unwrap())
        }
        let (t, ok) = match r.below(12) {
            0 => (lo.clone(), true),
            1 => (hi.clone(), true),
            2 => (if u { "-1".into() } else { bump(&lo) }, false),
            3 => (bump(&hi), false),
            4 => (format!("{hi}0"), false),
            5 => (r.pick(&["", " 1", "1 ", "1.0", "1e3", "0x10", "1_000", "abc", "--1", "-", "１"]).to_string(), false),
            6 => (if u { "1".into() } else { "-1".into() }, true),
            7 => { let k = r.range(1, hi.len() - 1); (hi[..k].to_string(), true) }
            _ => ((r.next() >> r.range(1, 63)).to_string(), true),
        };
        return (json!(t), ok);
    }
    let (t, ok) = match n {
        "Bytes" => (r.string(&["a", "\u{0}", "é", " ", "\n", "\"", "😀"], 6), true),
        "Email" => email(r),
        "PhoneNumber" => phone(r),
        "Date" | "DateTime" => date(r),
        _ => url(r),
    };
    (json!(t), ok)
}

fn judge(c: &C, n: &str, v: &Value, ok: bool) {
    let s = Scalar::find(n).unwrap();
    let text = v.to_string();
    let cv = ConstValue::from_json(v.clone()).unwrap();
    let av: AstValue = cv.clone().into_value();
    let bv = <serde_json_borrow::Value as JsonLike>::clone_from(v);
    for (rep, got) in [("serde", s.validate(v)), ("const", s.validate(&cv)), ("ast", s.validate(&av)), ("borrowed", s.validate(&bv))] {
        c.check(got == ok, &format!("verdict:{n}:{}", if ok { "refused" } else { "let-through" }), || json!({"scalar": n, "value": v, "representation": rep, "belongs": ok}));
    }
    if !text.contains('\\') {
        let p: serde_json_borrow::Value = serde_json::from_str(&text).unwrap();
        c.check(s.validate(&p) == ok, &format!("verdict:{n}:parsed"), || json!({"scalar": n, "value": v}));
    }
    c.count(if ok { "accepted" } else { "rejected" }, 1);
    c.case(&format!("{n}{v}"), v.is_string() || v.is_number());
}

fn verdicts(c: &C) {
    let mut r = c.rng("verdicts");
    for _ in 0..c.n(250, 6000) {
        for n in NAMES { let (v, ok) = sample(&mut r, n); judge(c, n, &v, ok); c.sample(|| json!([n, v, ok])); }
    }
}

/// every integer width against every power-of-two boundary
fn bounds(c: &C) {
    for n in NAMES {
        let Some((u, w)) = bits(n) else { continue };
        for k in 0..64u32 {
            for d in [-1i128, 0, 1] {
                for sign in [1i128, -1] {
                    let v = sign * (1i128 << k) + d;
                    if v < i64::MIN as i128 || v > u64::MAX as i128 { continue; }
                    let num = if v >= 0 { json!(v as u64) } else { json!(v as i64) };
                    let inside = |v: i128| if u { v >= 0 && (w == 128 || v < 1i128 << w) } else { w == 128 || (v >= -(1i128 << (w - 1)) && v < 1i128 << (w - 1)) };
                    judge(c, n, &num, w < 64 && inside(v));
                    judge(c, n, &json!(v.to_string()), w >= 64 && inside(v));
                }
            }
        }
    }
}

fn responses(c: &C) {
    let rt = rt_single();
    let mut r = c.rng("responses");
    let holder: std::sync::Arc<std::sync::Mutex<Value>> = Default::default();
    let h2 = holder.clone();
    let rtm = mock::runtime(Upstream::new(move |_| URes::json(h2.lock().unwrap().clone())));
    let mut sdl = "schema @server @upstream { query: Query }\n".to_string();
    let mut q = String::new();
    for n in NAMES {
        sdl += &format!("type T{n} {{ one: {n} must: {n}! many: [{n}] strict: [{n}!]! deep: [[{n}]] ok: Boolean }}\n");
        q += &format!("t{n}: T{n} @http(url: \"http://up/\") ");
    }
    let app = mock::app(&format!("{sdl}type Query {{ {q} }}"), rtm).unwrap();
    for _ in 0..c.n(25, 400) {
        for n in NAMES {
            // a value the scalar takes is there; at most one slot holds one it refuses
            let good = |r: &mut Rng| loop { let (v, ok) = sample(r, n); if ok && !v.is_null() && !(v.is_array() || v.is_object()) { return v; } };
            let mut v = json!({"one": good(&mut r), "must": good(&mut r), "many": [good(&mut r), null, good(&mut r)], "strict": [good(&mut r)], "deep": [[good(&mut r)], null, [null, good(&mut r)]], "ok": true});
            let slots = ["/one", "/must", "/many/0", "/many/2", "/strict/0", "/deep/0/0", "/deep/2/1"];
            let bad = (!matches!(*n, "Empty" | "JSON") && r.bool()).then(|| *r.pick(&slots));
            if let Some(b) = bad {
                let x = loop { let (x, ok) = sample(&mut r, n); if !ok && !x.is_null() { break x; } };
                *v.pointer_mut(b).unwrap() = x;
            }
            *holder.lock().unwrap() = v.clone();
            let res = rt.block_on(mock::query(&app, &format!("{{ t{n} {{ one must many strict deep ok }} }}")));
            let show = || json!({"scalar": n, "upstream": v, "refused_at": bad, "response": res.text()});
            match bad {
                None => { c.check(res.errors().is_empty() && res.data()[format!("t{n}")] == v, "response:accepted-value-changed-or-refused", show); }
                Some(b) => {
                    let first = b.split('/').nth(1).unwrap();
                    let errs = res.errors();
                    // an array or object where a scalar is expected may also read as null
                    let leaked = !res.data().is_null() && res.data().pointer(&format!("/t{n}{b}")).is_some_and(|x| !x.is_null());
                    c.check(!leaked, "response:refused-value-reached-client", show);
                    c.check(errs.iter().any(|e| e["path"].as_array().is_some_and(|p| p.len() >= 2 && p[1] == json!(first))), "response:refused-value-not-reported-at-its-field", show);
                }
            }
            c.count("responses", 1);
            c.case(&format!("resp{n}{v}"), true);
        }
    }
}

fn lit(v: &Value) -> String {
    match v { Value::String(s) => serde_json::to_string(s).unwrap(), v => v.to_string() }
}

fn arguments(c: &C) {
    let rt = rt_single();
    let mut r = c.rng("arguments");
    let up = Upstream::new(|_| URes::json(json!("ok")));
    let mut inputs = String::new();
    let mut q = String::new();
    for n in NAMES {
        inputs += &format!("input I{n} {{ v: {n} l: [{n}] }}\n");
        q += &format!("h{n}(x: {n}!): String @http(url: \"http://up/\", method: POST, body: \"{{{{.args}}}}\") e{n}(x: {n}, i: I{n}): JSON @expr(body: \"{{{{.args}}}}\") ");
    }
    let app = mock::app(&format!("schema @server @upstream {{ query: Query }}\n{inputs}type Query {{ {q} }}"), mock::runtime(up.clone())).unwrap();
    for _ in 0..c.n(10, 150) {
        for n in NAMES {
            let v = loop { let (v, ok) = sample(&mut r, n); if ok && (v.is_string() || v.is_i64()) { break v; } };
            let inline = r.bool() && !v.to_string().contains("\\u");
            let (doc, vars) = if inline { (format!("{{ e{n}(x: {0}, i: {{v: {0}, l: [{0}]}}) }}", lit(&v)), json!({})) } else { (format!("query($a: {n}, $i: I{n}) {{ e{n}(x: $a, i: $i) }}"), json!({"a": v, "i": {"v": v, "l": [v]}})) };
            let res = rt.block_on(mock::gql(&app, json!({"query": doc, "variables": vars}), &[]));
            let want = json!({"x": v, "i": {"v": v, "l": [v]}});
            c.check(res.data()[format!("e{n}")] == want, "argument:changed", || json!({"scalar": n, "value": v, "query": doc, "response": res.text()}));
            up.take();
            let (doc, vars) = if inline { (format!("{{ h{n}(x: {}) }}", lit(&v)), json!({})) } else { (format!("query($a: {n}!) {{ h{n}(x: $a) }}"), json!({"a": v})) };
            let res = rt.block_on(mock::gql(&app, json!({"query": doc, "variables": vars}), &[]));
            let reqs = up.take();
            let sent = reqs.first().map(|q| q.body_json()["x"].clone());
            c.check(reqs.len() == 1 && sent.as_ref().is_some_and(|s| *s == v), "argument:changed-on-the-wire", || json!({"scalar": n, "value": v, "query": doc, "sent": sent, "response": res.text()}));
            c.count("arguments", 1);
            c.case(&format!("arg{n}{v}{inline}"), true);
        }
    }
}

/// A scalar used in one position only still makes a working server.
fn argument_only(c: &C) {
    let rt = rt_single();
    for n in NAMES {
        for (pos, sdl, q) in [
            ("argument", format!("type Query {{ a(x: {n}): String @expr(body: \"k\") }}"), "{ a }"),
            ("argument-list", format!("type Query {{ a(x: [{n}!]): String @expr(body: \"k\") }}"), "{ a }"),
            ("input", format!("input I {{ x: {n} }} type Query {{ a(i: I): String @expr(body: \"k\") }}"), "{ a }"),
            ("interface-argument", format!("interface N {{ a(x: {n}): String }} type O implements N {{ a(x: {n}): String }} type Query {{ a: String @expr(body: \"k\") o: O @expr(body: {{a: \"k\"}}) }}"), "{ a }"),
            ("result", format!("type Query {{ a: String @expr(body: \"k\") b: {n} @http(url: \"http://up\") }}"), "{ a }"),
        ] {
            let app = mock::app(&format!("schema @server @upstream {{ query: Query }} {sdl}"), mock::runtime(Upstream::new(|_| URes::json(json!(1)))));
            match app {
                Ok(app) => { let res = rt.block_on(mock::query(&app, q)); c.check(res.data()["a"] == json!("k"), &format!("position:{pos}"), || json!({"scalar": n, "response": res.text()})); }
                Err(e) => { c.violation(&format!("position:{pos}:refused"), json!({"scalar": n, "error": e})); }
            }
            c.case(&format!("{pos}{n}"), true);
        }
    }
}
