//! C09: all internal JSON representations agree.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

use async_graphql_value::{ConstValue, Value as AstValue};
use serde_json::{json, Value};
use tailcall::core::helpers::value::HashableConstValue;
use tailcall::core::http::Response;
use tailcall::core::json::{gather_path_matches, JsonLike, JsonLikeList, JsonObjectLike, JsonPrimitive};

use crate::common::*;

type Borrowed<'a> = serde_json_borrow::Value<'a>;

pub fn run(c: &C) {
    c.rule("one case = one JSON document held in four representations and probed through every accessor, or one pair of equal or different values hashed; non-trivial = the document has nesting; distinct by text");
    c.assume("documents have no duplicate keys within one object (parsers differ there, outside this repository); grouping is specified for keys that are strings or numbers");
    c.section("accessors", accessors);
    c.section("clones", clones);
    c.section("grouping", grouping);
    c.section("lists", lists);
    c.section("hashing", hashing);
    c.section("objects", objects);
    c.floor("documents", 300);
    c.floor("paths", 3000);
    c.floor("clones", 1000);
    c.floor("hash_pairs", 400);
}

fn edge_number(r: &mut Rng) -> Value {
    let t = *r.pick(&["0", "-0", "1", "-1", "9007199254740993", "18446744073709551615", "-9223372036854775808", "9223372036854775808", "1.5", "-0.25", "1e308", "5e-324", "1.0", "1e3", "123456789.987654321", "2147483648", "4294967296", "0.1", "1e-7", "12345678901234567890"]);
    serde_json::from_str(t).unwrap()
}

fn doc(r: &mut Rng, depth: usize) -> Value {
    const K: &[&str] = &["a", "b", "", "0", "1", "é", "a.b", "日本", "key with space", "__typename", "A", "\"q\"", "x\ny", "\u{1f600}", " a", "a ", "00", "A "];
    match r.below(if depth == 0 { 5 } else { 8 }) {
        0 => Value::Null,
        1 => json!(r.bool()),
        2 => edge_number(r),
        3 => json!(r.next() as i64 >> r.below(60)),
        4 => json!(*r.pick(&["", "a", "0", "true", "null", "é\u{301}", "日本", "line\nbreak", "\"", "\\", "\u{0}", "😀", " 1"])),
        5 | 6 => { let mut m = serde_json::Map::new(); for _ in 0..r.below(5) { m.insert(r.pick(K).to_string(), doc(r, depth - 1)); } Value::Object(m) }
        _ => Value::Array((0..r.below(4)).map(|_| doc(r, depth - 1)).collect()),
    }
}

fn ref_path<'a>(v: &'a Value, p: &[String]) -> Option<&'a Value> {
    let mut v = v;
    for t in p {
        v = match v {
            Value::Array(a) => { let i: usize = t.parse().ok()?; a.get(i)? }
            Value::Object(m) => m.iter().find(|(k, _)| *k == t)?.1,
            _ => return None,
        };
    }
    Some(v)
}

/// a neutral copy made through the accessors only
fn through<'a, J: JsonLike<'a>>(v: &'a J) -> Value
where J::JsonObject: JsonObjectLike<'a, Value = J> {
    if let Some(a) = v.as_array() { return Value::Array(a.iter().map(through).collect()); }
    if let Some(o) = v.as_object() {
        let mut m = serde_json::Map::new();
        for (k, x) in o.iter() { m.insert(k.to_string(), through(x)); }
        return Value::Object(m);
    }
    match v.as_primitive() {
        Some(JsonPrimitive::Null) => Value::Null,
        Some(JsonPrimitive::Bool(b)) => Value::Bool(b),
        Some(JsonPrimitive::Str(s)) => Value::String(s.to_string()),
        Some(JsonPrimitive::Number(n)) => Value::Number(n),
        None => json!("<no kind>"),
    }
}

fn same(a: &Value, b: &Value) -> bool {
    a == b && a.to_string() == b.to_string()
}

/// every accessor of one representation against the plain document
fn probe<'a, J: JsonLike<'a>>(c: &C, rep: &str, v: &'a J, d: &Value)
where J::JsonObject: JsonObjectLike<'a, Value = J> {
    let bad = |what: &str, got: Value| { c.violation(&format!("{rep}:{what}"), json!({"document": d, "got": got})); };
    if v.is_null() != d.is_null() { bad("is-null", json!(v.is_null())); }
    if v.as_bool() != d.as_bool() { bad("as-bool", json!(v.as_bool())); }
    if v.as_str() != d.as_str() { bad("as-str", json!(v.as_str())); }
    if v.as_i64() != d.as_i64() { bad("as-i64", json!(v.as_i64())); }
    if v.as_u64() != d.as_u64() { bad("as-u64", json!(v.as_u64())); }
    if v.as_f64().map(f64::to_bits) != d.as_f64().map(f64::to_bits) { bad("as-f64", json!(v.as_f64())); }
    if v.as_array().is_some() != d.is_array() { bad("as-array", json!(null)); }
    if v.as_object().is_some() != d.is_object() { bad("as-object", json!(null)); }
    if v.as_primitive().is_some() == (d.is_array() || d.is_object()) { bad("as-primitive", json!(null)); }
    if let (Some(a), Value::Array(b)) = (v.as_array(), d) {
        if a.len() != b.len() { bad("array-length", json!(a.len())); }
        for (x, y) in a.iter().zip(b) { probe(c, rep, x, y); }
        if v.get_key("0").is_some() { bad("get-key-on-array", json!(null)); }
    }
    if let (Some(o), Value::Object(m)) = (v.as_object(), d) {
        if o.len() != m.len() || o.is_empty() != m.is_empty() { bad("object-length", json!(o.len())); }
        let ks: Vec<&str> = o.iter().map(|(k, _)| k).collect();
        let want: Vec<&str> = m.keys().map(|k| k.as_str()).collect();
        if ks != want { bad("object-keys-or-order", json!(ks)); }
        for (k, x) in o.iter() {
            match v.get_key(k) { Some(g) => if !std::ptr::eq(g, x) { bad("get-key-value", json!(k)) }, None => bad("get-key-missing", json!(k)) }
            match o.get_key(k) { Some(g) => if !std::ptr::eq(g, x) { bad("object-get-key-value", json!(k)) }, None => bad("object-get-key-missing", json!(k)) }
        }
        for ((_, x), (_, y)) in o.iter().zip(m) { probe(c, rep, x, y); }
        for k in ["zz", "A", "a", "", "0", " a", "a ", "00", "key with space", "key  with space", "é", "e\u{301}", "A ", "1"] {
            if v.get_key(k).is_some() != m.contains_key(k) || o.get_key(k).is_some() != m.contains_key(k) { bad("get-key-presence", json!(k)); }
        }
    } else if v.get_key("a").is_some() { bad("get-key-on-non-object", json!(null)); }
}

fn gen_paths(r: &mut Rng, d: &Value, n: usize) -> Vec<Vec<String>> {
    (0..n).map(|_| {
        let mut p = vec![];
        let mut v = d;
        for _ in 0..r.below(5) {
            match v {
                Value::Array(a) if !a.is_empty() && r.chance(4, 5) => { let i = r.below(a.len()); p.push(i.to_string()); v = &a[i]; }
                Value::Object(m) if !m.is_empty() && r.chance(4, 5) => { let i = r.below(m.len()); let (k, x) = m.iter().nth(i).unwrap(); p.push(k.clone()); v = x; }
                _ => { p.push(r.pick(&["a", "0", "-1", "+0", "00", "9", "", "x", " 0", "1.0", "18446744073709551616"]).to_string()); if r.bool() { break; } }
            }
        }
        p
    }).collect()
}

fn accessors(c: &C) {
    let mut r = c.rng("acc");
    for _ in 0..c.n(1200, 30000) {
        let d = doc(&mut r, 4);
        let text = d.to_string();
        c.note_case(text.clone());
        let paths = gen_paths(&mut r, &d, 12);
        let cv = ConstValue::from_json(d.clone()).unwrap();
        let av: AstValue = cv.clone().into_value();
        let bv: Borrowed = if text.contains('\\') { <Borrowed as JsonLike>::clone_from(&d) } else { serde_json::from_str(&text).unwrap() };
        probe(c, "serde", &d, &d);
        probe(c, "const", &cv, &d);
        probe(c, "ast", &av, &d);
        probe(c, "borrowed", &bv, &d);
        for p in &paths {
            let want = ref_path(&d, p);
            let g = [("serde", d.get_path(p).map(through)), ("const", cv.get_path(p).map(through)), ("ast", av.get_path(p).map(through)), ("borrowed", bv.get_path(p).map(through))];
            for (rep, got) in g {
                let ok = match (&got, want) { (Some(a), Some(b)) => same(a, b), (None, None) => true, _ => false };
                c.check(ok, &format!("{rep}:get-path"), || json!({"document": d, "path": p, "got": got, "want": want}));
            }
            c.count("paths", 1);
        }
        // conversions
        c.check(same(&cv.clone().into_json().unwrap(), &d), "convert:const-to-json", || d.clone());
        c.check(same(&serde_json::to_value(&cv).unwrap(), &d), "convert:const-serialized", || d.clone());
        c.check(same(&serde_json::to_value(&bv).unwrap(), &d), "convert:borrowed-serialized", || d.clone());
        for (rep, got) in [("serde", through(&d)), ("const", through(&cv)), ("ast", through(&av)), ("borrowed", through(&bv))] {
            c.check(same(&got, &d), &format!("{rep}:traversal"), || json!({"document": d, "got": got}));
        }
        let resp = Response { status: reqwest::StatusCode::OK, headers: Default::default(), body: hyper::body::Bytes::from(text.clone()) };
        match resp.to_json::<ConstValue>() {
            Ok(b) => { c.check(same(&b.body.into_json().unwrap(), &d), "convert:response-body", || d.clone()); }
            _ => { c.violation("convert:response-body-refused", d.clone()); }
        }
        // consuming accessors
        c.check(cv.clone().into_array().map(ConstValue::List).map(|v| v.into_json().unwrap()) == d.as_array().map(|a| Value::Array(a.clone())), "const:into-array", || d.clone());
        c.check(JsonLike::into_array(d.clone()).map(Value::Array) == d.as_array().map(|a| Value::Array(a.clone())), "serde:into-array", || d.clone());
        c.check(JsonLike::into_array(bv.clone()).map(|a| serde_json::to_value(a).unwrap()) == d.as_array().map(|a| Value::Array(a.clone())), "borrowed:into-array", || d.clone());
        c.check(JsonLike::into_array(av.clone()).is_some() == d.is_array(), "ast:into-array", || d.clone());
        c.check(JsonLike::into_object(cv.clone()).map(|m| ConstValue::Object(m).into_json().unwrap()) == d.as_object().map(|a| Value::Object(a.clone())), "const:into-object", || d.clone());
        c.check(JsonLike::into_object(d.clone()).map(Value::Object) == d.as_object().map(|a| Value::Object(a.clone())), "serde:into-object", || d.clone());
        c.check(JsonLike::into_object(bv.clone()).is_some() == d.is_object(), "borrowed:into-object", || d.clone());
        c.check(JsonLike::into_object(av.clone()).is_some() == d.is_object(), "ast:into-object", || d.clone());
        let (mut a, mut b, mut e, mut f) = (d.clone(), cv.clone(), av.clone(), bv.clone());
        let push = (JsonLike::as_array_mut(&mut a).map(|x| x.push(Value::Null)).is_some(), JsonLike::as_array_mut(&mut b).map(|x| x.push(ConstValue::Null)).is_some(), JsonLike::as_array_mut(&mut e).map(|x| x.push(AstValue::Null)).is_some(), JsonLike::as_array_mut(&mut f).map(|x| x.push(Borrowed::Null)).is_some());
        let k = d.is_array();
        c.check(push == (k, k, k, k), "mutable-array", || d.clone());
        let put = (JsonLike::as_object_mut(&mut a).map(|x| x.insert_key("new", json!(1))).is_some(), JsonLike::as_object_mut(&mut b).map(|x| x.insert_key("new", ConstValue::from(1))).is_some(), JsonLike::as_object_mut(&mut e).map(|x| x.insert_key("new", ConstValue::from(1).into_value())).is_some(), JsonLike::as_object_mut(&mut f).map(|x| x.insert_key("new", Borrowed::from(1u64))).is_some());
        let k = d.is_object();
        c.check(put == (k, k, k, k), "mutable-object", || d.clone());
        let after = through(&a);
        c.check(same(&after, &through(&b)) && same(&after, &through(&e)) && same(&after, &through(&f)), "mutation-disagrees", || d.clone());
        c.count("documents", 1);
        c.case(&text, d.is_array() || d.is_object());
        c.sample(|| d.clone());
    }
}

fn clones(c: &C) {
    let mut r = c.rng("clones");
    for _ in 0..c.n(500, 15000) {
        let d = doc(&mut r, 4);
        let text = d.to_string();
        let cv = ConstValue::from_json(d.clone()).unwrap();
        let av: AstValue = cv.clone().into_value();
        let bv: Borrowed = if text.contains('\\') { <Borrowed as JsonLike>::clone_from(&d) } else { serde_json::from_str(&text).unwrap() };
        macro_rules! all { ($t:ty, $to:literal) => {
            for (from, v) in [("serde", <$t as JsonLike>::clone_from(&d)), ("const", <$t as JsonLike>::clone_from(&cv)), ("ast", <$t as JsonLike>::clone_from(&av)), ("borrowed", <$t as JsonLike>::clone_from(&bv))] {
                let got = through(&v);
                c.check(same(&got, &d), &format!("clone:{from}-to-{}", $to), || json!({"document": d, "got": got}));
                probe(c, concat!("cloned-", $to), &v, &d);
                c.count("clones", 1);
            }
        } }
        all!(Value, "serde");
        all!(ConstValue, "const");
        all!(AstValue, "ast");
        all!(Borrowed, "borrowed");
        c.case(&format!("clone{text}"), d.is_array() || d.is_object());
    }
    // enum values, which only GraphQL values have, are their names elsewhere
    for i in 0..c.n(100, 3000) {
        fn with_enums(r: &mut Rng, d: &Value) -> ConstValue {
            match d {
                Value::Array(a) => ConstValue::List(a.iter().map(|x| with_enums(r, x)).collect()),
                Value::Object(m) => ConstValue::Object(m.iter().map(|(k, v)| (async_graphql::Name::new(k), with_enums(r, v))).collect()),
                Value::String(s) if s.starts_with("E_") => ConstValue::Enum(async_graphql::Name::new(s)),
                v => ConstValue::from_json(v.clone()).unwrap(),
            }
        }
        let mut d = doc(&mut r, 3);
        fn put(r: &mut Rng, d: &mut Value) {
            match d {
                Value::Array(a) => { a.iter_mut().for_each(|x| put(r, x)); if r.bool() { a.push(json!("E_A")) } }
                Value::Object(m) => { m.values_mut().for_each(|x| put(r, x)); if r.bool() { m.insert("e".into(), json!("E_é_2")); } }
                v => if r.chance(1, 3) { *v = json!("E_B") },
            }
        }
        put(&mut r, &mut d);
        let cv = with_enums(&mut r, &d);
        let av: AstValue = cv.clone().into_value();
        c.case(&format!("enums{d}"), d.to_string().contains("E_"));
        c.count("enum-documents", 1);
        macro_rules! each { ($t:ty, $n:literal) => {
            for (from, got) in [("const", guard(|| through(&<$t as JsonLike>::clone_from(&cv)))), ("ast", guard(|| through(&<$t as JsonLike>::clone_from(&av))))] {
                c.check(got.as_ref().is_ok_and(|g| same(g, &d)), &format!("clone-enums:{from}-to-{}", $n), || json!({"document": d, "got": format!("{got:?}"), "i": i}));
            }
        } }
        each!(Value, "serde");
        each!(ConstValue, "const");
        each!(AstValue, "ast");
        each!(Borrowed, "borrowed");
    }
    // constructors
    macro_rules! cons { ($t:ty, $n:literal) => {{
        let v = <$t as JsonLike>::array(vec![<$t as JsonLike>::null(), <$t as JsonLike>::string("é".into()), <$t as JsonLike>::from_primitive(JsonPrimitive::Bool(true)), <$t as JsonLike>::from_primitive(JsonPrimitive::Number(serde_json::Number::from(u64::MAX))), <$t as JsonLike>::from_primitive(JsonPrimitive::Number(serde_json::Number::from(i64::MIN))), <$t as JsonLike>::from_primitive(JsonPrimitive::Number(serde_json::Number::from_f64(0.5).unwrap())), <$t as JsonLike>::from_primitive(JsonPrimitive::Str("s")), <$t as JsonLike>::from_primitive(JsonPrimitive::Null),
            <$t as JsonLike>::object(<$t as JsonLike>::JsonObject::from_vec(vec![("z", <$t as JsonLike>::null()), ("a", <$t as JsonLike>::string("x".into()))]))]);
        c.check(same(&through(&v), &json!([null, "é", true, u64::MAX, i64::MIN, 0.5, "s", null, {"z": null, "a": "x"}])), &format!("construct:{}", $n), || through(&v));
    }} }
    cons!(Value, "serde");
    cons!(ConstValue, "const");
    cons!(AstValue, "ast");
    cons!(Borrowed, "borrowed");
}

fn ref_gather(v: &Value, p: &[String], out: &mut Vec<(Value, Value)>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| ref_gather(x, p, out)),
        v => if let Some((k, rest)) = p.split_first() {
            if let Some(x) = v.as_object().and_then(|m| m.get(k)) {
                if rest.is_empty() { out.push((x.clone(), v.clone())); } else { ref_gather(x, rest, out); }
            }
        },
    }
}

fn key_text(v: &Value) -> Option<String> {
    match v {
        Value::String(s) => Some(s.clone()),
        Value::Number(n) => Some(n.as_i64().map(|x| x.to_string()).or(n.as_u64().map(|x| x.to_string())).unwrap_or_else(|| n.as_f64().unwrap().to_string())),
        _ => None,
    }
}

fn grouping(c: &C) {
    let mut r = c.rng("group");
    for _ in 0..c.n(1200, 30000) {
        // documents in which the path exists often, at irregular depths
        fn item(r: &mut Rng, path: &[&str], depth: usize) -> Value {
            if r.chance(1, 7) { return doc(r, 1); }
            if depth > 0 && r.chance(1, 4) { return Value::Array((0..r.below(4)).map(|_| item(r, path, depth - 1)).collect()); }
            let mut m = serde_json::Map::new();
            m.insert("seq".into(), json!(r.below(1000)));
            if let Some((k, rest)) = path.split_first() {
                if r.chance(6, 7) {
                    let v = if rest.is_empty() { match r.below(6) { 0 => json!(r.below(4).to_string()), 1 => json!(r.below(4)), 2 => edge_number(r), 3 => r.pick(&[json!(null), json!(true), json!([1]), json!({"x": 1}), json!([]), json!("")]).clone(), _ => json!(*r.pick(&["a", "b", "1", "2", "é"])) } } else { item(r, rest, depth) };
                    m.insert(k.to_string(), v);
                }
            }
            Value::Object(m)
        }
        let names = ["a", "b", "id", "data", "é"];
        let path: Vec<&str> = (0..r.range(1, 3)).map(|_| *r.pick(&names)).collect();
        let d = Value::Array((0..r.below(7)).map(|_| item(&mut r, &path, 2)).collect());
        let p: Vec<String> = path.iter().map(|s| s.to_string()).collect();
        let text = d.to_string();
        let cv = ConstValue::from_json(d.clone()).unwrap();
        let av: AstValue = cv.clone().into_value();
        let bv: Borrowed = if text.contains('\\') { <Borrowed as JsonLike>::clone_from(&d) } else { serde_json::from_str(&text).unwrap() };
        let mut want = vec![];
        ref_gather(&d, &p, &mut want);
        let mut groups: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for (k, v) in &want { if let Some(k) = key_text(k) { groups.entry(k).or_default().push(v.clone()); } }
        macro_rules! one { ($n:literal, $v:expr) => {{
            let got: Vec<(Value, Value)> = gather_path_matches($v, &p, vec![]).into_iter().map(|(k, v)| (through(k), through(v))).collect();
            c.check(got == want, concat!($n, ":gather"), || json!({"document": d, "path": p, "got": got, "want": want}));
            let g: HashMap<String, Vec<_>> = $v.group_by(&p);
            let got: BTreeMap<String, Vec<Value>> = g.into_iter().map(|(k, v)| (k, v.into_iter().map(through).collect())).collect();
            c.check(got == groups, concat!($n, ":group-by"), || json!({"document": d, "path": p, "got": got, "want": groups}));
        }} }
        one!("serde", &d);
        one!("const", &cv);
        one!("ast", &av);
        one!("borrowed", &bv);
        c.count("groups", groups.len() as u64);
        c.case(&format!("{p:?}{text}"), groups.len() > 1);
    }
}

fn lists(c: &C) {
    let mut r = c.rng("lists");
    for _ in 0..c.n(200, 4000) {
        fn nest(r: &mut Rng, depth: usize) -> Value {
            if depth > 0 && r.chance(2, 3) { Value::Array((0..r.below(4)).map(|_| nest(r, depth - 1)).collect()) } else { loop { let v = doc(r, 1); if !v.is_array() { return v; } } }
        }
        let d = nest(&mut r, 3);
        fn leaves(v: &Value, out: &mut Vec<Value>) { match v { Value::Array(a) => a.iter().for_each(|x| leaves(x, out)), v => out.push(v.clone()) } }
        let mut ls = vec![];
        leaves(&d, &mut ls);
        let fail_at = r.chance(1, 3).then(|| r.below(ls.len() + 1));
        let mut i = 0;
        fn num(v: &Value, i: &mut usize) -> Value { match v { Value::Array(a) => Value::Array(a.iter().map(|x| num(x, i)).collect()), _ => { *i += 1; json!([*i - 1]) } } }
        let mapped = num(&d, &mut i);
        let text = d.to_string();
        let cv = ConstValue::from_json(d.clone()).unwrap();
        let bv: Borrowed = if text.contains('\\') { <Borrowed as JsonLike>::clone_from(&d) } else { serde_json::from_str(&text).unwrap() };
        macro_rules! one { ($n:literal, $v:expr, $mk:expr) => {{
            for by_ref in [true, false] {
                let mut seen = vec![];
                let mut k = 0usize;
                let res = if by_ref {
                    JsonLikeList::map_ref(&$v, &mut |x| { seen.push(through(&x.clone())); k += 1; if Some(k - 1) == fail_at { Err(k - 1) } else { Ok($mk(k - 1)) } })
                } else {
                    JsonLikeList::map($v.clone(), &mut |x| { seen.push(through(&x.clone())); k += 1; if Some(k - 1) == fail_at { Err(k - 1) } else { Ok($mk(k - 1)) } })
                };
                let n = fail_at.map(|f| (f + 1).min(ls.len())).unwrap_or(ls.len());
                c.check(seen == ls[..n], concat!($n, ":elements-visited"), || json!({"document": d, "seen": seen, "by_ref": by_ref}));
                match (res, fail_at.filter(|f| *f < ls.len())) {
                    (Err(e), Some(f)) => { c.check(e == f, concat!($n, ":map-error"), || json!({"document": d})); }
                    (Ok(v), None) => { c.check(through(&v) == mapped, concat!($n, ":mapped"), || json!({"document": d, "got": through(&v), "want": mapped})); }
                    (a, b) => { c.violation(concat!($n, ":map-outcome"), json!({"document": d, "got": a.is_ok(), "fail_at": b})); }
                }
            }
            let mut seen = vec![];
            JsonLikeList::for_each(&$v, &mut |x| seen.push(through(x)));
            c.check(seen == ls, concat!($n, ":for-each"), || json!({"document": d, "seen": seen}));
        }} }
        one!("serde", d, |k: usize| json!([k]));
        one!("const", cv, |k: usize| ConstValue::List(vec![ConstValue::from(k)]));
        one!("borrowed", bv, |k: usize| Borrowed::Array(vec![Borrowed::from(k as u64)]));
        c.case(&format!("list{text}"), d.is_array());
    }
}

fn permute(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| permute(r, x)).collect()),
        Value::Object(m) => { let mut e: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.clone(), permute(r, v))).collect(); r.shuffle(&mut e); Value::Object(e.into_iter().collect()) }
        v => v.clone(),
    }
}

fn hashing(c: &C) {
    let mut r = c.rng("hash");
    let h = |v: &HashableConstValue| { let mut s = DefaultHasher::new(); v.hash(&mut s); s.finish() };
    let th = |v: &ConstValue| { let mut s = tailcall_hasher::TailcallHasher::default(); tailcall::core::helpers::value::hash(v, &mut s); s.finish() };
    let mut seen: HashMap<u64, Value> = HashMap::new();
    let mut collisions = 0u64;
    for _ in 0..c.n(1500, 30000) {
        let d = doc(&mut r, 3);
        let e = permute(&mut r, &d);
        let (a, b) = (HashableConstValue(ConstValue::from_json(d.clone()).unwrap()), HashableConstValue(ConstValue::from_json(e.clone()).unwrap()));
        let eq = a == b;
        c.check(eq == (d == e), "hash:equality", || json!([d, e]));
        if eq { c.check(h(&a) == h(&b) && th(&a.0) == th(&b.0), "hash:equal-values-hash-differently", || json!([d, e])); }
        c.check(h(&a) == h(&HashableConstValue(a.0.clone())), "hash:unstable", || d.clone());
        let o = doc(&mut r, 3);
        let ov = HashableConstValue(ConstValue::from_json(o.clone()).unwrap());
        c.check((a == ov) == (d == o), "hash:equality-of-different-values", || json!([d, o]));
        // different scalars may hash alike (0 and -0.0, null and nothing): counted only
        if !d.is_array() && !d.is_object() && !d.is_null() {
            if let Some(p) = seen.insert(h(&a), d.clone()) { if p != d { collisions += 1; } }
        }
        c.count("hash_pairs", 2);
        c.case(&format!("hash{d}"), d.is_object());
    }
    c.count("scalar_hash_collisions", collisions);
    for (a, b) in [(ConstValue::Enum(async_graphql::Name::new("A")), ConstValue::Enum(async_graphql::Name::new("B"))), (ConstValue::Binary(vec![1, 2].into()), ConstValue::Binary(vec![1, 3].into()))] {
        c.check(th(&a) != th(&b) && th(&a) == th(&a.clone()), "hash:enum-or-bytes", || json!(null));
    }
}

/// Objects built key by key behave like maps in every representation.
fn objects(c: &C) {
    let mut r = c.rng("objects");
    for _ in 0..c.n(150, 3000) {
        let ops: Vec<(&str, u64)> = (0..r.below(8)).map(|i| (*r.pick(&["a", "b", "c", "", "é"]), i as u64)).collect();
        let mut want: Vec<(String, u64)> = vec![];
        for (k, v) in &ops { match want.iter_mut().find(|x| x.0 == *k) { Some(x) => x.1 = *v, None => want.push((k.to_string(), *v)) } }
        macro_rules! one { ($n:literal, $t:ty, $mk:expr) => {{
            let mut o = if ops.len() % 2 == 0 { <$t as JsonObjectLike>::new() } else { <$t as JsonObjectLike>::with_capacity(ops.len()) };
            c.check(JsonObjectLike::is_empty(&o) && JsonObjectLike::len(&o) == 0, concat!($n, ":new-object"), || json!(null));
            for (k, v) in &ops { o.insert_key(k, $mk(*v)); }
            let got: Vec<(String, Option<u64>)> = JsonObjectLike::iter(&o).map(|(k, v)| (k.to_string(), JsonLike::as_u64(v))).collect();
            let w: Vec<(String, Option<u64>)> = want.iter().map(|(k, v)| (k.clone(), Some(*v))).collect();
            c.check(got == w && JsonObjectLike::len(&o) == want.len(), concat!($n, ":object-built"), || json!({"ops": ops, "got": got}));
            for k in ["a", "b", "c", "", "é", "zz"] {
                let g = JsonObjectLike::get_key(&o, k).and_then(|v| JsonLike::as_u64(v));
                c.check(g == want.iter().find(|x| x.0 == k).map(|x| x.1), concat!($n, ":object-lookup"), || json!({"ops": ops, "key": k, "got": g}));
            }
        }} }
        one!("serde", serde_json::Map<String, Value>, |v: u64| json!(v));
        one!("const", indexmap::IndexMap<async_graphql::Name, ConstValue>, |v: u64| ConstValue::from(v));
        one!("borrowed", serde_json_borrow::ObjectAsVec, |v: u64| Borrowed::from(v));
        c.case(&format!("ops{ops:?}"), ops.len() > 2);
    }
}
