//! Shared machinery: seeded randomness, the observation record of a run, verdicts, evidence.
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

// ---------------------------------------------------------------- randomness
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E3779B97F4A7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        (self.next() % den as u64) < num as u64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
    pub fn subset<T: Clone>(&mut self, xs: &[T], num: u32, den: u32) -> Vec<T> {
        xs.iter().filter(|_| self.chance(num, den)).cloned().collect()
    }
    pub fn string(&mut self, alphabet: &[&str], max: usize) -> String {
        let n = self.below(max + 1);
        (0..n).map(|_| *self.pick(alphabet)).collect()
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}

pub fn h64<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- run record
#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub what: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub root: PathBuf,
    pub rule: Mutex<String>,
    pub only: Option<String>,
    evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<BTreeMap<String, Vec<Value>>>,
    counters: Mutex<BTreeMap<String, u64>>,
    floors: Mutex<Vec<(String, u64)>>,
    assumptions: Mutex<Vec<String>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<(String, Value)>>,
    viol_sigs: Mutex<BTreeSet<String>>,
    inconclusive: Mutex<Vec<String>>,
    section: Mutex<(String, Instant)>,
    sections: Mutex<Vec<(String, f64)>>,
    case: Mutex<String>,
    done: AtomicBool,
}

pub type C = Arc<Ctx>;

impl Ctx {
    pub fn new(id: &str, root: PathBuf, only: Option<String>) -> C {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut known = vec![];
        if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
            for line in text.lines() {
                let line = line.trim();
                if line.is_empty() || line.starts_with("fixed:") || line.starts_with('#') {
                    continue;
                }
                if let Ok(v) = serde_json::from_str::<Value>(line) {
                    let g = |k: &str| v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
                    known.push(Known { property: g("property"), sig: g("sig"), what: g("what") });
                }
            }
        }
        Arc::new(Ctx {
            id: id.to_string(),
            thorough,
            seed,
            start: Instant::now(),
            root,
            rule: Mutex::new(String::new()),
            only,
            evals: AtomicU64::new(0),
            distinct: Default::default(),
            samples: Default::default(),
            counters: Default::default(),
            floors: Default::default(),
            assumptions: Default::default(),
            known: known.into_iter().filter(|k| k.property == id).collect(),
            known_hit: Default::default(),
            violations: Default::default(),
            viol_sigs: Default::default(),
            inconclusive: Default::default(),
            section: Mutex::new(("start".into(), Instant::now())),
            sections: Default::default(),
            case: Default::default(),
            done: AtomicBool::new(false),
        })
    }
    pub fn rng(&self, salt: &str) -> Rng {
        Rng::new(h64(&(self.seed, salt)))
    }
    /// quick / thorough amount of work
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough { thorough } else { quick }
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    /// Record one evaluated case; `key` identifies it for distinctness.
    pub fn case<K: Hash + ?Sized>(&self, key: &K, nontrivial: bool) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if nontrivial {
            let s = self.section.lock().unwrap().0.clone();
            self.distinct.lock().unwrap().insert(h64(&(s, h64(key))));
        }
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let s = self.section.lock().unwrap().0.clone();
        let mut m = self.samples.lock().unwrap();
        let e = m.entry(s).or_default();
        if e.len() < 2 {
            let mut v = v();
            let t = v.to_string();
            if t.len() > 900 {
                let cut: String = t.chars().take(900).collect();
                v = json!(format!("{cut}…"));
            }
            e.push(v);
        }
    }
    pub fn note_case(&self, s: impl Into<String>) {
        *self.case.lock().unwrap() = s.into();
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&self, name: &str, n: u64) {
        let mut c = self.counters.lock().unwrap();
        let e = c.entry(name.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    /// The run is inconclusive unless this counter reached `n`.
    pub fn floor(&self, name: &str, n: u64) {
        self.floors.lock().unwrap().push((name.to_string(), n));
    }
    pub fn inconclusive(&self, why: impl Into<String>) {
        self.inconclusive.lock().unwrap().push(why.into());
    }
    pub fn check(&self, ok: bool, sig: &str, detail: impl FnOnce() -> Value) -> bool {
        if !ok {
            self.violation(sig, detail());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&self, got: &T, want: &T, sig: &str, input: impl FnOnce() -> Value) -> bool {
        if got != want {
            self.violation(sig, json!({"got": format!("{got:?}"), "want": format!("{want:?}"), "input": input()}));
            return false;
        }
        true
    }
    pub fn violation(&self, sig: &str, detail: Value) {
        if let Some(k) = self.known.iter().find(|k| k.sig == sig) {
            *self.known_hit.lock().unwrap().entry(k.sig.clone()).or_insert(0) += 1;
            return;
        }
        let fresh = self.viol_sigs.lock().unwrap().insert(sig.to_string());
        let mut v = self.violations.lock().unwrap();
        if fresh || v.len() < 20 {
            v.push((sig.to_string(), json!({"section": self.section.lock().unwrap().0, "detail": detail})));
        }
    }
    pub fn is_known(&self, sig: &str) -> bool {
        self.known.iter().any(|k| k.sig == sig)
    }
    pub fn failed(&self) -> bool {
        !self.violations.lock().unwrap().is_empty()
    }
    fn enter(&self, name: &str) {
        *self.section.lock().unwrap() = (name.to_string(), Instant::now());
    }

    /// Run one section; panics inside it are violations (of "never crashes", or of an expectation
    /// stated in the section).
    pub fn section(self: &C, name: &str, f: impl FnOnce(&C)) {
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        self.enter(name);
        let t = Instant::now();
        PANICS.lock().unwrap().clear();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(self)));
        if r.is_err() {
            let p = PANICS.lock().unwrap().last().cloned().unwrap_or_default();
            self.violation(&format!("panic:{name}:{}", p.0), json!({"panic": p.1, "case": *self.case.lock().unwrap()}));
        }
        self.sections.lock().unwrap().push((name.to_string(), t.elapsed().as_secs_f64()));
    }

    pub fn watchdog(self: &C, limit: Duration) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if me.done.load(Ordering::SeqCst) {
                return;
            }
            let (s, t) = me.section.lock().unwrap().clone();
            if t.elapsed() > limit {
                me.violation(
                    &format!("no-progress:{s}"),
                    json!({"what": "the workload of this section did not finish", "seconds": t.elapsed().as_secs(), "case": *me.case.lock().unwrap()}),
                );
                let code = me.finish();
                std::process::exit(code);
            }
        });
    }

    pub fn finish(&self) -> i32 {
        if self.done.swap(true, Ordering::SeqCst) {
            loop { std::thread::sleep(Duration::from_secs(3600)); }
        }
        let counters = self.counters.lock().unwrap().clone();
        let viols = self.violations.lock().unwrap().clone();
        let mut inc = self.inconclusive.lock().unwrap().clone();
        if self.only.is_none() {
            for (n, f) in self.floors.lock().unwrap().iter() {
                let got = counters.get(n).copied().unwrap_or(0);
                if got < *f {
                    inc.push(format!("observed {n}={got}, need at least {f}"));
                }
            }
        }
        let samples: Vec<Value> = {
            let m = self.samples.lock().unwrap();
            m.iter().flat_map(|(k, v)| v.iter().map(move |x| json!({"section": k, "case": x}))).take(40).collect()
        };
        let secs: Vec<Value> = self.sections.lock().unwrap().iter().map(|(n, t)| json!({"name": n, "wall_s": (t * 1000.0).round() / 1000.0})).collect();
        let known: Vec<Value> = self.known_hit.lock().unwrap().iter().map(|(k, n)| json!({"finding": k, "times_observed": n})).collect();
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": self.evals.load(Ordering::Relaxed),
                "distinct_nontrivial": self.distinct.lock().unwrap().len(),
                "rule": *self.rule.lock().unwrap(),
                "samples": samples,
                "observed": counters,
                "sections": secs,
                "known_findings_observed": known,
                "inconclusive": inc,
            },
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": viols.len(),
        });
        let dir = self.root.join("evidence");
        std::fs::create_dir_all(&dir).ok();
        if self.only.is_none() {
            std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&ev).unwrap()).ok();
        }
        let hits = self.known_hit.lock().unwrap();
        for k in &self.known {
            if hits.contains_key(&k.sig) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.id, k.what, k.sig);
            }
        }
        println!(
            "{}: {} evaluations, {} distinct, {:.1}s",
            self.id,
            self.evals.load(Ordering::Relaxed),
            self.distinct.lock().unwrap().len(),
            self.start.elapsed().as_secs_f64()
        );
        if !viols.is_empty() {
            let rd = self.root.join("replays");
            std::fs::create_dir_all(&rd).ok();
            let mut seen = BTreeSet::new();
            for (i, (sig, d)) in viols.iter().enumerate() {
                if !seen.insert(sig.clone()) || seen.len() > 8 {
                    continue;
                }
                let path = rd.join(format!("{}-{}.json", self.id, i));
                let body = json!({"property": self.id, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"}, "signature": sig, "section": d["section"], "witness": d["detail"],
                    "replay": format!("VERIF_SEED={} ./run.sh {} --section {}", self.seed, self.id, d["section"].as_str().unwrap_or(""))});
                std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).ok();
                let t = d.to_string();
                let cut: String = t.chars().take(600).collect();
                println!("VIOLATION property={} replay={}  [{}] {}", self.id, path.display(), sig, cut);
            }
            return 1;
        }
        if !inc.is_empty() {
            for i in &inc {
                println!("INCONCLUSIVE property={} {}", self.id, i);
            }
            return 2;
        }
        0
    }
}

// ---------------------------------------------------------------- panics
pub static PANICS: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let file = loc.0.rsplit("/repo/").next().unwrap_or("").to_string();
        if std::env::var("VERIF_TRACE").is_ok() {
            eprintln!("panic at {}:{}: {}", loc.0, loc.1, msg);
        }
        let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if p.len() < 1000 {
            p.push((file, format!("{}:{}: {}", loc.0, loc.1, msg)));
        }
    }));
}

/// Run a closure; Err(description) when it panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f))
        .map_err(|_| PANICS.lock().unwrap_or_else(|e| e.into_inner()).last().map(|p| p.1.clone()).unwrap_or_default())
}

pub fn last_panic() -> String {
    PANICS.lock().unwrap_or_else(|e| e.into_inner()).last().map(|p| p.1.clone()).unwrap_or_default()
}

// ---------------------------------------------------------------- runtimes
pub fn rt_paused() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
}
pub fn rt_single() -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
}
pub fn rt_multi(n: usize) -> tokio::runtime::Runtime {
    tokio::runtime::Builder::new_multi_thread().worker_threads(n).enable_all().build().unwrap()
}

// ---------------------------------------------------------------- JSON generators
pub const KEYS: &[&str] = &["a", "b", "id", "name", "A", "a_b", "ключ", "k 1", "0", "", "items", "x.y", "é"];

pub fn gen_scalar(r: &mut Rng) -> Value {
    match r.below(14) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!(false),
        3 => json!(r.below(5)),
        4 => json!(-(r.below(5) as i64)),
        5 => json!(r.next()),
        6 => json!(r.next() as i64),
        7 => json!((r.next() as f64) / 1e17 - 50.0),
        8 => json!(*r.pick(&[0.5, 1e300, -1e-300, 1.0, -0.0, 9007199254740993.0])),
        9 => json!(*r.pick(&[u64::MAX, i64::MAX as u64, 9007199254740993, 1 << 53])),
        10 => json!(""),
        11 => json!(*r.pick(&["true", "null", "1", "\"", "\\", "\n\t", "日本", "😀", "{{x}}", "a b", "\u{0}"])),
        _ => json!(r.string(&["a", "b", "Z", "1", " ", "é", "\"", "\\", "/", "-"], 6)),
    }
}

pub fn gen_json(r: &mut Rng, depth: usize) -> Value {
    if depth == 0 || r.chance(2, 5) {
        return gen_scalar(r);
    }
    if r.bool() {
        let n = r.below(4);
        Value::Array((0..n).map(|_| gen_json(r, depth - 1)).collect())
    } else {
        let n = r.below(4);
        let mut m = serde_json::Map::new();
        for _ in 0..n {
            m.insert(r.pick(KEYS).to_string(), gen_json(r, depth - 1));
        }
        Value::Object(m)
    }
}

/// serde_json without `float_roundtrip` may move a float by one ulp per parse: keep few digits
pub fn short_floats(v: Value) -> Value {
    match v {
        Value::Number(n) if n.is_f64() => serde_json::json!((n.as_f64().unwrap() * 4.0).round() / 4.0),
        Value::Array(a) => a.into_iter().map(short_floats).collect(),
        Value::Object(m) => Value::Object(m.into_iter().map(|(k, v)| (k, short_floats(v))).collect()),
        v => v,
    }
}
