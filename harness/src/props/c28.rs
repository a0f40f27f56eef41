//! C28: files and environment are read and written faithfully.
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::Arc;

use serde_json::{json, Value};
use tailcall::core::blueprint::Blueprint;
use tailcall::core::config::reader::ConfigReader;
use tailcall::core::runtime::TargetRuntime;

use crate::common::*;
use crate::mock::{self, Upstream};

pub fn run(c: &C) {
    c.rule("one case = one write, read, environment lookup or configuration read, judged by what the file system holds the moment it returns; non-trivial = the file exists already, others are being written, the content is larger than one buffer or a fault is injected; distinct by path, content and history");
    c.assume("a file isn't written by two writers at once, nor read while it is written: replacing it is not atomic");
    c.assume("variables whose name or value isn't unicode can't be represented and are absent");
    c.section("histories", histories);
    c.section("concurrent", concurrent);
    c.section("faults", faults);
    c.section("exits", exits);
    c.section("environment", environment);
    c.section("configurations", configurations);
    for (k, n) in [("writes", 150), ("reads", 80), ("large-writes", 5), ("concurrent-writes", 100), ("failed-writes", 10), ("failed-reads", 10), ("limited-writes", 5), ("lookups", 100), ("files-linked", 20)] { c.floor(k, n) }
}

/// a directory of one's own, gone when dropped
struct Dir(PathBuf);
impl Dir {
    fn new(name: &str) -> Dir {
        let p = std::env::temp_dir().join(format!("tailcall-c28-{}-{name}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Dir(p)
    }
    fn at(&self, n: &str) -> String { self.0.join(n).to_str().unwrap().into() }
    fn snapshot(&self) -> BTreeMap<String, u64> {
        fn walk(p: &Path, out: &mut BTreeMap<String, u64>) {
            for e in std::fs::read_dir(p).unwrap().flatten() {
                let p = e.path();
                if std::fs::symlink_metadata(&p).unwrap().is_symlink() { out.insert(p.to_str().unwrap().into(), 1); continue }
                if p.is_dir() { out.insert(p.to_str().unwrap().into(), 0); walk(&p, out) } else { out.insert(p.to_str().unwrap().into(), h64(&std::fs::read(&p).unwrap_or_default())); }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.0, &mut m);
        m
    }
}
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn native() -> TargetRuntime { tailcall::cli::runtime::init(&Blueprint::default()) }

fn content(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(size + 8);
    while v.len() < size { v.extend_from_slice(&r.next().to_le_bytes()) }
    v.truncate(size);
    v
}

fn text(r: &mut Rng, size: usize) -> Vec<u8> {
    let mut s = String::new();
    while s.len() < size { s += *r.pick(&["a", "line\n", "\r\n", "é", "日本", "\u{feff}", "\0", "\u{1f600}", " ", "\t", "}"]) }
    s.into_bytes()
}

fn size(r: &mut Rng) -> usize {
    match r.below(12) { 0 => 0, 1..=4 => r.below(64), 5..=8 => r.below(9000), 9 => 65536 + r.below(3), 10 => 1 << 20, _ => (2 << 20) + r.below(3 << 20) }
}

fn err(e: &anyhow::Error) -> String { format!("{e} {e:?}") }

const NAMES: &[&str] = &["a", "b.txt", "sub/c.graphql", "sub/deep/d", "spaced name", "é.yml", "q?x=1", ".hidden", "a.bak"];

fn histories(c: &C) {
    let mut r = c.rng("histories");
    let mut total = 0;
    for round in 0..c.n(24, 300) {
        let rt = if round % 2 == 0 { rt_single() } else { rt_multi(3) };
        let d = Dir::new("histories");
        std::fs::create_dir_all(d.at("sub/deep")).unwrap();
        let native = native();
        let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        rt.block_on(async {
            for step in 0..r.range(12, 30) {
                let p = d.at(*r.pick(NAMES));
                let known = model.get(&p).cloned();
                if r.chance(3, 5) {
                    let n = size(&mut r);
                    let bytes = if r.bool() { content(&mut r, n) } else { text(&mut r, n) };
                    let res = native.file.write(&p, &bytes).await;
                    let disk = std::fs::read(&p).ok();
                    c.count("writes", 1);
                    if n >= 1 << 20 { c.count("large-writes", 1) }
                    let det = || json!({"path": p, "size": bytes.len(), "before": known.as_ref().map(|k| k.len()), "on disk": disk.as_ref().map(|d| d.len()), "result": res.as_ref().map_err(err).err(), "step": step});
                    c.check(res.is_ok(), "write:refused", det);
                    c.check(disk.as_ref() == Some(&bytes), "write:not-on-disk", det);
                    model.insert(p.clone(), bytes.clone());
                    c.case(&("w", &bytes, &known), known.is_some() || n > 4096);
                } else {
                    let res = native.file.read(&p).await;
                    c.count("reads", 1);
                    let want = known.clone().and_then(|k| String::from_utf8(k).ok());
                    let det = || json!({"path": p, "holds": known.as_ref().map(|k| k.len()), "read": res.as_ref().map(|x| x.len()).map_err(err)});
                    match (&res, &want) {
                        (Ok(x), Some(w)) => { c.check(x == w, "read:other-content", det); }
                        (Ok(_), None) => { c.violation("read:answered-without-text", det()) }
                        (Err(e), None) => { c.count("failed-reads", 1); c.check(err(e).contains(&p), "read:error-without-name", det); }
                        (Err(_), Some(_)) => { c.violation("read:refused", det()) }
                    }
                    c.case(&("r", &p, &known), known.is_some());
                }
                total += 1;
            }
        });
        for n in NAMES {
            let p = d.at(n);
            c.check(std::fs::read(&p).ok() == model.get(&p).cloned(), "write:other-file-changed", || json!({"path": p}));
        }
    }
    c.sample(|| json!({"steps": total}));
}

fn concurrent(c: &C) {
    let mut r = c.rng("concurrent");
    for round in 0..c.n(12, 150) {
        let rt = if round % 3 == 0 { rt_single() } else { rt_multi(4) };
        let d = Arc::new(Dir::new("concurrent"));
        let native = native();
        let jobs: Vec<(String, Vec<Vec<u8>>)> = (0..r.range(4, 16)).map(|i| (d.at(&format!("f{i}")), (0..r.range(1, 4)).map(|_| { let n = size(&mut r) / 2; content(&mut r, n) }).collect())).collect();
        rt.block_on(async {
            let tasks: Vec<_> = jobs.clone().into_iter().map(|(p, contents)| {
                let (native, c) = (native.clone(), c.clone());
                tokio::spawn(async move {
                    for bytes in contents {
                        let res = native.file.write(&p, &bytes).await;
                        let disk = std::fs::read(&p).ok();
                        c.count("concurrent-writes", 1);
                        c.check(res.is_ok() && disk.as_ref() == Some(&bytes), "write:not-on-disk:concurrent", || json!({"path": p, "size": bytes.len(), "on disk": disk.as_ref().map(|d| d.len()), "ok": res.is_ok()}));
                        c.case(&("c", &p, &bytes), true);
                    }
                })
            }).collect();
            for t in tasks { c.check(t.await.is_ok(), "write:panic", || json!(last_panic())); }
        });
        for (p, contents) in &jobs { c.check(std::fs::read(p).ok().as_ref() == contents.last(), "write:last-lost", || json!(p)); }
    }
}

fn faults(c: &C) {
    let mut r = c.rng("faults");
    let rt = rt_multi(2);
    let d = Dir::new("faults");
    std::fs::create_dir_all(d.at("dir")).unwrap();
    std::fs::write(d.at("keep"), "kept").unwrap();
    std::fs::write(d.at("latin1"), [b'a', 0xe9, b'b']).unwrap();
    std::fs::write(d.at("cut"), &"é".as_bytes()[..1]).unwrap();
    std::os::unix::fs::symlink("/dev/full", d.at("full")).unwrap();
    std::os::unix::fs::symlink(d.at("loop"), d.at("loop")).unwrap();
    std::os::unix::fs::symlink(d.at("gone/x"), d.at("dangling")).unwrap();
    let native = native();
    let bad_writes = ["full", "loop", "dangling", "dir", "missing/x", "keep/x", ""].iter().map(|n| d.at(n)).chain([d.at(&"n".repeat(300)), format!("{}\0", d.at("nul")), String::new(), "/proc/self/nothing".into()]).collect::<Vec<_>>();
    let bad_reads = ["loop", "dangling", "dir", "missing/x", "missing", "keep/x", "latin1", "cut"].iter().map(|n| d.at(n)).chain([d.at(&"n".repeat(300)), format!("{}\0", d.at("nul")), String::new(), "/proc/self/mem".into()]).collect::<Vec<_>>();
    for _ in 0..c.n(3, 30) {
        for p in &bad_writes {
            let before = d.snapshot();
            let n = *r.pick(&[1, 100, 5000, 3 << 20]);
            let bytes = content(&mut r, n);
            let (n2, p2, b2) = (native.clone(), p.clone(), bytes.clone());
            let res = rt.block_on(async move { tokio::spawn(async move { n2.file.write(&p2, &b2).await }).await });
            c.count("failed-writes", 1);
            let shown = match &res { Err(e) => format!("panic {e}"), Ok(Ok(())) => "ok".into(), Ok(Err(e)) => err(e) };
            let det = || json!({"path": p, "size": n, "result": shown});
            c.check(matches!(&res, Ok(Err(_))), "fault:write-reported-done", det);
            if let Ok(Err(e)) = &res { c.check(err(e).contains(p.trim_end_matches('\0')), "fault:error-without-name", det); }
            c.check(d.snapshot() == before, "fault:other-file-changed", det);
            c.case(&("bad write", p, n), true);
            c.sample(det);
        }
        for p in &bad_reads {
            let (n2, p2) = (native.clone(), p.clone());
            let res = rt.block_on(async move { tokio::spawn(async move { n2.file.read(&p2).await }).await });
            c.count("failed-reads", 1);
            let shown = match &res { Err(e) => format!("panic {e}"), Ok(Ok(x)) => format!("{} bytes", x.len()), Ok(Err(e)) => err(e) };
            let det = || json!({"path": p, "result": shown});
            c.check(matches!(&res, Ok(Err(_))), "fault:read-answered", det);
            if let Ok(Err(e)) = &res { c.check(err(e).contains(p.trim_end_matches('\0')), "fault:error-without-name", det); }
            c.case(&("bad read", p), true);
        }
    }
    // what is written beyond the limit of the process is a failure, wherever in the content it falls
    for i in 0..c.n(6, 40) {
        let d = Dir::new("limit");
        std::fs::write(d.at("keep"), "kept").unwrap();
        let limit = *r.pick(&[1usize, 4, 64, 2048, 3000]) * 1024;
        let n = match i % 3 { 0 => limit, 1 => limit + 1 + r.below(limit), _ => r.below(limit) };
        let out = Command::new("bash").arg("-c").arg(format!("trap '' XFSZ; ulimit -f {}; exec \"$0\" --c28 write \"$1\" {n} 0", limit / 1024)).arg(std::env::current_exe().unwrap()).arg(d.at("big")).output();
        let Ok(out) = out else { c.inconclusive("no child process"); continue };
        let said = String::from_utf8_lossy(&out.stdout).to_string();
        let disk = std::fs::read(d.at("big")).map(|b| b.len()).unwrap_or(0);
        c.count("limited-writes", 1);
        let det = || json!({"limit": limit, "size": n, "said": said, "on disk": disk, "stderr": String::from_utf8_lossy(&out.stderr)});
        if n > limit { c.check(said.starts_with("failed"), "fault:write-reported-done:limit", det); c.check(said.contains(&d.at("big")), "fault:error-without-name", det); }
        else { c.check(said.starts_with("ok") && disk == n, "write:not-on-disk:limit", det); }
        c.check(std::fs::read(d.at("keep")).ok() == Some(b"kept".to_vec()), "fault:other-file-changed", det);
        c.case(&("limit", limit, n), true);
    }
}

/// a process that ends as soon as a write has reported success
fn exits(c: &C) {
    let mut r = c.rng("exits");
    let d = Dir::new("exits");
    for i in 0..c.n(10, 80) {
        let n = size(&mut r);
        let p = d.at(&format!("f{}", i % 3));
        let Ok(out) = Command::new(std::env::current_exe().unwrap()).args(["--c28", "write", &p, &n.to_string(), "1"]).output() else { c.inconclusive("no child process"); continue };
        let said = String::from_utf8_lossy(&out.stdout).to_string();
        let disk = std::fs::read(&p).unwrap_or_default();
        let det = || json!({"size": n, "said": said, "on disk": disk.len()});
        c.check(said.starts_with("ok") && disk == child_content(n), "write:not-on-disk:exit", det);
        c.count("writes", 1);
        c.case(&("exit", n), n > 0);
    }
}

fn child_content(n: usize) -> Vec<u8> { content(&mut Rng::new(n as u64), n) }

/// the part of the check that runs in processes of its own
pub fn child(args: &[String]) -> i32 {
    match args[0].as_str() {
        "write" => {
            let n: usize = args[2].parse().unwrap();
            let rt = if args[3] == "1" { rt_multi(2) } else { rt_single() };
            let native = native();
            let res = rt.block_on(async { native.file.write(&args[1], &child_content(n)).await });
            match res { Ok(()) => println!("ok"), Err(e) => println!("failed {}", err(&e)) }
            std::process::exit(0)
        }
        _ => {
            let native = native();
            let out: BTreeMap<String, Option<String>> = args[1..].iter().map(|k| (k.clone(), native.env.get(k).map(|v| v.into_owned()))).collect();
            println!("{}", json!(out));
            0
        }
    }
}

fn environment(c: &C) {
    let mut r = c.rng("environment");
    let names: Vec<OsString> = ["A", "a", "HOME_", "PATH", "API_KEY", "with space", "dotted.name", "é", "EMPTY", "1NUM", "-x"].iter().map(OsString::from).chain([OsString::from_vec(b"BAD\xff".to_vec())]).collect();
    let values: Vec<OsString> = ["", "v", "a=b", "=", " spaces ", "é日", "line\nbreak", "{{.env.A}}", "0", "\t"].iter().map(OsString::from).chain([OsString::from_vec(b"bad\xff".to_vec())]).collect();
    for _ in 0..c.n(14, 120) {
        let vars: BTreeMap<OsString, OsString> = r.subset(&names, 1, 2).into_iter().map(|k| (k, r.pick(&values).clone())).collect();
        let ask: Vec<&str> = names.iter().filter_map(|n| n.to_str()).chain(["absent", ""]).collect();
        let Ok(out) = Command::new(std::env::current_exe().unwrap()).arg("--c28").arg("env").args(&ask).env_clear().envs(&vars).output() else { c.inconclusive("no child process"); continue };
        let got: Value = serde_json::from_slice(&out.stdout).unwrap_or(Value::Null);
        for k in ask {
            let want = vars.get(&OsString::from(k)).and_then(|v| v.to_str()).map(|v| json!(v)).unwrap_or(Value::Null);
            c.count("lookups", 1);
            c.check(got.get(k) == Some(&want), "env:lookup", || json!({"name": k, "got": got.get(k), "want": want, "vars": format!("{vars:?}"), "stderr": String::from_utf8_lossy(&out.stderr).chars().take(400).collect::<String>()}));
        }
        c.case(&vars.iter().map(|(k, v)| (k.as_bytes().to_vec(), v.as_bytes().to_vec())).collect::<Vec<_>>(), !vars.is_empty());
    }
}

/// a configuration and what it links are read from the files they name
fn configurations(c: &C) {
    let mut r = c.rng("configurations");
    let rt = rt_multi(2);
    for _ in 0..c.n(20, 300) {
        let d = Dir::new("config");
        std::fs::create_dir_all(d.at("sub")).unwrap();
        let mut all = native();
        all.http = mock::runtime(Upstream::new(|_| mock::URes::json(json!(null)))).http;
        let n = r.range(1, 4);
        let files: Vec<String> = (0..n).map(|i| format!("{}t{i}.graphql", if r.bool() { "sub/" } else { "" })).collect();
        let script = format!("// {}\nfunction f() {{ return 'é' }}\n", r.next());
        let htpasswd = format!("user:{{PLAIN}}pw{}\n", r.next());
        std::fs::write(d.at("s.js"), &script).unwrap();
        std::fs::write(d.at("h"), &htpasswd).unwrap();
        for (i, f) in files.iter().enumerate() { std::fs::write(d.at(f), format!("type T{i} {{ a{i}: Int }}\n")).unwrap() }
        let fault = r.below(6);
        let victim = r.below(n);
        match fault { 0 => std::fs::remove_file(d.at(&files[victim])).unwrap(), 1 => std::fs::write(d.at(&files[victim]), [b't', 0xff, b'{']).unwrap(), _ => {} }
        let links = files.iter().map(|f| if r.chance(1, 4) { d.at(f) } else { f.clone() }).map(|f| format!("@link(src: {f:?}, type: Config)")).chain(["@link(src: \"s.js\", type: Script)".into(), "@link(id: \"h\", src: \"h\", type: Htpasswd)".into()]).collect::<Vec<_>>();
        let main = format!("schema @server(port: 8000) {} {{ query: Query }}\ntype Query {{ {} }}\n", links.join(" "), (0..n).map(|i| format!("f{i}: T{i} @http(url: \"http://up.test/\")")).collect::<Vec<_>>().join(" "));
        std::fs::write(d.at("main.graphql"), &main).unwrap();
        let before = d.snapshot();
        let (all2, p) = (all.clone(), d.at("main.graphql"));
        let res = rt.block_on(async move { ConfigReader::init(all2).read(p).await });
        let det = || json!({"main": main, "fault": fault, "victim": files[victim], "result": res.as_ref().map(|_| "ok").map_err(err)});
        c.count("files-linked", n as u64 + 2);
        if fault < 2 {
            c.check(res.is_err(), "config:unreadable-link-accepted", det);
            if let Err(e) = &res { c.check(err(e).contains(&d.at(&files[victim])), "config:error-without-name", det); }
        } else if c.check(res.is_ok(), "config:refused", det) {
            let m = res.as_ref().unwrap();
            for i in 0..n { c.check(m.config().types.get(&format!("T{i}")).map(|t| t.fields.contains_key(&format!("a{i}"))) == Some(true), "config:type-missing", det); }
            c.check(m.extensions().script.as_ref() == Some(&script), "config:script-differs", det);
            c.check(m.extensions().htpasswd.iter().map(|x| (x.id.clone(), x.content.clone())).collect::<Vec<_>>() == [(Some("h".to_string()), htpasswd.clone())], "config:htpasswd-differs", det);
        }
        c.check(d.snapshot() == before, "config:files-changed", det);
        c.case(&(&main, fault), true);
    }
}
