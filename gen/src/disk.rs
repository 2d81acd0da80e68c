//! Simulated runs of the crate-generating command (C15) and of the generator (C14).
//!
//! The real command, unmodified, runs as a process whose file system calls, clock,
//! process number and random numbers are in the hands of the preloaded seam (../seam).
//! A seeded scenario says what the output directory holds, which calls fail, are short
//! or interrupted, where the process crashes and what the crash loses.
//!
//!   disk check PROP --seed N --runs N --wall S --workers N --tier T --root DIR
//!   disk scan PROP ... | disk show PROP INDEX | disk replay FILE | disk selftest PROP --runs N
#[path = "../../sim/core/src/rng.rs"]
mod rng;

use rng::{Fnv, Rng};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

// ------------------------------------------------------------- scenarios

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
struct Scn {
    prop: String,
    seed: u64,
    index: u64,
    docs: Vec<Value>,
    /// C15
    prior: Vec<Prior>,
    steps: Vec<Step>,
    /// C14
    what: String,
    settings: Value,
    variants: Vec<Variant>,
}

/// Something that is there before the first step.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
struct Prior {
    path: String,
    /// file, dir, link
    kind: String,
    /// Begins with that many bytes of the file an undisturbed run would write.
    keep: Option<u64>,
    /// Then so much else.
    extra: u64,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
struct Args {
    interface: Option<String>,
    tags: Option<String>,
    include: Option<bool>,
    name: String,
    version: String,
    license: Option<String>,
    registry: Option<String>,
    /// Spelling of the output directory (always the same directory).
    output: String,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
struct Step {
    doc: usize,
    args: Args,
    seed: u64,
    short: u64,
    eintr: u64,
    /// class, which one, from then on, errno
    fails: Vec<(String, u64, bool, i32)>,
    crash: Option<(u64, String)>,
    cap: Option<u64>,
    /// After a crash: what the disk loses of the files that were open and not synced.
    lose: Option<u64>,
    env: Vec<(String, String)>,
}

impl Step {
    fn gentle(&self) -> bool {
        self.fails.is_empty() && self.crash.is_none() && self.cap.is_none()
    }
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
struct Variant {
    seed: u64,
    /// Permutes the order-free settings.
    order: u64,
    thread: bool,
    earlier: Vec<usize>,
    env: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
struct Viol {
    rule: String,
    msg: String,
}

#[derive(Default)]
struct Report {
    hash: Fnv,
    viols: Vec<Viol>,
    faults: BTreeMap<String, u64>,
    seen: BTreeMap<String, u64>,
    processes: u64,
    calls: u64,
    harness: Option<String>,
    lines: Vec<String>,
}

impl Report {
    fn viol(&mut self, rule: &str, msg: String) {
        if self.viols.iter().all(|v| v.rule != rule) {
            self.viols.push(Viol { rule: rule.into(), msg });
        }
    }
}

fn base() -> &'static Value {
    static DOC: std::sync::OnceLock<Value> = std::sync::OnceLock::new();
    DOC.get_or_init(|| serde_json::from_str(include_str!("../../spec/sim_positional.json")).unwrap())
}

fn refs(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                match (k.as_str(), x.as_str()) {
                    ("$ref", Some(r)) => drop(out.insert(r.rsplit('/').next().unwrap().to_string())),
                    _ => refs(x, out),
                }
            }
        }
        Value::Array(a) => a.iter().for_each(|x| refs(x, out)),
        _ => {}
    }
}

/// A description with some of the operations and types of spec/, and a few more.
fn document(r: &mut Rng) -> Value {
    let mut d = base().clone();
    let keep = *r.pick(&[2u64, 5, 15, 15, 30, 60, 100]);
    let paths: Vec<String> = d["paths"].as_object().unwrap().keys().cloned().collect();
    for p in &paths {
        if !r.pct(keep) {
            d["paths"].as_object_mut().unwrap().remove(p);
        }
    }
    if r.pct(30) {
        d["components"]["schemas"]["Serial"] = json!({"type": "string", "pattern": "^[A-Z]{2}-[0-9]+$"});
    }
    if r.pct(20) {
        d["components"]["schemas"]["Stamped"] = json!({"type": "object", "required": ["at"], "properties": {
            "at": {"type": "string", "format": "date-time"}, "who": {"type": "string", "format": "uuid"}}});
    }
    if r.pct(15) {
        d["components"]["schemas"]["Free"] = json!({"type": "object", "properties": {"x": {}, "m": {"type": "object", "additionalProperties": {"type": "integer"}}}});
    }
    // Only the types in use, or all of them.
    if r.pct(60) {
        let mut need = BTreeSet::new();
        refs(&d["paths"], &mut need);
        loop {
            let n = need.len();
            for k in need.clone() {
                refs(&d["components"]["schemas"][&k], &mut need);
            }
            if need.len() == n {
                break;
            }
        }
        for k in ["Serial", "Stamped", "Free"] {
            need.insert(k.into());
        }
        d["components"]["schemas"].as_object_mut().unwrap().retain(|k, _| need.contains(k));
    }
    if r.pct(30) {
        d["info"]["title"] = json!(*r.pick(&["A service", "x", "Ünïcode \"quoted\" title", "two\nlines"]));
    }
    if r.pct(20) {
        d["info"].as_object_mut().unwrap().remove("description");
    }
    if r.pct(10) {
        // Not a description that can be generated from.
        match r.below(7) {
            3 => d["paths"]["/broken/{name"] = json!({"get": {"operationId": "broken", "responses": {"200": {"description": "x"}}}}),
            4 => d["paths"]["/unnamed"] = json!({"get": {"responses": {"200": {"description": "x"}}}}),
            5 => d["paths"]["/pair"] = json!({"post": {"operationId": "pair", "requestBody": {"content": {
                "application/json": {"schema": {"type": "string"}}, "text/plain": {"schema": {"type": "string"}}}},
                "responses": {"200": {"description": "x"}}}}),
            6 => d["paths"]["/cookie"] = json!({"get": {"operationId": "cookie", "parameters": [
                {"in": "query", "name": "a", "required": true, "content": {"application/json": {"schema": {"type": "string"}}}}],
                "responses": {"200": {"description": "x"}}}}),
            0 => d["openapi"] = json!("2.0"),
            1 => d["components"]["schemas"]["Bad"] = json!({"$ref": "#/components/schemas/Missing"}),
            _ => drop(d.as_object_mut().unwrap().remove("info")),
        }
    }
    d
}

fn env(r: &mut Rng) -> Vec<(String, String)> {
    let all = [
        ("RUST_LOG", "debug"),
        ("RUST_BACKTRACE", "1"),
        ("LANG", "de_DE.UTF-8"),
        ("TZ", "Asia/Kathmandu"),
        ("HOME", "/nonexistent"),
        ("TERM", "dumb"),
        ("COLUMNS", "20"),
        ("CARGO_PKG_VERSION", "9.9.9"),
        ("CARGO_PKG_NAME", "other"),
        ("CARGO_MANIFEST_DIR", "/nonexistent"),
        ("OUT_DIR", "/nonexistent"),
        ("USER", "someone"),
        ("SOURCE_DATE_EPOCH", "1"),
        ("TMPDIR", "/nonexistent"),
    ];
    all.iter().filter(|_| r.pct(15)).map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn args(r: &mut Rng) -> Args {
    let builder = r.pct(50);
    let label = r.pick(&[
        ["sdk", "0.1.0", "", ""],
        ["my-client", "1.2.3-rc.1+build.5", "MPL-2.0", ""],
        ["a_b", "10.20.30", "MIT OR Apache-2.0", "internal"],
        ["x", "0.0.1", "", "my-registry"],
    ]);
    Args {
        interface: if builder { Some("builder".into()) } else { r.pct(50).then(|| "positional".into()) },
        tags: if builder && r.pct(40) {
            Some("separate".into())
        } else if r.pct(3) {
            // Not supported with positional arguments: the command has to fail.
            Some("separate".into())
        } else {
            r.pct(40).then(|| "merged".into())
        },
        include: *r.pick(&[None, Some(true), Some(true), Some(false)]),
        name: label[0].to_string(),
        version: label[1].to_string(),
        license: (!label[2].is_empty()).then(|| label[2].to_string()),
        registry: (!label[3].is_empty()).then(|| label[3].to_string()),
        output: r.pick(&["out/sdk", "./out/sdk", "out/sdk/", "out//sdk", "other/../out/sdk", "ABS"]).to_string(),
    }
}

fn scenario15(r: &mut Rng, docs: &[Value]) -> Scn {
    let mut s = Scn::default();
    let first = args(r);
    s.docs = vec![r.pick(docs).clone()];
    let change = r.pct(45);
    if change {
        s.docs.push(r.pick(docs).clone());
    }
    let files = ["Cargo.toml", "src/lib.rs", "src/progenitor_client.rs"];
    if r.pct(60) {
        for f in files {
            if r.pct(45) {
                s.prior.push(Prior {
                    path: f.into(),
                    kind: if r.pct(12) { "link".into() } else { "file".into() },
                    keep: match r.below(5) {
                        0 => Some(0),
                        1 => Some(r.below(3000)),
                        2 | 3 => Some(u64::MAX),
                        _ => None,
                    },
                    extra: *r.pick(&[0, 0, 1, 40, 5000, 200_000]),
                });
            }
        }
        if r.pct(20) {
            s.prior.push(Prior { path: r.pick(&["src/extra.rs", "README", "target/x", "Cargo.lock"]).to_string(), kind: "file".into(), keep: None, extra: 10 });
        }
        if r.pct(6) {
            // In the way: the command cannot succeed.
            let (path, kind) = *r.pick(&[("Cargo.toml", "dir"), ("src/lib.rs", "dir"), ("src", "file"), ("", "file"), ("src/progenitor_client.rs", "dir")]);
            s.prior.retain(|p| !p.path.starts_with(path) && !path.starts_with(&p.path));
            s.prior.push(Prior { path: path.into(), kind: kind.into(), keep: None, extra: 10 });
        }
    }
    let n = *r.pick(&[0usize, 1, 1, 1, 2, 3]);
    for i in 0..=n {
        let last = i == n;
        let mut st = Step { seed: r.next() >> 16, args: first.clone(), env: env(r), ..Default::default() };
        if change && !last {
            st.doc = 1;
            if r.pct(70) {
                st.args = args(r);
            }
        }
        st.args.output = args(r).output;
        if r.pct(35) {
            st.short = *r.pick(&[10, 50, 90, 100]);
        }
        if r.pct(20) {
            st.eintr = *r.pick(&[5, 40]);
        }
        if !last {
            match r.below(8) {
                0 | 1 | 2 => {
                    let class = r.pick(&["mkdir", "mkdir", "openw", "openw", "openw", "write", "write", "write", "openr", "read", "close", "sync", "rename", "trunc", "stat", "stdout"]).to_string();
                    let nth = if class == "stdout" || class == "read" { r.below(60) } else { *r.pick(&[0, 0, 1, 1, 2, 2, 3, 5]) };
                    let errno = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES, libc::EROFS, libc::EDQUOT, libc::EMFILE, libc::ENOMEM, libc::EPERM, libc::ENOENT, libc::EPIPE]);
                    st.fails.push((class, nth, r.pct(30), errno));
                }
                3 | 4 | 5 => {
                    st.crash = Some((r.below(22), r.pick(&["before", "after", "torn"]).to_string()));
                    if r.pct(75) {
                        st.lose = Some(r.next() >> 16);
                    }
                }
                6 => st.cap = Some(*r.pick(&[0, 1, 100, 500, 600, 3000, 20_000, 40_000]) + r.below(400)),
                _ => {}
            }
        }
        s.steps.push(st);
    }
    s
}

fn scenario14(r: &mut Rng, docs: &[Value]) -> Scn {
    let mut s = Scn { docs: vec![r.pick(docs).clone(), r.pick(docs).clone(), r.pick(docs).clone()], ..Default::default() };
    s.what = r.pick(&["tokens", "tokens", "cli", "httpmock", "crate"]).to_string();
    let builder = r.pct(60);
    let types = ["Thing", "Inner", "Kind", "Name", "ThingError", "ThingPage", "Patch", "Form", "Any"];
    let mut patch = vec![];
    let mut replace = vec![];
    for t in types {
        if r.pct(25) {
            patch.push(json!({"type": t, "rename": if r.pct(50) { json!(format!("{t}Renamed")) } else { Value::Null },
                "derives": if r.pct(50) { json!(["Extra"]) } else { json!([]) }}));
        } else if r.pct(20) {
            replace.push(json!({"type": t, "with": format!("outside::{t}")}));
        }
    }
    let crates: Vec<Value> = ["one", "two-crate", "three"].iter().filter(|_| r.pct(40)).map(|c| json!({"name": c, "version": "1.0.0"})).collect();
    s.settings = json!({
        "interface": if builder { "builder" } else { "positional" },
        "tags": if builder && r.pct(50) { "separate" } else { "merged" },
        "derives": if r.pct(30) { json!(["PartialEq", "Extra"]) } else { json!([]) },
        "patch": patch, "replace": replace, "crates": crates,
        "hooks": r.pct(20),
    });
    if r.pct(20) {
        s.settings["map_type"] = json!("::std::collections::BTreeMap");
    }
    for i in 0..r.range(3, 5) {
        s.variants.push(Variant {
            seed: r.next() >> 16,
            order: if i == 0 { 0 } else { r.next() >> 16 },
            thread: r.pct(40),
            earlier: (0..r.below(3)).map(|_| r.below(3) as usize).collect(),
            env: env(r),
        });
    }
    s
}

fn scenario(prop: &str, seed: u64, index: u64) -> Scn {
    let mut dr = Rng::new(seed.wrapping_mul(31) ^ 0xd0c5);
    // A pool of descriptions, so that their undisturbed results can be kept.
    let pool = 60;
    let mut docs = vec![];
    let mut r = Rng::new(seed ^ index.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ (prop.as_bytes()[2] as u64) << 40);
    let picks: BTreeSet<u64> = (0..3).map(|_| r.below(pool)).collect();
    for i in 0..pool {
        let mut one = dr.fork(i);
        if picks.contains(&i) {
            docs.push(document(&mut one));
        }
    }
    let mut s = if prop == "C14" { scenario14(&mut r, &docs) } else { scenario15(&mut r, &docs) };
    s.prop = prop.into();
    s.seed = seed;
    s.index = index;
    s
}

// ------------------------------------------------------------- execution

struct Lab {
    bin: PathBuf,
    dir: PathBuf,
    /// Keep and use undisturbed results.
    shared: bool,
}

type Files = BTreeMap<String, Vec<u8>>;

/// Undisturbed results by document and arguments, found complete.
fn refs_kept() -> std::sync::MutexGuard<'static, BTreeMap<String, Option<Files>>> {
    static M: std::sync::Mutex<BTreeMap<String, Option<Files>>> = std::sync::Mutex::new(BTreeMap::new());
    M.lock().unwrap()
}

struct Ended {
    code: i32,
    stdout: Vec<u8>,
    stderr: Vec<u8>,
    log: Vec<Call>,
    crashed: bool,
}

#[derive(Clone, Debug)]
struct Call {
    class: String,
    path: String,
    want: i64,
    got: i64,
    note: String,
}

const FILES: [&str; 3] = ["Cargo.toml", "src/lib.rs", "src/progenitor_client.rs"];

impl Lab {
    fn new(shared: bool) -> Lab {
        let bin = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        let tmp = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let dir = tmp.join(format!("progenitor-disk-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).unwrap();
        Lab { bin, dir, shared }
    }

    fn root(&self) -> PathBuf {
        self.dir.join("disk")
    }

    /// An empty disk with the descriptions on it.
    fn wipe(&self, docs: &[Value]) {
        let _ = std::fs::remove_dir_all(self.root());
        std::fs::create_dir_all(self.root().join("other")).unwrap();
        for (i, d) in docs.iter().enumerate() {
            std::fs::write(self.root().join(format!("doc{i}.json")), serde_json::to_string(d).unwrap()).unwrap();
        }
    }

    fn spawn(&self, exe: &str, argv: &[String], plan: &str, env: &[(String, String)], rep: &mut Report) -> Ended {
        let plan_file = self.dir.join("plan");
        let log_file = self.dir.join("log");
        let root = self.root();
        let _ = std::fs::remove_file(&log_file);
        std::fs::write(&plan_file, format!("root {}\nlog {}\n{plan}", root.display(), log_file.display())).unwrap();
        let mut c = std::process::Command::new(self.bin.join(exe));
        c.args(argv)
            .current_dir(&root)
            .env_clear()
            .envs(env.iter().cloned())
            .env("SIM_PLAN", &plan_file)
            .env("LD_PRELOAD", self.bin.join("libseam.so"))
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::piped());
        unsafe {
            c.pre_exec(|| {
                let cpu = libc::rlimit { rlim_cur: 30, rlim_max: 35 };
                libc::setrlimit(libc::RLIMIT_CPU, &cpu);
                let mem = libc::rlimit { rlim_cur: 4 << 30, rlim_max: 4 << 30 };
                libc::setrlimit(libc::RLIMIT_AS, &mem);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let o = match c.output() {
            Ok(o) => o,
            Err(e) => {
                rep.harness = Some(format!("{exe}: {e}"));
                return Ended { code: -1, stdout: vec![], stderr: vec![], log: vec![], crashed: true };
            }
        };
        rep.processes += 1;
        let text = std::fs::read(&log_file).unwrap_or_default();
        let mut log = vec![];
        let mut crashed = false;
        for l in String::from_utf8_lossy(&text).lines() {
            rep.hash.write(l.as_bytes());
            rep.hash.write(b"\n");
            if rep.lines.len() < 4000 {
                rep.lines.push(l.to_string());
            }
            let w: Vec<&str> = l.split(' ').collect();
            if l.starts_with("# reads ") {
                for (k, v) in [("short read or output", w[3]), ("interrupted read or output", w[4])] {
                    let n: u64 = v.parse().unwrap_or(0);
                    if n > 0 {
                        *rep.faults.entry(k.into()).or_default() += n;
                    }
                }
                continue;
            }
            if l.starts_with('#') || w.len() < 6 {
                continue;
            }
            rep.calls += 1;
            let c = Call { class: w[1].into(), path: w[2].into(), want: w[3].parse().unwrap_or(0), got: w[4].parse().unwrap_or(0), note: w[5].into() };
            match c.note.as_str() {
                "injected" if c.got == -libc::EINTR as i64 => *rep.faults.entry(format!("interrupted {}", c.class)).or_default() += 1,
                "injected" => *rep.faults.entry(format!("failed {}", c.class)).or_default() += 1,
                "short" => *rep.faults.entry(format!("short {}", c.class)).or_default() += 1,
                "full" => *rep.faults.entry("disk full".into()).or_default() += 1,
                "outside" => *rep.seen.entry("change outside the root refused".into()).or_default() += 1,
                n if n.starts_with("crash") => {
                    crashed = true;
                    *rep.faults.entry(format!("crash ({}) at {}", n.trim_start_matches("crash-"), c.class)).or_default() += 1;
                }
                _ => {}
            }
            log.push(c);
        }
        let code = o.status.code().unwrap_or_else(|| 1000 + o.status.signal().unwrap_or(0));
        rep.hash.u64(code as u64);
        rep.lines.push(format!("# {exe} ended with {code}"));
        Ended { code, stdout: o.stdout, stderr: o.stderr, log, crashed }
    }

    fn command(&self, st: &Step, rep: &mut Report) -> Ended {
        let a = &st.args;
        let out = if a.output == "ABS" { self.root().join("out/sdk").display().to_string() } else { a.output.clone() };
        let mut v: Vec<String> = ["progenitor", "-i"].map(String::from).to_vec();
        v.push(format!("doc{}.json", st.doc));
        for (k, x) in [("-o", &out), ("-n", &a.name), ("-v", &a.version)] {
            v.extend([k.to_string(), x.clone()]);
        }
        for (k, x) in [("--registry-name", &a.registry), ("--license-name", &a.license), ("--interface", &a.interface), ("--tags", &a.tags)] {
            if let Some(x) = x {
                v.extend([k.to_string(), x.clone()]);
            }
        }
        if let Some(i) = a.include {
            v.extend(["--include-client".to_string(), i.to_string()]);
        }
        let mut plan = format!("seed {}\nshort {}\neintr {}\n", st.seed, st.short, st.eintr);
        for (c, n, later, e) in &st.fails {
            plan += &format!("fail {c} {n}{} {e}\n", if *later { "*" } else { "" });
        }
        if let Some((n, how)) = &st.crash {
            plan += &format!("crash {n} {how}\n");
        }
        if let Some(c) = st.cap {
            plan += &format!("cap {c}\n");
        }
        self.spawn("cargo-progenitor", &v, &plan, &st.env, rep)
    }

    fn files(&self) -> BTreeMap<String, Vec<u8>> {
        let out = self.root().join("out/sdk");
        FILES.iter().filter_map(|f| std::fs::read(out.join(f)).ok().map(|b| (f.to_string(), b))).collect()
    }

    /// What an undisturbed run in an empty directory writes; judged when first made.
    fn reference(&mut self, docs: &[Value], doc: usize, a: &Args, rep: &mut Report) -> Option<BTreeMap<String, Vec<u8>>> {
        let mut a = a.clone();
        a.output = "out/sdk".into();
        let key = format!("{}{}", docs[doc], serde_json::to_string(&a).unwrap());
        if self.shared {
            if let Some(r) = refs_kept().get(&key) {
                return r.clone();
            }
        }
        let inner = self.dir.join("ref");
        let keep = std::mem::replace(&mut self.dir, inner);
        self.wipe(docs);
        let mut quiet = Report::default();
        let st = Step { doc, args: a.clone(), seed: 1, ..Default::default() };
        let e = self.command(&st, &mut quiet);
        let r = if e.code == 0 { Some(self.files()) } else { None };
        // What the generator itself makes of it.
        let cfg = json!({"doc": format!("doc{doc}.json"), "what": "tokens", "settings": {
            "interface": a.interface, "tags": a.tags}});
        std::fs::write(self.root().join("cfg.json"), cfg.to_string()).unwrap();
        let g = self.spawn("gen", &["render".into(), "cfg.json".into()], "seed 1\n", &[], &mut quiet);
        rep.processes += quiet.processes;
        if let Some(h) = quiet.harness {
            rep.harness = Some(h);
        }
        let _ = std::fs::remove_dir_all(&self.dir);
        self.dir = keep;
        let before = rep.viols.len();
        match (&r, g.code) {
            (Some(files), 0) => complete(&a, files, &String::from_utf8_lossy(&g.stdout), rep),
            (Some(_), c) => rep.viol("success_without_code", format!("the generator fails on this description ({c}: {}), yet the command reports success", brief(&g.stdout))),
            (None, 0) => rep.viol("spurious_failure", format!("nothing is in the way, yet the command fails ({}): {}", e.code, brief(&e.stderr))),
            (None, _) => {}
        }
        if self.shared && rep.viols.len() == before && rep.harness.is_none() {
            refs_kept().insert(key, r.clone());
        }
        r
    }
}

impl Drop for Lab {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn brief(b: &[u8]) -> String {
    String::from_utf8_lossy(b).chars().take(300).collect::<String>().replace('\n', " ")
}

// ------------------------------------------------------------- what "complete" means

/// `section.key` to value text, for the part of TOML that manifests use.
fn toml(text: &str) -> Result<BTreeMap<String, String>, String> {
    let mut out = BTreeMap::new();
    let mut section = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') {
            continue;
        }
        if l.starts_with('[') && l.ends_with(']') {
            section = l.trim_matches(|c| c == '[' || c == ']').trim().to_string();
            continue;
        }
        let (k, v) = l.split_once('=').ok_or_else(|| format!("line {l:?}"))?;
        let mut v = v.trim().to_string();
        let open = |v: &str| v.matches(['[', '{']).count() > v.matches([']', '}']).count();
        while open(&v) {
            v += lines.next().ok_or_else(|| format!("unfinished {l:?}"))?.trim();
        }
        let key = format!("{section}.{}", k.trim().trim_matches('"'));
        if out.insert(key.clone(), v).is_some() {
            return Err(format!("{key} is there twice"));
        }
    }
    Ok(out)
}

fn unquote(v: &str) -> Option<String> {
    serde_json::from_str(v.trim()).ok()
}

const KNOWN_CRATES: [&str; 15] = [
    "base64", "bytes", "chrono", "futures", "futures_core", "percent_encoding", "rand", "regress", "reqwest", "serde", "serde_json",
    "serde_urlencoded", "uuid", "progenitor_client", "http",
];

/// Crates a source file names at the head of a path.
fn crates_of(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    use proc_macro2::TokenTree as T;
    let v: Vec<T> = ts.into_iter().collect();
    let colons = |i: usize| matches!((v.get(i), v.get(i + 1)), (Some(T::Punct(a)), Some(T::Punct(b))) if a.as_char() == ':' && b.as_char() == ':');
    for (i, t) in v.iter().enumerate() {
        match t {
            T::Group(g) => crates_of(g.stream(), out),
            T::Ident(id) if colons(i + 1) => {
                let after_path = i >= 2 && colons(i - 2) && i >= 3 && matches!(&v[i - 3], T::Ident(p) if !["use", "for", "in", "as", "impl", "dyn", "return", "mut", "if", "else", "match", "while", "loop", "let", "move", "unsafe", "where", "ref", "break", "async", "const", "static", "pub", "type"].contains(&p.to_string().as_str()));
                let after_generic = i >= 3 && colons(i - 2) && matches!(&v[i - 3], T::Punct(p) if p.as_char() == '>');
                let id = id.to_string();
                if !after_path && !after_generic && KNOWN_CRATES.contains(&id.as_str()) {
                    out.insert(id);
                }
            }
            _ => {}
        }
    }
}

/// Versions the repository itself builds with.
fn locked() -> &'static BTreeMap<String, Vec<String>> {
    static V: std::sync::OnceLock<BTreeMap<String, Vec<String>>> = std::sync::OnceLock::new();
    V.get_or_init(|| {
        let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
        let text = std::fs::read_to_string("/repo/Cargo.lock").unwrap_or_default();
        let mut name = String::new();
        for l in text.lines() {
            if let Some(n) = l.strip_prefix("name = ") {
                name = n.trim_matches('"').into();
            } else if let Some(v) = l.strip_prefix("version = ") {
                m.entry(name.clone()).or_default().push(v.trim_matches('"').into());
            }
        }
        m
    })
}

fn tokens(text: &str) -> Result<Vec<String>, String> {
    let f = syn::parse_file(text).map_err(|e| e.to_string())?;
    use quote::ToTokens;
    let mut v = vec![];
    if !f.attrs.is_empty() {
        v.push(f.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<String>());
    }
    v.extend(f.items.iter().map(|i| i.to_token_stream().to_string()));
    Ok(v)
}

fn complete(a: &Args, files: &BTreeMap<String, Vec<u8>>, generated: &str, rep: &mut Report) {
    let text = |f: &str| files.get(f).map(|b| String::from_utf8_lossy(b).to_string());
    // The code.
    let Some(lib) = text("src/lib.rs") else {
        rep.viol("incomplete_code", "the command succeeds without src/lib.rs".into());
        return;
    };
    let (mut got, want) = match (tokens(&lib), tokens(generated)) {
        (Ok(g), Ok(w)) => (g, w),
        (Err(e), _) => {
            rep.viol("incomplete_code", format!("src/lib.rs is not a Rust file: {e}"));
            return;
        }
        (_, Err(e)) => {
            rep.harness = Some(format!("the generator's output does not parse: {e}"));
            return;
        }
    };
    let module: Vec<usize> = (0..got.len()).filter(|i| got[*i].replace("pub ", "") == "mod progenitor_client ;").collect();
    let included = !module.is_empty();
    if module.len() > 1 {
        rep.viol("incomplete_code", "several `mod progenitor_client`".into());
    }
    for i in module.into_iter().rev() {
        got.remove(i);
    }
    if got != want {
        let i = (0..got.len().max(want.len())).find(|i| got.get(*i) != want.get(*i)).unwrap();
        let show = |v: &Vec<String>| v.get(i).map_or("nothing".to_string(), |s| s.chars().take(200).collect());
        rep.viol("incomplete_code", format!("item {i} of src/lib.rs is not what the generator makes: {} instead of {}", show(&got), show(&want)));
    }
    if let Some(i) = a.include {
        if i != included {
            rep.viol("incomplete_code", format!("--include-client {i}, but `mod progenitor_client` is {}there", if included { "" } else { "not " }));
        }
    }
    let mut crates = BTreeSet::new();
    let stream = |t: &str| t.parse::<proc_macro2::TokenStream>().unwrap_or_default();
    crates_of(stream(&lib), &mut crates);
    // The support code.
    if included {
        match text("src/progenitor_client.rs") {
            None => rep.viol("incomplete_support", "the command succeeds without the support code it includes".into()),
            Some(t) => {
                let src = std::fs::read_to_string("/repo/progenitor-client/src/progenitor_client.rs").unwrap_or_default();
                match (tokens(&t), tokens(&src)) {
                    (Ok(g), Ok(w)) if g == w => {}
                    (_, Err(e)) => rep.harness = Some(format!("support code: {e}")),
                    (Err(e), _) => rep.viol("incomplete_support", format!("the support code does not parse: {e}")),
                    _ => rep.viol("incomplete_support", "the support code is not progenitor-client's".into()),
                }
                crates_of(stream(&t), &mut crates);
            }
        }
        crates.remove("progenitor_client");
    }
    // The manifest.
    let Some(m) = text("Cargo.toml") else {
        rep.viol("incomplete_manifest", "the command succeeds without Cargo.toml".into());
        return;
    };
    let m = match toml(&m) {
        Ok(m) => m,
        Err(e) => {
            rep.viol("incomplete_manifest", format!("Cargo.toml: {e}"));
            return;
        }
    };
    let package = |k: &str| m.get(&format!("package.{k}")).and_then(|v| unquote(v));
    let mut bad = vec![];
    for (k, want) in [("name", Some(&a.name)), ("version", Some(&a.version)), ("license", a.license.as_ref())] {
        let got = package(k);
        if got.is_none() || want.is_some() && got.as_ref() != want {
            bad.push(format!("package.{k} is {got:?}, not {want:?}"));
        }
    }
    if !package("edition").is_some_and(|e| ["2018", "2021", "2024"].contains(&e.as_str())) {
        bad.push("no edition".into());
    }
    let publish = m.get("package.publish").and_then(|v| serde_json::from_str::<Vec<String>>(v).ok());
    if publish != a.registry.as_ref().map(|r| vec![r.clone()]) {
        bad.push(format!("publish is {publish:?}, the registry {:?}", a.registry));
    }
    for c in crates {
        let dash = c.replace('_', "-");
        let dep = [&c, &dash].iter().find_map(|n| m.get(&format!("dependencies.{n}")).cloned());
        let table = [&c, &dash].iter().any(|n| m.keys().any(|k| k.starts_with(&format!("dependencies.{n}."))));
        let Some(dep) = dep else {
            if !table {
                bad.push(format!("the code uses {c}, which is no dependency"));
            }
            continue;
        };
        let features: &[&str] = match c.as_str() {
            "reqwest" => &["json", "stream"],
            "serde" => &["derive"],
            "uuid" | "chrono" => &["serde"],
            _ => &[],
        };
        for f in features {
            if !dep.contains(&format!("\"{f}\"")) {
                bad.push(format!("{c} lacks the feature {f}"));
            }
        }
        // The major version the repository builds with (its own choice for rand differs).
        let req = match dep.starts_with('"') {
            true => unquote(&dep).unwrap_or_default(),
            false => dep.split("version").nth(1).and_then(|s| s.split('"').nth(1)).unwrap_or("").to_string(),
        };
        let major = |v: &str| -> Vec<String> {
            let v: Vec<&str> = v.trim_start_matches(['^', '=', '~']).split('.').collect();
            if v[0] == "0" { v.iter().take(2).map(|s| s.to_string()).collect() } else { vec![v[0].to_string()] }
        };
        let have: Vec<&String> = locked().get(&dash).or(locked().get(&c)).map(|v| v.iter().collect()).unwrap_or_default();
        if req != "*" && c != "rand" && !have.is_empty() && !have.iter().any(|v| major(v) == major(&req)) {
            bad.push(format!("{c} {req:?} is not the {have:?} the code is made for"));
        }
    }
    if !bad.is_empty() {
        rep.viol("incomplete_manifest", bad.join("; "));
    }
}

// ------------------------------------------------------------- judgement

fn execute(lab: &mut Lab, sc: &Scn) -> Report {
    let mut rep = Report::default();
    if sc.prop == "C14" {
        execute14(lab, sc, &mut rep);
    } else {
        execute15(lab, sc, &mut rep);
    }
    for v in &rep.viols {
        rep.hash.write(v.rule.as_bytes());
    }
    rep
}

fn filler(seed: u64, n: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| *r.pick(b"abc {}\n\"=[]")).collect()
}

fn execute15(lab: &mut Lab, sc: &Scn, rep: &mut Report) {
    let refs: Vec<_> = sc.steps.iter().map(|s| lab.reference(&sc.docs, s.doc, &s.args, rep)).collect();
    if rep.harness.is_some() || !rep.viols.is_empty() {
        return;
    }
    lab.wipe(&sc.docs);
    let out = lab.root().join("out/sdk");
    let last = sc.steps.len() - 1;
    let mut obstacle = false;
    for p in &sc.prior {
        let at = if p.path.is_empty() { out.clone() } else { out.join(&p.path) };
        if at.exists() || std::fs::create_dir_all(at.parent().unwrap()).is_err() {
            continue;
        }
        let mut data = vec![];
        if let (Some(n), Some(r)) = (p.keep, &refs[last]) {
            if let Some(b) = r.get(&p.path) {
                data.extend_from_slice(&b[..(n as usize).min(b.len())]);
            }
        }
        data.extend(filler(sc.seed ^ p.extra, p.extra));
        let done = match p.kind.as_str() {
            "dir" => std::fs::create_dir_all(&at),
            "link" => {
                let to = lab.root().join("other").join(p.path.replace('/', "_"));
                std::fs::write(&to, &data).and_then(|_| std::os::unix::fs::symlink(&to, &at))
            }
            _ => std::fs::write(&at, &data),
        };
        if let Err(e) = done {
            rep.harness = Some(format!("prior {p:?}: {e}"));
            return;
        }
        obstacle |= p.kind == "dir" || p.path.is_empty() || p.path == "src";
    }
    if obstacle {
        *rep.seen.entry("something in the way".into()).or_default() += 1;
    }
    for (i, st) in sc.steps.iter().enumerate() {
        rep.lines.push(format!("# step {i}"));
        let dirs: BTreeSet<PathBuf> = ["out", "out/sdk", "out/sdk/src"].iter().map(|d| lab.root().join(d)).filter(|d| d.is_dir()).collect();
        let e = lab.command(st, rep);
        if rep.harness.is_some() {
            return;
        }
        if let (true, Some(seed)) = (e.crashed, st.lose) {
            lose(lab, &e, seed, rep);
        }
        let files = lab.files();
        let kind = if e.crashed { "crashed" } else if e.code == 0 { "succeeded" } else { "failed" };
        *rep.seen.entry(format!("command {kind}")).or_default() += 1;
        rep.lines.push(format!("# {kind}; {}", files.iter().map(|(f, b)| format!("{f} {} bytes", b.len())).collect::<Vec<_>>().join(", ")));
        if e.crashed {
            continue;
        }
        let ended = |n: i32| if n >= 1000 { format!("signal {}", n - 1000) } else { format!("exit {n}") };
        // Success means the files are all there.
        if e.code == 0 {
            match &refs[i] {
                None => rep.viol("success_without_code", "success is reported for a description that cannot be generated from".into()),
                Some(r) => {
                    for (f, want) in r {
                        match files.get(f) {
                            None => rep.viol("success_incomplete", format!("step {i}: success, but {f} is not there")),
                            Some(got) if got != want => {
                                let at = got.iter().zip(want).take_while(|(a, b)| a == b).count();
                                rep.viol(
                                    "success_incomplete",
                                    format!("step {i}: success, but {f} ({} bytes) differs from an undisturbed run's ({} bytes) at byte {at}", got.len(), want.len()),
                                )
                            }
                            _ => {}
                        }
                    }
                }
            }
            // A failing call means the command fails.
            for (n, c) in e.log.iter().enumerate() {
                if c.got >= 0 || c.got == -libc::EINTR as i64 || !["mkdir", "openw", "write"].contains(&c.class.as_str()) || c.note == "outside" {
                    continue;
                }
                if c.class == "mkdir" {
                    let at = lab.root().join(&c.path);
                    if c.note.is_empty() || dirs.contains(&at) || e.log[n + 1..].iter().any(|d| d.class == "mkdir" && d.path == c.path && d.got >= 0) {
                        continue;
                    }
                } else if e.log[n + 1..].iter().any(|d| (d.class == "openw" || d.class == "write") && d.path == c.path && d.got >= 0) {
                    continue;
                } else if !FILES.iter().any(|f| c.path.ends_with(f))
                    && e.log[n + 1..].iter().any(|d| d.class == "openw" && FILES.iter().any(|f| d.path.ends_with(f)) && d.got >= 0)
                {
                    // Not one of the files themselves, and another way was found.
                    continue;
                }
                rep.viol("failure_unreported", format!("step {i}: {} of {} failed with error {}, yet the command reports success", c.class, c.path, -c.got));
            }
        } else if let (true, Some(_), false) = (st.gentle(), &refs[i], obstacle) {
            let rule = if i == last && last > 0 { "rerun_fails" } else { "spurious_failure" };
            rep.viol(rule, format!("step {i}: nothing fails, yet the command ends with {}: {}", ended(e.code), brief(&e.stderr)));
        }
        if e.code == 0 && refs[i].is_some() {
            *rep.seen.entry("complete files".into()).or_default() += 1;
        }
    }
}

/// The machine goes down with the process: files that were written and not synced keep
/// a part of what was written.
fn lose(lab: &Lab, e: &Ended, seed: u64, rep: &mut Report) {
    let mut r = Rng::new(seed);
    let mut open: BTreeMap<&str, bool> = BTreeMap::new();
    for c in &e.log {
        match c.class.as_str() {
            "openw" if c.got >= 0 => drop(open.insert(&c.path, false)),
            "write" if c.got > 0 && c.path != "<stdout>" => drop(open.insert(&c.path, false)),
            "sync" if c.got >= 0 => drop(open.insert(&c.path, true)),
            _ => {}
        }
    }
    for (p, synced) in open {
        let at = lab.root().join(p);
        let Ok(b) = std::fs::read(&at) else { continue };
        if synced {
            continue;
        }
        let how = r.below(5);
        let n = r.below(b.len() as u64 + 1) as usize;
        let _ = match how {
            0 => Ok(()),
            1 => std::fs::write(&at, b""),
            2 => std::fs::write(&at, &b[..n]),
            3 => std::fs::write(&at, [&b[..n], &vec![0; b.len() - n][..]].concat()),
            _ => std::fs::remove_file(&at),
        };
        if how > 0 {
            let what = ["", "all", "the end", "the end (zeros)", "the file"][how as usize];
            *rep.faults.entry(format!("crash lost {what}")).or_default() += 1;
            rep.lines.push(format!("# the crash loses {what} of {p}"));
            rep.hash.u64(how ^ (n as u64) << 8);
        }
    }
}

fn shuffled(v: &Value, seed: u64) -> Value {
    let mut v = v.clone();
    if seed == 0 {
        return v;
    }
    let mut r = Rng::new(seed);
    for k in ["patch", "replace", "crates"] {
        if let Some(a) = v[k].as_array_mut() {
            for i in (1..a.len()).rev() {
                a.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

fn execute14(lab: &mut Lab, sc: &Scn, rep: &mut Report) {
    let mut first: Option<(i32, Vec<u8>)> = None;
    for (i, v) in sc.variants.iter().enumerate() {
        rep.lines.push(format!("# variant {i}"));
        lab.wipe(&sc.docs);
        let (code, got) = if sc.what == "crate" {
            let t = |k: &str| sc.settings[k].as_str().map(String::from);
            let st = Step {
                args: Args { interface: t("interface"), tags: t("tags"), include: Some(true), name: "sdk".into(), version: "0.1.0".into(), output: "out/sdk".into(), ..Default::default() },
                seed: v.seed,
                env: v.env.clone(),
                ..Default::default()
            };
            let e = lab.command(&st, rep);
            (e.code, lab.files().into_iter().flat_map(|(k, b)| [k.into_bytes(), b]).flatten().collect())
        } else {
            let cfg = json!({"doc": "doc0.json", "what": sc.what, "settings": shuffled(&sc.settings, v.order), "thread": v.thread,
                "earlier": v.earlier.iter().map(|e| format!("doc{}.json", e % sc.docs.len())).collect::<Vec<_>>()});
            std::fs::write(lab.root().join("cfg.json"), cfg.to_string()).unwrap();
            let e = lab.spawn("gen", &["render".into(), "cfg.json".into()], &format!("seed {}\n", v.seed), &v.env, rep);
            (e.code, e.stdout)
        };
        if rep.harness.is_some() {
            return;
        }
        rep.hash.write(&got);
        *rep.faults.entry("hash seed, clock and process number".into()).or_default() += 1;
        for (k, b) in [("settings reordered", v.order != 0), ("own thread", v.thread), ("earlier generations", !v.earlier.is_empty()), ("environment", !v.env.is_empty())] {
            if b {
                *rep.faults.entry(k.into()).or_default() += 1;
            }
        }
        *rep.seen.entry(format!("{} {}", sc.what, if code == 0 { "generated" } else { "refused" })).or_default() += 1;
        // A panic in another thread has another exit code or message: both are refusals.
        let code = if code == 0 { 0 } else { 1 };
        let got = if code == 0 { got } else { vec![] };
        match &first {
            None => first = Some((code, got)),
            Some((c, want)) => {
                if *c != code {
                    rep.viol("outcome_differs", format!("variant 0 ends with {c}, variant {i} with {code}"));
                } else if *want != got {
                    let at = want.iter().zip(&got).take_while(|(a, b)| a == b).count();
                    let near = |b: &Vec<u8>| String::from_utf8_lossy(&b[at.saturating_sub(30).min(b.len())..(at + 60).min(b.len())]).to_string();
                    rep.viol("output_differs", format!("{}: variant {i} differs from variant 0 at byte {at}: {:?} instead of {:?}", sc.what, near(&got), near(want)));
                }
            }
        }
    }
}

// ------------------------------------------------------------- minimising

fn simpler(s: &Scn) -> Vec<Scn> {
    let mut out = vec![];
    let mut push = |f: &dyn Fn(&mut Scn)| {
        let mut t = s.clone();
        f(&mut t);
        if t != *s {
            out.push(t);
        }
    };
    for i in 0..s.steps.len() {
        if s.steps.len() > 1 {
            push(&|t| drop(t.steps.remove(i)));
        }
    }
    for i in 0..s.prior.len() {
        push(&|t| drop(t.prior.remove(i)));
    }
    for i in 0..s.variants.len() {
        if s.variants.len() > 2 {
            push(&|t| drop(t.variants.remove(i)));
        }
    }
    if s.docs.len() > 1 {
        push(&|t| {
            t.docs.truncate(1);
            t.steps.iter_mut().for_each(|s| s.doc = 0);
        });
    }
    for (i, d) in s.docs.iter().enumerate() {
        let keys: Vec<String> = d["paths"].as_object().map(|m| m.keys().cloned().collect()).unwrap_or_default();
        for half in [&keys[..keys.len() / 2], &keys[keys.len() / 2..]] {
            push(&|t| t.docs[i]["paths"].as_object_mut().unwrap().retain(|k, _| half.contains(k)));
        }
        if keys.len() < 6 {
            for k in &keys {
                push(&|t| drop(t.docs[i]["paths"].as_object_mut().unwrap().remove(k)));
            }
        }
        let mut need = BTreeSet::new();
        refs(d, &mut need);
        push(&|t| {
            if let Some(m) = t.docs[i]["components"]["schemas"].as_object_mut() {
                m.retain(|k, _| need.contains(k));
            }
        });
    }
    for i in 0..s.steps.len() {
        let mut each = |f: &dyn Fn(&mut Step)| push(&|t| f(&mut t.steps[i]));
        each(&|t| t.short = 0);
        each(&|t| t.eintr = 0);
        each(&|t| t.env.clear());
        each(&|t| t.lose = None);
        each(&|t| t.cap = None);
        each(&|t| t.crash = None);
        each(&|t| t.fails.clear());
        each(&|t| t.args.license = None);
        each(&|t| t.args.registry = None);
        each(&|t| t.args.tags = None);
        each(&|t| t.args.interface = None);
        each(&|t| t.args.output = "out/sdk".into());
    }
    for i in 0..s.prior.len() {
        push(&|t| t.prior[i].extra /= 2);
    }
    for i in 0..s.variants.len() {
        push(&|t| t.variants[i].env.clear());
        push(&|t| t.variants[i].earlier.clear());
        push(&|t| t.variants[i].thread = false);
        push(&|t| t.variants[i].order = 0);
    }
    for k in ["patch", "replace", "crates", "derives"] {
        if let Some(a) = s.settings[k].as_array() {
            for i in 0..a.len() {
                push(&|t| drop(t.settings[k].as_array_mut().unwrap().remove(i)));
            }
        }
    }
    out
}

fn minimise(lab: &mut Lab, sc: &Scn, rule: &str) -> (Scn, usize) {
    let t = Instant::now();
    let mut best = sc.clone();
    let mut tried = 0;
    'again: loop {
        for s in simpler(&best) {
            if t.elapsed() > Duration::from_secs(40) {
                break 'again;
            }
            tried += 1;
            if execute(lab, &s).viols.iter().any(|v| v.rule == rule) {
                best = s;
                continue 'again;
            }
        }
        break;
    }
    (best, tried)
}

// ------------------------------------------------------------- search

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    base_seed: u64,
    index: u64,
    violation: Viol,
    trace_hash: String,
    minimiser_steps: usize,
    scenario: Scn,
    /// File-system calls, faults and crashes of the failing run.
    trace: Vec<String>,
}

#[derive(Default)]
struct Found {
    runs: u64,
    hashes: BTreeSet<u64>,
    faults: BTreeMap<String, (u64, u64)>,
    seen: BTreeMap<String, u64>,
    processes: u64,
    calls: u64,
    faulty: u64,
    viols: Vec<(u64, Viol)>,
    known: BTreeMap<String, u64>,
    harness: Vec<(u64, String)>,
}

struct Opts {
    seed: u64,
    runs: u64,
    wall: Duration,
    workers: u64,
    tier: String,
    root: String,
}

/// `finding: property=P rule=R sig=S | what`: the message has to contain S.
fn known(root: &str, prop: &str) -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("finding: "))
        .filter_map(|l| {
            let (head, what) = l.split_once(" | ")?;
            let (p, rest) = head.strip_prefix("property=")?.split_once(" rule=")?;
            let (rule, sig) = rest.split_once(" sig=")?;
            (p == prop).then(|| (rule.to_string(), sig.to_string(), what.to_string()))
        })
        .collect()
}

fn search(prop: &str, o: &Opts) -> Found {
    let t = Instant::now();
    let next = std::sync::atomic::AtomicU64::new(0);
    let f = std::sync::Mutex::new(Found::default());
    let ks = known(&o.root, prop);
    std::thread::scope(|sc| {
        for _ in 0..o.workers {
            sc.spawn(|| {
                let mut lab = Lab::new(true);
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= o.runs || t.elapsed() > o.wall {
                        break;
                    }
                    let s = scenario(prop, o.seed, i);
                    let r = execute(&mut lab, &s);
                    let mut f = f.lock().unwrap();
                    if let Some(h) = r.harness {
                        f.harness.push((i, h));
                        continue;
                    }
                    f.runs += 1;
                    f.hashes.insert(r.hash.0);
                    f.processes += r.processes;
                    f.calls += r.calls;
                    f.faulty += u64::from(!r.faults.is_empty());
                    for (k, n) in r.faults {
                        let e = f.faults.entry(k).or_default();
                        e.0 += n;
                        e.1 += 1;
                    }
                    for (k, n) in r.seen {
                        *f.seen.entry(k).or_default() += n;
                    }
                    for v in r.viols {
                        match ks.iter().find(|k| k.0 == v.rule && v.msg.contains(&k.1)) {
                            Some(k) => *f.known.entry(format!("property={prop} {}", k.2)).or_default() += 1,
                            None => f.viols.push((i, v)),
                        }
                    }
                    if f.viols.len() > 40 {
                        break;
                    }
                }
            });
        }
    });
    let mut f = f.into_inner().unwrap();
    f.viols.sort_by_key(|v| v.0);
    f
}

fn check(prop: &str, o: &Opts) -> i32 {
    let t = Instant::now();
    let f = search(prop, o);
    let took = t.elapsed().as_secs_f64();
    for (k, n) in &f.known {
        println!("KNOWN-FINDING: {k} (met in {n} runs)");
    }
    let mut details = vec![];
    let mut code = 0;
    if let Some((i, v)) = f.viols.first() {
        code = 1;
        let mut lab = Lab::new(false);
        let (m, tried) = minimise(&mut lab, &scenario(prop, o.seed, *i), &v.rule);
        let r = execute(&mut lab, &m);
        let rep = Replay {
            property: prop.into(),
            base_seed: o.seed,
            index: *i,
            violation: r.viols.iter().find(|x| x.rule == v.rule).unwrap_or(v).clone(),
            trace_hash: format!("{:016x}", r.hash.0),
            minimiser_steps: tried,
            scenario: m,
            trace: r.lines,
        };
        let dir = format!("{}/build/replays", o.root);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{}-{i}.json", v.rule);
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("  {} (run {i}): {}", v.rule, rep.violation.msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={prop} replay={path}");
        details.push(json!({"rule": v.rule, "message": rep.violation.msg, "replay": path}));
    }
    let faults: BTreeMap<&String, Value> = f.faults.iter().map(|(k, (n, r))| (k, json!({"injected": n, "in_runs": r}))).collect();
    let samples: Vec<Value> = (0..3)
        .map(|i| {
            let mut s = serde_json::to_value(scenario(prop, o.seed, 20 + i * 7)).unwrap();
            s["docs"] = json!(s["docs"].as_array().unwrap().iter().map(|d| d["paths"].as_object().map(|p| p.keys().cloned().collect::<Vec<_>>())).collect::<Vec<_>>());
            s
        })
        .collect();
    let per_hour = (f.runs as f64 / took * 3600.0) as u64;
    let ev = json!({
        "property": prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "wall_s": took,
        "verdict": if code == 0 { "held on everything explored" } else { "violated" },
        "violations": details.len(),
        "violation_details": details,
        "known_findings": f.known,
        "coverage": {
            "evaluations": f.runs,
            "distinct_nontrivial": f.hashes.len(),
            "rule": if prop == "C15" {
                "one evaluation is one simulated history of an output directory: earlier contents, then one to four runs of the command with their faults and crashes, each judged; two are distinct if their traces (every file-system call with its result, exit codes, losses) differ"
            } else {
                "one evaluation is one configuration generated three to five times under different hash seeds, clocks, environments, threads, histories and setting orders, with the outputs compared; two are distinct if their traces (system calls, exit codes, generated text) differ"
            },
            "samples": samples,
        },
        "simulation": {
            "runs": f.runs,
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "wall_seconds": took,
            "simulated_seconds": "none passes: the code under test has no timers; the clock is a number drawn from the seed",
            "processes": f.processes,
            "file_system_calls": f.calls,
            "distinct_traces": f.hashes.len(),
            "runs_with_faults": f.faulty,
            "faults_injected": faults,
            "reached": f.seen,
            "harness_failures": f.harness.len(),
            "base_seed": o.seed,
        },
        "components": {
            "real": ["cargo-progenitor (the whole command, from /repo's working tree)", "progenitor-impl", "progenitor-client (its text)", "clap, serde_json, syn, the Rust standard library"],
            "stubs": ["file-system calls, standard output, clock, random numbers, process number (preloaded library ../seam over a scratch directory)", "typify, openapiv3, schemars, serde_yaml, rustfmt-wrapper, env_logger (stand-ins/)"],
        },
        "assumptions": [
            "the scratch directory's file system behaves like the one a user writes to, apart from the injected faults",
            "the search samples executions: a quiet run is evidence, not proof",
        ],
    });
    let path = format!("{}/evidence/{prop}.json", o.root);
    if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("{path}: {e}");
        return 2;
    }
    println!("{prop} {}: {} runs in {took:.1} s, {} distinct, {} processes, {} file-system calls, {} runs with faults", o.tier, f.runs, f.hashes.len(), f.processes, f.calls, f.faulty);
    if !f.harness.is_empty() {
        eprintln!("harness failures: {}, e.g. {:?}", f.harness.len(), f.harness.first());
    }
    if code == 0 && (f.runs == 0 || f.harness.len() as u64 * 20 > f.runs) {
        return 2;
    }
    code
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str, d: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned().unwrap_or(d.to_string());
    let o = Opts {
        seed: opt("--seed", "1").parse().unwrap(),
        runs: opt("--runs", "500").parse().unwrap(),
        wall: Duration::from_secs(opt("--wall", "600").parse().unwrap()),
        workers: opt("--workers", "8").parse().unwrap(),
        tier: opt("--tier", "quick"),
        root: opt("--root", "/verif"),
    };
    let w: Vec<&str> = a[1..].iter().map(|s| s.as_str()).collect();
    let code = match w[..] {
        ["check", prop, ..] => check(prop, &o),
        ["scan", prop, ..] => {
            let t = Instant::now();
            let f = search(prop, &o);
            println!("{prop} runs {} in {:.1}s distinct {} processes {} calls {} harness {:?} known {:?}", f.runs, t.elapsed().as_secs_f64(), f.hashes.len(), f.processes, f.calls, f.harness.first(), f.known);
            println!("{:?}\n{:?}", f.faults, f.seen);
            for (i, v) in f.viols.iter().take(6) {
                println!("  {i} {}: {}", v.rule, v.msg);
            }
            0
        }
        ["show", prop, i, ..] => {
            let s = scenario(prop, o.seed, i.parse().unwrap());
            let r = execute(&mut Lab::new(false), &s);
            for l in &r.lines {
                println!("{l}");
            }
            let mut v = serde_json::to_value(&s).unwrap();
            v["docs"] = json!(null);
            println!("{v}\n{:?} {:?}", r.viols, r.harness);
            0
        }
        ["replay", file, ..] => {
            let rep: Replay = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
            let r = execute(&mut Lab::new(false), &rep.scenario);
            for l in &r.lines {
                println!("{l}");
            }
            for v in &r.viols {
                println!("  {}: {}", v.rule, v.msg);
            }
            let hash = format!("{:016x}", r.hash.0);
            println!("trace hash {hash}, recorded {}: {}", rep.trace_hash, if hash == rep.trace_hash { "the same execution" } else { "a different execution" });
            if r.viols.iter().any(|v| v.rule == rep.violation.rule) {
                println!("VIOLATION property={} replay={file}", rep.property);
                1
            } else {
                println!("the recorded violation does not occur");
                0
            }
        }
        ["selftest", prop, ..] => {
            let mut bad = 0;
            let mut lab = Lab::new(true);
            for i in 0..o.runs {
                let s = scenario(prop, o.seed, i);
                let h = execute(&mut lab, &s).hash.0;
                bad += u64::from(execute(&mut Lab::new(false), &s).hash.0 != h);
            }
            println!("{prop}: {} runs executed twice, {bad} differ", o.runs);
            i32::from(bad > 0)
        }
        _ => {
            eprintln!("usage: disk check|scan|show|replay|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
