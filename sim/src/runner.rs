//! Runs scenarios in forked children, searches, minimises, replays and reports.
use crate::oracle::{Judge, Viol};
use crate::run::State;
use crate::scenario::*;
use crate::spec::Spec;
use crate::world::World;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, Write};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Report {
    pub index: u64,
    /// Hash of the complete trace of the run.
    pub hash: u64,
    /// Hash of the scheduling decisions only.
    pub shape: u64,
    pub steps: u64,
    pub sim_us: u64,
    pub syscalls: u64,
    pub calls: u64,
    pub requests: u64,
    pub faults: BTreeMap<String, u64>,
    pub seen: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    /// The scenario or the harness failed (not a verdict).
    pub harness: Option<String>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub lines: Vec<String>,
    /// Per call (C17): operation, hash and beginning of its record and of its requests.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub digest: Vec<(u32, u64, String)>,
}

/// What each call did and was answered, for comparison with the same run of another packaging.
#[cfg(feature = "packagings")]
fn digests(st: &State, w: &World) -> Vec<(u32, u64, String)> {
    use std::fmt::Write;
    let mut out = vec![];
    // The macro prints paths in messages without spaces: no difference in behaviour.
    let digest = |op: u32, text: String| {
        let mut text = text.replace(":: ", "::").replace(" ::", "::");
        let mut f = crate::rng::Fnv::default();
        f.write(text.as_bytes());
        if let Some((i, _)) = text.char_indices().nth(6000) {
            text.truncate(i);
        }
        (op, f.0, text)
    };
    for o in &st.outs {
        let mut d = String::new();
        let mut o = o.clone();
        (o.decode_ok, o.decode_err) = (None, None);
        // Where in which file is not behaviour.
        if let Some(p) = &mut o.panicked {
            *p = "panicked".into();
        }
        let _ = write!(d, "{o:?}");
        for q in w.server.reqs.iter().filter(|q| q.op == Some(o.op)) {
            let _ = write!(d, "\nrequest {} {} {} {:?} {:?} {:?} {} {:?}", q.method, q.target, q.version, q.headers, q.body, q.body_framing, q.complete, q.bad);
        }
        out.push(digest(o.op, d));
    }
    // And those without a marker.
    let mut d = String::new();
    for q in w.server.reqs.iter().filter(|q| q.op.is_none()) {
        let _ = write!(d, "\nrequest {} {} {} {:?} {:?}", q.method, q.target, q.version, q.headers, q.body);
    }
    out.push(digest(u32::MAX, d));
    out
}

static mut PIPE: i32 = -1;
/// Minimising tries variants that may be meaningless: they stay silent.
static mut QUIET: bool = false;
static mut SPEC: Option<&'static Spec> = None;

pub fn spec() -> &'static Spec {
    unsafe {
        if SPEC.is_none() {
            SPEC = Some(Box::leak(Box::new(crate::spec::load())));
        }
        SPEC.unwrap()
    }
}

fn on_finish(st: &State, w: &World) {
    let mut j = Judge::new(st, w, spec());
    j.run();
    #[cfg(feature = "mocks")]
    if st.sc.prop == "C22" {
        crate::mocks::judge(&mut j);
    }
    let viols = std::mem::take(&mut j.v);
    let seen = std::mem::take(&mut j.seen);
    let r = Report {
        index: st.sc.index,
        hash: w.trace.0,
        shape: w.shape.0,
        steps: w.steps,
        sim_us: (w.now - crate::world::T0) / 1000,
        syscalls: w.syscalls,
        calls: st.outs.iter().filter(|o| o.started).count() as u64,
        requests: w.server.reqs.len() as u64,
        faults: w.fault_counts.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        seen,
        viols,
        harness: None,
        lines: if w.verbose { w.lines.clone() } else { vec![] },
        #[cfg(feature = "packagings")]
        digest: if st.sc.prop == "C17" { digests(st, w) } else { vec![] },
        #[cfg(not(feature = "packagings"))]
        digest: vec![],
    };
    let s = serde_json::to_vec(&r).unwrap();
    let mut off = 0;
    while off < s.len() {
        let n = unsafe { libc::write(PIPE, s[off..].as_ptr() as *const _, s.len() - off) };
        if n <= 0 {
            break;
        }
        off += n as usize;
    }
    unsafe { libc::close(PIPE) };
}

/// Seconds of processor time that one run may take; it needs well under one.
const CPU_LIMIT: u64 = 30;

/// One scenario in a child process of its own. `Err`: it neither ended nor said why.
pub fn fork_run(sc: &Scenario, verbose: bool, limit: Duration) -> Result<Report, String> {
    spec();
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe(fds.as_mut_ptr()) }, 0);
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::close(fds[0]);
            PIPE = fds[1];
            if QUIET {
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(null, 2);
            }
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // Processor time, not real time: a busy machine is no violation.
            let cpu = libc::rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
        }
        let sc = sc.clone();
        // A fresh thread, so that no thread-local state is inherited.
        let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || crate::run::execute(&sc, verbose, on_finish)).unwrap();
        let code = if h.join().is_ok() { 0 } else { 78 };
        unsafe { libc::_exit(code) }
    }
    unsafe { libc::close(fds[1]) };
    let t = Instant::now();
    let mut out = vec![];
    let mut hung = false;
    let mut buf = vec![0u8; 1 << 16];
    loop {
        let left = limit.saturating_sub(t.elapsed()).as_millis() as i32;
        let mut p = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
        let n = unsafe { libc::poll(&mut p, 1, left) };
        if n == 0 {
            hung = true;
            unsafe { libc::kill(pid, libc::SIGKILL) };
            break;
        }
        let n = unsafe { libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len()) };
        if n <= 0 {
            break;
        }
        out.extend_from_slice(&buf[..n as usize]);
    }
    unsafe { libc::close(fds[0]) };
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if hung {
        return Err("hung".into());
    }
    match serde_json::from_slice::<Report>(&out) {
        Ok(r) => Ok(r),
        Err(_) => Ok(Report { index: sc.index, harness: Some(format!("wait status {st:#x}")), ..Default::default() }),
    }
}

/// Like `fork_run`, with a verdict on runs that spin for ever in real time.
pub fn judge(sc: &Scenario, verbose: bool) -> Report {
    for limit in [120, 120] {
        match fork_run(sc, verbose, Duration::from_secs(limit)) {
            Ok(mut r) => {
                // A crash of the process (abort, stack overflow, memory) is the code's doing
                // unless the harness said otherwise (exit 77).
                if let Some(h) = &r.harness {
                    let st = i64::from_str_radix(h.rsplit("0x").next().unwrap_or("0"), 16).unwrap_or(0);
                    if st & 0x7f == libc::SIGXCPU as i64 {
                        return spin(sc.index, format!("the run does not end: the code under test never yields ({CPU_LIMIT} s of processor time)"));
                    }
                    if st & 0x7f != 0 && st & 0x7f != 9 {
                        r.viols.push(Viol {
                            props: ["C01", "C02", "C03", "C04", "C12", "C16"].map(String::from).to_vec(),
                            rule: "crash".into(),
                            op: 0,
                            msg: format!("the process was ended by signal {}", st & 0x7f),
                            sig: String::new(),
                        });
                        r.harness = None;
                    }
                }
                if sc.prop == "C11" {
                    differential(sc, &mut r);
                }
                #[cfg(feature = "packagings")]
                if sc.prop == "C17" {
                    packagings(sc, verbose, &mut r);
                }
                return r;
            }
            Err(_) => continue,
        }
    }
    spin(sc.index, "the run is blocked for ever, with no simulated event that could end it (twice 120 s of real time)".into())
}

fn spin(index: u64, msg: String) -> Report {
    Report {
        index,
        viols: vec![Viol { props: ["C04", "C12", "C02", "C03", "C09", "C16"].map(String::from).to_vec(), rule: "spin".into(), op: 0, msg, sig: String::new() }],
        ..Default::default()
    }
}

/// A call whose outcome is wrong only in company was disturbed by the others.
fn differential(sc: &Scenario, r: &mut Report) {
    let n: usize = sc.tasks.iter().map(|t| t.ops.len()).sum();
    if n < 2 {
        return;
    }
    let mut seen = BTreeSet::new();
    let mut more = vec![];
    for v in &r.viols {
        if v.props.iter().any(|p| p == "C11") || !seen.insert(v.op) || seen.len() > 3 {
            continue;
        }
        let mut s = sc.clone();
        s.prop = "alone".into();
        s.tasks = sc
            .tasks
            .iter()
            .flat_map(|t| &t.ops)
            .filter(|o| o.id == v.op)
            .map(|o| Task { start_ms: 0, ops: vec![Op { before_ms: 0, ..o.clone() }] })
            .collect();
        if s.tasks.is_empty() {
            continue;
        }
        if let Ok(alone) = fork_run(&s, false, Duration::from_secs(30)) {
            if alone.harness.is_none() && !alone.viols.iter().any(|a| a.rule == v.rule) {
                more.push(Viol {
                    props: vec!["C11".into()],
                    rule: format!("disturbed_{}", v.rule),
                    msg: format!("only in company of the other calls: {}", v.msg),
                    ..v.clone()
                });
            }
        }
    }
    r.viols.extend(more);
}

/// The same run with the other packagings of the clients.
#[cfg(feature = "packagings")]
fn packagings(sc: &Scenario, verbose: bool, r: &mut Report) {
    if r.harness.is_some() || !sc.pack.is_empty() {
        return;
    }
    // What the build script's clients do wrong is for the other properties.
    r.viols.clear();
    for pack in crate::packagings::PACKS {
        if !sc.tasks.iter().flat_map(|t| &t.ops).any(|o| crate::packagings::Packs::has(pack, o.call.split(':').next().unwrap())) {
            continue;
        }
        *r.seen.entry(format!("executions compared: {pack}")).or_default() += 1;
        let s = Scenario { pack: pack.to_string(), ..sc.clone() };
        let mut bad = |op: u32, msg: String| {
            r.viols.push(Viol { props: vec!["C17".into()], rule: format!("differs_{pack}"), op, msg, sig: String::new() })
        };
        let Some(v) = (0..2).find_map(|_| fork_run(&s, verbose, Duration::from_secs(120)).ok()) else {
            bad(0, format!("with the {pack} client, the run does not end"));
            continue;
        };
        if let Some(h) = v.harness {
            // As in `judge`: killed by a signal of its own is the code's doing.
            let st = i64::from_str_radix(h.rsplit("0x").next().unwrap_or("0"), 16).unwrap_or(0);
            if st & 0x7f != 0 && st & 0x7f != 9 {
                bad(0, format!("with the {pack} client, the process is ended by signal {}", st & 0x7f));
                continue;
            }
            r.harness = Some(h);
            return;
        }
        for (a, b) in r.digest.iter().zip(&v.digest) {
            if a.1 == b.1 {
                continue;
            }
            let (x, y): (Vec<char>, Vec<char>) = (a.2.chars().collect(), b.2.chars().collect());
            let at = (0..x.len().max(y.len())).find(|i| x.get(*i) != y.get(*i)).unwrap_or(0);
            let near = |v: &Vec<char>| v[at.saturating_sub(60).min(v.len())..(at + 160).min(v.len())].iter().collect::<String>();
            let call = sc.tasks.iter().flat_map(|t| &t.ops).find(|o| o.id == a.0).map(|o| o.call.clone()).unwrap_or_default();
            r.viols.push(Viol {
                props: vec!["C17".into()],
                rule: format!("differs_{pack}"),
                op: if a.0 == u32::MAX { 0 } else { a.0 },
                msg: format!("{call} behaves differently in the {pack} packaging: ...{}... instead of ...{}...", near(&y), near(&x)),
                sig: String::new(),
            });
            break;
        }
        r.lines.extend(v.lines);
    }
    r.digest.clear();
}

// ------------------------------------------------------------------ known findings

pub struct Known {
    pub property: String,
    pub rule: String,
    pub sig: String,
    pub what: String,
}

/// Lines `finding: property=<id> rule=<rule> sig=<text> | <what fails>`; others are comments.
pub fn known(path: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let (head, what) = l.split_once(" | ")?;
            let rest = head.strip_prefix("property=")?;
            let (property, rest) = rest.split_once(" rule=")?;
            let (rule, sig) = rest.split_once(" sig=")?;
            Some(Known { property: property.into(), rule: rule.into(), sig: sig.into(), what: what.into() })
        })
        .collect()
}

fn matches<'k>(ks: &'k [Known], prop: &str, v: &Viol) -> Option<&'k Known> {
    if v.sig.is_empty() {
        return None;
    }
    ks.iter().find(|k| k.property == prop && k.rule == v.rule && k.sig == v.sig)
}

// ------------------------------------------------------------------ minimisation

fn fails(sc: &Scenario, prop: &str, rule: &str, ks: &[Known]) -> bool {
    let r = judge(sc, false);
    r.viols.iter().any(|v| v.rule == rule && v.props.iter().any(|p| p == prop) && matches(ks, prop, v).is_none())
}

/// Simpler variants of a scenario, biggest steps first.
fn simpler(sc: &Scenario) -> Vec<Scenario> {
    let mut out = vec![];
    let mut add = |f: &dyn Fn(&mut Scenario)| {
        let mut s = sc.clone();
        f(&mut s);
        if s != *sc {
            out.push(s);
        }
    };
    for i in 0..sc.tasks.len() {
        if sc.tasks.len() > 1 {
            add(&|s| {
                s.tasks.remove(i);
            });
        }
    }
    for i in 0..sc.tasks.len() {
        for k in 0..sc.tasks[i].ops.len() {
            if sc.tasks[i].ops.len() > 1 {
                add(&|s| {
                    s.tasks[i].ops.remove(k);
                });
            }
        }
    }
    add(&|s| s.net = Net::default());
    add(&|s| s.conns.clear());
    add(&|s| {
        s.conns.pop();
    });
    add(&|s| s.recovery = false);
    add(&|s| s.read_rate = ReadRate::default());
    add(&|s| s.base_path.clear());
    add(&|s| s.ipv6 = false);
    add(&|s| s.clone_client = false);
    let d = Net::default();
    let whole = serde_json::to_value(&sc.net).unwrap();
    let plain = serde_json::to_value(&d).unwrap();
    for k in whole.as_object().unwrap().keys() {
        add(&|s| {
            let mut v = serde_json::to_value(&s.net).unwrap();
            v[k] = plain[k].clone();
            s.net = serde_json::from_value(v).unwrap();
        });
    }
    for i in 0..sc.tasks.len() {
        add(&|s| s.tasks[i].start_ms = 0);
        for k in 0..sc.tasks[i].ops.len() {
            let op = &sc.tasks[i].ops[k];
            let mut with = |f: &dyn Fn(&mut Op)| add(&|s| f(&mut s.tasks[i].ops[k]));
            with(&|o| o.cancel = None);
            with(&|o| o.before_ms = 0);
            with(&|o| o.consume = Consume::default());
            for e in 0..op.exch.len() {
                if op.exch.len() > 1 {
                    with(&|o| {
                        o.exch.remove(e);
                    });
                }
                with(&|o| {
                    let x = &mut o.exch[e];
                    *x = Exch { status: x.status, headers: x.headers.clone(), body: x.body.clone(), framing: x.framing.clone(), tunnel: x.tunnel.clone(), ..Default::default() }
                });
                with(&|o| o.exch[e].cuts.clear());
                with(&|o| o.exch[e].fault = None);
                with(&|o| o.exch[e].delay_us = 0);
                with(&|o| o.exch[e].interim.clear());
                with(&|o| o.exch[e].reason.clear());
                with(&|o| o.exch[e].http10 = false);
                with(&|o| o.exch[e].after = After::KeepAlive);
                with(&|o| o.exch[e].when = When::AfterBody);
                with(&|o| {
                    if !matches!(o.exch[e].framing, Framing::None) {
                        o.exch[e].framing = Framing::Len
                    }
                });
                with(&|o| {
                    if let Framing::Chunked { sizes, ext, trailers } = &mut o.exch[e].framing {
                        sizes.truncate(1);
                        *ext = false;
                        trailers.clear();
                    }
                });
                for h in 0..op.exch[e].headers.len() {
                    if !op.exch[e].headers[h].0.eq_ignore_ascii_case("upgrade") {
                        with(&|o| {
                            o.exch[e].headers.remove(h);
                        });
                    }
                }
                let halves = |b: &mut Blob| match b {
                    Blob::Gen { len, .. } | Blob::Fill { len, .. } | Blob::Pad { len, .. } => *len /= 2,
                    Blob::Raw(s) | Blob::Text(s) => *s = s.chars().take(s.chars().count() / 2).collect(),
                };
                with(&|o| halves(&mut o.exch[e].body));
                with(&|o| {
                    if let Some(t) = &mut o.exch[e].tunnel {
                        t.msgs.pop();
                    }
                });
                with(&|o| {
                    if let Some(t) = &mut o.exch[e].tunnel {
                        t.early = Blob::default();
                    }
                });
                with(&|o| {
                    if let Some(t) = &mut o.exch[e].tunnel {
                        halves(&mut t.early);
                    }
                });
            }
            // Arguments.
            if let Some(a) = op.args.as_object() {
                if op.call.starts_with("cli:") {
                    continue;
                }
                for name in a.keys() {
                    with(&|o| {
                        o.args.as_object_mut().unwrap().remove(name);
                    });
                }
                for (name, v) in a {
                    if let Some(list) = v.as_array() {
                        for x in 0..list.len() {
                            with(&|o| {
                                o.args[name].as_array_mut().unwrap().remove(x);
                            });
                        }
                    }
                    if let Some(t) = v.as_str() {
                        let n = t.chars().count();
                        if n > 1 {
                            with(&|o| o.args[name] = t.chars().take(n / 2).collect::<String>().into());
                            with(&|o| o.args[name] = t.chars().skip(n / 2).collect::<String>().into());
                        }
                    }
                }
            }
        }
    }
    out
}

pub fn minimise(sc: &Scenario, prop: &str, rule: &str, ks: &[Known], budget: Duration) -> (Scenario, usize) {
    let t = Instant::now();
    unsafe { QUIET = true };
    let mut best = sc.clone();
    let mut tried = 0;
    'again: loop {
        for s in simpler(&best) {
            if t.elapsed() > budget {
                break 'again;
            }
            tried += 1;
            if fails(&s, prop, rule, ks) {
                best = s;
                continue 'again;
            }
        }
        break;
    }
    unsafe { QUIET = false };
    (best, tried)
}

// ------------------------------------------------------------------ search

pub struct Search {
    pub prop: String,
    pub seed: u64,
    pub runs: u64,
    pub workers: u64,
    pub wall: Duration,
    pub tier: String,
    pub findings: String,
    pub replay_dir: String,
    pub evidence: String,
}

/// `sim worker PROP SEED FROM STEP RUNS WALL_MS`: one report per line.
pub fn worker(a: &[String]) {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (prop, seed, from, step, runs, wall) = (&a[0], n(1), n(2), n(3), n(4), n(5));
    let t = Instant::now();
    let out = std::io::stdout();
    let mut i = from;
    // Runs that do not end cost half a minute or more each: a few are enough.
    let mut slow = 0;
    while slow < 2 && i < runs && t.elapsed() < Duration::from_millis(wall) {
        let sc = crate::gen_scn::scenario(spec(), prop, seed, i);
        let r = judge(&sc, false);
        slow += usize::from(r.viols.iter().any(|v| v.rule == "spin" || v.rule == "blocked"));
        let mut o = out.lock();
        serde_json::to_writer(&mut o, &r).unwrap();
        o.write_all(b"\n").unwrap();
        o.flush().unwrap();
        i += step;
    }
}

#[derive(Default)]
pub struct Found {
    pub reports: u64,
    pub hashes: BTreeSet<u64>,
    pub shapes: BTreeSet<u64>,
    pub sim_us: u64,
    pub steps: u64,
    pub syscalls: u64,
    pub calls: u64,
    pub requests: u64,
    pub faults: BTreeMap<String, (u64, u64)>,
    pub seen: BTreeMap<String, u64>,
    pub faulty_runs: u64,
    pub harness: Vec<(u64, String)>,
    pub viols: Vec<(u64, Viol)>,
    pub known: BTreeMap<String, u64>,
}

pub fn search(s: &Search, ks: &[Known]) -> Found {
    let exe = std::env::current_exe().unwrap();
    let mut kids = vec![];
    for k in 0..s.workers {
        let mut c = std::process::Command::new(&exe)
            .args(["worker", &s.prop, &s.seed.to_string(), &k.to_string(), &s.workers.to_string(), &s.runs.to_string(), &s.wall.as_millis().to_string()])
            .stdout(std::process::Stdio::piped())
            .spawn()
            .unwrap();
        let o = std::io::BufReader::new(c.stdout.take().unwrap());
        kids.push((c, std::thread::spawn(move || o.lines().map_while(|l| l.ok()).filter_map(|l| serde_json::from_str::<Report>(&l).ok()).collect::<Vec<_>>())));
    }
    let mut f = Found::default();
    for (mut c, h) in kids {
        let rs = h.join().unwrap();
        let st = c.wait().unwrap();
        if !st.success() {
            f.harness.push((0, format!("a worker ended with {st}")));
        }
        for r in rs {
            if let Some(h) = r.harness {
                f.harness.push((r.index, h));
                continue;
            }
            f.reports += 1;
            f.hashes.insert(r.hash);
            f.shapes.insert(r.shape);
            f.sim_us += r.sim_us;
            f.steps += r.steps;
            f.syscalls += r.syscalls;
            f.calls += r.calls;
            f.requests += r.requests;
            f.faulty_runs += u64::from(!r.faults.is_empty());
            for (k, n) in r.faults {
                let e = f.faults.entry(k).or_default();
                e.0 += n;
                e.1 += 1;
            }
            for (k, n) in r.seen {
                *f.seen.entry(k).or_default() += n;
            }
            for v in r.viols {
                if v.props.iter().any(|p| *p == s.prop) {
                    match matches(ks, &s.prop, &v) {
                        Some(k) => *f.known.entry(format!("property={} {}", k.property, k.what)).or_default() += 1,
                        None => f.viols.push((r.index, v)),
                    }
                }
            }
        }
    }
    f.viols.sort_by_key(|(i, _)| *i);
    f
}

const ASSUMPTIONS: &[&str] = &[
    "the simulated sockets, epoll, clock and random numbers behave like Linux's where the real components use them",
    "the scripted server's HTTP/1.1 and the reference model in sim/src/oracle.rs express the API description and RFC 9110/9112 correctly",
    "the search samples executions: a quiet run is evidence, not proof",
];

/// Searches, reports, writes evidence; the exit code.
pub fn check(s: &Search, real: &[&str], stubs: &[&str]) -> i32 {
    let t = Instant::now();
    let ks = known(&s.findings);
    let f = search(s, &ks);
    let took = t.elapsed().as_secs_f64();
    for (k, n) in &f.known {
        println!("KNOWN-FINDING: {k} (met in {n} runs)");
    }
    let mut violations = vec![];
    let mut code = 0;
    if let Some((i, v)) = f.viols.first().cloned() {
        code = 1;
        let sc = crate::gen_scn::scenario(spec(), &s.prop, s.seed, i);
        let path = report(&sc, &s.prop, &v, &ks, &s.replay_dir, s.seed);
        println!("  {} (run {i}, op {}): {}", v.rule, v.op, v.msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={path}", s.prop);
        let mut rules: BTreeMap<String, u64> = BTreeMap::new();
        for (_, v) in &f.viols {
            *rules.entry(v.rule.clone()).or_default() += 1;
        }
        println!("  all rules broken: {rules:?}");
        violations.push(json!({"rule": v.rule, "message": v.msg, "replay": path}));
    }
    let lost = f.harness.len() as u64;
    if lost > 0 {
        eprintln!("harness failures: {lost}, e.g. {:?}", f.harness.first());
    }
    let faults: BTreeMap<&String, Value> = f.faults.iter().map(|(k, (n, r))| (k, json!({"injected": n, "in_runs": r}))).collect();
    let per_hour = |n: u64| (n as f64 / took * 3600.0) as u64;
    let samples: Vec<Value> = (0..3).map(|i| serde_json::to_value(crate::gen_scn::scenario(spec(), &s.prop, s.seed, 20 + i * 7)).unwrap()).collect();
    let ev = json!({
        "property": s.prop,
        "tier": s.tier,
        "seed": s.seed,
        "level": "exploration",
        "wall_s": took,
        "verdict": if code == 0 { "held on everything explored" } else { "violated" },
        "violations": violations.len(),
        "violation_details": violations,
        "known_findings": f.known,
        "coverage": {
            "evaluations": f.reports,
            "distinct_nontrivial": f.hashes.len(),
            "rule": "one evaluation is one complete simulated run (seed = one exactly repeatable execution) whose calls were judged; two runs are distinct if their traces (every delivery, system call result, fault and call outcome) differ; runs that failed in the harness do not count",
            "samples": samples,
        },
        "simulation": {
            "runs": f.reports,
            "runs_per_hour": per_hour(f.reports),
            "seeds_per_hour": per_hour(f.reports),
            "wall_seconds": took,
            "simulated_seconds": f.sim_us as f64 / 1e6,
            "scheduler_and_network_steps": f.steps,
            "simulated_system_calls": f.syscalls,
            "calls": f.calls,
            "requests_served": f.requests,
            "distinct_traces": f.hashes.len(),
            "distinct_schedules": f.shapes.len(),
            "distinct_schedules_measure": "hash of the sequence of scheduling decisions (which task polled, which event delivered to which connection, which descriptor ready)",
            "runs_with_faults": f.faulty_runs,
            "faults_injected": faults,
            "reached": f.seen,
            "harness_failures": lost,
            "base_seed": s.seed,
        },
        "components": { "real": real, "stubs": stubs },
        "assumptions": ASSUMPTIONS,
    });
    if let Err(e) = std::fs::write(&s.evidence, serde_json::to_string_pretty(&ev).unwrap()) {
        eprintln!("{}: {e}", s.evidence);
        return 2;
    }
    println!(
        "{} {}: {} runs in {took:.1} s, {} distinct traces, {} schedules, {:.0} simulated s, {} calls, {} requests, {} runs with faults",
        s.prop, s.tier, f.reports, f.hashes.len(), f.shapes.len(), f.sim_us as f64 / 1e6, f.calls, f.requests, f.faulty_runs
    );
    if code == 0 && (f.reports == 0 || lost * 20 > f.reports) {
        eprintln!("no verdict: {lost} runs failed in the harness");
        return 2;
    }
    code
}

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub base_seed: u64,
    pub index: u64,
    pub violation: Viol,
    pub trace_hash: String,
    pub minimiser_steps: usize,
    pub scenario: Scenario,
    /// Schedule and fault trace of the failing run.
    pub trace: Vec<String>,
}

fn report(sc: &Scenario, prop: &str, v: &Viol, ks: &[Known], dir: &str, seed: u64) -> String {
    let slow = matches!(v.rule.as_str(), "spin");
    let (m, tried) = if slow { (sc.clone(), 0) } else { minimise(sc, prop, &v.rule, ks, Duration::from_secs(30)) };
    let r = judge(&m, true);
    let v2 = r.viols.iter().find(|x| x.rule == v.rule && x.props.iter().any(|p| p == prop)).cloned().unwrap_or(v.clone());
    let mut lines = r.lines.clone();
    if lines.len() > 2000 {
        lines.truncate(2000);
        lines.push("(cut here)\n".into());
    }
    let rep = Replay {
        property: prop.into(),
        base_seed: seed,
        index: sc.index,
        violation: v2,
        trace_hash: format!("{:016x}", r.hash),
        minimiser_steps: tried,
        scenario: m,
        trace: lines.iter().map(|l| l.trim_end().to_string()).collect(),
    };
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{prop}-{}-{}.json", v.rule, sc.index);
    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
    path
}

/// Runs a replay file; 1 and a VIOLATION line if it shows the same violation again.
pub fn replay(path: &str) -> i32 {
    let rep: Replay = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let r = judge(&rep.scenario, true);
    for l in &r.lines {
        print!("{l}");
    }
    if let Some(h) = &r.harness {
        println!("harness failure: {h}");
        return 2;
    }
    let same = r.viols.iter().any(|v| v.rule == rep.violation.rule && v.props.contains(&rep.property));
    for v in &r.viols {
        println!("  {} (op {}): {}", v.rule, v.op, v.msg);
    }
    let hash = format!("{:016x}", r.hash);
    println!("trace hash {hash}, recorded {}: {}", rep.trace_hash, if hash == rep.trace_hash { "the same execution" } else { "a different execution" });
    if same {
        println!("VIOLATION property={} replay={path}", rep.property);
        return 1;
    }
    println!("the recorded violation does not occur");
    0
}

/// Every run twice: the traces must be identical.
pub fn selftest(prop: &str, seed: u64, runs: u64) -> i32 {
    let mut bad = 0;
    for i in 0..runs {
        let sc = crate::gen_scn::scenario(spec(), prop, seed, i);
        let (a, b) = (judge(&sc, false), judge(&sc, false));
        if a != b || a.harness.is_some() {
            println!("run {i}: {:x} {:x} {:?}", a.hash, b.hash, a.harness);
            bad += 1;
        }
    }
    println!("{prop}: {runs} runs executed twice, {bad} differ");
    i32::from(bad > 0)
}
