//! Judges one finished run: compares what callers saw with what happened on the wire.
use crate::out::*;
use crate::run::State;
use crate::scenario::*;
use crate::server::{ReqFraming, ReqRec, Resp};
use crate::spec::*;
use crate::world::{World, MS, T0};
use serde::{Deserialize, Serialize};
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Viol {
    /// Every property this contradicts.
    pub props: Vec<String>,
    pub rule: String,
    pub op: u32,
    pub msg: String,
    /// Identifies the failing input or site (for known findings).
    pub sig: String,
}

/// The default configuration's.
pub const LIMIT: u64 = 15_000 * MS;

/// When a fact about the wire became (or could have become) known to the client.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Sure {
    Yes,
    No,
    Maybe,
}

pub struct Judge<'a> {
    pub st: &'a State,
    pub w: &'a World,
    pub spec: &'a Spec,
    pub v: Vec<Viol>,
    slack: u64,
    /// What the run reached (for coverage).
    pub seen: BTreeMap<String, u64>,
}

fn show(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(&b[..b.len().min(120)]).to_string();
    if b.len() > 120 {
        format!("{s:?}… ({} bytes)", b.len())
    } else {
        format!("{s:?}")
    }
}

fn first_diff(a: &[u8], b: &[u8]) -> usize {
    a.iter().zip(b).take_while(|(x, y)| x == y).count()
}

/// JSON equality with numbers compared by value.
pub fn same_json(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            if x.is_f64() || y.is_f64() {
                x.as_f64() == y.as_f64()
            } else {
                x == y
            }
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same_json(p, q)),
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| same_json(p, q)))
        }
        _ => a == b,
    }
}

/// Without fields that are null, and without empty optional lists (neither is sent).
fn strip_nulls(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            let absent = |k: &str, v: &Value| v.is_null() || k == "more" && v.as_array().is_some_and(|a| a.is_empty());
            Value::Object(o.iter().filter(|(k, v)| !absent(k, v)).map(|(k, v)| (k.clone(), strip_nulls(v))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(strip_nulls).collect()),
        v => v.clone(),
    }
}

pub fn pct(s: &[u8], plus: bool) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    let hex = |b: u8| (b as char).to_digit(16);
    while i < s.len() {
        if s[i] == b'%' && i + 2 < s.len() + 0 {
            if let (Some(a), Some(b)) = (hex(s[i + 1]), hex(s[i + 2])) {
                out.push((a * 16 + b) as u8);
                i += 3;
                continue;
            }
        }
        out.push(if plus && s[i] == b'+' { b' ' } else { s[i] });
        i += 1;
    }
    out
}

pub fn pairs(q: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    q.split(|&b| b == b'&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let e = p.iter().position(|&b| b == b'=').unwrap_or(p.len());
            (pct(&p[..e], true), pct(p.get(e + 1..).unwrap_or(b""), true))
        })
        .collect()
}

/// One expected query or form value.
#[derive(Clone, Debug)]
pub enum Want {
    Text(String),
    Num(f64),
}

impl Want {
    fn ok(&self, got: &[u8]) -> bool {
        match self {
            Want::Text(t) => t.as_bytes() == got,
            Want::Num(n) => std::str::from_utf8(got).ok().and_then(|s| s.parse::<f64>().ok()) == Some(*n),
        }
    }
}

pub fn scalar(v: &Value) -> Option<Want> {
    Some(match v {
        Value::String(s) => Want::Text(s.clone()),
        Value::Bool(b) => Want::Text(b.to_string()),
        Value::Number(n) if n.is_f64() => Want::Num(n.as_f64().unwrap()),
        Value::Number(n) => Want::Text(n.to_string()),
        _ => return None,
    })
}

/// The pairs of one named argument; `None` if it has no flat form.
pub fn flat(name: &str, v: &Value, out: &mut Vec<(String, Want)>) -> Option<()> {
    match v {
        Value::Null => {}
        Value::Array(a) => {
            for x in a {
                out.push((name.into(), scalar(x)?));
            }
        }
        Value::Object(o) => {
            for (k, x) in o {
                if !x.is_null() {
                    out.push((k.clone(), scalar(x)?));
                }
            }
        }
        v => out.push((name.into(), scalar(v)?)),
    }
    Some(())
}

/// Compares pairs by name, in order within a name.
fn pairs_diff(want: &[(String, Want)], got: &[(Vec<u8>, Vec<u8>)]) -> Option<String> {
    let mut w: BTreeMap<Vec<u8>, Vec<&Want>> = BTreeMap::new();
    for (k, v) in want {
        w.entry(k.as_bytes().to_vec()).or_default().push(v);
    }
    let mut g: BTreeMap<Vec<u8>, Vec<&Vec<u8>>> = BTreeMap::new();
    for (k, v) in got {
        g.entry(k.clone()).or_default().push(v);
    }
    for (k, vs) in &w {
        let have = g.remove(k).unwrap_or_default();
        if vs.len() != have.len() || !vs.iter().zip(&have).all(|(a, b)| a.ok(b)) {
            return Some(format!(
                "name {:?}: the caller gave {vs:?}, the server got {:?}",
                String::from_utf8_lossy(k),
                have.iter().map(|b| String::from_utf8_lossy(b).to_string()).collect::<Vec<_>>()
            ));
        }
    }
    g.iter().next().map(|(k, v)| {
        format!(
            "the server got {} pair(s) named {:?} that the caller did not give",
            v.len(),
            String::from_utf8_lossy(k)
        )
    })
}

/// What a page says comes next, whatever else is in it.
#[derive(serde::Deserialize)]
struct Token {
    next_page: Option<String>,
}

/// What a request of this op must look like.
pub struct WantReq {
    pub method: String,
    /// Segments: pieces; Err marks a date-time argument.
    pub segs: Vec<Vec<Result<String, String>>>,
    pub query: Option<Vec<(String, Want)>>,
    pub headers: Vec<(String, Vec<u8>)>,
    pub absent: Vec<String>,
    pub path_args: Vec<String>,
}

/// A reference for why a call must be rejected before sending.
#[derive(Clone, Debug, Default)]
pub struct Reject {
    pub names: Vec<String>,
}

pub fn split_call(call: &str) -> (&str, &str) {
    call.split_once(':').unwrap()
}

pub fn base_name(name: &str) -> &str {
    name.strip_suffix("_stream").unwrap_or(name)
}

pub fn is_builder(variant: &str) -> bool {
    matches!(variant, "bld" | "tag" | "hbld" | "cli") || variant.ends_with("_b") || variant.ends_with("_t")
}

pub fn is_hooked(variant: &str) -> bool {
    matches!(variant, "hpos" | "hbld")
}

fn header_text_ok(s: &str) -> bool {
    s.bytes().all(|b| b == b'\t' || (b >= 0x20 && b != 0x7f))
}

fn rust_name(n: &str) -> String {
    match n {
        "a b&c=d" => "a_b_c_d".into(),
        "tag[]" => "tag".into(),
        "self" => "self_".into(),
        "type" => "type_".into(),
        n => n.replace('-', "_"),
    }
}

/// Whether the value fits the schema the way the generated types enforce it.
/// The segments that remain once a URL parser has removed the dot segments.
fn without_dots(base: &str, segs: &[Vec<Result<String, String>>]) -> Vec<Vec<u8>> {
    let mut all: Vec<Vec<u8>> = base.split('/').skip(1).map(|s| pct(s.as_bytes(), false)).collect();
    all.extend(segs.iter().map(|s| s.iter().map(|p| p.clone().unwrap_or_else(|e| e)).collect::<String>().into_bytes()));
    let mut out: Vec<Vec<u8>> = vec![];
    let n = all.len();
    for (i, s) in all.into_iter().enumerate() {
        match &s[..] {
            b"." | b".." => {
                if s.len() == 2 {
                    out.pop();
                }
                if i + 1 == n {
                    out.push(vec![]);
                }
            }
            _ => out.push(s),
        }
    }
    out
}

fn fits(spec: &Spec, schema: &Value, v: &Value) -> bool {
    let s = spec.schema(schema);
    if let Some(e) = s.get("enum").and_then(|e| e.as_array()) {
        return e.contains(v);
    }
    match s.get("type").and_then(|t| t.as_str()) {
        Some("string") => {
            let Some(t) = v.as_str() else { return false };
            let n = t.chars().count() as u64;
            s.get("minLength").and_then(|m| m.as_u64()).is_none_or(|m| n >= m)
                && s.get("maxLength").and_then(|m| m.as_u64()).is_none_or(|m| n <= m)
        }
        Some("integer") => {
            let min = s.get("minimum").and_then(|m| m.as_i64()).unwrap_or(i64::MIN);
            match s.get("format").and_then(|f| f.as_str()).unwrap_or("int64") {
                "uint32" => v.as_u64().is_some_and(|n| n <= u32::MAX as u64 && n as i64 >= min),
                "uint64" => v.as_u64().is_some(),
                "int32" => v.as_i64().is_some_and(|n| i32::try_from(n).is_ok()),
                _ => v.as_i64().is_some(),
            }
        }
        Some("array") => v.as_array().is_some_and(|a| a.iter().all(|x| fits(spec, &s["items"], x))),
        Some("object") => {
            let Some(o) = v.as_object() else { return false };
            let none = serde_json::Map::new();
            let props = s.get("properties").and_then(|p| p.as_object()).unwrap_or(&none);
            let req = s.get("required").and_then(|r| r.as_array()).cloned().unwrap_or_default();
            req.iter().all(|r| o.get(r.as_str().unwrap()).is_some_and(|x| !x.is_null()))
                && o.iter().all(|(k, x)| x.is_null() || props.get(k).is_none_or(|p| fits(spec, p, x)))
        }
        _ => true,
    }
}

impl<'a> Judge<'a> {
    pub fn new(st: &'a State, w: &'a World, spec: &'a Spec) -> Judge<'a> {
        let slack = 60 * MS + w.pauses.iter().map(|(_, d)| *d).sum::<u64>();
        Judge { st, w, spec, v: vec![], slack, seen: BTreeMap::new() }
    }

    /// The time limit of a call.
    fn limit(&self) -> u64 {
        self.st.sc.own_client.as_ref().map_or(LIMIT, |c| c.timeout_ms * MS)
    }

    pub fn bad(&mut self, props: &[&str], rule: &str, op: u32, msg: String) {
        self.bad_sig(props, rule, op, msg, String::new())
    }

    pub fn bad_sig(&mut self, props: &[&str], rule: &str, op: u32, msg: String, sig: String) {
        if self.v.iter().filter(|v| v.rule == rule).count() < 3 {
            self.v.push(Viol { props: props.iter().map(|p| p.to_string()).collect(), rule: rule.into(), op, msg, sig })
        }
    }

    pub fn see(&mut self, k: impl Into<String>) {
        *self.seen.entry(k.into()).or_default() += 1;
    }

    pub fn run(&mut self) {
        if let Some(c) = &self.st.sc.own_client {
            self.see(format!("the caller's own HTTP client, limit {} s", c.timeout_ms / 1000));
        }
        for p in &self.st.panics {
            // Panics in the harness itself are not the code's.
            if (p.contains("sim/src/") || p.contains("sim/core/")) && !p.contains("../build/generated") && !p.contains("packagings.rs") {
                crate::run::harness(format!("panic in the harness: {p}"));
            }
        }
        for p in self.st.panics.clone() {
            let op = self.st.outs.iter().find(|o| o.panicked.is_some()).map(|o| o.op).unwrap_or(0);
            self.bad(&["C04", "C16"], "panic", op, format!("a panic: {p}"));
        }
        if let Some(s) = self.w.stuck.clone() {
            let open: Vec<u32> =
                self.st.outs.iter().filter(|o| o.started && !o.done && !o.cancelled && o.panicked.is_none()).map(|o| o.op).collect();
            self.bad(&["C12", "C04"], "hang", open.first().copied().unwrap_or(0), format!("{s}; unfinished calls: {open:?}"));
        }
        // Requests that belong to no call.
        let ids: Vec<u32> = self.st.plans.iter().map(|o| o.id).collect();
        for r in &self.w.server.reqs {
            if r.op.is_none_or(|o| !ids.contains(&o)) {
                let m = format!("the server got a request of no call: {} {}", r.method, r.target);
                self.bad(&["C08", "C06"], "stray_request", 0, m);
            }
        }
        for rec in 0..self.st.outs.len() {
            self.one(rec);
        }
    }

    pub fn reqs(&self, op: u32) -> Vec<&'a ReqRec> {
        self.w.server.reqs.iter().filter(|r| r.op == Some(op)).collect()
    }

    fn one(&mut self, rec: usize) {
        let o: &'a Out = &self.st.outs[rec];
        let p: &'a Op = &self.st.plans[rec];
        if !o.started {
            if !self.reqs(p.id).is_empty() {
                self.bad(&["C08"], "request_before_call", p.id, "a request of a call that never started".into());
            }
            return;
        }
        let (variant, name) = split_call(&p.call);
        for (rule, m) in &o.local {
            let prop = rule[..3].to_string();
            self.bad(&[&prop], rule, p.id, m.clone());
        }
        let recovery = self.st.recovery_rec == Some(rec);
        self.see(format!("outcome {}", if o.cancelled { "cancelled" } else { &o.kind }));
        for r in self.reqs(p.id) {
            if let Some(b) = &r.bad {
                self.bad(&["C06", "C07"], "malformed_request", p.id, b.clone());
            }
        }
        if variant == "cli" {
            return crate::oracle_cli::judge(self, rec);
        }
        if variant == "dir" {
            self.direct(rec, o, p, name);
        } else {
            let op = &self.spec.ops[base_name(name)];
            self.requests(rec, o, p, variant, name, op);
            if is_hooked(variant) {
                self.hooks(o, p, name);
            }
            if name.ends_with("_stream") {
                self.pages(o, p, variant, op);
            } else {
                self.single(o, p, variant, op);
            }
        }
        self.error_views(o, p);
        if recovery && o.done && (o.kind != "ok" || !matches!(&o.value, Some(v) if v["id"] == 77)) && !name.starts_with("path") {
            let m = format!(
                "after all faults ended, a call to the healthy server gave {} {:?}",
                o.kind,
                o.err.as_ref().map(|e| &e.alternate)
            );
            self.bad(&["C12", "C11"], "no_recovery", p.id, m);
        }
        if recovery && name == "path" && o.done && o.kind != "ok" {
            self.bad(&["C12"], "no_recovery", p.id, format!("after all faults ended, a call gave {}", o.kind));
        }
    }

    // ------------------------------------------------------------ requests

    /// The request that the arguments ask for (`page` > 0: a later page).
    pub fn want(&self, op: &Operation, args: &Value, page: Option<(usize, &str)>) -> WantReq {
        let get = |k: &str| args.get(k).filter(|v| !v.is_null());
        let mut path_args = vec![];
        let segs = template(&op.path)
            .into_iter()
            .map(|seg| {
                let mut out: Vec<Result<String, String>> = vec![];
                for piece in seg {
                    match piece {
                        Ok(l) => out.push(Ok(l)),
                        Err(n) => {
                            let v = get(&n).cloned().unwrap_or(Value::Null);
                            let p = op.params.iter().find(|p| p.name == n && p.place == In::Path).unwrap();
                            let t = match &v {
                                Value::String(s) => s.clone(),
                                v => v.to_string(),
                            };
                            path_args.push(t.clone());
                            if p.schema.get("format").and_then(|f| f.as_str()) == Some("date-time") {
                                out.push(Err(t));
                            } else {
                                out.push(Ok(t));
                            }
                        }
                    }
                }
                out
            })
            .collect();
        let mut query = Some(vec![]);
        let mut headers = vec![("api-version".to_string(), self.spec.version.clone().into_bytes())];
        let mut absent = vec![];
        for p in &op.params {
            match p.place {
                In::Path => {}
                In::Query => {
                    let v = match page {
                        Some((n, tok)) if p.name == "page_token" => {
                            if n == 0 {
                                None
                            } else {
                                Some(Value::String(tok.to_string()))
                            }
                        }
                        Some((n, _)) if n > 0 && p.name != "limit" => None,
                        _ => get(&p.name).cloned(),
                    };
                    if let (Some(v), Some(q)) = (v, query.as_mut()) {
                        if flat(&p.name, &v, q).is_none() {
                            query = None;
                        }
                    }
                }
                In::Header => {
                    if p.name == "x-op" {
                        continue;
                    }
                    match get(&p.name) {
                        None => absent.push(p.name.clone()),
                        Some(Value::String(s)) => headers.push((p.name.clone(), s.clone().into_bytes())),
                        Some(v) => headers.push((p.name.clone(), v.to_string().into_bytes())),
                    }
                }
            }
        }
        WantReq { method: op.method.clone(), segs, query, headers, absent, path_args }
    }

    fn same_instant(a: &str, b: &str) -> bool {
        let p = |s: &str| {
            chrono::DateTime::parse_from_rfc3339(&s.replacen(' ', "T", 1).replace(" UTC", "Z")).ok().map(|d| d.timestamp_nanos_opt())
        };
        matches!((p(a), p(b)), (Some(x), Some(y)) if x == y)
    }

    /// Checks a request's target and headers against the arguments.
    pub fn check_target(&mut self, id: u32, r: &ReqRec, w: &WantReq, extra_q: &[(String, Want)], extra_h: &[(String, Vec<u8>)]) {
        let P: &[&str] = &["C06"];
        if r.method != w.method {
            self.bad(P, "method", id, format!("method {} instead of {}", r.method, w.method));
        }
        let (path, query) = match r.target.split_once('?') {
            Some((p, q)) => (p, Some(q)),
            None => (r.target.as_str(), None),
        };
        let base = self.st.sc.base_path.as_str();
        // The recorded finding: URL parsing removes dot segments, and does nothing else.
        let dots = w.path_args.iter().any(|a| a == "." || a == "..");
        let sig = if dots && without_dots(base, &w.segs) == path.split('/').skip(1).map(|s| pct(s.as_bytes(), false)).collect::<Vec<_>>() {
            "dot segment as path argument"
        } else {
            ""
        };
        match path.strip_prefix(base).and_then(|p| p.strip_prefix('/')) {
            None => {
                let m = format!("the target {:?} is not under the base path {base:?}", r.target);
                self.bad_sig(P, "path", id, m, sig.into())
            }
            Some(rest) => {
                let got: Vec<Vec<u8>> = rest.split('/').map(|s| pct(s.as_bytes(), false)).collect();
                let show_want = || {
                    w.segs
                        .iter()
                        .map(|s| s.iter().map(|p| p.clone().unwrap_or_else(|e| e)).collect::<String>())
                        .collect::<Vec<_>>()
                };
                let mut ok = got.len() == w.segs.len();
                if ok {
                    for (g, s) in got.iter().zip(&w.segs) {
                        ok &= match s.as_slice() {
                            [Err(t)] => Self::same_instant(&String::from_utf8_lossy(g), t),
                            s => {
                                let t: String = s.iter().map(|p| p.clone().unwrap_or_else(|e| e)).collect();
                                t.as_bytes() == g.as_slice()
                            }
                        };
                    }
                }
                if !ok {
                    let m = format!(
                        "the server got the path {path:?}, whose decoded segments are {:?}; the arguments make {:?}",
                        got.iter().map(|g| String::from_utf8_lossy(g).to_string()).collect::<Vec<_>>(),
                        show_want()
                    );
                    self.bad_sig(P, "path", id, m, sig.into());
                }
            }
        }
        if let Some(q) = &w.query {
            let mut q = q.clone();
            q.extend(extra_q.iter().cloned());
            let got = pairs(query.unwrap_or("").as_bytes());
            if let Some(d) = pairs_diff(&q, &got) {
                self.bad(&["C06"], "query", id, format!("query {:?}: {d}", query.unwrap_or("")));
            }
        } else {
            self.bad(P, "unrepresentable_sent", id, format!("arguments without a flat form were sent as {:?}", r.target));
        }
        // What the caller's own HTTP client adds, where the request has no such header.
        let mut extra_h = extra_h.to_vec();
        for (n, v) in self.st.sc.own_client.iter().flat_map(|c| &c.headers) {
            if w.headers.iter().all(|(k, _)| k != n) && extra_h.iter().all(|(k, _)| k != n) {
                extra_h.push((n.clone(), v.clone().into_bytes()));
            }
        }
        let over: Vec<&String> = extra_h.iter().map(|(n, _)| n).collect();
        for (n, v) in w.headers.iter().filter(|(n, _)| !over.contains(&n)).chain(&extra_h) {
            let got: Vec<&Vec<u8>> = r.headers.iter().filter(|(k, _)| k == n).map(|(_, v)| v).collect();
            if got.len() != 1 || got[0] != v {
                let g: Vec<String> = got.iter().map(|b| show(b)).collect();
                self.bad(P, "header", id, format!("header {n}: the caller gave {}, the server got {g:?}", show(v)));
            }
        }
        for n in &w.absent {
            if r.headers.iter().any(|(k, _)| k == n) && !over.contains(&n) {
                self.bad(P, "header", id, format!("header {n} was sent although the caller gave none"));
            }
        }
        for (k, _) in &r.headers {
            if k.starts_with("x-") && k != "x-op" && !w.headers.iter().chain(&extra_h).any(|(n, _)| n == k) && !w.absent.contains(k) {
                self.bad(P, "header", id, format!("unexpected header {k}"));
            }
        }
    }

    fn content_type(&mut self, id: u32, r: &ReqRec, want: &str) {
        let got: Vec<String> = r
            .headers
            .iter()
            .filter(|(k, _)| k == "content-type")
            .map(|(_, v)| String::from_utf8_lossy(v).trim().to_ascii_lowercase())
            .collect();
        if got != [want] {
            self.bad(&["C07"], "content_type", id, format!("content type {got:?} instead of {want}"));
        }
    }

    pub fn requests(&mut self, rec: usize, o: &'a Out, p: &'a Op, variant: &str, name: &str, op: &Operation) {
        let id = p.id;
        let reqs = self.reqs(id);
        let paged = name.ends_with("_stream");
        let repeats = if p.args.get("repeat").and_then(|v| v.as_bool()).unwrap_or(false) && is_builder(variant) { 2 } else { 1 };
        let complete = reqs.iter().filter(|r| r.complete).count();
        if !paged && complete > repeats {
            self.bad(&["C08"], "too_many_requests", id, format!("{complete} complete requests of one call"));
        }
        let answered = matches!(o.kind.as_str(), "ok" | "error_response" | "unexpected" | "invalid_payload" | "response_body" | "invalid_upgrade");
        if !paged && answered && reqs.is_empty() {
            self.bad(&["C08", "C04"], "response_without_request", id, format!("the call ended with {} without any request", o.kind));
        }
        // Local rejection.
        let rej = self.rejects(variant, op, &p.args);
        if let Some(rej) = &rej {
            if !reqs.is_empty() {
                self.bad(&["C08", "C06"], "rejected_but_sent", id, format!("sent although {:?} cannot be represented: {}", rej.names, reqs[0].target));
            } else if o.done && !paged && o.panicked.is_none() {
                if o.kind != "invalid_request" {
                    self.bad(&["C08", "C06"], "rejection_kind", id, format!("arguments {:?} are invalid, the call ended with {}", rej.names, o.kind));
                } else {
                    let t = &o.err.as_ref().unwrap().inner;
                    if !rej.names.iter().any(|n| t.contains(&rust_name(n)) || t.contains(n.as_str())) && !t.contains("header value") {
                        self.bad(&["C08"], "rejection_cause", id, format!("{:?} invalid, but the message is {t:?}", rej.names));
                    }
                }
            }
            self.see("rejected locally");
            return;
        }
        if o.done && o.kind == "invalid_request" {
            let t = o.err.as_ref().map(|e| e.inner.clone()).unwrap_or_default();
            self.bad(&["C08", "C06", "C04", "C07"], "spurious_rejection", id, format!("valid arguments were rejected: {t}"));
            return;
        }
        let hook = |k: &str| p.args.get("hooks").and_then(|h| h.get("pre")).and_then(|h| h.get(k)).cloned();
        let (mut extra_q, mut extra_h): (Vec<(String, Want)>, Vec<(String, Vec<u8>)>) = (vec![], vec![]);
        let mut hook_body = None;
        if is_hooked(variant) {
            if let Some(Value::Array(a)) = hook("query") {
                for x in a {
                    extra_q.push((x[0].as_str().unwrap().into(), Want::Text(x[1].as_str().unwrap().into())));
                }
            }
            if let Some(Value::Array(a)) = hook("set") {
                for x in a {
                    let n = x[0].as_str().unwrap().to_string();
                    extra_h.retain(|(k, _)| *k != n);
                    extra_h.push((n, x[1].as_str().unwrap().as_bytes().to_vec()));
                }
            }
            hook_body = hook("body").and_then(|b| b.as_str().map(|s| s.as_bytes().to_vec()));
        }
        let before = self.v.len();
        let mut token = String::new();
        for (n, r) in reqs.iter().enumerate() {
            let want = if paged { self.want(op, &p.args, Some((n, &token))) } else { self.want(op, &p.args, None) };
            let at = self.v.len();
            self.check_target(id, r, &want, &extra_q, &extra_h);
            if paged {
                for v in &mut self.v[at..] {
                    v.props.push("C09".into());
                }
            }
            if repeats == 2 && n == 1 {
                for v in &mut self.v[at..] {
                    v.props.push("C11".into());
                }
            }
            if is_hooked(variant) && !(extra_h.is_empty() && extra_q.is_empty()) {
                for v in &mut self.v[at..] {
                    v.props.push("C10".into());
                }
            }
            if paged {
                token = r
                    .resp
                    .as_ref()
                    .and_then(|x| serde_json::from_slice::<Token>(&x.body).ok())
                    .and_then(|v| v.next_page)
                    .unwrap_or_default();
            }
            self.body(rec, o, p, op, r, hook_body.as_deref());
        }
        if repeats == 2 && reqs.len() == 2 && self.v.len() == before && reqs[0].complete && reqs[1].complete {
            let (a, b) = (reqs[0], reqs[1]);
            let h = |r: &ReqRec| {
                let mut v: Vec<_> = r.headers.iter().filter(|(k, _)| k != "sec-websocket-key" && k != "connection").cloned().collect();
                v.sort();
                v
            };
            if (&a.method, &a.target, &a.body) != (&b.method, &b.target, &b.body) || h(a) != h(b) {
                self.bad(&["C11"], "repeat_differs", id, format!("the repeated call sent {} {} {:?} {}, the first {} {} {:?} {}", b.method, b.target, h(b), show(&b.body), a.method, a.target, h(a), show(&a.body)));
            }
        }
    }

    fn body(&mut self, _rec: usize, o: &Out, p: &Op, op: &Operation, r: &ReqRec, hook_body: Option<&[u8]>) {
        let id = p.id;
        const P: &[&str] = &["C07"];
        let Some((ct, _)) = &op.body else {
            if hook_body.is_none() && (!r.body.is_empty() || r.headers.iter().any(|(k, _)| k == "content-type")) {
                self.bad(P, "unexpected_body", id, format!("an operation without a body sent {}", show(&r.body)));
            }
            return;
        };
        self.content_type(id, r, ct);
        if o.body_failed && r.complete {
            self.bad(P, "failed_body_complete", id, "the caller's body stream failed, yet the server has a complete request".into());
        }
        if let Some(h) = hook_body {
            if r.complete && r.body != h {
                self.bad(&["C10"], "hook_body", id, format!("the hook's body {} arrived as {}", show(h), show(&r.body)));
            }
            return;
        }
        match ct.as_str() {
            "application/json" => {
                if !r.complete {
                    return;
                }
                let want = match strip_nulls(&p.args["body"]) {
                    Value::Null => serde_json::json!({}),
                    v => v,
                };
                match serde_json::from_slice::<Value>(&r.body) {
                    Ok(v) if same_json(&strip_nulls(&v), &want) => {}
                    Ok(v) => self.bad(P, "json_body", id, format!("the caller gave {want}, the server got {v}")),
                    Err(e) => self.bad(P, "json_body", id, format!("the server cannot decode the body {}: {e}", show(&r.body))),
                }
            }
            "application/x-www-form-urlencoded" => {
                if !r.complete {
                    return;
                }
                let mut want = vec![];
                let _ = flat("", &p.args["body"], &mut want);
                if let Some(d) = pairs_diff(&want, &pairs(&r.body)) {
                    self.bad(P, "form_body", id, format!("form {}: {d}", show(&r.body)));
                }
            }
            _ => {
                let Some(want) = &o.sent_body else { return };
                let n = r.body.len();
                let ok = if r.complete { r.body == *want } else { n <= want.len() && r.body[..] == want[..n] };
                if !ok {
                    let d = first_diff(&r.body, want);
                    let m = format!(
                        "the caller's body has {} bytes, the server got {} ({}complete), first difference at {d}",
                        want.len(),
                        n,
                        if r.complete { "" } else { "in" }
                    );
                    // The recorded finding: hyper drops a body of unknown length towards an HTTP/1.0 peer.
                    let old = r.version == "HTTP/1.0" && r.body_framing == ReqFraming::None && p.args["body"].get("chunks").is_some();
                    self.bad_sig(P, "raw_body", id, m, if old { "streamed body to an HTTP/1.0 peer".into() } else { String::new() });
                }
            }
        }
    }

    /// The arguments for which the call must be rejected before anything is sent.
    pub fn rejects(&self, variant: &str, op: &Operation, args: &Value) -> Option<Reject> {
        let mut names = vec![];
        let bld = is_builder(variant);
        for p in &op.params {
            if p.name == "x-op" {
                continue;
            }
            let v = args.get(&p.name).filter(|v| !v.is_null());
            match v {
                None => {
                    if p.required && bld {
                        names.push(p.name.clone());
                    }
                }
                Some(v) => {
                    if bld && !fits(self.spec, &p.schema, v) {
                        names.push(p.name.clone());
                    }
                    if p.place == In::Header {
                        if let Some(s) = v.as_str() {
                            if !header_text_ok(s) {
                                names.push(p.name.clone());
                            }
                        }
                    }
                }
            }
        }
        if let (Some((ct, schema)), true) = (&op.body, bld) {
            match args.get("body").filter(|b| !b.is_null()) {
                None => {
                    // A body type that needs no field is simply empty.
                    let typed = ct == "application/json" || ct == "application/x-www-form-urlencoded";
                    let empty = typed && fits(self.spec, schema, &serde_json::json!({}));
                    if !(empty || args.get("body_map").is_some() && ct == "application/json") {
                        names.push("body".into());
                        // The message may name the first field that is missing.
                        if let Some(r) = self.spec.schema(schema).get("required").and_then(|r| r.as_array()) {
                            names.extend(r.iter().filter_map(|n| n.as_str().map(String::from)));
                        }
                    }
                }
                Some(b) => {
                    if ct == "application/json" && !fits(self.spec, schema, b) {
                        names.push("body".into());
                        if args.get("body_map").is_some() {
                            names.extend(["id", "name", "kind", "tags"].map(String::from));
                        }
                    }
                }
            }
        }
        if names.is_empty() {
            None
        } else {
            Some(Reject { names })
        }
    }

    // ------------------------------------------------------------ the wire

    pub fn rel(&self, t: u64) -> u64 {
        t.saturating_sub(T0)
    }

    /// When the client had taken in the final response head.
    fn head_at(&self, r: &ReqRec) -> Option<u64> {
        let x = r.resp.as_ref()?;
        if !x.well_formed || x.sent < x.head_end {
            return None;
        }
        let c = &self.w.conns[r.conn];
        let n = x.start + x.head_end;
        c.rx_log.iter().find(|(_, k)| *k >= n).map(|(t, _)| self.rel(*t))
    }

    /// When the client had taken in the complete response.
    pub fn body_at(&self, r: &ReqRec) -> Option<u64> {
        let x = r.resp.as_ref()?;
        let c = &self.w.conns[r.conn];
        if x.close_delim {
            if matches!(&x.exch.fault, Some((_, CutKind::Fin))) && x.sent < x.end && x.sent >= x.head_end {
                // The end of the connection is the end of the body, wherever it comes.
            } else if x.sent < x.end {
                return None;
            }
            if !c.fin_in || c.rst_in && c.eof_read_at.is_none() {
                return None;
            }
            if c.consumed < x.start + x.sent {
                return None;
            }
            return c.eof_read_at.map(|t| self.rel(t));
        }
        if x.sent < x.end || !x.well_formed {
            return None;
        }
        let n = x.start + x.end;
        c.rx_log.iter().find(|(_, k)| *k >= n).map(|(t, _)| self.rel(*t))
    }

    /// The body as it was really sent (close-delimited bodies may be cut short).
    pub fn body_of(&self, x: &Resp) -> Vec<u8> {
        if x.close_delim && x.sent < x.end {
            return x.body[..x.decoded(x.sent) as usize].to_vec();
        }
        x.body.clone()
    }

    fn sure(&self, t: Option<u64>, deadline: u64) -> Sure {
        match t {
            None => Sure::No,
            Some(t) if t + self.slack < deadline => Sure::Yes,
            Some(t) if t > deadline + self.slack => Sure::No,
            Some(_) => Sure::Maybe,
        }
    }

    /// Whether the body was there for a reader in time; a hook may hold up the reader.
    fn readable(&self, o: &Out, r: &ReqRec, deadline: u64) -> Sure {
        let there = self.sure(self.body_at(r), deadline);
        let head = self.head_at(r).unwrap_or(0);
        let held = o.hooks.iter().find(|(t, w)| *t >= head && w.starts_with("post_async_done")).map_or(0, |(t, _)| *t);
        if there == Sure::Yes && held + self.slack >= deadline {
            return Sure::Maybe;
        }
        there
    }

    /// Did anything go wrong (or close) that can explain a failed exchange?
    fn excuse(&self, from: u64, to: u64, conn: Option<usize>) -> bool {
        let back = 1000 * MS + self.slack;
        self.w.faults.iter().any(|f| {
            let t = self.rel(f.t);
            let harmless = matches!(f.kind.as_str(), "segment_lost_retransmitted" | "partition_delay" | "process_stalled" | "wall_clock_jump" | "connect_delay");
            !harmless
                && t + back >= from
                && t <= to + self.slack
                && (conn.is_none() || Some(f.conn) == conn || f.conn == usize::MAX || f.kind == "server_crash")
        })
    }

    /// Which exchange decides the outcome of a (non-paginated) call.
    pub fn single(&mut self, o: &'a Out, p: &'a Op, variant: &str, op: &Operation) {
        let id = p.id;
        if o.panicked.is_some() {
            return;
        }
        let reqs = self.reqs(id);
        let repeats = if p.args.get("repeat").and_then(|v| v.as_bool()).unwrap_or(false) && is_builder(variant) { 2 } else { 1 };
        if self.rejects(variant, op, &p.args).is_some() {
            return;
        }
        let r: Option<&ReqRec> = if repeats == 2 {
            // Which of the requests the returned outcome belongs to is known only if both arrived.
            if reqs.len() == 2 && self.rel(reqs[0].t_head) < o.t_again {
                Some(reqs[1])
            } else {
                return;
            }
        } else {
            reqs.iter().find(|r| r.complete).or(reqs.first()).copied()
        };
        let hooks = self.hook_times(o);
        let sent_at = if repeats == 2 {
            o.hooks.iter().filter(|(_, w)| w.starts_with("pre_async_done ")).nth(1).map(|(t, _)| *t).unwrap_or(o.t_again)
        } else {
            hooks.unwrap_or(o.t_start)
        };
        if o.kind == "pre_hook" || o.kind == "post_hook" {
            return; // judged with the hooks
        }
        if is_hooked(variant) && (self.hook_fails(p, "pre") || self.hook_fails(p, "post")) {
            if o.done && !(self.hook_fails(p, "post") && o.kind == "comm") {
                self.bad(&["C10", "C04"], "hook_failure_ignored", id, format!("a failing hook, yet the call ended with {}", o.kind));
            }
            return;
        }
        if !o.done {
            // Cancelled (or never ended): what it got so far must still be right.
            if let (Some(r), true) = (r, o.kind == "ok" || o.kind == "error_response") {
                self.exchange(o, p, op, r, sent_at, true);
            }
            return;
        }
        // Bounded time.
        let post_delay = if is_hooked(variant) { self.hook_delay(p, "post") } else { 0 };
        let span = o.t_ret.saturating_sub(sent_at);
        if span > self.limit() + self.slack + post_delay && repeats == 1 {
            self.bad(&["C12"], "too_late", id, format!("the call took {} ms", span / MS));
        }
        match r {
            None => {
                if o.kind != "comm" {
                    self.bad(&["C04"], "outcome_without_exchange", id, format!("no request reached the server, yet the call ended with {}", o.kind));
                } else {
                    self.comm(o, p, None, sent_at);
                }
            }
            Some(r) => self.exchange(o, p, op, r, sent_at, false),
        }
    }

    fn comm(&mut self, o: &Out, p: &Op, r: Option<&ReqRec>, sent_at: u64) {
        let Some(n) = &o.net else { return };
        let span = o.t_ret.saturating_sub(sent_at);
        self.see(format!(
            "comm error: {}",
            if n.timeout {
                "timeout"
            } else if n.connect {
                "connect"
            } else if n.builder {
                "builder"
            } else {
                "exchange"
            }
        ));
        if n.timeout {
            // The kernel's own connect timeout is also reported as a timeout.
            if span + 2 * MS < self.limit() && !self.w.faults.iter().any(|f| f.kind == "connect_timed_out") {
                self.bad(&["C04", "C12"], "early_timeout", p.id, format!("a timeout after only {} ms", span / MS));
            }
            return;
        }
        if o.body_failed {
            return;
        }
        let conn = r.map(|r| r.conn);
        if !self.excuse(sent_at, o.t_ret, conn) {
            let m = format!("a communication error without any failure on the wire: {}", o.err.as_ref().map(|e| e.alternate.clone()).unwrap_or_default());
            self.bad(&["C04"], "spurious_failure", p.id, m);
        }
    }

    /// Judges one call against the one exchange it made.
    fn exchange(&mut self, o: &'a Out, p: &'a Op, op: &Operation, r: &'a ReqRec, sent_at: u64, partial: bool) {
        let id = p.id;
        let deadline = sent_at + self.limit();
        let head = self.sure(self.head_at(r), deadline);
        let Some(x) = r.resp.as_ref().filter(|x| x.well_formed) else {
            if o.kind != "comm" {
                self.bad(&["C04"], "outcome_without_response", id, format!("the server sent no valid response, yet the call ended with {}", o.kind));
            } else {
                self.comm(o, p, Some(r), sent_at);
            }
            return;
        };
        // A request that was not (or not properly) finished may also fail on the sending side.
        let fragile = o.body_failed || (x.exch.when != When::AfterBody && r.body_framing != ReqFraming::None);
        if o.kind == "comm" {
            if head == Sure::Yes && !fragile {
                let m = format!(
                    "the complete response head ({}) arrived, yet the call ended with a communication error: {}",
                    x.exch.status,
                    o.err.as_ref().map(|e| e.alternate.clone()).unwrap_or_default()
                );
                // Of a typed response, only the body can have failed.
                let typed = class_of(op, x.exch.status);
                self.bad(if typed { &["C04", "C01"] } else { &["C04"] }, "response_lost", id, m);
            } else {
                self.comm(o, p, Some(r), sent_at);
            }
            return;
        }
        if head == Sure::No {
            self.bad(&["C04"], "outcome_without_response", id, format!("no complete response head arrived in time, yet the call ended with {}", o.kind));
            return;
        }
        let class = op.class(x.exch.status);
        self.see(format!("class {}", match &class {
            Class::Success(c, _) => format!("success {c:?}"),
            Class::Error(c, _) => format!("error {c:?}"),
            Class::Unexpected => "unexpected".into(),
        }));
        self.judge_class(o, p, class, r, x, deadline, fragile, partial);
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_class(&mut self, o: &'a Out, p: &'a Op, class: Class, r: &'a ReqRec, x: &'a Resp, deadline: u64, fragile: bool, partial: bool) {
        let id = p.id;
        let st = x.exch.status;
        let body_t = self.readable(o, r, deadline);
        let wrong = |j: &mut Self, want: &str| {
            let mut props = vec!["C04"];
            if matches!(class, Class::Success(Carrier::Upgraded, _)) || o.carrier == "upgraded" || p.args.get("tunnel").is_some() {
                props.push("C03");
            }
            if matches!(class, Class::Success(Carrier::Json, _) | Class::Error(Carrier::Json, _)) && matches!(o.kind.as_str(), "invalid_payload" | "response_body" | "ok" | "error_response") {
                props.push("C01");
            }
            if matches!(class, Class::Success(Carrier::Raw, _) | Class::Error(Carrier::Raw, _)) {
                props.push("C02");
            }
            let m = format!(
                "status {st} is documented as {want}, but the call ended with {} ({:?} {})",
                o.kind,
                o.status,
                o.err.as_ref().map(|e| e.display.chars().take(200).collect::<String>()).unwrap_or_default()
            );
            j.bad(&props, "wrong_outcome", id, m);
        };
        match &class {
            Class::Unexpected => {
                if o.kind != "unexpected" {
                    return wrong(self, "nothing");
                }
                let e = o.err.as_ref().unwrap();
                self.status_headers(o, p, x, e.rv_status, &e.rv_headers);
                if o.status.is_some() {
                    self.status_headers(o, p, x, o.status, &o.headers);
                }
                match &o.unexpected_body {
                    None => {}
                    Some(Ok(b)) => {
                        let want = self.body_of(x);
                        if body_t == Sure::No {
                            self.bad(&["C04", "C02"], "unexpected_body_short", id, format!("the body of the unexpected response read as complete, but it never arrived completely ({} of {} bytes)", b.len(), want.len()));
                        } else if *b != want {
                            let d = first_diff(b, &want);
                            self.bad(&["C04", "C03"], "unexpected_body", id, format!("the unexpected response's body differs at byte {d}: {} instead of {}", show(&b[d.min(b.len())..]), show(&want[d.min(want.len())..])));
                        }
                    }
                    Some(Err(e)) => {
                        // It is read once the call has ended.
                        if body_t == Sure::Yes && !fragile && o.t_ret + self.slack < deadline {
                            self.bad(&["C04", "C03"], "unexpected_body_lost", id, format!("the unexpected response's body arrived completely but cannot be read: {}", e.text));
                        }
                    }
                }
            }
            Class::Success(c, _) | Class::Error(c, _) => {
                let success = matches!(class, Class::Success(..));
                let want_kind = if success { "ok" } else { "error_response" };
                match c {
                    Carrier::Json => self.typed(o, p, success, r, x, body_t, fragile, &wrong),
                    _ => {
                        if o.kind != want_kind {
                            if c == &Carrier::Upgraded && o.kind == "invalid_upgrade" {
                                self.see("upgrade failed");
                                if !self.excuse(self.head_at(r).unwrap_or(0), o.t_ret, Some(r.conn)) {
                                    self.bad(&["C03"], "upgrade_failed", id, format!("the upgrade failed without cause: {}", o.err.as_ref().unwrap().alternate));
                                }
                                return;
                            }
                            return wrong(self, if success { "a success" } else { "an error" });
                        }
                        self.status_headers(o, p, x, o.status, &o.headers);
                        match c {
                            Carrier::Raw => {
                                if let Some(s) = &o.stream {
                                    self.stream(p, s, r, x, deadline, fragile, body_t, partial, o);
                                }
                            }
                            Carrier::Upgraded => {
                                if let Some(t) = &o.tunnel {
                                    self.tunnel(o, p, t, r, x, partial)
                                }
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn typed(&mut self, o: &'a Out, p: &'a Op, success: bool, r: &ReqRec, x: &Resp, body_t: Sure, fragile: bool, wrong: &dyn Fn(&mut Self, &str)) {
        let id = p.id;
        let body = self.body_of(x);
        let dec = if success { o.decode_ok } else { o.decode_err };
        let Some(dec) = dec else { return };
        let want_kind = if success { "ok" } else { "error_response" };
        if !matches!(o.kind.as_str(), "response_body" | "invalid_payload") && o.kind != want_kind {
            return wrong(self, if success { "a success" } else { "an error" });
        }
        let decoded = dec(&body);
        match (o.kind.as_str(), body_t) {
            ("response_body", Sure::Yes) if !fragile => {
                let m = format!("the whole body ({} bytes) arrived, yet reading it failed: {}", body.len(), o.err.as_ref().unwrap().alternate);
                self.bad(&["C01", "C04"], "body_error_though_complete", id, m);
            }
            ("response_body", _) => {
                // Needs a reason: a fault, or the time limit.
                let n = o.net.as_ref().unwrap();
                if !n.timeout && !self.excuse(0, o.t_ret, Some(r.conn)) && x.well_formed && x.sent >= x.end && !fragile {
                    self.bad(&["C01", "C04"], "spurious_body_error", id, format!("a body error without any failure on the wire: {}", n.text));
                }
            }
            (k, Sure::No) => {
                let got = x.decoded(self.w.conns[r.conn].consumed.saturating_sub(x.start));
                self.bad(&["C01", "C04"], "value_from_partial_body", id, format!("only {got} of {} body bytes arrived, yet the call ended with {k}", body.len()));
            }
            ("invalid_payload", _) => {
                let e = o.err.as_ref().unwrap();
                if let Ok(v) = &decoded {
                    let m = format!("the body {} is a valid document ({v}), yet the call ended with: {}", show(&body), e.inner);
                    self.bad(&["C01"], "valid_document_refused", id, m);
                }
                if e.payload.as_deref() != Some(&body[..]) {
                    let g = e.payload.as_deref().unwrap_or(b"");
                    let d = first_diff(g, &body);
                    let m = format!("the invalid-payload error carries {} bytes, the server sent {}; first difference at {d}", g.len(), body.len());
                    self.bad(&["C01"], "payload_bytes", id, m);
                }
            }
            (_, _) => match decoded {
                Err(e) => {
                    let m = format!("the body {} is not one document of the documented type ({e}), yet the call handed over {:?}", show(&body), o.value);
                    self.bad(&["C01"], "invalid_document_accepted", id, m);
                }
                Ok(v) => {
                    self.status_headers(o, p, x, o.status, &o.headers);
                    if let Some(got) = &o.value {
                        if *got != v {
                            let m = format!("the server sent {}, the caller got {}", show(&body), show(got.to_string().as_bytes()));
                            let mut props = vec!["C01"];
                            if self.foreign(p.id, got) {
                                props.push("C11");
                            }
                            self.bad(&props, "value", id, m);
                        }
                    } else if o.done && o.carrier == "json" {
                        self.bad(&["C01"], "value", id, "no value was handed over".into());
                    }
                }
            },
        }
        if matches!(o.kind.as_str(), "response_body" | "invalid_payload") && (o.value.is_some() || o.status.is_some()) {
            self.bad(&["C01"], "value_with_error", id, "a value although the call failed".into());
        }
    }

    /// Is this the value of another call's exchange?
    fn foreign(&self, id: u32, v: &Value) -> bool {
        self.w.server.reqs.iter().any(|r| {
            r.op != Some(id)
                && r.resp.as_ref().is_some_and(|x| serde_json::from_slice::<Value>(&x.body).is_ok_and(|b| same_json(&b, v)))
        })
    }

    fn status_headers(&mut self, o: &Out, p: &Op, x: &Resp, status: Option<u16>, headers: &[(String, Vec<u8>)]) {
        let id = p.id;
        let st = x.exch.status;
        let mut props = vec!["C05"];
        if o.carrier == "upgraded" {
            props.push("C03");
        }
        if o.kind == "unexpected" {
            props.push("C04");
        }
        if status != Some(st) {
            if !props.contains(&"C04") {
                props.push("C04");
            }
            self.bad(&props, "status", id, format!("the server sent status {st}, the caller got {status:?}"));
        }
        let group = |h: &[(String, Vec<u8>)]| {
            let mut m: BTreeMap<String, Vec<Vec<u8>>> = BTreeMap::new();
            for (k, v) in h {
                m.entry(k.to_ascii_lowercase()).or_default().push(v.clone());
            }
            m
        };
        let (want, got) = (group(&x.headers), group(headers));
        if want != got {
            let mut d = vec![];
            for k in want.keys().chain(got.keys()) {
                if want.get(k) != got.get(k) {
                    let f = |m: Option<&Vec<Vec<u8>>>| m.map(|v| v.iter().map(|b| show(b)).collect::<Vec<_>>());
                    d.push(format!("{k}: sent {:?}, got {:?}", f(want.get(k)), f(got.get(k))));
                }
            }
            d.dedup();
            self.bad(&props, "headers", id, format!("header fields differ: {}", d.join("; ")));
        }
        // The accessor (on the same header fields).
        if let Some(cl) = o.content_length {
            let vals: Vec<&Vec<u8>> = x.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("content-length")).map(|(_, v)| v).collect();
            let allowed: Vec<Option<u64>> = match vals.as_slice() {
                [] => vec![None],
                [v] => vec![content_length(v)],
                [v, ..] => vec![content_length(v), None],
            };
            if !allowed.contains(&cl) {
                let t: Vec<String> = vals.iter().map(|b| show(b)).collect();
                let sig = match vals.first() {
                    Some(v) if v.first() == Some(&b'+') => "content-length with a plus sign",
                    _ => "",
                };
                self.bad_sig(&["C05"], "content_length", id, format!("content-length fields {t:?}: the accessor gives {cl:?}"), sig.into());
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn stream(&mut self, p: &Op, s: &StreamLog, r: &ReqRec, x: &Resp, deadline: u64, fragile: bool, body_t: Sure, partial: bool, o: &Out) {
        let id = p.id;
        const P: &[&str] = &["C02"];
        let body = self.body_of(x);
        let n = s.data.len();
        self.see(format!("stream end {}", if s.end.is_empty() { "unfinished" } else { &s.end }));
        if n > body.len() || s.data[..] != body[..n] {
            let d = first_diff(&s.data, &body);
            let mut props = vec!["C02"];
            if self.w.server.reqs.iter().any(|q| q.op != Some(id) && q.resp.as_ref().is_some_and(|y| y.body.len() > 8 && y.body.starts_with(&s.data[..n.min(16)]))) {
                props.push("C11");
            }
            let m = format!("the stream yielded {n} bytes of a body of {}; first difference at {d}: got {}, sent {}", body.len(), show(&s.data[d.min(n)..]), show(&body[d.min(body.len())..]));
            self.bad(&props, "stream_bytes", id, m);
            return;
        }
        match s.end.as_str() {
            "clean" => {
                if n < body.len() || body_t == Sure::No {
                    self.bad(P, "stream_short_clean_end", id, format!("the stream ended cleanly after {n} of {} bytes", body.len()));
                }
            }
            "error" => {
                let e = s.err.as_ref().unwrap();
                let late = s.t_end + 2 * MS >= deadline;
                if !late && body_t == Sure::Yes && !fragile {
                    self.bad(P, "stream_error_though_complete", id, format!("the whole body arrived, yet the stream failed after {n} of {} bytes: {}", body.len(), e.text));
                } else if !late && !self.excuse(0, s.t_end, Some(r.conn)) && !fragile {
                    self.bad(P, "stream_spurious_error", id, format!("the stream failed without any failure on the wire: {}", e.text));
                }
                if e.timeout && !late {
                    self.bad(&["C02", "C12"], "stream_early_timeout", id, format!("a timeout after {} ms", s.t_end.saturating_sub(deadline - self.limit()) / MS));
                }
            }
            _ => {
                if !partial && o.done && s.end != "dropped" {
                    self.bad(P, "stream_unfinished", id, "the stream was left without an end".into());
                }
            }
        }
        // Availability and time limits of each item.
        let c = &self.w.conns[r.conn];
        let mut before = 0;
        let small = 20 * MS + (self.slack - 60 * MS);
        let mut arrive = c.arrive_log.iter().peekable();
        for (t0, t, total) in &s.items {
            while let Some((_, a)) = arrive.peek() {
                if *a > x.start && x.decoded(a - x.start) > before as u64 {
                    break;
                }
                arrive.next();
            }
            let ready = match arrive.peek() {
                Some((ta, _)) => self.rel(*ta).max(*t0),
                None => u64::MAX / 2,
            };
            if *t > ready + small {
                self.bad(P, "stream_delayed", id, format!("byte {before} arrived at {} ms, the waiting consumer got it at {} ms", ready / MS, t / MS));
                break;
            }
            if *t > deadline.max(*t0) + self.slack {
                self.bad(&["C12"], "stream_item_late", id, format!("an item after {} ms", (t - (deadline - self.limit())) / MS));
                break;
            }
            before = *total;
        }
        if s.end == "error" {
            // What had arrived while the consumer waited for the item that became the error.
            let at = arrive.find(|(_, a)| *a > x.start && x.decoded(a - x.start) > before as u64).map(|(t, _)| self.rel(*t));
            if let Some(t) = at.filter(|t| s.t_end > (*t).max(s.t_wait) + small) {
                let m = format!("byte {before} arrived at {} ms, yet the waiting consumer got an error at {} ms instead", t / MS, s.t_end / MS);
                self.bad(P, "stream_delayed", id, m);
            }
        }
        if s.end == "clean" || s.end == "error" {
            if s.t_end > deadline.max(s.t_wait) + self.slack {
                self.bad(&["C12"], "stream_end_late", id, format!("the stream ended {} ms after the call began", (s.t_end - (deadline - self.limit())) / MS));
            }
        }
        if s.end == "clean" && s.t_end < deadline {
            // The end must be as available as the bytes.
            if let Some(b) = self.body_at(r) {
                if s.t_end > b.max(s.t_wait) + small {
                    self.bad(P, "stream_delayed", id, "the end of the stream was reported late".into());
                }
            }
        }
    }

    fn tunnel(&mut self, _o: &Out, p: &Op, t: &TunnelLog, r: &ReqRec, x: &Resp, partial: bool) {
        let id = p.id;
        const P: &[&str] = &["C03"];
        let c = &self.w.conns[r.conn];
        let out = &x.tunnel_out;
        self.see(format!("tunnel end {}", if t.end.is_empty() { "unfinished" } else { &t.end }));
        let n = t.got.len();
        if n > out.len() || t.got[..] != out[..n] {
            let d = first_diff(&t.got, out);
            self.bad(P, "tunnel_bytes_in", id, format!("the server wrote {} bytes, the client read {n}; first difference at {d}: {} instead of {}", out.len(), show(&t.got[d.min(n)..]), show(&out[d.min(out.len())..])));
            return;
        }
        let sin = &c.srv.tunnel_bytes;
        if sin.len() > t.written.len() || t.written[..sin.len()] != sin[..] {
            let d = first_diff(sin, &t.written);
            self.bad(P, "tunnel_bytes_out", id, format!("the client wrote {} bytes, the server read {}; first difference at {d}", t.written.len(), sin.len()));
            return;
        }
        let fault = self.w.faults.iter().any(|f| {
            (f.conn == r.conn || f.conn == usize::MAX) && !matches!(f.kind.as_str(), "segment_lost_retransmitted" | "partition_delay" | "process_stalled" | "wall_clock_jump" | "connect_delay" | "close")
        });
        let emitted = c.emitted.saturating_sub(x.start + x.tunnel_start) as usize;
        match t.end.as_str() {
            "eof" => {
                if c.srv.half || c.srv.closed {
                    if n < emitted.min(out.len()) && !fault {
                        self.bad(P, "tunnel_early_eof", id, format!("end of stream after {n} of the {} bytes the server sent", emitted));
                    }
                } else if !fault {
                    self.bad(P, "tunnel_false_eof", id, format!("end of stream after {n} bytes, but the server has not ended its side"));
                }
            }
            "error" => {
                if !fault {
                    self.bad(P, "tunnel_spurious_error", id, format!("the tunnel failed without any failure on the wire: {}", t.err));
                }
            }
            _ => {
                // Bytes that arrived while the client was still reading must have been handed over.
                let late = 20 * MS + (self.slack - 60 * MS);
                let gap = p.args.get("tunnel").and_then(|t| t.get("read_gap_us")).and_then(|v| v.as_u64()).unwrap_or(0);
                if !partial && gap == 0 {
                    let due = c
                        .arrive_log
                        .iter()
                        .take_while(|(ta, _)| self.rel(*ta) + late < t.t_end)
                        .last()
                        .map(|(_, a)| a.saturating_sub(x.start + x.tunnel_start))
                        .unwrap_or(0);
                    if (n as u64) < due.min(out.len() as u64) {
                        self.bad(P, "tunnel_withheld", id, format!("{due} bytes had arrived, the reading client got {n}"));
                    }
                }
            }
        }
        // Everything the client wrote and flushed reaches the server on a sound connection.
        let clean = !fault && !c.srv.stops_reading() && t.write_err.is_empty() && c.consumed >= c.arrived && !partial && self.w.server.rate.every_us == 0;
        if clean && !c.srv.dead && c.backlog.is_empty() && c.consumed == c.emitted && sin.len() < t.written.len() {
            self.bad(P, "tunnel_lost_out", id, format!("the client wrote {} bytes, only {} reached the server", t.written.len(), sin.len()));
        }
        if !t.write_err.is_empty() && !fault && !c.srv.half && !c.srv.closed {
            self.bad(P, "tunnel_write_error", id, format!("writing failed without cause: {}", t.write_err));
        }
    }

    // ------------------------------------------------------------ pagination

    pub fn pages(&mut self, o: &'a Out, p: &'a Op, variant: &str, op: &Operation) {
        let id = p.id;
        const P: &[&str] = &["C09"];
        if o.panicked.is_some() {
            return;
        }
        let reqs = self.reqs(id);
        let got = &o.items;
        if let Some(rej) = self.rejects(variant, op, &p.args) {
            if !o.done || got.is_empty() && o.items_end == "dropped" {
                return;
            }
            match got.first() {
                Some((_, Err(e))) if e.kind == "invalid_request" => {
                    if got.len() != 1 {
                        self.bad(&["C08", "C09"], "items_after_rejection", id, format!("{} items", got.len()));
                    }
                    if !rej.names.iter().any(|n| e.inner.contains(&rust_name(n)) || e.inner.contains(n.as_str())) && !e.inner.contains("header value") {
                        self.bad(&["C08"], "rejection_cause", id, format!("{:?} invalid, but the message is {:?}", rej.names, e.inner));
                    }
                }
                g => {
                    let m = format!("arguments {:?} are invalid, the stream yielded {g:?}", rej.names);
                    self.bad(&["C08", "C09"], "rejection_kind", id, m);
                }
            }
            return;
        }
        if bad_args(&p.args) {
            return;
        }
        // Walk through the pages as the server served them.
        let mut i = 0; // items accounted for
        let mut ended = false;
        let mut err: Option<&ErrView> = None;
        let hooked = is_hooked(variant);
        let mut last_t = o.t_start;
        let mut prev_done = 0;
        let mut n = 0;
        loop {
            // A page is requested when the consumer asks for item i.
            let asked = o.items_wait.get(i).copied();
            let Some(asked) = asked else { break };
            // A hook may hold it up or stop it.
            let r = reqs.get(n).copied();
            if let Some(r) = r {
                if self.rel(r.t_head) < asked {
                    let m = format!("page {n} was requested at {} us, before the consumer asked for item {i} at {} us", self.rel(r.t_head) / 1000, asked / 1000);
                    self.bad(P, "page_too_early", id, m);
                    return;
                }
            }
            // The request is sent once the pre-hooks are done, or (without hooks) when the consumer
            // asks and the page before, if it was empty, is complete.
            let sent_at = if hooked {
                o.hooks.iter().filter(|(_, w)| w.starts_with("pre_async_done ")).nth(n).map(|(t, _)| *t).unwrap_or(asked)
            } else {
                asked.max(prev_done)
            };
            let deadline = sent_at + self.limit();
            let pre_failed = hooked && self.hook_fails_at(p, "pre", n);
            let post_failed = hooked && self.hook_fails(p, "post");
            let decoded = |j: &Self, r: &'a ReqRec| -> Option<(Value, Sure)> {
                let x = r.resp.as_ref().filter(|x| x.well_formed)?;
                if !matches!(op.class(x.exch.status), Class::Success(Carrier::Json, _)) {
                    return None;
                }
                let b = j.body_of(x);
                let v = crate::oracle_cli::decode_for("thing_list", true).unwrap()(&b).ok()?;
                Some((v, j.readable(o, r, deadline)))
            };
            let page = r.and_then(|r| decoded(self, r)).filter(|_| !pre_failed && !post_failed);
            // An empty page is passed over: an error in its place is its successor's.
            if let (Some((v, s)), Some((_, Err(_)))) = (&page, got.get(i)) {
                if v["items"].as_array().is_some_and(|a| a.is_empty()) && !v["next_page"].is_null() {
                    match s {
                        Sure::Yes => {
                            n += 1;
                            prev_done = r.and_then(|r| self.body_at(r)).unwrap_or(prev_done);
                            continue;
                        }
                        Sure::Maybe => return,
                        Sure::No => {}
                    }
                }
            }
            match (page, got.get(i)) {
                (_, Some((t, Err(e)))) => {
                    // This page failed (or so the stream says).
                    if let Some(r) = r {
                        if let Some((_, Sure::Yes)) = decoded(self, r) {
                            if !pre_failed && !post_failed {
                                self.bad(P, "page_refused", id, format!("page {n} arrived completely, yet the stream yielded the error {}", e.alternate));
                                return;
                            }
                        }
                    }
                    self.page_error(o, p, op, r, e, n, sent_at, *t, pre_failed, post_failed);
                    err = Some(e);
                    i += 1;
                    n += if r.is_some() { 1 } else { 0 };
                    last_t = *t;
                    break;
                }
                (Some((v, s)), g) => {
                    if s == Sure::No {
                        if g.is_some() || o.items_end == "clean" {
                            self.bad(P, "item_of_no_page", id, format!("page {n} never arrived completely, yet the stream went on"));
                        }
                        return;
                    }
                    let items = v["items"].as_array().unwrap().clone();
                    for (k, it) in items.iter().enumerate() {
                        match got.get(i) {
                            None => {
                                if o.done && o.items_end == "clean" {
                                    self.bad(P, "items_missing", id, format!("the stream ended before item {k} of page {n}"));
                                }
                                if !o.done || o.items_end == "dropped" {
                                    self.extra_pages(id, &reqs, n + 1);
                                }
                                return;
                            }
                            Some((_, Err(e))) => {
                                self.bad(P, "items_missing", id, format!("item {k} of page {n} was replaced by the error {}", e.display));
                                return;
                            }
                            Some((t, Ok(x))) => {
                                if !same_json(&strip_nulls(it), &strip_nulls(x)) {
                                    let mut props = vec!["C09"];
                                    if self.foreign_item(id, x) {
                                        props.push("C11");
                                    }
                                    self.bad(&props, "item", id, format!("item {k} of page {n} is {it}, the stream yielded {x}"));
                                    return;
                                }
                                if let Some(b) = r.and_then(|r| self.body_at(r)) {
                                    if *t < b {
                                        self.bad(P, "item_before_page", id, "an item before its page".into());
                                    }
                                }
                                last_t = *t;
                            }
                        }
                        i += 1;
                    }
                    n += 1;
                    prev_done = r.and_then(|r| self.body_at(r)).unwrap_or(prev_done);
                    if v["next_page"].is_null() {
                        ended = true;
                        break;
                    }
                }
                (None, Some((_, Ok(x)))) => {
                    let m = format!("the stream yielded {x} although page {n} was not fetched");
                    self.bad(P, "item_of_no_page", id, m);
                    return;
                }
                (None, None) => {
                    if o.done && o.items_end == "clean" {
                        self.bad(P, "error_swallowed", id, format!("page {n} could not be fetched, yet the stream ended cleanly"));
                    }
                    self.extra_pages(id, &reqs, n + 1);
                    return;
                }
            }
        }
        let _ = last_t;
        if got.len() > i {
            let m = format!("{} more item(s) after the stream's {}", got.len() - i, if err.is_some() { "error" } else { "last page" });
            self.bad(P, "items_after_end", id, m);
        }
        if (ended || err.is_some()) && o.done && o.items_end != "clean" && o.items_end != "dropped" {
            self.bad(P, "no_end", id, format!("after its {} the stream ended with {:?}", if ended { "last page" } else { "error" }, o.items_end));
        }
        if !ended && err.is_none() && o.items_end == "clean" {
            self.bad(P, "early_end", id, format!("the stream ended cleanly after page {n}, which has a successor"));
        }
        self.extra_pages(id, &reqs, n);
        // Bounded time per item.
        for (k, (t, _)) in got.iter().enumerate() {
            let w = o.items_wait.get(k).copied().unwrap_or(0);
            // At most a run of empty pages lies between two items.
            let empty = reqs.len() as u64 + 1;
            let hooks = if hooked { self.hook_delay(p, "pre") + self.hook_delay(p, "post") } else { 0 };
            if *t > w + empty * (self.limit() + hooks) + self.slack {
                self.bad(&["C12"], "page_late", id, format!("an item took {} ms", (t - w) / MS));
            }
        }
        self.see(format!("pages {}", reqs.len().min(6)));
    }

    fn extra_pages(&mut self, id: u32, reqs: &[&ReqRec], n: usize) {
        if reqs.len() > n {
            let m = format!("{} page request(s), but only {n} are needed", reqs.len());
            self.bad(&["C09"], "extra_page_request", id, m);
        }
    }

    fn foreign_item(&self, id: u32, v: &Value) -> bool {
        self.w.server.reqs.iter().any(|r| {
            r.op != Some(id)
                && r.resp.as_ref().is_some_and(|x| {
                    serde_json::from_slice::<Value>(&x.body)
                        .is_ok_and(|b| b["items"].as_array().is_some_and(|a| a.iter().any(|i| same_json(&strip_nulls(i), &strip_nulls(v)))))
                })
        })
    }

    /// The error with which a page's fetch ended, against the page's exchange.
    #[allow(clippy::too_many_arguments)]
    fn page_error(&mut self, o: &Out, p: &Op, op: &Operation, r: Option<&ReqRec>, e: &ErrView, n: usize, sent_at: u64, t: u64, pre_failed: bool, post_failed: bool) {
        let id = p.id;
        const P: &[&str] = &["C09", "C04"];
        if pre_failed || post_failed {
            let k = if pre_failed { "pre_hook" } else { "post_hook" };
            if e.kind != k {
                self.bad(&["C10"], "hook_failure_ignored", id, format!("a failing hook, yet page {n} ended with {}", e.kind));
            }
            return;
        }
        let deadline = sent_at + self.limit();
        let head = r.map(|r| self.sure(self.head_at(r), deadline)).unwrap_or(Sure::No);
        match (e.kind.as_str(), r) {
            ("comm", _) => {
                if head == Sure::Yes {
                    self.bad(P, "response_lost", id, format!("page {n}'s response head arrived, yet: {}", e.alternate));
                } else if !o.net.as_ref().is_some_and(|n| n.timeout) && !self.excuse(sent_at, t, r.map(|r| r.conn)) {
                    self.bad(P, "spurious_failure", id, format!("page {n}: a communication error without any failure on the wire: {}", e.alternate));
                }
            }
            (k, Some(r)) if head != Sure::No => {
                let x = r.resp.as_ref().unwrap();
                let class = op.class(x.exch.status);
                let ok = match (&class, k) {
                    (Class::Unexpected, "unexpected") => e.rv_status == Some(x.exch.status),
                    (Class::Error(Carrier::Json, _), "error_response") => e.rv_status == Some(x.exch.status),
                    (Class::Error(Carrier::Json, _) | Class::Success(Carrier::Json, _), "invalid_payload") => e.payload.as_deref() == Some(&self.body_of(x)[..]),
                    (Class::Error(Carrier::Json, _) | Class::Success(Carrier::Json, _), "response_body") => self.readable(o, r, deadline) != Sure::Yes,
                    _ => false,
                };
                if !ok {
                    self.bad(P, "page_error", id, format!("page {n} was answered with {}, the stream yielded {}", x.exch.status, e.alternate));
                }
            }
            (k, _) => self.bad(P, "page_error", id, format!("page {n} got no response, yet the stream yielded {k}")),
        }
    }

    // ------------------------------------------------------------ hooks

    fn hook_fails(&self, p: &Op, which: &str) -> bool {
        p.args.get("hooks").and_then(|h| h.get(which)).and_then(|h| h.get("fail")).is_some()
    }

    fn hook_fails_at(&self, p: &Op, which: &str, n: usize) -> bool {
        let Some(h) = p.args.get("hooks").and_then(|h| h.get(which)) else { return false };
        h.get("fail").is_some() && n as u64 >= h.get("from").and_then(|v| v.as_u64()).unwrap_or(0)
    }

    fn hook_delay(&self, p: &Op, which: &str) -> u64 {
        p.args.get("hooks").and_then(|h| h.get(which)).and_then(|h| h.get("delay_us")).and_then(|v| v.as_u64()).unwrap_or(0) * 1000 + MS
    }

    /// When the (first) request was handed to the transport, if hooks tell.
    fn hook_times(&self, o: &Out) -> Option<u64> {
        o.hooks.iter().find(|(_, w)| w.starts_with("pre_async_done")).map(|(t, _)| *t)
    }

    fn hooks(&mut self, o: &'a Out, p: &'a Op, name: &str) {
        let id = p.id;
        const P: &[&str] = &["C10"];
        let reqs = self.reqs(id);
        let tag = format!("tag={}", self.st.sc.seed);
        let mut k = 0;
        let ev = &o.hooks;
        if let Some((_, w)) = ev.iter().find(|(_, w)| !w.ends_with(&tag)) {
            self.bad(P, "hook_inner", id, format!("a hook got other ancillary data: {w}"));
        }
        let op = &self.spec.ops[base_name(name)];
        let (variant, _) = split_call(&p.call);
        if self.rejects(variant, op, &p.args).is_some() {
            if !ev.is_empty() {
                self.bad(P, "hook_without_request", id, format!("hooks ran for a rejected call: {ev:?}"));
            }
            return;
        }
        let words: Vec<String> = ev.iter().map(|(_, w)| w.split(' ').next().unwrap().to_string()).collect();
        let arg = |i: usize| ev[i].1.split(' ').nth(1).unwrap_or("").to_string();
        let repeats = if p.args.get("repeat").and_then(|v| v.as_bool()).unwrap_or(false) && is_builder(variant) { 2 } else { 1 };
        let mut n = 0; // requests seen by hooks
        let mut i = 0;
        while i < words.len() {
            // One round of hooks.
            let round = i;
            let expect = |j: &mut Self, i: &mut usize, w: &str| -> bool {
                if *i >= words.len() {
                    if o.done {
                        j.bad(P, "hook_missing", id, format!("request {n}: the {w} hook did not run: {words:?}"));
                    }
                    return false;
                }
                if words[*i] != w {
                    j.bad(P, "hook_order", id, format!("request {n}: {:?} where {w:?} was due: {words:?}", words[*i]));
                    return false;
                }
                *i += 1;
                true
            };
            if !expect(self, &mut i, "pre") || !expect(self, &mut i, "pre_async") {
                return;
            }
            for w in [round, round + 1] {
                if !ev[w].1.contains(&format!("op={id} ")) {
                    self.bad(P, "hook_request", id, format!("the hook saw another request: {}", ev[w].1));
                }
            }
            if self.hook_fails_at(p, "pre", n) {
                if i < words.len() && words[i] == "pre_async_failed" {
                    i += 1;
                    k += 1;
                    if i < words.len() {
                        self.bad(P, "hook_after_failure", id, format!("hooks went on after a failure: {words:?}"));
                    }
                    if reqs.len() > n {
                        self.bad(&["C10", "C08"], "request_after_failed_hook", id, "a request although the pre-hook failed".into());
                    }
                    if o.done && !name.ends_with("_stream") {
                        let msg = p.args["hooks"]["pre"]["fail"].as_str().unwrap();
                        if o.kind != "pre_hook" || o.err.as_ref().map(|e| e.inner.as_str()) != Some(msg) {
                            self.bad(&["C10", "C08"], "pre_hook_outcome", id, format!("the pre-hook failed with {msg:?}, the call ended with {} {:?}", o.kind, o.err.as_ref().map(|e| &e.inner)));
                        }
                    }
                    break;
                }
            }
            if !expect(self, &mut i, "pre_async_done") {
                return;
            }
            let t_pre = ev[i - 1].0;
            // The requests of a repeated call may arrive late, out of order, or never.
            let r = if repeats == 2 {
                let till = ev.get(i).map(|e| e.0).unwrap_or(u64::MAX);
                let answered = |r: &&ReqRec| self.rel(r.t_head) >= t_pre && self.head_at(r).is_some_and(|h| h <= till);
                reqs.iter().copied().find(answered).or(reqs.get(n).copied().filter(|r| self.rel(r.t_head) >= t_pre))
            } else {
                reqs.get(n).copied()
            };
            if let Some(r) = r {
                if self.rel(r.t_head) < t_pre {
                    self.bad(P, "hook_after_send", id, format!("the request reached the server at {} us, before the pre-hook ended at {} us", self.rel(r.t_head) / 1000, t_pre / 1000));
                }
            }
            if !expect(self, &mut i, "post") {
                return;
            }
            let (t_post, a) = (ev[i - 1].0, arg(i - 1));
            // The outcome it saw.
            if let Some(s) = a.strip_prefix("status=") {
                let ok = r.and_then(|r| r.resp.as_ref()).is_some_and(|x| x.exch.status.to_string() == s) && r.and_then(|r| self.head_at(r)).is_some_and(|h| h <= t_post);
                if !ok {
                    self.bad(P, "post_hook_outcome", id, format!("the post-hook saw status {s}, which the server had not sent"));
                }
            } else if !name.ends_with("_stream") && o.done && k + 1 == repeats && !matches!(o.kind.as_str(), "comm" | "post_hook") {
                self.bad(P, "post_hook_outcome", id, format!("the post-hook saw a failure, the call ended with {}", o.kind));
            }
            if !expect(self, &mut i, "post_async") {
                return;
            }
            if arg(i - 1) != a {
                self.bad(P, "post_hook_outcome", id, format!("the two post-hooks saw {a} and {}", arg(i - 1)));
            }
            if self.hook_fails(p, "post") {
                if !expect(self, &mut i, "post_async_failed") {
                    return;
                }
                if i < words.len() {
                    self.bad(P, "hook_after_failure", id, format!("hooks went on after a failure: {words:?}"));
                }
                if o.done && !name.ends_with("_stream") {
                    let msg = p.args["hooks"]["post"]["fail"].as_str().unwrap();
                    if o.kind != "post_hook" || o.err.as_ref().map(|e| e.inner.as_str()) != Some(msg) {
                        self.bad(P, "post_hook_failure", id, format!("the post-hook failed with {msg:?}, the call ended with {} {:?}", o.kind, o.err.as_ref().map(|e| &e.inner)));
                    }
                }
                n += 1;
                k += 1;
                break;
            }
            if !expect(self, &mut i, "post_async_done") {
                return;
            }
            n += 1;
            k += 1;
            if !name.ends_with("_stream") && ev[i - 1].0 > o.t_ret && o.done {
                self.bad(P, "hook_after_return", id, "a post-hook ran after the call returned".into());
            }
        }
        let rounds = k;
        if !name.ends_with("_stream") && o.done && rounds != repeats && o.panicked.is_none() {
            self.bad(P, "hook_count", id, format!("{rounds} rounds of hooks for {repeats} call(s): {words:?}"));
        }
        if name.ends_with("_stream") && reqs.len() > rounds + usize::from(!o.done || o.items_end == "dropped") {
            self.bad(P, "hook_count", id, format!("{rounds} rounds of hooks for {} requests", reqs.len()));
        }
    }

    // ------------------------------------------------------------ errors

    fn error_views(&mut self, o: &'a Out, p: &'a Op) {
        if let Some(e) = &o.err {
            self.view(p.id, e, o);
            if e.kind == "error_response" && o.carrier == "json" {
                let mut texts = vec![];
                match &o.value {
                    Some(Value::String(s)) => texts.push(s.clone()),
                    Some(Value::Array(a)) => texts.extend(a.iter().filter_map(|v| v.as_str()).map(String::from)),
                    Some(v) => texts.extend(v.get("message").and_then(|m| m.as_str()).map(String::from)),
                    None => {}
                }
                if let Some(t) = texts.iter().find(|t| !e.display.contains(&format!("{t:?}"))) {
                    let m = format!("the text lacks {:?} of the value: {:?}", t.chars().take(300).collect::<String>(), e.display.chars().take(300).collect::<String>());
                    self.bad(&["C13"], "text_content", p.id, m);
                }
            }
        }
        for (_, i) in &o.items {
            if let Err(e) = i {
                self.view(p.id, e, o);
            }
        }
        let (Some(e), Some(u)) = (&o.err, &o.untyped) else { return };
        const P: &[&str] = &["C13"];
        self.see("error made untyped");
        self.view(p.id, u, o);
        let mut d = vec![];
        if e.kind != u.kind {
            d.push(format!("kind {} became {}", e.kind, u.kind));
        }
        if e.status != u.status || e.rv_status != u.rv_status {
            d.push(format!("status {:?} became {:?}", e.status, u.status));
        }
        if e.rv_headers != u.rv_headers {
            d.push(format!("headers {:?} became {:?}", e.rv_headers, u.rv_headers));
        }
        if e.payload != u.payload {
            d.push("payload bytes changed".into());
        }
        if e.inner != u.inner || e.inner_chain != u.inner_chain || e.chain != u.chain {
            d.push(format!("cause {:?} {:?} became {:?} {:?}", e.inner, e.chain, u.inner, u.chain));
        }
        if e.kind != "error_response" && (e.display != u.display || e.alternate != u.alternate) {
            d.push(format!("text {:?} became {:?}", e.display, u.display));
        }
        if !d.is_empty() {
            let mut props = P.to_vec();
            if d.iter().any(|x| x.starts_with("status") || x.starts_with("headers")) {
                props.push("C05");
            }
            self.bad(&props, "untyped", p.id, d.join("; "));
        }
    }

    fn view(&mut self, id: u32, e: &ErrView, o: &Out) {
        const P: &[&str] = &["C13"];
        let word = match e.kind.as_str() {
            "invalid_request" => "Invalid Request",
            "comm" => "Communication Error",
            "error_response" => "Error Response",
            "invalid_upgrade" => "Upgrade",
            "response_body" => "Response Body",
            "invalid_payload" => "Payload",
            "unexpected" => "Unexpected Response",
            "pre_hook" => "Pre-hook",
            _ => "Post-hook",
        };
        self.see(format!("error kind {}", e.kind));
        let cut = |s: &str| s.chars().take(300).collect::<String>();
        if !e.display.to_lowercase().contains(&word.to_lowercase()) {
            self.bad(P, "text_kind", id, format!("the text of a {} error does not name it: {:?}", e.kind, cut(&e.display)));
        }
        match e.kind.as_str() {
            "error_response" | "unexpected" => {
                let st = e.rv_status.map(|s| s.to_string()).unwrap_or_default();
                if !e.display.contains(&st) {
                    self.bad(P, "text_content", id, format!("the text does not name the status {st}: {:?}", cut(&e.display)));
                }
                let low = e.display.to_lowercase();
                if let Some((n, _)) = e.rv_headers.iter().find(|(n, _)| !low.contains(n.as_str())) {
                    self.bad(P, "text_content", id, format!("the text does not name the header {n}: {:?}", cut(&e.display)));
                }
                let lacks = |v: &[u8]| reqwest::header::HeaderValue::from_bytes(v).is_ok_and(|v| !e.display.contains(&format!("{v:?}")));
                if let Some((n, v)) = e.rv_headers.iter().find(|(_, v)| lacks(v)) {
                    self.bad(P, "text_content", id, format!("the text lacks the value {} of the header {n}: {:?}", show(v), cut(&e.display)));
                }
                // Which request it was the answer to.
                let url = e.inner.split("path: \"").nth(1).and_then(|u| u.split('"').next());
                if let Some(url) = url.filter(|u| e.kind == "unexpected" && !e.display.contains(u)) {
                    self.bad(P, "text_content", id, format!("the text lacks {url:?}: {:?}", cut(&e.display)));
                }
                if e.status.is_none() || e.status != e.rv_status {
                    self.bad(P, "status_accessor", id, format!("status() gives {:?} for a response with {:?}", e.status, e.rv_status));
                }
            }
            k => {
                if !e.display.contains(&e.inner) {
                    self.bad(P, "text_content", id, format!("the text lacks the cause {:?}: {:?}", cut(&e.inner), cut(&e.display)));
                }
                if let Some(b) = &e.payload {
                    let t = format!("{:?}", bytes::Bytes::from(b.clone()));
                    if !e.display.contains(&t) {
                        self.bad(P, "text_content", id, format!("the text lacks the payload {}: {:?}", cut(&t), cut(&e.display)));
                    }
                }
                let want = if matches!(k, "comm" | "response_body" | "invalid_upgrade") { o.net.as_ref().and_then(|n| n.status) } else { None };
                // An unusable payload came with a status, which may be reported.
                let came = k == "invalid_payload" && self.reqs(id).iter().any(|r| r.resp.as_ref().is_some_and(|x| Some(x.exch.status) == e.status));
                if e.status != want && !came {
                    self.bad(P, "status_accessor", id, format!("status() gives {:?} for a {k} error whose cause has {want:?}", e.status));
                }
            }
        }
        let has_source = matches!(e.kind.as_str(), "comm" | "response_body" | "invalid_upgrade" | "invalid_payload");
        if has_source {
            let mut want = vec![e.inner.clone()];
            want.extend(e.inner_chain.iter().cloned());
            if e.chain != want {
                self.bad(P, "source_chain", id, format!("the source chain is {:?}, the underlying failure's {want:?}", e.chain));
            }
            let mut alt = e.display.clone();
            for c in &e.inner_chain {
                alt.push_str(": ");
                alt.push_str(c);
            }
            if e.alternate != alt {
                self.bad(P, "alternate_text", id, format!("the alternate text is {:?} instead of {:?}", cut(&e.alternate), cut(&alt)));
            }
        } else {
            if !e.chain.is_empty() {
                self.bad(P, "source_chain", id, format!("a {} error has sources {:?}", e.kind, e.chain));
            }
            if e.alternate != e.display {
                self.bad(P, "alternate_text", id, format!("the alternate text {:?} differs from {:?} although there is no cause", cut(&e.alternate), cut(&e.display)));
            }
        }
    }

    // ------------------------------------------------------------ direct calls

    fn direct(&mut self, _rec: usize, o: &'a Out, p: &'a Op, name: &str) {
        let id = p.id;
        let reqs = self.reqs(id);
        let complete = reqs.iter().filter(|r| r.complete).count();
        if complete > 1 {
            self.bad(&["C08"], "too_many_requests", id, format!("{complete} complete requests of one call"));
        }
        let mut want = WantReq {
            method: "GET".into(),
            segs: vec![vec![Ok("direct".into())]],
            query: Some(vec![]),
            headers: vec![],
            absent: vec![],
            path_args: vec![],
        };
        let mut lenient = false;
        match name {
            "query" => {
                let mut q = Some(vec![]);
                for a in p.args["params"].as_array().unwrap() {
                    let shape = a["shape"].as_str().unwrap();
                    let pair_name = a["name"].as_str().unwrap();
                    match crate::direct::query_want(pair_name, shape, &a["value"]) {
                        crate::direct::QWant::Pairs(v) => {
                            if let Some(q) = q.as_mut() {
                                q.extend(v);
                            }
                        }
                        crate::direct::QWant::Reject => q = None,
                        crate::direct::QWant::PairsOrReject(v) => {
                            lenient = true;
                            if let Some(q) = q.as_mut() {
                                q.extend(v);
                            }
                        }
                    }
                }
                want.query = q;
            }
            "path" => {
                want.segs = vec![vec![Ok("direct".into())]];
                for s in p.args["segments"].as_array().unwrap() {
                    let s = s.as_str().unwrap().to_string();
                    want.path_args.push(s.clone());
                    want.segs.push(vec![Ok(s)]);
                }
                want.segs.push(vec![Ok("tail".into())]);
                want.query = Some(vec![("q".into(), Want::Text("1".into()))]);
            }
            "form" => want.method = "POST".into(),
            _ => {}
        }
        let form_want = (name == "form").then(|| crate::direct::form_want(p.args["shape"].as_str().unwrap(), &p.args["body"]));
        // serde_urlencoded takes no enum at the top level, even where it would be flat.
        lenient |= name == "form" && p.args["shape"] == "oneof";
        // A target has at most 65534 bytes.
        let long: usize = want.query.iter().flatten().map(|(k, v)| k.len() + format!("{v:?}").len()).sum::<usize>() + want.path_args.iter().map(|a| a.len()).sum::<usize>();
        lenient |= long > 10_000;
        let must_reject = want.query.is_none() || matches!(form_want, Some(None));
        if must_reject {
            if !reqs.is_empty() {
                self.bad(&["C06", "C07", "C08"], "unrepresentable_sent", id, format!("a value without a flat form was sent: {} {}", reqs[0].target, show(&reqs[0].body)));
            } else if o.done && o.kind == "ok" {
                self.bad(&["C06", "C08"], "rejection_kind", id, "a value without a flat form gave a success".into());
            } else if o.done && name == "form" && o.kind != "invalid_request" {
                self.bad(&["C07", "C08"], "rejection_kind", id, format!("an unserializable form gave {}", o.kind));
            } else if o.done && name == "query" && !o.net.as_ref().is_some_and(|n| n.builder) && o.kind != "invalid_request" {
                self.bad(&["C06", "C08"], "rejection_kind", id, format!("an unserializable query gave {} {:?}", o.kind, o.err.as_ref().map(|e| &e.alternate)));
            }
            self.see("rejected locally");
            return;
        }
        if o.done && o.panicked.is_none() && reqs.is_empty() && (o.kind == "invalid_request" && name != "variants" || o.net.as_ref().is_some_and(|n| n.builder)) {
            if !lenient {
                let m = format!("a representable value was rejected: {}", o.err.as_ref().map(|e| e.alternate.clone()).unwrap_or_default());
                self.bad(&["C06", "C07", "C08"], "spurious_rejection", id, m);
            }
            return;
        }
        for r in &reqs {
            self.check_target(id, r, &want, &[], &[]);
            if let Some(Some(w)) = &form_want {
                self.content_type(id, r, "application/x-www-form-urlencoded");
                if r.complete {
                    if let Some(d) = pairs_diff(w, &pairs(&r.body)) {
                        self.bad(&["C07"], "form_body", id, format!("form {}: {d}", show(&r.body)));
                    }
                }
            }
        }
        if !o.done || o.panicked.is_some() {
            return;
        }
        let Some(r) = reqs.iter().find(|r| r.complete).or(reqs.first()).copied() else {
            if o.kind != "comm" && name != "variants" {
                self.bad(&["C04"], "outcome_without_exchange", id, format!("no request reached the server, yet the call ended with {}", o.kind));
            } else if o.kind == "comm" {
                self.comm(o, p, None, o.t_start);
            }
            return;
        };
        let span = o.t_ret.saturating_sub(o.t_start);
        if span > self.limit() + self.slack {
            self.bad(&["C12"], "too_late", id, format!("the call took {} ms", span / MS));
        }
        if name == "variants" {
            return;
        }
        let head = self.sure(self.head_at(r), o.t_start + self.limit());
        let Some(x) = r.resp.as_ref().filter(|x| x.well_formed) else { return };
        if o.kind == "comm" {
            if head == Sure::Yes {
                self.bad(if name == "decode" { &["C04", "C01"] } else { &["C04"] }, "response_lost", id, format!("the response head arrived, yet: {}", o.err.as_ref().unwrap().alternate));
            } else {
                self.comm(o, p, Some(r), o.t_start);
            }
            return;
        }
        if head == Sure::No {
            self.bad(&["C04"], "outcome_without_response", id, format!("no complete response head arrived in time, yet the call ended with {}", o.kind));
            return;
        }
        let class = match name {
            "decode" => Class::Success(Carrier::Json, None),
            "upgrade" if x.exch.status == 101 => Class::Success(Carrier::Upgraded, None),
            "upgrade" => Class::Unexpected,
            _ => Class::Success(Carrier::Unit, None),
        };
        self.judge_class(o, p, class, r, x, o.t_start + self.limit(), false, false);
    }
}

/// The value of a Content-Length field, if it is valid.
pub fn content_length(v: &[u8]) -> Option<u64> {
    if v.is_empty() || !v.iter().all(|b| b.is_ascii_digit()) {
        return None;
    }
    std::str::from_utf8(v).ok()?.parse().ok()
}

fn class_of(op: &Operation, status: u16) -> bool {
    matches!(op.class(status), Class::Success(Carrier::Json, _) | Class::Error(Carrier::Json, _))
}

fn bad_args(_a: &Value) -> bool {
    false
}
