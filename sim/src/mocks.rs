//! The generated mock helpers (for the `httpmock` crate) against the requests that the
//! generated client really sends, and their answers against what the client makes of them.
#![allow(clippy::all)]

use std::panic::{catch_unwind, AssertUnwindSafe};

use httpmock::{Answer, HttpMockRequest, Mock, MockServer};
use serde::de::DeserializeOwned;
use serde_json::{json, Value};
use simcore::rng::Rng;
use simcore::scenario::{Blob, Scenario};
use simcore::server::ReqRec;

use crate::clients::positional::types;
use crate::oracle::{pairs, same_json, Judge};
use crate::spec::{Carrier, Class, Operation, Spec};

#[allow(warnings)]
mod generated {
    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../build/generated/httpmock.rs"));
}
use generated::MockServerExt;

/// Unwound with if a chosen value is none of the parameter's type.
struct NotOfType;

fn get<T: DeserializeOwned>(v: &Value) -> T {
    serde_json::from_value(v.clone()).unwrap_or_else(|_| std::panic::resume_unwind(Box::new(NotOfType)))
}

macro_rules! param {
    ($w:ident, $m:ident, $v:ident, str) => {
        $w.$m(&get::<String>($v.as_ref().unwrap()))
    };
    ($w:ident, $m:ident, $v:ident, opt_str) => {
        $w.$m($v.as_ref().map(|v| get::<String>(v)).as_deref())
    };
    ($w:ident, $m:ident, $v:ident, (val $t:ty)) => {
        $w.$m(get::<$t>($v.as_ref().unwrap()))
    };
    ($w:ident, $m:ident, $v:ident, (by_ref $t:ty)) => {
        $w.$m(&get::<$t>($v.as_ref().unwrap()))
    };
    ($w:ident, $m:ident, $v:ident, (opt $t:ty)) => {
        $w.$m($v.as_ref().map(|v| get::<$t>(v)))
    };
    ($w:ident, $m:ident, $v:ident, (opt_ref $t:ty)) => {
        $w.$m($v.as_ref().map(|v| get::<$t>(v)).as_ref())
    };
}

/// (name of the argument, its kind of place, whether it may be absent)
pub type Helper = (&'static str, &'static str);

macro_rules! helpers {
    ($($op:ident { $($k:literal $place:ident $m:ident $how:tt),* })*) => {
        pub const OPS: &[&str] = &[$(stringify!($op)),*];
        fn params(op: &str) -> &'static [Helper] {
            match op {
                $(stringify!($op) => &[$(($k, stringify!($place))),*],)*
                _ => &[],
            }
        }
        /// The operation's mock with some arguments set (`None`: set to be absent).
        fn mock<'s>(s: &'s MockServer, op: &str, set: &[(&str, Option<Value>)]) -> Mock<'s> {
            match op {
                $(stringify!($op) => s.$op(|mut w, _t| {
                    for (k, _v) in set {
                        match *k {
                            $($k => w = param!(w, $m, _v, $how),)*
                            _ => {}
                        }
                    }
                    let _ = w.into_inner();
                }),)*
                _ => crate::run::harness(format!("no helper for {op}")),
            }
        }
    };
}

helpers! {
    thing_get { "id" path id str }
    thing_delete { "id" path id str }
    thing_head { "id" path id str }
    thing_patch { "id" path id (by_ref uuid::Uuid), "body" json body (by_ref types::Patch) }
    thing_create { "body" json body (by_ref types::Thing) }
    thing_list {
        "filter" query filter opt_str, "limit" query limit (opt std::num::NonZeroU32), "page_token" query page_token opt_str,
        "sort" query sort (opt types::Kind)
    }
    thing_put { "project" path project str, "id" path id (by_ref types::Name), "part_no" path part_no (val u32), "body" json body (by_ref types::Thing) }
    proj_list {
        "project" path project str, "kind" path kind (val types::Kind), "limit" query limit (opt std::num::NonZeroU32),
        "page_token" query page_token opt_str, "selector" query selector opt_str, "x-scope" header x_scope str
    }
    raw_get { "name" path name str }
    raw_default { "q" query q opt_str }
    upload_octet { "name" path name str, "body" octet body (val Value) }
    upload_text { "mode" query mode opt_str, "body" text body (val String) }
    upload_md { "body" text body (val String) }
    form_post { "body" form body (by_ref types::Form) }
    search {
        "when" path when (by_ref chrono::DateTime<chrono::Utc>), "a b&c=d" renamed a_b_c_d opt_str, "b" query b (opt bool),
        "client" query client opt_str, "f" query f (opt f64), "id" query id (opt_ref uuid::Uuid), "kind" query kind (opt types::Kind),
        "n" query n (opt i64), "name" query name (opt_ref types::Name), "q" query q str, "request" query request opt_str,
        "self" renamed self_ opt_str, "type" renamed type_ opt_str, "u" query u (opt u64), "url" query url opt_str,
        "x-kind" header x_kind (val types::Kind), "x-num" header x_num (val i32), "x-text" header x_text str
    }
    channel { "id" path id str, "mode" query mode opt_str }
    channel_typed { "id" path id str }
    do_nothing { "a" path a str, "b" path b str }
    only_errors {}
    any_json {}
    map_json {}
    root_get {}
}

/// What the operation's mock answers when set up for this response with this value.
fn answer(op: &str, st: u16, body: &[u8]) -> Option<Answer> {
    let s = MockServer::default();
    macro_rules! d {
        ($t:ty) => {
            serde_json::from_slice::<$t>(body).ok()?
        };
    }
    macro_rules! then {
        ($op:ident, $m:ident) => { s.$op(|_w, t| { let _ = t.$m().into_inner(); }) };
        ($op:ident, $m:ident, status) => { s.$op(|_w, t| { let _ = t.$m(st).into_inner(); }) };
        ($op:ident, $m:ident, raw) => {{ let v = d!(Value); s.$op(|_w, t| { let _ = t.$m(v).into_inner(); }) }};
        ($op:ident, $m:ident, status, raw) => {{ let v = d!(Value); s.$op(|_w, t| { let _ = t.$m(st, v).into_inner(); }) }};
        ($op:ident, $m:ident, $t:ty) => {{ let v = d!($t); s.$op(|_w, t| { let _ = t.$m(&v).into_inner(); }) }};
        ($op:ident, $m:ident, status, $t:ty) => {{ let v = d!($t); s.$op(|_w, t| { let _ = t.$m(st, &v).into_inner(); }) }};
    }
    type E = types::ThingError;
    let m = match (op, st) {
        ("thing_get", 200) => then!(thing_get, ok, types::Thing),
        ("thing_get", 400..=499) => then!(thing_get, client_error, status, E),
        ("thing_get", 500..=599) => then!(thing_get, server_error, status, E),
        ("thing_delete", 204) => then!(thing_delete, no_content),
        ("thing_delete", 400..=499) => then!(thing_delete, client_error, status, E),
        ("thing_delete", 500..=599) => then!(thing_delete, server_error, status, E),
        ("thing_head", 200) => then!(thing_head, ok),
        ("thing_head", 404) => then!(thing_head, not_found),
        ("thing_patch", 200..=299) => then!(thing_patch, success, status, types::Patch),
        ("thing_patch", 404) => then!(thing_patch, not_found, E),
        ("thing_patch", 409) => then!(thing_patch, conflict, E),
        ("thing_create", 201) => then!(thing_create, created, types::Thing),
        ("thing_create", 400..=499) => then!(thing_create, client_error, status, E),
        ("thing_create", 500..=599) => then!(thing_create, server_error, status, E),
        ("thing_list", 200) => then!(thing_list, ok, types::ThingPage),
        ("thing_list", 400..=499) => then!(thing_list, client_error, status, E),
        ("thing_list", 500..=599) => then!(thing_list, server_error, status, E),
        ("thing_put", 200..=299) => then!(thing_put, success, status, types::Thing),
        ("thing_put", _) => then!(thing_put, default_response, status, E),
        ("proj_list", 200) => then!(proj_list, ok, types::ThingPage),
        ("proj_list", 400..=499) => then!(proj_list, client_error, status, E),
        ("proj_list", 500..=599) => then!(proj_list, server_error, status, E),
        ("raw_get", 200) => then!(raw_get, ok, raw),
        ("raw_get", 206) => then!(raw_get, partial_content, raw),
        ("raw_get", 400..=499) => then!(raw_get, client_error, status, raw),
        ("raw_default", _) => then!(raw_default, default_response, status, raw),
        ("upload_octet", 204) => then!(upload_octet, no_content),
        ("upload_octet", 400..=499) => then!(upload_octet, client_error, status, E),
        ("upload_text", 400..=499) => then!(upload_text, client_error, status, E),
        ("form_post", 200) => then!(form_post, ok, types::Thing),
        ("form_post", 400..=499) => then!(form_post, client_error, status, E),
        ("search", 200) => then!(search, ok, Vec<types::Thing>),
        ("search", 400..=499) => then!(search, client_error, status, E),
        ("do_nothing", 200..=299) => then!(do_nothing, success, status),
        ("do_nothing", _) => then!(do_nothing, default_response, status, E),
        ("only_errors", 404) => then!(only_errors, not_found, E),
        ("any_json", _) => then!(any_json, default_response, status, types::Any),
        ("map_json", 203) => then!(map_json, non_authoritative_information, std::collections::HashMap<String, i64>),
        ("map_json", 418) => then!(map_json, im_a_teapot, Vec<String>),
        ("root_get", 200) => then!(root_get, ok),
        ("root_get", 500..=599) => then!(root_get, server_error, status, raw),
        _ => return None,
    };
    Some(m.answer())
}

/// Lets the server answer as the operations' mocks would: they are given a value, and the
/// scenario keeps it for the comparison with what the caller gets.
pub fn prepare(sc: &mut Scenario, spec: &Spec) {
    for o in sc.tasks.iter_mut().flat_map(|t| &mut t.ops) {
        let Some(name) = o.call.strip_prefix("pos:").map(str::to_string) else { continue };
        let Some(op) = spec.ops.get(&name) else { continue };
        let Some(e) = o.exch.first_mut() else { continue };
        let status = e.status;
        if status == 101 {
            continue;
        }
        let bytes = e.body.bytes();
        let (want, body) = match op.class(status) {
            Class::Success(Carrier::Json, _) | Class::Error(Carrier::Json, _) => match serde_json::from_slice::<Value>(&bytes) {
                Ok(v) => (v, bytes),
                Err(_) => continue,
            },
            Class::Success(Carrier::Raw, _) | Class::Error(Carrier::Raw, _) => {
                let v = json!({"n": bytes.len(), "b": bytes.iter().take(20).collect::<Vec<_>>()});
                (v.clone(), v.to_string().into_bytes())
            }
            Class::Success(Carrier::Unit, _) | Class::Error(Carrier::Unit, _) => (Value::Null, vec![]),
            _ => continue,
        };
        let Ok(Some(a)) = catch_unwind(|| answer(&name, status, &body)) else { continue };
        if !matches!(op.class(status), Class::Success(Carrier::Unit, _) | Class::Error(Carrier::Unit, _)) {
            e.body = Blob::Text(String::from_utf8(a.body.clone().unwrap_or_default()).unwrap());
        } else {
            e.body = Blob::default();
        }
        e.status = a.status.unwrap_or(200);
        e.headers.retain(|(n, _)| !n.eq_ignore_ascii_case("content-type"));
        e.headers.extend(a.headers.iter().map(|(n, v)| (n.to_ascii_lowercase(), v.clone())));
        o.args["_then"] = json!({"status": status, "value": want});
    }
}

/// A path against a template whose arguments have no slash.
fn fits(template: &str, path: &str) -> bool {
    fn go(t: &[u8], p: &[u8]) -> bool {
        match t.first() {
            None => p.is_empty(),
            Some(b'{') => {
                let e = t.iter().position(|&c| c == b'}').unwrap();
                (0..=p.iter().position(|&c| c == b'/').unwrap_or(p.len())).any(|n| go(&t[e + 1..], &p[n..]))
            }
            Some(c) => p.first() == Some(c) && go(&t[1..], &p[1..]),
        }
    }
    go(template.as_bytes(), path.as_bytes())
}

fn request(r: &ReqRec) -> Option<HttpMockRequest> {
    let (path, query) = r.target.split_once('?').map_or((r.target.as_str(), None), |(p, q)| (p, Some(q)));
    let text = |b: Vec<u8>| String::from_utf8(b).ok();
    let mut q = vec![];
    for (k, v) in pairs(query.unwrap_or("").as_bytes()) {
        q.push((text(k)?, text(v)?));
    }
    Some(HttpMockRequest {
        path: path.into(),
        method: r.method.clone(),
        headers: Some(r.headers.iter().map(|(k, v)| (k.clone(), String::from_utf8_lossy(v).into())).collect()),
        query_params: query.map(|_| q),
        body: Some(r.body.clone()),
    })
}

/// A value of the same type that the server would tell from this one.
fn another(op: &str, k: &str, v: &Value, r: &mut Rng) -> Option<Value> {
    Some(match (op, k) {
        ("thing_patch", "id") | ("search", "id") => json!(format!("00000000-0000-4000-8000-{:012x}", r.next() & 0xffff_ffff)),
        ("search", "when") => json!("1971-02-03T04:05:06Z"),
        (_, "kind" | "sort" | "x-kind") => {
            let all = ["alpha", "be ta", "ga/mma"];
            json!(all[(all.iter().position(|x| v == x)? + 1 + r.below(2) as usize) % 3])
        }
        (_, "limit" | "part_no") => json!((v.as_u64()? + 1) % 1000 + 1),
        _ => match v {
            Value::String(s) => {
                let cs: Vec<char> = s.chars().collect();
                let t: String = match r.below(4) {
                    0 => format!("{s}x"),
                    1 => format!("x{s}"),
                    2 if !cs.is_empty() => cs[..cs.len() - 1].iter().collect(),
                    3 if !cs.is_empty() => cs[1..].iter().collect(),
                    _ => format!("{s}{s}y"),
                };
                json!(t)
            }
            Value::Bool(b) => json!(!b),
            Value::Number(n) if n.is_f64() => json!(n.as_f64()? * 3.0 + 1.5),
            Value::Number(n) if n.is_u64() => json!(n.as_u64()? / 2 + 1_000_003),
            Value::Number(n) => json!(n.as_i64()? / 2 + 1_000_003),
            Value::Object(m) => {
                let mut m = m.clone();
                match m.get("name").cloned() {
                    Some(Value::String(s)) => m.insert("name".into(), json!(format!("{s}'"))),
                    _ => return None,
                };
                Value::Object(m)
            }
            _ => return None,
        },
    })
}

fn plain(v: &str) -> bool {
    v.bytes().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'-' | b'_' | b'~'))
}

fn shown(op: &str, k: &str, v: &Value) -> String {
    match v {
        Value::String(s) if op == "search" && k == "when" => get::<chrono::DateTime<chrono::Utc>>(&json!(s)).to_string(),
        Value::String(s) => s.clone(),
        v => v.to_string(),
    }
}

/// Why a helper cannot do its work for this argument: the recorded defects.
fn defect(op: &str, k: &str, place: &str, v: Option<&Value>) -> &'static str {
    match (place, v) {
        ("header", _) => "header parameter",
        ("renamed", _) => "renamed query parameter",
        ("path", Some(v)) if !plain(&shown(op, k, v)) => "path argument with other than unreserved characters",
        ("form", _) => "form body",
        ("octet", _) => "octet-stream body",
        ("query", Some(Value::Number(n))) if n.is_f64() => {
            let f = n.as_f64().unwrap();
            if serde_json::to_string(&f).unwrap() != f.to_string() {
                return "number in another spelling";
            }
            ""
        }
        _ => "",
    }
}

pub fn judge(j: &mut Judge) {
    let silent = std::panic::take_hook();
    std::panic::set_hook(Box::new(|_| {}));
    for i in 0..j.st.outs.len() {
        let o = &j.st.outs[i];
        let Some(name) = o.call.strip_prefix("pos:") else { continue };
        if !OPS.contains(&name) {
            continue;
        }
        let Some(p) = j.st.sc.tasks.iter().flat_map(|t| &t.ops).find(|p| p.id == o.op) else { continue };
        let op = &j.spec.ops[name];
        outcome(j, i, p, op);
        let w = j.w;
        for r in w.server.reqs.iter().filter(|r| r.op == Some(o.op) && r.complete && r.bad.is_none()) {
            requests(j, i, p, name, r);
        }
    }
    std::panic::set_hook(silent);
}

/// What the caller gets is what the mock was told to answer.
fn outcome(j: &mut Judge, i: usize, p: &simcore::scenario::Op, op: &Operation) {
    let o = &j.st.outs[i];
    let Some(t) = p.args.get("_then") else { return };
    let want = t["status"].as_u64().unwrap() as u16;
    if !o.done || !matches!(o.kind.as_str(), "ok" | "error_response" | "unexpected" | "invalid_payload") {
        return;
    }
    // As the mock would have delivered it: all of it.
    let w = j.w;
    let whole = w.server.reqs.iter().filter(|r| r.op == Some(o.op)).last().is_some_and(|r| {
        r.resp.as_ref().is_some_and(|x| {
            x.exch.status == want && x.sent >= x.end && j.body_at(r).is_some() && !matches!(want, 100..=199 | 204 | 304) && r.method != "HEAD"
        })
    });
    if !whole && !(o.kind == "ok" && matches!(t["value"], Value::Null)) {
        return;
    }
    j.see("answers by helpers");
    let (kind, carrier) = match op.class(want) {
        Class::Success(c, _) => ("ok", c),
        Class::Error(c, _) => ("error_response", c),
        _ => return,
    };
    let got = o.status.or(o.err.as_ref().and_then(|e| e.rv_status));
    let ok = o.kind == kind
        && got == Some(want)
        && match carrier {
            Carrier::Json => match (if kind == "ok" { o.decode_ok } else { o.decode_err }, &o.value) {
                (Some(d), Some(v)) => d(t["value"].to_string().as_bytes()).is_ok_and(|w| same_json(&w, v)),
                _ => true,
            },
            Carrier::Raw => match &o.stream {
                Some(s) if s.end == "clean" => serde_json::from_slice::<Value>(&s.data).is_ok_and(|v| v == t["value"]),
                _ => true,
            },
            _ => true,
        };
    if !ok {
        let m = format!("the mock was told to answer {want} with {}, the caller got {} ({got:?}) {:?}", t["value"], o.kind, o.value);
        j.bad(&["C22"], "mock_answer", p.id, m);
    }
}

fn requests(j: &mut Judge, i: usize, p: &simcore::scenario::Op, name: &str, r: &ReqRec) {
    let id = p.id;
    let Some(req) = request(r) else { return };
    j.see("requests given to mocks");
    let s = MockServer::default();
    let mut rng = Rng::new(j.st.sc.seed ^ (id as u64) << 32);
    // Mocks of operations without any argument set.
    for other in OPS {
        let y = &j.spec.ops[*other];
        let want = y.method.eq_ignore_ascii_case(&r.method) && fits(&y.path, &req.path);
        match catch_unwind(AssertUnwindSafe(|| mock(&s, other, &[]).refuses(&req))) {
            Err(_) => j.bad(&["C22"], "mock_panics", id, format!("the mock of {other} panics")),
            Ok(x) if x.is_none() != want => {
                let m = format!("the mock of {other} {} {} {}", x.map_or("accepts".into(), |w| format!("({w}) refuses")), r.method, r.target);
                j.bad(&["C22"], if want { "own_request_refused" } else { "other_request_accepted" }, id, m);
            }
            Ok(_) => {}
        }
    }
    let val = |k: &str| -> Option<Value> {
        if k == "body" && name.starts_with("upload_") {
            return j.st.outs[i].sent_body.as_ref().map(|b| match String::from_utf8(b.clone()) {
                Ok(t) => json!(t),
                Err(_) => json!([1]),
            });
        }
        p.args.get(k).filter(|v| !v.is_null()).cloned()
    };
    let mut all = vec![];
    for (k, place) in params(name) {
        let v = val(k);
        if v.is_none() && !matches!(*place, "query" | "renamed") {
            continue;
        }
        if *place == "path" && v.as_ref().is_some_and(|v| matches!(shown(name, k, v).as_str(), "." | "..")) {
            continue; // The request itself is wrong.
        }
        let why = defect(name, k, place, v.as_ref());
        // The call's own value.
        let own = catch_unwind(AssertUnwindSafe(|| mock(&s, name, &[(k, v.clone())]).refuses(&req)));
        j.see("helpers with the call's value");
        match own {
            Err(e) if e.is::<NotOfType>() => continue,
            Err(_) => bad(j, "mock_panics", id, why, format!("the helper of {name} for {k} panics for {v:?}")),
            Ok(Some(w)) => bad(j, "own_request_refused", id, why, format!("the mock of {name} with {k} = {v:?} refuses ({w}) the call's request {}", r.target)),
            Ok(None) if why.is_empty() => all.push((*k, v.clone())),
            Ok(None) => {}
        }
        // Another value, and (if it can be) none.
        let mut others = vec![];
        if let Some(x) = v.as_ref().and_then(|v| another(name, k, v, &mut rng)) {
            if Some(&x) != v.as_ref() && !matches!(shown(name, k, &x).as_str(), "." | "..") {
                others.push(Some(x));
            }
        }
        if matches!(*place, "query" | "renamed") && !(name == "search" && *k == "q") {
            others.push(match &v {
                Some(_) => None,
                None => Some(match (name, *k) {
                    (_, "b") => json!(true),
                    (_, "f") => json!(1.5),
                    (_, "n" | "u" | "limit") => json!(7),
                    (_, "id") => json!("00000000-0000-4000-8000-000000000000"),
                    (_, "kind" | "sort") => json!("alpha"),
                    _ => json!("absent"),
                }),
            });
        }
        for x in others {
            // A template with two arguments in a row can be read in more than one way.
            if let ("path", Some(Value::String(x))) = (*place, &x) {
                if plain(x) && fits(&j.spec.ops[name].path.replace(&format!("{{{k}}}"), x), &req.path) {
                    continue;
                }
            }
            let why = match defect(name, k, place, x.as_ref()) {
                "" if *place == "renamed" => "renamed query parameter",
                w => w,
            };
            j.see("helpers with another value");
            match catch_unwind(AssertUnwindSafe(|| mock(&s, name, &[(k, x.clone())]).accepts(&req))) {
                Err(e) if e.is::<NotOfType>() => {}
                Err(_) => bad(j, "mock_panics", id, why, format!("the helper of {name} for {k} panics for {x:?}")),
                Ok(true) => bad(j, "other_request_accepted", id, why, format!("the mock of {name} with {k} = {x:?} accepts the request of a call with {v:?}: {}", r.target)),
                Ok(false) => {}
            }
        }
    }
    if let Some(w) = mock(&s, name, &all).refuses(&req) {
        j.bad(&["C22"], "own_request_refused", id, format!("the mock of {name} with all of {all:?} refuses ({w}) {}", r.target));
    }
}

fn bad(j: &mut Judge, rule: &str, id: u32, sig: &str, msg: String) {
    j.bad_sig(&["C22"], rule, id, msg, sig.into());
}
