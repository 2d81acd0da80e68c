//! Judges the runs of a generated command: its reports are turned into the outcome of
//! a call, which is then judged like any other, plus what a command promises beyond.
use crate::oracle::*;
use crate::out::*;
use crate::scenario::Op;
use serde_json::Value;

fn latin(s: &Value) -> Vec<u8> {
    s.as_str().unwrap_or("").chars().map(|c| c as u32 as u8).collect()
}

fn heads(v: &Value) -> Vec<(String, Vec<u8>)> {
    v.as_array().map(|a| a.iter().map(|h| (h[0].as_str().unwrap().to_string(), latin(&h[1]))).collect()).unwrap_or_default()
}

fn view(v: &Value) -> ErrView {
    ErrView {
        kind: v["kind"].as_str().unwrap().into(),
        status: v["status"].as_u64().map(|s| s as u16),
        display: v["text"].as_str().unwrap().into(),
        alternate: v["text"].as_str().unwrap().into(),
        inner: v["text"].as_str().unwrap().into(),
        payload: v.get("payload").map(latin),
        rv_status: v["rv_status"].as_u64().map(|s| s as u16),
        rv_headers: heads(&v["headers"]),
        ..Default::default()
    }
}

pub fn judge(j: &mut Judge, rec: usize) {
    let o = &j.st.outs[rec];
    let p = &j.st.plans[rec];
    let (_, name) = split_call(&p.call);
    let id = p.id;
    const P: &[&str] = &["C16"];
    let Some(cli) = &o.cli else { return };
    let reqs = j.reqs(id).len();
    let usage = p.args.get("usage").and_then(|v| v.as_bool()).unwrap_or(false);
    if let Some(e) = &cli.parse_err {
        if !usage {
            j.bad(P, "usage", id, format!("valid arguments {} were refused: {}", p.args["argv"], e.chars().take(300).collect::<String>()));
        }
        if reqs > 0 {
            j.bad(P, "usage_sent", id, "a request although the arguments were refused".into());
        }
        j.see("command arguments refused");
        return;
    }
    if usage {
        if reqs > 0 {
            j.bad(P, "usage", id, format!("invalid arguments {} were accepted and sent", p.args["argv"]));
        }
        return;
    }
    let op = &j.spec.ops[name];
    let paged = op.paginated;
    if cli.steps.len() != 1 && o.done && o.panicked.is_none() {
        j.bad(P, "step", id, format!("the configuration's step for the command was run {} times", cli.steps.len()));
    }
    if let (Some(s), Some(r)) = (cli.steps.first(), j.reqs(id).first()) {
        if j.rel(r.t_head) < *s {
            j.bad(P, "step", id, "the request was sent before the configuration's step".into());
        }
    }
    if let Some(why) = p.args["step"]["refuse"].as_str() {
        if reqs > 0 || !cli.events.is_empty() {
            j.bad(P, "step_refused", id, format!("refused by the configuration, yet there were {reqs} requests and the reports {:?}", cli.events));
        } else if o.done && o.panicked.is_none() && cli.result != Some(Err(why.into())) {
            j.bad(P, "step_refused", id, format!("refused by the configuration, yet the command returned {:?}", cli.result));
        }
        j.see("command refused by its configuration");
        return;
    }
    if !p.args["step"].is_null() {
        j.see("command changed by its configuration");
    }
    let p2: &'static Op = Box::leak(Box::new(Op { args: p.args["want"].clone(), ..p.clone() }));
    let mut o2 = o.clone();
    let ev = &cli.events;
    let words: Vec<&str> = ev.iter().map(|(_, w, _)| w.as_str()).collect();
    if o.done && o.panicked.is_none() && cli.result.is_none() {
        crate::run::harness("a finished command has no result".into());
    }
    let ok = matches!(cli.result, Some(Ok(())));
    let set_net = |o2: &mut Out, v: &Value| {
        if let Some(n) = v.get("net") {
            o2.net = serde_json::from_value(n.clone()).ok();
        }
    };
    o2.kind = String::new();
    if paged {
        let want_first = "list_start";
        if let Some(w) = words.first() {
            if *w != want_first {
                j.bad(P, "list_order", id, format!("the listing began with {w}"));
                return;
            }
        }
        if words.iter().filter(|w| **w == "list_start").count() > 1 {
            j.bad(P, "list_order", id, format!("started more than once: {words:?}"));
        }
        let ends = words.iter().filter(|w| w.starts_with("list_end")).count();
        if o.done && o.panicked.is_none() {
            if ends != 1 || !words.last().is_some_and(|w| w.starts_with("list_end")) {
                j.bad(P, "list_order", id, format!("the listing did not end exactly once, last: {words:?}"));
                return;
            }
            if ok != (words.last() == Some(&"list_end_success")) {
                j.bad(P, "result", id, format!("the listing reported {:?} but the command returned {:?}", words.last(), cli.result));
            }
        } else if ends > 1 {
            j.bad(P, "list_order", id, format!("ended more than once: {words:?}"));
        }
        if let Some(w) = words.iter().find(|w| !w.starts_with("list_")) {
            j.bad(P, "list_order", id, format!("a listing reported {w}"));
        }
        o2.kind = "stream".into();
        o2.items_end = "clean".into();
        let mut last = o.t_start;
        let limit = p2.args["limit"].as_u64().unwrap_or(u64::MAX) as usize;
        for (t, w, v) in ev {
            match w.as_str() {
                "list_start" => {}
                "list_item" => {
                    o2.items_wait.push(last);
                    o2.items.push((*t, Ok(v.clone())));
                    last = *t;
                }
                "list_end_error" => {
                    o2.items_wait.push(last);
                    set_net(&mut o2, v);
                    o2.items.push((*t, Err(view(v))));
                    last = *t;
                }
                _ => {}
            }
        }
        let n = o2.items.len();
        if n > limit {
            j.bad(P, "limit", id, format!("{n} items reported, the limit is {limit}"));
        }
        if n >= limit {
            o2.items_end = "dropped".into();
        } else {
            o2.items_wait.push(last);
        }
        if !o.done {
            o2.items_end = String::new();
        }
        j.see(format!("listing of {} items", n.min(9)));
    } else {
        if words.len() > 1 {
            j.bad(P, "reports", id, format!("more than one report: {words:?}"));
        }
        match ev.first() {
            None => {
                if o.done && o.panicked.is_none() {
                    j.bad(P, "reports", id, format!("nothing was reported, the command returned {:?}", cli.result));
                    return;
                }
            }
            Some((t, w, v)) => {
                o2.t_ret = *t;
                let good = matches!(w.as_str(), "success_item" | "success_no_item");
                if o.done && good != ok {
                    j.bad(P, "result", id, format!("the command reported {w} but returned {:?}", cli.result));
                }
                if good {
                    o2.kind = "ok".into();
                    o2.carrier = if w == "success_item" { "json" } else { "unit" }.into();
                    o2.value = v.get("value").cloned();
                    o2.status = v["status"].as_u64().map(|s| s as u16);
                    o2.headers = heads(&v["headers"]);
                } else if w == "error" {
                    let e = view(v);
                    o2.kind = e.kind.clone();
                    if e.kind == "error_response" {
                        o2.status = e.rv_status;
                        o2.headers = e.rv_headers.clone();
                    }
                    set_net(&mut o2, v);
                    o2.err = Some(e);
                } else {
                    j.bad(P, "reports", id, format!("an unexpected report {w}"));
                    return;
                }
                j.see(format!("command reports {w}"));
            }
        }
        o2.decode_ok = decode_for(name, true);
        o2.decode_err = decode_for(name, false);
    }
    let o2: &'static Out = Box::leak(Box::new(o2));
    let before = j.v.len();
    let full = if paged { format!("{name}_stream") } else { name.to_string() };
    j.requests(rec, o2, p2, "cli", &full, op);
    if paged {
        j.pages(o2, p2, "cli", op);
    } else {
        j.single(o2, p2, "cli", op);
    }
    for v in &mut j.v[before..] {
        if !v.props.iter().any(|p| p == "C16") {
            v.props.push("C16".into());
        }
    }
}

fn dec<T: serde::Serialize + serde::de::DeserializeOwned>(b: &[u8]) -> Result<Value, String> {
    let v: T = serde_json::from_slice(b).map_err(|e| e.to_string())?;
    Ok(serde_json::to_value(&v).unwrap())
}

/// The reference decoder of a command's success or error type.
pub fn decode_for(name: &str, ok: bool) -> Option<Decode> {
    use crate::clients::builder::types as t;
    Some(match (name, ok) {
        ("thing_get" | "thing_create" | "thing_put" | "form_post", true) => dec::<t::Thing>,
        ("thing_patch", true) => dec::<t::Patch>,
        ("thing_list" | "proj_list", true) => dec::<t::ThingPage>,
        ("opt_json", true) => dec::<Option<t::OptJsonResponse>>,
        ("scalar_json", true) => dec::<i64>,
        ("scalar_json", false) => dec::<String>,
        ("any_json", _) => dec::<Value>,
        ("map_json", true) => dec::<std::collections::HashMap<String, i64>>,
        ("map_json", false) => dec::<Vec<String>>,
        ("opt_json" | "thing_head", _) => return None,
        ("thing_delete" | "do_nothing", true) => return None,
        (_, false) => dec::<t::ThingError>,
        _ => return None,
    })
}
