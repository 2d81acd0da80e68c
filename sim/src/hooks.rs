//! The hooks and ancillary data of the clients generated with hooks.
use crate::run::{cur, now, plan, with};
use serde_json::Value;

#[derive(Clone, Debug)]
pub struct Inner {
    pub tag: u64,
}

fn hook_plan(k: &str) -> Value {
    match cur() {
        Some(r) => plan(r, |p| p.args.get("hooks").and_then(|h| h.get(k)).cloned().unwrap_or(Value::Null)),
        None => Value::Null,
    }
}

fn note(inner: &Inner, what: String) {
    let t = now();
    if let Some(r) = cur() {
        with(r, |o| o.hooks.push((t, format!("{what} tag={}", inner.tag))));
    }
}

fn req_text(r: &reqwest::Request) -> String {
    let x = r.headers().get("x-op").and_then(|v| v.to_str().ok()).unwrap_or("?");
    format!("op={x} nth={}", r.headers().get("x-nth").and_then(|v| v.to_str().ok()).unwrap_or("-"))
}

pub fn pre(inner: &Inner, r: &reqwest::Request) {
    note(inner, format!("pre {}", req_text(r)));
}

pub async fn pre_async(inner: &Inner, r: &mut reqwest::Request) -> Result<(), String> {
    note(inner, format!("pre_async {}", req_text(r)));
    let p = hook_plan("pre");
    if let Some(us) = p.get("delay_us").and_then(|v| v.as_u64()) {
        crate::run::wait_us(us).await;
    }
    if let Some(a) = p.get("set").and_then(|v| v.as_array()) {
        for h in a {
            let n: reqwest::header::HeaderName = h[0].as_str().unwrap().parse().unwrap();
            r.headers_mut().insert(n, h[1].as_str().unwrap().parse().unwrap());
        }
    }
    if let Some(a) = p.get("query").and_then(|v| v.as_array()) {
        for h in a {
            r.url_mut().query_pairs_mut().append_pair(h[0].as_str().unwrap(), h[1].as_str().unwrap());
        }
    }
    if let Some(b) = p.get("body").and_then(|v| v.as_str()) {
        *r.body_mut() = Some(b.to_string().into());
    }
    // For paginated calls: fail only from the n-th request on.
    let seen = cur().map(|r| with(r, |o| o.hooks.iter().filter(|(_, w)| w.starts_with("pre_async ")).count())).unwrap_or(0);
    if let Some(e) = p.get("fail").and_then(|v| v.as_str()) {
        let from = p.get("from").and_then(|v| v.as_u64()).unwrap_or(0) as usize;
        if seen > from {
            note(inner, "pre_async_failed".into());
            return Err(e.to_string());
        }
    }
    note(inner, "pre_async_done".into());
    Ok(())
}

fn res_text(r: &Result<reqwest::Response, reqwest::Error>) -> String {
    match r {
        Ok(r) => format!("status={}", r.status().as_u16()),
        Err(_) => "err".into(),
    }
}

pub fn post(inner: &Inner, r: &Result<reqwest::Response, reqwest::Error>) {
    note(inner, format!("post {}", res_text(r)));
}

pub async fn post_async(inner: &Inner, r: &Result<reqwest::Response, reqwest::Error>) -> Result<(), String> {
    note(inner, format!("post_async {}", res_text(r)));
    let p = hook_plan("post");
    if let Some(us) = p.get("delay_us").and_then(|v| v.as_u64()) {
        crate::run::wait_us(us).await;
    }
    if let Some(e) = p.get("fail").and_then(|v| v.as_str()) {
        note(inner, "post_async_failed".into());
        return Err(e.to_string());
    }
    note(inner, "post_async_done".into());
    Ok(())
}
