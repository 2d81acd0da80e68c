//! The API description of the simulated service, read independently of the generator.
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum In {
    Path,
    Query,
    Header,
}

#[derive(Clone, Debug)]
pub struct Param {
    pub name: String,
    pub place: In,
    pub required: bool,
    pub schema: Value,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Carrier {
    Json,
    Unit,
    Raw,
    Upgraded,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    Success(Carrier, Option<Value>),
    Error(Carrier, Option<Value>),
    Unexpected,
}

#[derive(Clone, Debug)]
pub struct Operation {
    pub id: String,
    pub method: String,
    pub path: String,
    pub params: Vec<Param>,
    pub body: Option<(String, Value)>,
    /// (status or range or "default", carrier, schema)
    pub responses: Vec<(String, Carrier, Option<Value>)>,
    pub websocket: bool,
    pub paginated: bool,
}

pub struct Spec {
    pub ops: BTreeMap<String, Operation>,
    pub doc: Value,
    pub version: String,
}

pub fn load() -> Spec {
    let doc: Value =
        serde_json::from_str(include_str!(concat!(env!("CARGO_MANIFEST_DIR"), "/../spec/sim_positional.json"))).unwrap();
    let mut ops = BTreeMap::new();
    for (path, item) in doc["paths"].as_object().unwrap() {
        for (method, o) in item.as_object().unwrap() {
            let websocket = o.get("x-dropshot-websocket").is_some();
            let params = o["parameters"]
                .as_array()
                .unwrap()
                .iter()
                .map(|p| Param {
                    name: p["name"].as_str().unwrap().into(),
                    place: match p["in"].as_str().unwrap() {
                        "path" => In::Path,
                        "query" => In::Query,
                        _ => In::Header,
                    },
                    required: p["required"].as_bool().unwrap_or(false),
                    schema: p["schema"].clone(),
                })
                .collect();
            let body = o.get("requestBody").map(|b| {
                let (ct, m) = b["content"].as_object().unwrap().iter().next().unwrap();
                (ct.clone(), m["schema"].clone())
            });
            let mut responses: Vec<(String, Carrier, Option<Value>)> = o["responses"]
                .as_object()
                .unwrap()
                .iter()
                .map(|(k, r)| match r.get("content").and_then(|c| c.as_object()) {
                    None => (k.clone(), Carrier::Unit, None),
                    Some(c) => match c.get("application/json") {
                        Some(j) => (k.clone(), Carrier::Json, Some(j["schema"].clone())),
                        None => (k.clone(), Carrier::Raw, None),
                    },
                })
                .collect();
            // A description without any success documents every success as raw.
            if !responses.iter().any(|(k, ..)| k == "default" || k.starts_with('2')) {
                responses.push(("2XX".into(), Carrier::Raw, None));
            }
            let id = o["operationId"].as_str().unwrap().to_string();
            ops.insert(
                id.clone(),
                Operation {
                    id,
                    method: method.to_uppercase(),
                    path: path.clone(),
                    params,
                    body,
                    responses,
                    websocket,
                    paginated: o.get("x-dropshot-pagination").is_some(),
                },
            );
        }
    }
    let version = doc["info"]["version"].as_str().unwrap().to_string();
    Spec { ops, doc, version }
}

impl Spec {
    pub fn schema<'a>(&'a self, s: &'a Value) -> &'a Value {
        match s.get("$ref").and_then(|r| r.as_str()) {
            Some(r) => &self.doc["components"]["schemas"][r.rsplit('/').next().unwrap()],
            None => s,
        }
    }
}

impl Operation {
    /// What a response with this status means to the caller.
    pub fn class(&self, status: u16) -> Class {
        if self.websocket {
            if status == 101 {
                return Class::Success(Carrier::Upgraded, None);
            }
            if let Some((_, c, s)) = self.find(status) {
                if status >= 400 && *c == Carrier::Json {
                    return Class::Error(*c, s.clone());
                }
            }
            return Class::Unexpected;
        }
        let found = self.find(status).or_else(|| self.responses.iter().find(|(k, ..)| k == "default"));
        match found {
            None => Class::Unexpected,
            Some((_, c, s)) if (200..300).contains(&status) => Class::Success(*c, s.clone()),
            Some((_, c, s)) => Class::Error(*c, s.clone()),
        }
    }

    fn find(&self, status: u16) -> Option<&(String, Carrier, Option<Value>)> {
        let exact = status.to_string();
        let range = format!("{}XX", status / 100);
        self.responses
            .iter()
            .find(|(k, ..)| *k == exact)
            .or_else(|| self.responses.iter().find(|(k, ..)| *k == range))
    }
}

/// The template of a path: literal and parameter pieces, per segment.
pub fn template(path: &str) -> Vec<Vec<Result<String, String>>> {
    path.trim_start_matches('/')
        .split('/')
        .map(|seg| {
            let mut out = vec![];
            let mut rest = seg;
            while let Some(a) = rest.find('{') {
                let b = rest.find('}').unwrap();
                if a > 0 {
                    out.push(Ok(rest[..a].to_string()));
                }
                out.push(Err(rest[a + 1..b].to_string()));
                rest = &rest[b + 1..];
            }
            if !rest.is_empty() {
                out.push(Ok(rest.to_string()));
            }
            out
        })
        .collect()
}
