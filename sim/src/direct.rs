//! Calls written by hand against the support crate's API, the way generated code uses
//! it, for shapes of values that the simulated description does not contain.
use crate::clients::Args;
use crate::run::{harness, sized};
use progenitor_client::{encode_path, QueryParam, RequestBuilderExt};

crate::capture_mod!(progenitor_client);

#[derive(Serialize, serde::Deserialize, Clone, Copy, Debug)]
enum Unit1 {
    #[serde(rename = "be ta")]
    Beta,
    #[serde(rename = "ga/mma&=")]
    Gamma,
    #[serde(rename = " Del+TA ")]
    Delta,
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
enum OneOf {
    Name(String),
    Count(u64),
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
#[serde(untagged)]
enum Untagged {
    B(bool),
    N(i64),
    S(String),
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
struct Flat {
    #[serde(skip_serializing_if = "Option::is_none")]
    a: Option<String>,
    #[serde(rename = "b c")]
    b: i64,
    k: Option<Unit1>,
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
struct Wide {
    s: String,
    n: i64,
    u: u64,
    b: bool,
    o: Option<String>,
    t: Option<i64>,
    e: Option<Unit1>,
    c: char,
    w: Wrapped,
    x: Untagged,
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
struct Nested {
    a: Flat,
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
#[serde(transparent)]
struct Wrapped(String);

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
struct Plain(String);

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
#[serde(rename_all = "snake_case")]
enum Shapes {
    Simple,
    Newtype(u64),
    Tuple(u64, u64),
    Object { a: u64, b: u64 },
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
#[serde(tag = "tag_name", rename_all = "snake_case")]
enum Internal {
    Simple,
    Object { a: u64, b: String },
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
#[serde(tag = "tag_name", content = "content_name", rename_all = "snake_case")]
enum Adjacent {
    Simple,
    Newtype(i64),
    Tuple(u64, u64),
    Object { a: u64, b: u64 },
}

#[derive(Serialize, serde::Deserialize, Clone, Debug)]
#[serde(untagged)]
enum Mixed {
    N(u64),
    O { a: String, b: Option<bool> },
    L(Vec<String>),
}

pub type Client = reqwest::Client;

/// What must become of one query argument.
pub enum QWant {
    Pairs(Vec<(String, Want)>),
    Reject,
    /// The documentation does not say whether this shape is supported.
    PairsOrReject(Vec<(String, Want)>),
}

use crate::oracle::{flat, scalar, Want};

pub fn query_want(name: &str, shape: &str, v: &Value) -> QWant {
    let mut out = vec![];
    let num = |v: &Value| (name.to_string(), Want::Num(v.as_f64().unwrap()));
    match shape {
        "f32" | "f64" => return QWant::Pairs(vec![num(v)]),
        "opt_f64" => return QWant::Pairs(if v.is_null() { vec![] } else { vec![num(v)] }),
        "seq_f64" => return QWant::Pairs(v.as_array().unwrap().iter().map(num).collect()),
        "plain" => return QWant::PairsOrReject(vec![(name.to_string(), scalar(v).unwrap())]),
        "tuple" => {
            let a = v.as_array().unwrap();
            return QWant::PairsOrReject(a.iter().map(|x| (name.to_string(), scalar(x).unwrap())).collect());
        }
        "seq_opt" => {
            let a = v.as_array().unwrap();
            return QWant::PairsOrReject(a.iter().filter_map(|x| Some((name.to_string(), scalar(x)?))).collect());
        }
        // A list of values that each have a flat form of their own.
        "seq_flat" | "seq_seq" if v.as_array().is_some_and(|a| a.is_empty()) => return QWant::Pairs(vec![]),
        "map_flat" if v.as_object().is_some_and(|a| a.is_empty()) => return QWant::Pairs(vec![]),
        _ => {}
    }
    match flat(name, v, &mut out) {
        Some(()) => QWant::Pairs(out),
        None => QWant::Reject,
    }
}

/// The pairs of a form body; `None` if it must be rejected.
pub fn form_want(shape: &str, v: &Value) -> Option<Vec<(String, Want)>> {
    let mut out = vec![];
    match (shape, v) {
        ("pairs", Value::Array(a)) => {
            for p in a {
                out.push((p[0].as_str().unwrap().to_string(), scalar(&p[1])?));
            }
            Some(out)
        }
        (_, Value::Object(o)) => {
            for (k, x) in o {
                if !x.is_null() {
                    out.push((k.clone(), scalar(x)?));
                }
            }
            Some(out)
        }
        _ => None,
    }
}

/// Calls the continuation with a typed value of the shape.
fn add<T: Serialize>(b: reqwest::RequestBuilder, n: &str, v: &T) -> reqwest::RequestBuilder {
    b.query(&QueryParam::new(n, v))
}

fn query(b: reqwest::RequestBuilder, n: &str, shape: &str, v: &Value) -> reqwest::RequestBuilder {
    fn to<T: serde::de::DeserializeOwned>(v: &Value) -> T {
        serde_json::from_value(v.clone()).unwrap_or_else(|e| harness(format!("query value {v}: {e}")))
    }
    macro_rules! m {
        ($($k:literal => $t:ty),* $(,)?) => { match shape { $( $k => add(b, n, &to::<$t>(v)), )* _ => harness(format!("no shape {shape}")) } };
    }
    m! {
        "bool" => bool, "i8" => i8, "i16" => i16, "i32" => i32, "i64" => i64, "u8" => u8, "u16" => u16,
        "u32" => u32, "u64" => u64, "f32" => f32, "f64" => f64, "char" => char, "string" => String,
        "enum" => Unit1, "untagged" => Untagged, "oneof" => OneOf, "flat" => Flat, "wrapped" => Wrapped, "wide" => Wide, "opt_wide" => Option<Wide>,
        "map" => std::collections::BTreeMap<String, String>, "imap" => std::collections::BTreeMap<String, i64>,
        "opt_string" => Option<String>, "opt_i64" => Option<i64>, "opt_enum" => Option<Unit1>,
        "opt_seq" => Option<Vec<String>>, "opt_flat" => Option<Flat>, "opt_opt" => Option<Option<u64>>,
        "seq_string" => Vec<String>, "seq_i64" => Vec<i64>, "seq_bool" => Vec<bool>, "seq_enum" => Vec<Unit1>,
        "seq_f64" => Vec<f64>, "seq_untagged" => Vec<Untagged>, "seq_char" => Vec<char>, "set" => std::collections::BTreeSet<u32>,
        "plain" => Plain, "tuple" => (u32, String), "seq_opt" => Vec<Option<u32>>, "seq_seq" => Vec<Vec<String>>,
        "shapes" => Shapes, "internal" => Internal, "adjacent" => Adjacent, "mixed" => Mixed, "opt_f64" => Option<f64>,
        "seq_u64" => Vec<u64>, "array3" => Box<[i64]>, "opt_bool" => Option<bool>, "seq_wrapped" => Vec<Wrapped>, "opt_mixed" => Option<Mixed>,
        "nested" => Nested, "seq_flat" => Vec<Flat>, "map_flat" => std::collections::BTreeMap<String, Flat>,
    }
}

pub async fn call(c: &Client, base: &str, name: &str, rec: usize) {
    let a = Args::new(rec);
    let id = a.x.clone();
    match name {
        "query" => {
            let mut b = c.get(format!("{base}/direct")).header("x-op", id);
            for p in a.v["params"].as_array().unwrap() {
                b = query(b, p["name"].as_str().unwrap(), p["shape"].as_str().unwrap(), &p["value"]);
            }
            let r: Result<_, Error<()>> = exec(c, b, rec).await;
            fin::<Unit, Unit, _, _>(r.map(ResponseValue::empty), rec).await
        }
        "path" => {
            let mut u = format!("{base}/direct");
            for s in a.v["segments"].as_array().unwrap() {
                u = format!("{u}/{}", encode_path(s.as_str().unwrap()));
            }
            u.push_str("/tail");
            let b = c.get(u).header("x-op", id).query(&QueryParam::new("q", &"1"));
            let r: Result<_, Error<()>> = exec(c, b, rec).await;
            fin::<Unit, Unit, _, _>(r.map(ResponseValue::empty), rec).await
        }
        "form" => {
            let b = c.post(format!("{base}/direct")).header("x-op", id);
            let v = &a.v["body"];
            let shape = a.s("shape");
            fn f<T: Serialize + serde::de::DeserializeOwned>(b: reqwest::RequestBuilder, v: &Value) -> Result<reqwest::RequestBuilder, Error<()>> {
                let t: T = serde_json::from_value(v.clone()).unwrap_or_else(|e| harness(format!("form {v}: {e}")));
                b.form_urlencoded(&t)
            }
            let b = match shape.as_str() {
                "map" => f::<std::collections::BTreeMap<String, String>>(b, v),
                "imap" => f::<std::collections::BTreeMap<String, i64>>(b, v),
                "flat" => f::<Flat>(b, v),
                "wide" => f::<Wide>(b, v),
                "oneof" => f::<OneOf>(b, v),
                "pairs" => f::<Vec<(String, String)>>(b, v),
                "nested" => f::<Nested>(b, v),
                "mapseq" => f::<std::collections::BTreeMap<String, Vec<String>>>(b, v),
                "num" => f::<u64>(b, v),
                _ => harness(format!("no form shape {shape}")),
            };
            let r = match b {
                Ok(b) => exec(c, b, rec).await.map(ResponseValue::empty),
                Err(e) => Err(e),
            };
            fin::<Unit, Unit, _, _>(r, rec).await
        }
        "decode" => {
            let b = c.get(format!("{base}/direct")).header("x-op", id);
            let r: Result<reqwest::Response, Error<()>> = exec(c, b, rec).await;
            macro_rules! ty {
                ($($k:literal => $t:ty),* $(,)?) => { match a.s("ty").as_str() { $( $k => {
                    let r: Result<ResponseValue<$t>, Error<()>> = match r {
                        Ok(r) => sized(rec, ResponseValue::<$t>::from_response(r)).await,
                        Err(e) => Err(e),
                    };
                    fin::<Json, Unit, _, _>(r, rec).await
                } )* t => harness(format!("no type {t}")) } };
            }
            ty! {
                "value" => Value, "string" => String, "u64" => u64, "i64" => i64, "f64" => f64, "bool" => bool,
                "opt" => Option<u32>, "vec" => Vec<i64>, "flat" => Flat, "map" => std::collections::BTreeMap<String, Value>,
                "wrapped" => Wrapped, "untagged" => Untagged, "oneof" => OneOf, "unit" => DecUnit, "char" => char, "u8" => u8,
                "strs" => Vec<String>, "tuple" => (u8, String),
            }
        }
        // The upgrade on whatever answer comes.
        "upgrade" => {
            let b = c
                .get(format!("{base}/direct"))
                .header("x-op", id)
                .header("connection", "Upgrade")
                .header("upgrade", "websocket")
                .header("sec-websocket-version", "13")
                .header("sec-websocket-key", "dGhlIHNhbXBsZSBub25jZQ==");
            let b = match a.opt::<usize>("upload") {
                Some(n) => b.body(vec![b'u'; n]),
                None => b,
            };
            let r: Result<reqwest::Response, Error<()>> = exec(c, b, rec).await;
            let r: Result<_, Error<()>> = match r {
                Ok(r) => sized(rec, ResponseValue::<reqwest::Upgraded>::upgrade(r)).await,
                Err(e) => Err(e),
            };
            fin::<Upg, Unit, _, _>(r, rec).await
        }
        // A failed exchange whose error is carried by each variant in turn.
        "variants" => {
            let b = c.get(format!("{base}/direct")).header("x-op", id);
            let r: Result<reqwest::Response, Error<Value>> = exec(c, b, rec).await;
            let which = a.s("variant");
            let e: Error<Value> = match r {
                Err(Error::CommunicationError(e)) => wrap(&which, e),
                Err(e) => e,
                Ok(resp) => match which.as_str() {
                    "status" => match resp.error_for_status() {
                        Err(e) => wrap(&a.s("as"), e),
                        Ok(r) => Error::UnexpectedResponse(r),
                    },
                    "response" => {
                        let (st, mut hd) = (resp.status(), resp.headers().clone());
                        made(st, &mut hd, &a.v["fields"], rec);
                        Error::ErrorResponse(ResponseValue::new(serde_json::json!({"x": a.v["text"]}), st, hd))
                    }
                    "pre" => Error::PreHookError(a.s("text")),
                    "post" => Error::PostHookError(a.s("text")),
                    "invalid" => Error::InvalidRequest(a.s("text")),
                    _ => match resp.bytes().await {
                        Err(e) => wrap(&which, e),
                        Ok(b) => match serde_json::from_slice::<Value>(&b) {
                            Ok(_) => Error::InvalidRequest("fine".into()),
                            Err(e) => Error::InvalidResponsePayload(b, e),
                        },
                    },
                },
            };
            let r: Result<ResponseValue<()>, Error<Value>> = Err(e);
            fin::<Unit, Json, _, _>(r, rec).await
        }
        _ => harness(format!("no direct call {name}")),
    }
    let t = now();
    with(rec, |o| o.t_end = t);
}

/// `()` under a name (so that it is a JSON type here).
#[derive(Serialize, serde::Deserialize, Debug)]
pub struct DecUnit;

fn wrap(which: &str, e: reqwest::Error) -> Error<Value> {
    match which {
        "upgrade" => Error::InvalidUpgrade(e),
        "body" => Error::ResponseBodyError(e),
        _ => Error::from(e),
    }
}

async fn exec<E>(c: &Client, b: reqwest::RequestBuilder, rec: usize) -> Result<reqwest::Response, Error<E>> {
    let r = b.build()?;
    Ok(sized(rec, c.execute(r)).await?)
}

/// A response value made by hand reports the status and headers it was made of.
fn made(st: reqwest::StatusCode, hd: &mut reqwest::header::HeaderMap, fields: &Value, rec: usize) {
    use reqwest::header::{HeaderName, HeaderValue};
    hd.remove("content-length");
    let mut lens = vec![];
    for f in fields.as_array().unwrap() {
        let (n, v) = (f[0].as_str().unwrap(), f[1].as_str().unwrap());
        // One character is one byte.
        let v: Vec<u8> = v.chars().map(|c| c as u8).collect();
        hd.append(HeaderName::from_bytes(n.as_bytes()).unwrap(), HeaderValue::from_bytes(&v).unwrap());
        if n == "content-length" {
            lens.push(crate::oracle::content_length(&v));
        }
    }
    let want: Vec<Option<u64>> = match lens.as_slice() {
        [] => vec![None],
        [v] => vec![*v],
        [v, ..] => vec![*v, None],
    };
    let note = |p: &str, t: String| with(rec, |o| o.local.push((p.into(), t)));
    let rv = ResponseValue::new(vec![5u8], st, hd.clone());
    if !want.contains(&rv.content_length()) {
        note("C05.content_length", format!("header fields {hd:?}: the accessor gives {:?}", rv.content_length()));
    }
    let cl = rv.content_length();
    let same = |a: &reqwest::header::HeaderMap| hdrs(a) == hdrs(hd);
    if rv.status() != st || !same(rv.headers()) || *rv != [5u8] || rv.as_ref() != &[5u8] {
        note("C05.made", format!("made of {st} {hd:?}, it reports {} {:?}", rv.status(), rv.headers()));
    }
    let m = rv.map::<String, _, ()>(|v| format!("{v:?}")).unwrap();
    if m.status() != st || !same(m.headers()) || m.content_length() != cl || *m != "[5]" {
        note("C05.made", format!("made of {st} {hd:?} and mapped, it reports {} {:?}", m.status(), m.headers()));
    }
    let e: Error<String> = Error::ErrorResponse(m);
    match e.into_untyped() {
        Error::ErrorResponse(u) if u.status() == st && same(u.headers()) && u.content_length() == cl => {}
        e => note("C05.made", format!("made of {st} {hd:?} and its body discarded, it is {e:?}")),
    }
}
