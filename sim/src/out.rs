//! What one call did, as seen by its caller.
use serde_json::Value;

pub type Decode = fn(&[u8]) -> Result<Value, String>;

#[derive(Clone, Debug, Default)]
pub struct StreamLog {
    pub data: Vec<u8>,
    /// (time the consumer started waiting, time it got the item, total bytes by then)
    pub items: Vec<(u64, u64, usize)>,
    /// "", "clean", "error", "dropped"
    pub end: String,
    pub err: Option<NetErr>,
    pub t_wait: u64,
    pub t_end: u64,
    pub empty_items: usize,
}

#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct NetErr {
    pub text: String,
    pub status: Option<u16>,
    pub chain: Vec<String>,
    pub timeout: bool,
    pub connect: bool,
    pub builder: bool,
    pub body: bool,
    pub decode: bool,
}

pub fn net_err(e: &reqwest::Error) -> NetErr {
    NetErr {
        text: e.to_string(),
        status: e.status().map(|s| s.as_u16()),
        chain: chain(e),
        timeout: e.is_timeout(),
        connect: e.is_connect(),
        builder: e.is_builder(),
        body: e.is_body(),
        decode: e.is_decode(),
    }
}

/// The texts of an error's sources, outermost first (without the error itself).
pub fn chain(e: &dyn std::error::Error) -> Vec<String> {
    let mut v = vec![];
    let mut s = e.source();
    while let Some(x) = s {
        v.push(x.to_string());
        s = x.source();
    }
    v
}

#[derive(Clone, Debug, Default)]
pub struct TunnelLog {
    pub got: Vec<u8>,
    /// (t, total)
    pub got_log: Vec<(u64, usize)>,
    pub end: String, // "", "eof", "error", "dropped"
    pub err: String,
    pub written: Vec<u8>,
    pub write_err: String,
    pub t_end: u64,
}

/// Everything observable about an error value.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ErrView {
    pub kind: String,
    pub status: Option<u16>,
    pub display: String,
    pub alternate: String,
    pub debug: String,
    pub chain: Vec<String>,
    /// Text of the wrapped error or message (what the variant carries).
    pub inner: String,
    pub inner_chain: Vec<String>,
    pub payload: Option<Vec<u8>>,
    pub rv_status: Option<u16>,
    pub rv_headers: Vec<(String, Vec<u8>)>,
}

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub op: u32,
    pub call: String,
    pub started: bool,
    pub done: bool,
    pub cancelled: bool,
    pub panicked: Option<String>,
    pub t_start: u64,
    /// When the call itself returned (its stream may go on).
    pub t_ret: u64,
    /// When a repeated call was sent again.
    pub t_again: u64,
    pub t_end: u64,
    pub kind: String,
    pub status: Option<u16>,
    pub headers: Vec<(String, Vec<u8>)>,
    pub content_length: Option<Option<u64>>,
    /// Which type the handed-over value has: json, unit, raw, upgraded.
    pub carrier: String,
    pub value: Option<Value>,
    /// Reference decoders of the success and of the error type.
    pub decode_ok: Option<Decode>,
    pub decode_err: Option<Decode>,
    pub stream: Option<StreamLog>,
    pub tunnel: Option<TunnelLog>,
    pub net: Option<NetErr>,
    pub err: Option<ErrView>,
    pub untyped: Option<ErrView>,
    /// Body of an unexpected response, read by the caller.
    pub unexpected_body: Option<Result<Vec<u8>, NetErr>>,
    /// Paginated: (t, item or error kind)
    pub items: Vec<(u64, Result<Value, ErrView>)>,
    pub items_wait: Vec<u64>,
    pub items_end: String,
    /// Broken local promises noticed while capturing (rule, text).
    pub local: Vec<(String, String)>,
    /// Hook events: (t, what)
    pub hooks: Vec<(u64, String)>,
    pub polls: u32,
    pub t_first_poll: u64,
    pub sent_body: Option<Vec<u8>>,
    /// A sent body stream failed on purpose.
    pub body_failed: bool,
    pub cli: Option<CliLog>,
}

#[derive(Clone, Debug, Default)]
pub struct CliLog {
    pub events: Vec<(u64, String, Value)>,
    pub result: Option<Result<(), String>>,
    pub parse_err: Option<String>,
    /// When the configuration's own step for the command was run.
    pub steps: Vec<u64>,
}

pub fn hdrs(h: &reqwest::header::HeaderMap) -> Vec<(String, Vec<u8>)> {
    h.iter().map(|(n, v)| (n.as_str().to_string(), v.as_bytes().to_vec())).collect()
}

/// Capture code for one support crate (the published one, or the copy inside a
/// stand-alone crate).
#[macro_export]
macro_rules! capture_mod {
    ($($sup:tt)*) => {
        #[allow(unused_imports)]
        use $($sup)*::{ByteStream, Error, ResponseValue};
        use $crate::out::*;
        use $crate::run::{now, with};
        use futures::StreamExt;
        use serde::{de::DeserializeOwned, Serialize};
        use serde_json::Value;

        pub struct Json;
        pub struct Unit;
        pub struct Raw;
        pub struct Upg;

        #[allow(async_fn_in_trait)]
        pub trait Taker<T> {
            fn name() -> &'static str;
            fn decode() -> Option<Decode> {
                None
            }
            fn peek(_v: &T) -> Option<Value> {
                None
            }
            async fn take(v: ResponseValue<T>, rec: usize);
        }

        impl<T: Serialize + DeserializeOwned + std::fmt::Debug> Taker<T> for Json {
            fn name() -> &'static str {
                "json"
            }
            fn decode() -> Option<Decode> {
                fn d<T: Serialize + DeserializeOwned>(b: &[u8]) -> Result<Value, String> {
                    let v: T = serde_json::from_slice(b).map_err(|e| e.to_string())?;
                    Ok(serde_json::to_value(&v).unwrap())
                }
                Some(d::<T>)
            }
            fn peek(v: &T) -> Option<Value> {
                Some(serde_json::to_value(v).unwrap())
            }
            async fn take(rv: ResponseValue<T>, rec: usize) {
                let before = serde_json::to_value(&*rv).unwrap();
                let by_ref = serde_json::to_value(AsRef::<T>::as_ref(&rv)).unwrap();
                if before != by_ref {
                    with(rec, |o| o.local.push(("C01.asref".into(), format!("Deref and AsRef disagree: {before} / {by_ref}"))));
                }
                let dbg = format!("{:?}", rv);
                if dbg != format!("{:?}", &*rv) {
                    with(rec, |o| o.local.push(("C05.debug".into(), format!("Debug text of the response value is not its value's: {dbg}"))));
                }
                let (st, hd) = (rv.status(), rv.headers().clone());
                if rec % 2 == 0 {
                    let inner: T = rv.into_inner();
                    let v = serde_json::to_value(&inner).unwrap();
                    with(rec, |o| o.value = Some(v));
                    let again = ResponseValue::new(inner, st, hd.clone());
                    if again.status() != st || hdrs(again.headers()) != hdrs(&hd) {
                        with(rec, |o| o.local.push(("C05.rebuild".into(), "a rebuilt response value has other status or headers".into())));
                    }
                } else {
                    let cl = rv.content_length();
                    let m = rv.map::<(Value, u8), _, ()>(|v| (serde_json::to_value(&v).unwrap(), 7)).unwrap();
                    if m.status() != st {
                        with(rec, |o| o.local.push(("C05.map".into(), format!("mapping the value changed the status from {st} to {}", m.status()))));
                    }
                    if hdrs(m.headers()) != hdrs(&hd) || m.content_length() != cl {
                        let t = format!("mapping the value changed the headers from {:?} to {:?}", hd, m.headers());
                        with(rec, |o| o.local.push(("C05.map".into(), t)));
                    }
                    let v = m.into_inner().0;
                    with(rec, |o| o.value = Some(v));
                }
            }
        }

        impl Taker<()> for Unit {
            fn name() -> &'static str {
                "unit"
            }
            async fn take(rv: ResponseValue<()>, rec: usize) {
                let (st, hd) = (rv.status(), rv.headers().clone());
                let m = rv.map::<u8, _, ()>(|_| 3).unwrap();
                if m.status() != st || hdrs(m.headers()) != hdrs(&hd) || *m != 3 {
                    let t = format!("mapping an empty response changed {st} {hd:?} to {} {:?}", m.status(), m.headers());
                    with(rec, |o| o.local.push(("C05.map".into(), t)));
                }
            }
        }

        impl Taker<ByteStream> for Raw {
            fn name() -> &'static str {
                "raw"
            }
            async fn take(rv: ResponseValue<ByteStream>, rec: usize) {
                with(rec, |o| {
                    o.stream = Some(StreamLog::default());
                });
                let hold = $crate::run::plan(rec, |p| p.consume.hold_us);
                $crate::run::wait_us(hold).await;
                // Every way of getting at the stream.
                match rec % 4 {
                    0 => drain(rv.into_inner_stream(), rec).await,
                    1 => drain(rv.into_inner().into_inner(), rec).await,
                    2 => {
                        let mut rv = rv;
                        let s: &mut ByteStream = &mut rv;
                        let p: &mut std::pin::Pin<Box<_>> = &mut *s;
                        drain(p.as_mut(), rec).await
                    }
                    _ => {
                        let (st, hd) = (rv.status(), rv.headers().clone());
                        let b = ByteStream::new(rv.into_inner().into_inner());
                        let again = ResponseValue::new(b, st, hd);
                        drain(again.into_inner_stream(), rec).await
                    }
                }
            }
        }

        async fn drain<S>(s: S, rec: usize)
        where
            S: futures::Stream<Item = reqwest::Result<bytes::Bytes>>,
        {
            let mut s = std::pin::pin!(s);
            let (gaps, limit) = $crate::run::plan(rec, |p| {
                let l = match p.cancel {
                    Some($crate::scenario::Cancel::Items(n)) => n,
                    _ => usize::MAX,
                };
                (p.consume.gaps_us.clone(), l)
            });
            let mut n = 0;
            loop {
                if n >= limit {
                    with(rec, |o| {
                        let l = o.stream.as_mut().unwrap();
                        l.end = "dropped".into();
                        l.t_end = now();
                    });
                    return;
                }
                if !gaps.is_empty() {
                    $crate::run::wait_us(gaps[n % gaps.len()]).await;
                }
                let t0 = now();
                with(rec, |o| o.stream.as_mut().unwrap().t_wait = t0);
                let item = s.next().await;
                n += 1;
                let t = now();
                let stop = with(rec, |o| {
                    let l = o.stream.as_mut().unwrap();
                    match item {
                        Some(Ok(b)) => {
                            if b.is_empty() {
                                l.empty_items += 1;
                            }
                            l.data.extend_from_slice(&b);
                            let k = l.data.len();
                            l.items.push((t0, t, k));
                            false
                        }
                        Some(Err(e)) => {
                            l.end = "error".into();
                            l.err = Some(net_err(&e));
                            l.t_end = t;
                            true
                        }
                        None => {
                            l.end = "clean".into();
                            l.t_end = t;
                            true
                        }
                    }
                });
                if stop {
                    return;
                }
            }
        }

        impl Taker<reqwest::Upgraded> for Upg {
            fn name() -> &'static str {
                "upgraded"
            }
            async fn take(rv: ResponseValue<reqwest::Upgraded>, rec: usize) {
                $crate::run::tunnel(rv.into_inner(), rec).await
            }
        }

        fn view<E>(e: &Error<E>) -> ErrView
        where
            Error<E>: std::error::Error,
        {
            let mut v = ErrView {
                status: e.status().map(|s| s.as_u16()),
                display: format!("{e}"),
                alternate: format!("{e:#}"),
                debug: format!("{e:?}"),
                chain: chain(e),
                ..Default::default()
            };
            match e {
                Error::InvalidRequest(s) => {
                    v.kind = "invalid_request".into();
                    v.inner = s.clone();
                }
                Error::CommunicationError(e) => {
                    v.kind = "comm".into();
                    v.inner = e.to_string();
                    v.inner_chain = chain(e);
                }
                Error::InvalidUpgrade(e) => {
                    v.kind = "invalid_upgrade".into();
                    v.inner = e.to_string();
                    v.inner_chain = chain(e);
                }
                Error::ErrorResponse(rv) => {
                    v.kind = "error_response".into();
                    v.rv_status = Some(rv.status().as_u16());
                    v.rv_headers = hdrs(rv.headers());
                }
                Error::ResponseBodyError(e) => {
                    v.kind = "response_body".into();
                    v.inner = e.to_string();
                    v.inner_chain = chain(e);
                }
                Error::InvalidResponsePayload(b, e) => {
                    v.kind = "invalid_payload".into();
                    v.inner = e.to_string();
                    v.inner_chain = chain(e);
                    v.payload = Some(b.to_vec());
                }
                Error::UnexpectedResponse(r) => {
                    v.kind = "unexpected".into();
                    v.rv_status = Some(r.status().as_u16());
                    v.rv_headers = hdrs(r.headers());
                    v.inner = format!("{r:?}");
                }
                Error::PreHookError(s) => {
                    v.kind = "pre_hook".into();
                    v.inner = s.clone();
                }
                Error::PostHookError(s) => {
                    v.kind = "post_hook".into();
                    v.inner = s.clone();
                }
            }
            v
        }

        /// The view of an error without consuming it (items of paginated streams).
        pub fn item_err<E>(e: Error<E>) -> ErrView
        where
            Error<E>: std::error::Error,
        {
            view(&e)
        }

        fn note_net<E>(o: &mut Out, e: &Error<E>) {
            match e {
                Error::CommunicationError(e) | Error::InvalidUpgrade(e) | Error::ResponseBodyError(e) => {
                    o.net = Some(net_err(e))
                }
                _ => {}
            }
        }

        async fn unexpected(r: reqwest::Response, rec: usize) {
            with(rec, |o| {
                o.status = Some(r.status().as_u16());
                o.headers = hdrs(r.headers());
            });
            let b = r.bytes().await;
            with(rec, |o| {
                o.unexpected_body = Some(match b {
                    Ok(b) => Ok(b.to_vec()),
                    Err(e) => Err(net_err(&e)),
                })
            });
        }

        pub async fn fin<S, F, T, E>(r: Result<ResponseValue<T>, Error<E>>, rec: usize)
        where
            S: Taker<T>,
            F: Taker<E>,
            Error<E>: std::error::Error,
        {
            let t = now();
            with(rec, |o| {
                o.t_ret = t;
                o.decode_ok = S::decode();
                o.decode_err = F::decode();
            });
            match r {
                Ok(rv) => {
                    with(rec, |o| {
                        o.kind = "ok".into();
                        o.status = Some(rv.status().as_u16());
                        o.headers = hdrs(rv.headers());
                        o.content_length = Some(rv.content_length());
                        o.carrier = S::name().into();
                    });
                    S::take(rv, rec).await;
                }
                Err(e) => {
                    let v = view(&e);
                    with(rec, |o| {
                        o.kind = v.kind.clone();
                        o.err = Some(v);
                        note_net(o, &e);
                    });
                    let early = with(rec, |o| o.op % 3 == 0);
                    match e {
                        Error::ErrorResponse(rv) if !early => {
                            with(rec, |o| {
                                o.status = Some(rv.status().as_u16());
                                o.headers = hdrs(rv.headers());
                                o.content_length = Some(rv.content_length());
                                o.carrier = F::name().into();
                            });
                            F::take(rv, rec).await
                        }
                        Error::UnexpectedResponse(r) if !early => unexpected(r, rec).await,
                        e => {
                            if let Error::ErrorResponse(rv) = &e {
                                with(rec, |o| {
                                    o.status = Some(rv.status().as_u16());
                                    o.headers = hdrs(rv.headers());
                                    o.content_length = Some(rv.content_length());
                                    o.carrier = F::name().into();
                                    o.value = F::peek(rv);
                                });
                            }
                            let u = e.into_untyped();
                            let uv = view::<()>(&u);
                            with(rec, |o| o.untyped = Some(uv));
                            if let Error::UnexpectedResponse(r) = u {
                                unexpected(r, rec).await
                            }
                        }
                    }
                }
            }
        }

        /// Consumes a paginated stream.
        pub async fn pages<S, T, E>(s: S, rec: usize)
        where
            S: futures::Stream<Item = Result<T, Error<E>>>,
            T: Serialize,
            Error<E>: std::error::Error,
        {
            let mut s = std::pin::pin!(s);
            let (gaps, limit) = $crate::run::plan(rec, |p| {
                let l = match p.cancel {
                    Some($crate::scenario::Cancel::Items(n)) => n,
                    _ => usize::MAX,
                };
                (p.consume.gaps_us.clone(), l)
            });
            with(rec, |o| o.kind = "stream".into());
            let mut n = 0;
            let mut after_err = 0;
            loop {
                if n >= limit || n > 20_000 {
                    with(rec, |o| o.items_end = "dropped".into());
                    return;
                }
                if !gaps.is_empty() {
                    $crate::run::wait_us(gaps[n % gaps.len()]).await;
                }
                let t0 = now();
                with(rec, |o| o.items_wait.push(t0));
                let item = s.next().await;
                n += 1;
                let t = now();
                match item {
                    None => {
                        with(rec, |o| {
                            o.items_end = "clean".into();
                            o.t_ret = t;
                        });
                        return;
                    }
                    Some(Ok(v)) => {
                        let v = serde_json::to_value(&v).unwrap();
                        with(rec, |o| o.items.push((t, Ok(v))));
                    }
                    Some(Err(e)) => {
                        let v = view(&e);
                        with(rec, |o| {
                            note_net(o, &e);
                            o.items.push((t, Err(v)))
                        });
                        after_err += 1;
                        if after_err > 3 {
                            with(rec, |o| o.items_end = "errors".into());
                            return;
                        }
                    }
                }
            }
        }
    };
}
