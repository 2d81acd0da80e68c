//! A stand-in for the `httpmock` crate (0.7), which is not available offline: what a mock
//! expects and answers, without the server. The simulated server's requests are given to
//! `Mock::accepts`. As in the original, a path is compared as it is in the request line
//! (percent-encoded), query pairs decoded; every condition of a mock has to hold.
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Method {
    GET,
    HEAD,
    POST,
    PUT,
    DELETE,
    CONNECT,
    OPTIONS,
    TRACE,
    PATCH,
}

#[derive(Clone, Debug, Default)]
pub struct HttpMockRequest {
    pub path: String,
    pub method: String,
    pub headers: Option<Vec<(String, String)>>,
    pub query_params: Option<Vec<(String, String)>>,
    pub body: Option<Vec<u8>>,
}

pub type MockMatcherFunction = fn(&HttpMockRequest) -> bool;

type Cond = Box<dyn Fn(&HttpMockRequest) -> bool>;

#[derive(Clone, Default)]
pub struct When(Rc<RefCell<Vec<(String, Cond)>>>);

impl When {
    fn and(self, what: String, f: impl Fn(&HttpMockRequest) -> bool + 'static) -> Self {
        self.0.borrow_mut().push((what, Box::new(f)));
        self
    }
    pub fn method<M: Into<Method>>(self, m: M) -> Self {
        let m = m.into();
        self.and(format!("method {m:?}"), move |r| r.method.eq_ignore_ascii_case(&format!("{m:?}")))
    }
    pub fn path<S: Into<String>>(self, p: S) -> Self {
        let p = p.into();
        self.and(format!("path {p}"), move |r| r.path == p)
    }
    pub fn path_contains<S: Into<String>>(self, p: S) -> Self {
        let p = p.into();
        self.and(format!("path contains {p}"), move |r| r.path.contains(&p))
    }
    pub fn path_matches<R: Into<regex::Regex>>(self, re: R) -> Self {
        let re = re.into();
        self.and(format!("path matches {re}"), move |r| re.is_match(&r.path))
    }
    pub fn query_param<N: Into<String>, V: Into<String>>(self, n: N, v: V) -> Self {
        let (n, v) = (n.into(), v.into());
        self.and(format!("query {n}={v}"), move |r| r.query_params.iter().flatten().any(|(a, b)| *a == n && *b == v))
    }
    pub fn query_param_exists<N: Into<String>>(self, n: N) -> Self {
        let n = n.into();
        self.and(format!("query has {n}"), move |r| r.query_params.iter().flatten().any(|(a, _)| *a == n))
    }
    pub fn header<N: Into<String>, V: Into<String>>(self, n: N, v: V) -> Self {
        let (n, v) = (n.into(), v.into());
        self.and(format!("header {n}: {v}"), move |r| r.headers.iter().flatten().any(|(a, b)| a.eq_ignore_ascii_case(&n) && *b == v))
    }
    pub fn header_exists<N: Into<String>>(self, n: N) -> Self {
        let n = n.into();
        self.and(format!("header has {n}"), move |r| r.headers.iter().flatten().any(|(a, _)| a.eq_ignore_ascii_case(&n)))
    }
    pub fn body<S: Into<String>>(self, b: S) -> Self {
        let b = b.into();
        self.and(format!("body {b:?}"), move |r| r.body.as_deref().unwrap_or_default() == b.as_bytes())
    }
    pub fn json_body<V: Into<serde_json::Value>>(self, v: V) -> Self {
        let v = v.into();
        self.and(format!("json body {v}"), move |r| {
            serde_json::from_slice::<serde_json::Value>(r.body.as_deref().unwrap_or_default()).is_ok_and(|b| b == v)
        })
    }
    pub fn json_body_obj<T: serde::Serialize>(self, v: &T) -> Self {
        self.json_body(serde_json::to_value(v).expect("a value"))
    }
    pub fn matches(self, f: MockMatcherFunction) -> Self {
        self.and("a function".into(), f)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Answer {
    pub status: Option<u16>,
    pub headers: Vec<(String, String)>,
    pub body: Option<Vec<u8>>,
}

#[derive(Clone, Default)]
pub struct Then(Rc<RefCell<Answer>>);

impl Then {
    pub fn status(self, s: u16) -> Self {
        self.0.borrow_mut().status = Some(s);
        self
    }
    pub fn header<N: Into<String>, V: Into<String>>(self, n: N, v: V) -> Self {
        self.0.borrow_mut().headers.push((n.into(), v.into()));
        self
    }
    pub fn body(self, b: impl AsRef<[u8]>) -> Self {
        self.0.borrow_mut().body = Some(b.as_ref().to_vec());
        self
    }
    pub fn json_body<V: Into<serde_json::Value>>(self, v: V) -> Self {
        self.0.borrow_mut().body = Some(v.into().to_string().into_bytes());
        self
    }
    pub fn json_body_obj<T: serde::Serialize>(self, v: &T) -> Self {
        self.json_body(serde_json::to_value(v).expect("a value"))
    }
}

/// A configured mock.
pub struct Mock<'a> {
    when: When,
    then: Then,
    _server: std::marker::PhantomData<&'a ()>,
}

impl Mock<'_> {
    /// The first condition that the request does not meet.
    pub fn refuses(&self, r: &HttpMockRequest) -> Option<String> {
        self.when.0.borrow().iter().find(|(_, c)| !c(r)).map(|(w, _)| w.clone())
    }
    pub fn accepts(&self, r: &HttpMockRequest) -> bool {
        self.refuses(r).is_none()
    }
    pub fn answer(&self) -> Answer {
        self.then.0.borrow().clone()
    }
}

#[derive(Default)]
pub struct MockServer(());

impl MockServer {
    pub fn mock<F: FnOnce(When, Then)>(&self, f: F) -> Mock<'_> {
        let (w, t) = (When::default(), Then::default());
        f(w.clone(), t.clone());
        Mock { when: w, then: t, _server: std::marker::PhantomData }
    }
}
