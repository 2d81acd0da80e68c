//! Executes one scenario: the client-side tasks, their scheduler, and the run's record.
use crate::clients;
use crate::libc_seam::world;
use crate::out::*;
use crate::rng::Rng;
use crate::scenario::*;
use crate::world::World;
use futures::FutureExt;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct State {
    pub sc: Scenario,
    pub plans: Vec<Op>,
    pub outs: Vec<Out>,
    pub cur: Option<usize>,
    pub panics: Vec<String>,
    pub sched: Rng,
    pub all_done: bool,
    pub recovery_rec: Option<usize>,
    pub on_finish: Option<fn(&State, &World)>,
}

struct Holder(UnsafeCell<Option<Box<State>>>);
unsafe impl Sync for Holder {}
static STATE: Holder = Holder(UnsafeCell::new(None));

#[allow(clippy::mut_from_ref)]
pub fn state() -> &'static mut State {
    unsafe { (*STATE.0.get()).as_mut().expect("no run") }
}

pub fn now() -> u64 {
    world().rel()
}

pub fn with<R>(rec: usize, f: impl FnOnce(&mut Out) -> R) -> R {
    f(&mut state().outs[rec])
}

/// A repeated call is about to be sent again.
pub fn again(rec: usize) {
    let t = now();
    with(rec, |o| o.t_again = t);
}

pub fn plan<R>(rec: usize, f: impl FnOnce(&Op) -> R) -> R {
    f(&state().plans[rec])
}

pub fn cur() -> Option<usize> {
    state().cur
}

/// The scenario or the harness is at fault: never reported as a violation.
pub fn harness(msg: String) -> ! {
    eprintln!("HARNESS ERROR: {msg}");
    unsafe { libc::_exit(77) }
}

/// Ends the run on the spot (nothing can happen any more, or it goes on for ever).
pub fn bail() -> ! {
    finish();
    unsafe { libc::_exit(0) }
}

fn finish() {
    world().on = false;
    world().drain();
    if let Some(f) = state().on_finish.take() {
        f(state(), world());
    }
}

pub async fn wait_us(us: u64) {
    if us > 0 {
        tokio::time::sleep(std::time::Duration::from_micros(us)).await
    }
}

/// Boxes the call's future.
pub fn sized<F: Future>(rec: usize, f: F) -> Pin<Box<F>> {
    let _ = rec;
    Box::pin(f)
}

// ------------------------------------------------------------------ request bodies

pub fn octet_body(rec: usize) -> reqwest::Body {
    let b = plan(rec, |p| p.args["body"].clone());
    if let Some(chunks) = b.get("chunks") {
        let chunks: Vec<(u64, Blob)> = serde_json::from_value(chunks.clone()).unwrap();
        let fail = b.get("fail").and_then(|v| v.as_bool()).unwrap_or(false);
        let all: Vec<u8> = chunks.iter().flat_map(|(_, b)| b.bytes()).collect();
        with(rec, |o| o.sent_body = Some(all));
        let s = futures::stream::unfold((chunks.into_iter(), fail), move |(mut it, fail)| async move {
            match it.next() {
                Some((us, b)) => {
                    wait_us(us).await;
                    Some((Ok::<Vec<u8>, std::io::Error>(b.bytes()), (it, fail)))
                }
                None if fail => {
                    with(rec, |o| o.body_failed = true);
                    world().count("request_body_stream_fails");
                    Some((Err(std::io::Error::other("the caller's body stream failed")), (it, false)))
                }
                None => None,
            }
        });
        return reqwest::Body::wrap_stream(s);
    }
    let bytes = serde_json::from_value::<Blob>(b["blob"].clone()).unwrap().bytes();
    with(rec, |o| o.sent_body = Some(bytes.clone()));
    match rec % 3 {
        0 => reqwest::Body::from(bytes),
        1 => reqwest::Body::from(bytes::Bytes::from(bytes)),
        _ => match String::from_utf8(bytes) {
            Ok(s) => reqwest::Body::from(s),
            Err(e) => reqwest::Body::from(e.into_bytes()),
        },
    }
}

pub fn text_body(rec: usize) -> String {
    let b = plan(rec, |p| p.args["body"].clone());
    let s = match &b {
        serde_json::Value::String(s) => s.clone(),
        v => String::from_utf8(serde_json::from_value::<Blob>(v.clone()).unwrap().bytes())
            .unwrap_or_else(|_| harness("text body is not text".into())),
    };
    with(rec, |o| o.sent_body = Some(s.clone().into_bytes()));
    s
}

// ------------------------------------------------------------------ upgraded connections

pub async fn tunnel(up: reqwest::Upgraded, rec: usize) {
    use tokio::io::{AsyncReadExt, AsyncWriteExt};
    with(rec, |o| o.tunnel = Some(TunnelLog::default()));
    let t = plan(rec, |p| p.args.get("tunnel").cloned().unwrap_or_default());
    let sends: Vec<(u64, Blob)> = t.get("send").map(|v| serde_json::from_value(v.clone()).unwrap()).unwrap_or_default();
    let shut = t.get("shutdown").and_then(|v| v.as_bool()).unwrap_or(false);
    let bufsz = t.get("buf").and_then(|v| v.as_u64()).unwrap_or(4096) as usize;
    let limit = t.get("limit_ms").and_then(|v| v.as_u64()).unwrap_or(5_000);
    let rdelay = t.get("read_gap_us").and_then(|v| v.as_u64()).unwrap_or(0);
    let (mut rd, mut wr) = tokio::io::split(up);
    let writer = async {
        for (us, b) in sends {
            wait_us(us).await;
            let b = b.bytes();
            let mut off = 0;
            while off < b.len() {
                match wr.write(&b[off..]).await {
                    Ok(0) => {
                        with(rec, |o| o.tunnel.as_mut().unwrap().write_err = "wrote nothing".into());
                        return;
                    }
                    Ok(n) => {
                        with(rec, |o| o.tunnel.as_mut().unwrap().written.extend_from_slice(&b[off..off + n]));
                        off += n;
                    }
                    Err(e) => {
                        with(rec, |o| o.tunnel.as_mut().unwrap().write_err = e.to_string());
                        return;
                    }
                }
            }
            if let Err(e) = wr.flush().await {
                with(rec, |o| o.tunnel.as_mut().unwrap().write_err = e.to_string());
                return;
            }
        }
        if shut {
            if let Err(e) = wr.shutdown().await {
                with(rec, |o| o.tunnel.as_mut().unwrap().write_err = e.to_string());
            }
        }
    };
    let reader = async {
        let mut buf = vec![0u8; bufsz.max(1)];
        loop {
            wait_us(rdelay).await;
            let r = rd.read(&mut buf).await;
            let t = now();
            let stop = with(rec, |o| {
                let l = o.tunnel.as_mut().unwrap();
                match r {
                    Ok(0) => {
                        l.end = "eof".into();
                        l.t_end = t;
                        true
                    }
                    Ok(n) => {
                        l.got.extend_from_slice(&buf[..n]);
                        let k = l.got.len();
                        l.got_log.push((t, k));
                        false
                    }
                    Err(e) => {
                        l.end = "error".into();
                        l.err = e.to_string();
                        l.t_end = t;
                        true
                    }
                }
            });
            if stop {
                return;
            }
        }
    };
    let both = futures::future::join(writer, reader);
    if tokio::time::timeout(std::time::Duration::from_millis(limit), both).await.is_err() {
        let t = now();
        with(rec, |o| {
            let l = o.tunnel.as_mut().unwrap();
            if l.end.is_empty() {
                l.end = "dropped".into();
                l.t_end = t;
            }
        });
    }
}

// ------------------------------------------------------------------ scheduler

struct Flag {
    set: AtomicBool,
    root: Arc<std::sync::Mutex<Option<Waker>>>,
}

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.set.store(true, Ordering::SeqCst);
        if let Some(w) = self.root.lock().unwrap().as_ref() {
            w.wake_by_ref()
        }
    }
}

type LocalFut = Pin<Box<dyn Future<Output = ()>>>;

/// Polls the caller's tasks in an order chosen by the PRNG.
struct Root {
    tasks: Vec<Option<LocalFut>>,
    flags: Vec<Arc<Flag>>,
    curs: Vec<Option<usize>>,
    waker: Arc<std::sync::Mutex<Option<Waker>>>,
}

impl Root {
    fn new(tasks: Vec<LocalFut>) -> Root {
        let waker = Arc::new(std::sync::Mutex::new(None));
        let flags = tasks
            .iter()
            .map(|_| Arc::new(Flag { set: AtomicBool::new(true), root: waker.clone() }))
            .collect();
        Root { curs: vec![None; tasks.len()], tasks: tasks.into_iter().map(Some).collect(), flags, waker }
    }
}

impl Future for Root {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        *self.waker.lock().unwrap() = Some(cx.waker().clone());
        loop {
            if self.tasks.iter().all(|t| t.is_none()) {
                return Poll::Ready(());
            }
            let ready: Vec<usize> = (0..self.tasks.len())
                .filter(|&i| self.tasks[i].is_some() && self.flags[i].set.load(Ordering::SeqCst))
                .collect();
            if ready.is_empty() {
                return Poll::Pending;
            }
            let s = &mut state().sched;
            let defer = world().net.defer;
            if defer > 0 && !world().faults_off && s.permille(defer) {
                world().count("task_poll_deferred");
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            let i = *s.pick(&ready);
            world().shape(6, i as u64);
            self.flags[i].set.store(false, Ordering::SeqCst);
            let w = Waker::from(self.flags[i].clone());
            let mut c2 = Context::from_waker(&w);
            state().cur = self.curs[i];
            let mut t = self.tasks[i].take().unwrap();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.as_mut().poll(&mut c2)));
            self.curs[i] = state().cur;
            state().cur = None;
            match r {
                Ok(Poll::Pending) => self.tasks[i] = Some(t),
                Ok(Poll::Ready(())) => {}
                Err(e) => {
                    let msg = panic_text(&*e);
                    if let Some(rec) = self.curs[i] {
                        let t = now();
                        with(rec, |o| {
                            o.panicked = Some(msg);
                            o.t_end = t;
                        });
                    }
                }
            }
            if state().sched.pct(30) && ready.len() > 1 {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
    }
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

// ------------------------------------------------------------------ clients

#[derive(Clone, Default)]
pub struct Clients {
    pub base: String,
    pub pos: Option<clients::positional::Client>,
    pub bld: Option<clients::builder::Client>,
    pub tag: Option<clients::tagged::Client>,
    pub hpos: Option<clients::hooks_positional::Client>,
    pub hbld: Option<clients::hooks_builder::Client>,
    pub dir: Option<reqwest::Client>,
    #[cfg(feature = "packagings")]
    pub pack: crate::packagings::Packs,
}

/// The HTTP client as the caller configured it.
fn own_client(c: &crate::scenario::OwnClient) -> reqwest::Client {
    let d = std::time::Duration::from_millis(c.timeout_ms);
    let mut b = reqwest::Client::builder().connect_timeout(d).timeout(d);
    if c.no_pool {
        b = b.pool_max_idle_per_host(0);
    }
    if c.no_redirect {
        b = b.redirect(reqwest::redirect::Policy::none());
    }
    if c.title_case {
        b = b.http1_title_case_headers();
    }
    let mut h = reqwest::header::HeaderMap::new();
    for (n, v) in &c.headers {
        h.insert(reqwest::header::HeaderName::from_bytes(n.as_bytes()).unwrap(), v.parse().unwrap());
    }
    b.default_headers(h).build().unwrap()
}

/// A generated client, with the default HTTP client or the caller's own.
#[macro_export]
macro_rules! made {
    ($($m:ident)::+, $own:expr, $b:expr $(, $inner:expr)?) => {
        match $own() {
            None => $($m)::+::Client::new($b $(, $inner)?),
            Some(c) => $($m)::+::Client::new_with_client($b, c $(, $inner)?),
        }
    };
}

impl Clients {
    fn make(sc: &Scenario) -> Clients {
        let host = if sc.ipv6 { "[fd00::1]" } else { "10.0.0.1" };
        let base = format!("http://{host}:8080{}", sc.base_path);
        let called = |v: &str| sc.tasks.iter().flat_map(|t| &t.ops).any(|o| o.call.split(':').next() == Some(v));
        #[cfg(feature = "packagings")]
        let used = |v: &str| called(v) && !crate::packagings::Packs::has(&sc.pack, v);
        #[cfg(not(feature = "packagings"))]
        let used = called;
        let inner = || crate::hooks::Inner { tag: sc.seed };
        let b = base.as_str();
        let cli = used("cli");
        let own = || sc.own_client.as_ref().map(own_client);
        let default = || {
            let d = std::time::Duration::from_secs(15);
            reqwest::Client::builder().connect_timeout(d).timeout(d).build().unwrap()
        };
        Clients {
            pos: used("pos").then(|| made!(clients::positional, own, b)),
            bld: (used("bld") || cli).then(|| made!(clients::builder, own, b)),
            tag: used("tag").then(|| made!(clients::tagged, own, b)),
            hpos: used("hpos").then(|| made!(clients::hooks_positional, own, b, inner())),
            hbld: used("hbld").then(|| made!(clients::hooks_builder, own, b, inner())),
            dir: used("dir").then(|| own().unwrap_or_else(default)),
            #[cfg(feature = "packagings")]
            pack: crate::packagings::Packs::make(&sc.pack, &called, b, &inner, &own),
            base,
        }
    }
}

pub mod ops {
    crate::positional_ops!(pos, [crate::clients::positional], [progenitor_client]);
    crate::positional_ops!(hpos, [crate::clients::hooks_positional], [progenitor_client]);
    crate::builder_ops!(bld, [crate::clients::builder], [prelude], [progenitor_client], $);
    crate::builder_ops!(tag, [crate::clients::tagged], [prelude], [progenitor_client], $);
    crate::builder_ops!(hbld, [crate::clients::hooks_builder], [prelude], [progenitor_client], $);
}

async fn dispatch(c: &Clients, rec: usize) {
    let call = plan(rec, |p| p.call.clone());
    let (v, name) = call.split_once(':').unwrap_or_else(|| harness(format!("bad call {call}")));
    #[cfg(feature = "packagings")]
    {
        let pack = state().sc.pack.clone();
        if crate::packagings::Packs::has(&pack, v) {
            return c.pack.call(&pack, v, name, rec).await;
        }
    }
    match v {
        "pos" => ops::pos::call(c.pos.as_ref().unwrap(), name, rec).await,
        "bld" => ops::bld::call(c.bld.as_ref().unwrap(), name, rec).await,
        "tag" => ops::tag::call(c.tag.as_ref().unwrap(), name, rec).await,
        "hpos" => ops::hpos::call(c.hpos.as_ref().unwrap(), name, rec).await,
        "hbld" => ops::hbld::call(c.hbld.as_ref().unwrap(), name, rec).await,
        "dir" => crate::direct::call(c.dir.as_ref().unwrap(), &c.base, name, rec).await,
        "cli" => crate::cli_run::call(c.bld.as_ref().unwrap(), name, rec).await,
        _ => harness(format!("bad call {call}")),
    }
}

/// Drops the inner future after a number of polls or at a time.
struct Cut {
    inner: Option<LocalFut>,
    polls_left: Option<u32>,
    timer: Option<Pin<Box<tokio::time::Sleep>>>,
}

impl Future for Cut {
    /// true: ran to its end.
    type Output = bool;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<bool> {
        let me = &mut *self;
        if let Some(t) = &mut me.timer {
            if t.as_mut().poll(cx).is_ready() {
                me.inner = None;
                return Poll::Ready(false);
            }
        }
        if me.polls_left == Some(0) {
            me.inner = None;
            return Poll::Ready(false);
        }
        if let Some(n) = &mut me.polls_left {
            *n -= 1;
        }
        match me.inner.as_mut().unwrap().poll_unpin(cx) {
            Poll::Ready(()) => Poll::Ready(true),
            Poll::Pending => {
                if me.polls_left == Some(0) {
                    me.inner = None;
                    return Poll::Ready(false);
                }
                Poll::Pending
            }
        }
    }
}

async fn run_op(c: Clients, rec: usize) {
    let (before, cancel) = plan(rec, |p| (p.before_ms, p.cancel.clone()));
    state().cur = Some(rec);
    wait_us(before * 1000).await;
    let t = now();
    with(rec, |o| {
        o.started = true;
        o.t_start = t;
    });
    world().t(format_args!("op record {rec} starts\n"));
    let fut: LocalFut = Box::pin(async move { dispatch(&c, rec).await });
    let ran = match cancel {
        Some(Cancel::After(us)) => {
            Cut {
                inner: Some(fut),
                polls_left: None,
                timer: Some(Box::pin(tokio::time::sleep(std::time::Duration::from_micros(us)))),
            }
            .await
        }
        Some(Cancel::Polls(n)) => Cut { inner: Some(fut), polls_left: Some(n), timer: None }.await,
        _ => {
            fut.await;
            true
        }
    };
    let t = now();
    let kind = with(rec, |o| {
        o.t_end = t;
        o.done = ran;
        o.cancelled = !ran;
        o.kind.clone()
    });
    if !ran {
        world().count("call_cancelled");
    }
    world().t(format_args!("op record {rec} ends: {kind} (ran {ran})\n"));
}

/// Runs the scenario to its end in this process (once per process).
pub fn execute(sc: &Scenario, verbose: bool, on_finish: fn(&State, &World)) {
    let mut plans: Vec<Op> = sc.tasks.iter().flat_map(|t| t.ops.clone()).collect();
    let mut recovery = None;
    let mut w = World::new(sc);
    if sc.recovery {
        let id = 900_000_000;
        let first = plans.first().map(|o| o.call.split(':').next().unwrap().to_string()).unwrap_or("pos".into());
        let call = match first.as_str() {
            "dir" => "dir:path".to_string(),
            "cli" => "bld:thing_get".to_string(),
            v => format!("{v}:thing_get"),
        };
        let op = Op {
            id,
            call,
            args: serde_json::json!({"id": "recovery", "segments": ["recovery"]}),
            exch: vec![Exch {
                body: Blob::Text(r#"{"id":77,"name":"r","kind":"alpha","tags":[]}"#.into()),
                ..Default::default()
            }],
            cancel: None,
            consume: Default::default(),
            before_ms: 0,
        };
        w.server.plans.insert(id, op.exch.clone());
        recovery = Some(plans.len());
        plans.push(op);
    }
    w.verbose = verbose;
    let outs = plans.iter().map(|o| Out { op: o.id, call: o.call.clone(), ..Default::default() }).collect();
    let mut r = Rng::new(sc.seed);
    r.next();
    r.next();
    let st = State {
        sc: sc.clone(),
        plans,
        outs,
        cur: None,
        panics: vec![],
        sched: r.fork(7),
        all_done: false,
        recovery_rec: recovery,
        on_finish: Some(on_finish),
    };
    unsafe { *STATE.0.get() = Some(Box::new(st)) };
    crate::libc_seam::install(w);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = panic_text(i.payload());
        state().panics.push(format!("{msg} at {loc}"));
    }));
    world().on = true;
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .event_interval(sc.net.event_interval.max(1))
        .global_queue_interval(sc.net.global_interval.max(1))
        .build()
        .unwrap();
    rt.block_on(async {
        let cl = Clients::make(sc);
        let mut tasks: Vec<LocalFut> = vec![];
        let mut rec = 0;
        for t in &sc.tasks {
            let n = t.ops.len();
            let start = t.start_ms;
            let recs: Vec<usize> = (rec..rec + n).collect();
            rec += n;
            let c = cl.clone();
            let clone_each = sc.clone_client;
            tasks.push(Box::pin(async move {
                wait_us(start * 1000).await;
                for r in recs {
                    let c2 = if clone_each { c.clone() } else { c.clone() };
                    run_op(c2, r).await;
                }
            }));
        }
        Root::new(tasks).await;
        state().all_done = true;
        if let Some(rec) = recovery {
            let until = world().heal();
            wait_us(until / 1000 + 1_000_000).await;
            let c = cl.clone();
            Root::new(vec![Box::pin(run_op(c, rec))]).await;
        }
        drop(cl);
        // Let the connection tasks wind down.
        wait_us(5_000).await;
    });
    drop(rt);
    finish();
}
