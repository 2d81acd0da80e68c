//! Draws scenarios: what the callers do, what the server does, what goes wrong, and when.
use crate::rng::Rng;
use crate::scenario::*;
use crate::spec::*;
use serde_json::{json, Map, Value};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Calm,
    Slow,
    Faulty,
}

/// What the runs of one property concentrate on.
struct Profile {
    ops: &'static [(u64, &'static str)],
    variants: &'static [&'static str],
    /// Weights of calm, slow and faulty runs.
    modes: [u64; 3],
    /// Percent of runs with several concurrent tasks.
    multi: u64,
    /// Percent of calls that are abandoned.
    cancel: u64,
    recovery: u64,
    /// Percent of builder calls with a missing or invalid argument.
    invalid: u64,
    /// Percent of typed bodies that are not valid documents.
    mutate: u64,
    /// Percent of responses with a documented success status.
    success: u64,
}

const BASE: Profile = Profile {
    ops: ALL,
    variants: &["pos", "bld", "tag", "hpos", "hbld"],
    modes: [30, 35, 35],
    multi: 20,
    cancel: 3,
    recovery: 10,
    invalid: 0,
    mutate: 30,
    success: 50,
};

const ALL: &[(u64, &str)] = &[
    (6, "thing_get"), (4, "thing_create"), (4, "thing_put"), (3, "thing_patch"), (4, "thing_delete"), (2, "thing_head"),
    (3, "thing_list"), (3, "thing_list_stream"), (2, "proj_list"), (3, "proj_list_stream"), (5, "raw_get"), (3, "raw_default"),
    (4, "upload_octet"), (3, "upload_text"), (2, "upload_md"), (3, "form_post"), (4, "search"), (2, "channel"), (2, "channel_typed"),
    (3, "do_nothing"), (3, "only_errors"), (3, "opt_json"), (3, "scalar_json"), (3, "any_json"), (3, "map_json"), (3, "root_get"),
    (2, "obj_query"), (3, "dir:decode"), (2, "dir:variants"), (2, "dir:query"), (1, "dir:path"), (1, "dir:form"), (3, "dir:upgrade"),
];

const TYPED: &[(u64, &str)] = &[
    (6, "thing_get"), (4, "thing_create"), (3, "thing_put"), (4, "thing_patch"), (2, "thing_delete"), (4, "thing_list"), (2, "proj_list"),
    (2, "upload_text"), (2, "upload_md"), (2, "form_post"), (3, "search"), (1, "channel_typed"), (2, "do_nothing"), (2, "only_errors"),
    (4, "opt_json"), (4, "scalar_json"), (4, "any_json"), (4, "map_json"), (14, "dir:decode"),
];

fn profile(prop: &str) -> Profile {
    match prop {
        "C01" => Profile { ops: TYPED, modes: [35, 40, 25], mutate: 45, success: 65, ..BASE },
        "C02" => Profile {
            ops: &[(10, "raw_get"), (8, "raw_default"), (2, "only_errors"), (2, "root_get"), (1, "thing_get"), (1, "channel")],
            modes: [20, 40, 40],
            cancel: 6,
            success: 80,
            ..BASE
        },
        "C03" => Profile {
            ops: &[(6, "channel"), (5, "channel_typed"), (5, "dir:upgrade")],
            modes: [30, 40, 30],
            success: 75,
            cancel: 4,
            ..BASE
        },
        "C04" => Profile { modes: [30, 30, 40], success: 40, ..BASE },
        "C05" => Profile { modes: [45, 35, 20], success: 55, cancel: 1, ..BASE },
        "C06" => Profile {
            ops: &[
                (9, "search"), (3, "thing_get"), (3, "thing_put"), (3, "do_nothing"), (2, "thing_list"), (3, "proj_list"), (2, "proj_list_stream"),
                (2, "obj_query"), (2, "raw_default"), (2, "raw_get"), (1, "channel"), (1, "root_get"), (1, "thing_patch"), (1, "upload_text"),
                (1, "upload_octet"), (16, "dir:query"), (8, "dir:path"), (1, "dir:form"),
            ],
            modes: [50, 40, 10],
            cancel: 1,
            invalid: 6,
            ..BASE
        },
        "C07" => Profile {
            ops: &[
                (10, "upload_octet"), (5, "upload_text"), (4, "upload_md"), (5, "form_post"), (5, "thing_create"), (4, "thing_put"), (3, "thing_patch"),
                (1, "thing_get"), (8, "dir:form"),
            ],
            modes: [25, 45, 30],
            cancel: 6,
            ..BASE
        },
        "C08" => Profile { modes: [30, 30, 40], invalid: 30, cancel: 6, multi: 35, ..BASE },
        "C09" => Profile {
            ops: &[(10, "thing_list_stream"), (9, "proj_list_stream")],
            modes: [35, 35, 30],
            cancel: 12,
            invalid: 4,
            multi: 30,
            ..BASE
        },
        "C10" => Profile { variants: &["hpos", "hbld"], ops: HOOKABLE, multi: 40, cancel: 10, invalid: 6, ..BASE },
        "C11" => Profile { multi: 100, cancel: 20, recovery: 40, modes: [35, 35, 30], ..BASE },
        "C12" => Profile { modes: [5, 15, 80], recovery: 90, cancel: 6, multi: 30, ..BASE },
        "C13" => Profile { modes: [25, 20, 55], success: 20, mutate: 60, ops: ERRORS, invalid: 8, ..BASE },
        "C16" => Profile { variants: &["cli"], ops: CLI, modes: [40, 30, 30], multi: 30, cancel: 3, ..BASE },
        "C22" => Profile { variants: &["pos"], ops: MOCKED, modes: [50, 35, 15], multi: 40, ..BASE },
        "C17" => Profile { multi: 25, invalid: 5, ..BASE },
        _ => BASE,
    }
}

const ERRORS: &[(u64, &str)] = &[
    (6, "thing_get"), (4, "thing_create"), (3, "thing_put"), (3, "thing_patch"), (3, "thing_delete"), (2, "thing_head"), (3, "thing_list"),
    (2, "thing_list_stream"), (3, "raw_get"), (2, "raw_default"), (2, "upload_octet"), (3, "search"), (2, "channel"), (3, "channel_typed"),
    (3, "do_nothing"), (2, "only_errors"), (3, "opt_json"), (3, "scalar_json"), (3, "map_json"), (2, "root_get"), (16, "dir:variants"),
    (6, "dir:decode"),
];

const MOCKED: &[(u64, &str)] = &[
    (6, "thing_get"), (5, "thing_create"), (5, "thing_put"), (4, "thing_patch"), (4, "thing_delete"), (2, "thing_head"), (5, "thing_list"), (5, "proj_list"),
    (4, "raw_get"), (4, "raw_default"), (2, "upload_octet"), (3, "upload_text"), (2, "upload_md"), (2, "form_post"), (8, "search"), (3, "channel"),
    (1, "channel_typed"), (5, "do_nothing"), (2, "only_errors"), (2, "any_json"), (2, "map_json"), (2, "root_get"),
];

const HOOKABLE: &[(u64, &str)] = &[
    (6, "thing_get"), (4, "thing_create"), (3, "thing_put"), (2, "thing_patch"), (3, "thing_delete"), (2, "thing_head"), (3, "thing_list"),
    (5, "thing_list_stream"), (3, "proj_list_stream"), (4, "raw_get"), (2, "raw_default"), (3, "upload_octet"), (2, "upload_text"),
    (2, "form_post"), (3, "search"), (2, "channel"), (2, "channel_typed"), (2, "do_nothing"), (2, "only_errors"), (2, "scalar_json"), (2, "root_get"),
];

const CLI: &[(u64, &str)] = &[
    (5, "thing_get"), (3, "thing_delete"), (2, "thing_head"), (2, "thing_patch"), (8, "thing_list"), (3, "thing_create"), (3, "thing_put"),
    (8, "proj_list"), (4, "form_post"), (3, "do_nothing"), (2, "opt_json"), (2, "scalar_json"), (2, "any_json"), (2, "map_json"),
];

const NASTY: &[&str] = &[
    "", "a", "a/b", "/", "//", "a b", " ", "a+b", "+", "%", "%2F", "%41", "%zz", "?x=1", "x&y=z", "#frag", "a;b", "a,b", "=", "&", "==", "'", "\"", "\"q\"", "<a>",
    "{id}", "{}", "|", "^", "`", "~", "!", "*", "()", "$", "@", ":", "::1", "[0]", "ü", "日本語", "\u{1F600}", "e\u{301}", "\\", "a\\b", "..\\..", "\u{0}", "\t", "\n",
    "a\nb", "\r\n", "\u{7f}", "\u{80}", "\u{2028}", "null", "true", "0", "-1", "1.0", "http://x/y", "...", ".a", "a.", "a..b", "~root", "%2e", "%2E%2e", "a%2fb",
    "0123456789abcdef0123456789abcdef", "name", "self", "id", "page_token", "limit", "\u{feff}x",
];

/// Further response fields, none with a meaning for the exchange itself.
const REST: &[&str] = &[
    "accept-patch", "accept-ranges", "access-control-allow-headers", "access-control-allow-origin", "age", "allow", "alt-svc", "cache-control", "clear-site-data", "content-disposition",
    "content-encoding", "content-language", "content-location", "content-md5", "content-range", "content-security-policy", "cross-origin-opener-policy", "deprecation", "digest", "expires",
    "forwarded", "host", "last-modified", "nel", "origin-agent-cluster", "p3p", "pragma", "proxy-authenticate", "public-key-pins", "referrer-policy", "refresh", "report-to",
    "sec-websocket-protocol", "server-timing", "sourcemap", "strict-transport-security", "sunset", "timing-allow-origin", "tk", "traceparent", "vary", "www-authenticate", "x-api-version",
    "api-version", "accept", "user-agent", "authorization", "cookie", "x-content-type-options", "x-correlation-id", "x-forwarded-for", "x-frame-options", "x-powered-by", "x-total-count", "x-trace",
];

/// What a server would really put in such a field.
fn usual_value(r: &mut Rng, name: &str) -> String {
    let pool: &[&str] = match name.to_ascii_lowercase().as_str() {
        "date" | "expires" | "last-modified" | "retry-after" | "sunset" | "deprecation" => {
            &["Sun, 06 Nov 1994 08:49:37 GMT", "Sunday, 06-Nov-94 08:49:37 GMT", "Sun Nov  6 08:49:37 1994", "120", "0", "Thu, 01 Jan 1970 00:00:00 GMT", "@1688169599"]
        }
        "location" | "content-location" | "referrer-policy" | "sourcemap" | "refresh" => {
            &["/things/7", "things/7?x=1#frag", "http://10.0.0.1:8080/things/7", "../up/./here", "https://ex\u{e4}mple/%7euser/a%2Fb", "//host/path", "?q", ""]
        }
        "etag" | "if-match" | "digest" => &["\"abc\"", "W/\"abc\"", "\"\"", "unquoted", "sha-256=:AAAA=:"],
        "content-range" | "accept-ranges" => &["bytes 0-99/100", "bytes */100", "bytes", "none"],
        "content-encoding" | "vary" | "allow" | "cache-control" | "pragma" => &["identity", "gzip", "*", "GET, HEAD", "no-store, max-age=0", "GZIP , br"],
        "link" => &["</things?page=2>; rel=\"next\"", "<a>; rel=prev, <b>; rel=next"],
        "set-cookie" | "cookie" => &["id=a3f; Expires=Wed, 21 Oct 2015 07:28:00 GMT; HttpOnly", "a=b; Path=/; Secure", "a=", "b=\"q\"; Max-Age=0"],
        "server" | "via" | "user-agent" | "x-powered-by" => &["nginx/1.25 (Linux)", "1.1 proxy.example (Apache/2.4)", "dropshot"],
        "www-authenticate" | "proxy-authenticate" | "authorization" => &["Basic realm=\"a, b\"", "Bearer error=\"invalid_token\"", "Negotiate"],
        "warning" => &["110 - \"Response is Stale\"", "199 agent \"x\" \"Sun, 06 Nov 1994 08:49:37 GMT\""],
        _ => &["1", "0", "-1", "00017", "true", "a=1, b=2; q=0.5", "{\"a\":[1,2]}", "a%20b", "0.10", "1e5", "c0ffee-00-01", "x;y=\"z\\\""],
    };
    r.pick(pool).to_string()
}

const KINDS: &[&str] = &["alpha", "be ta", "ga/mma"];

pub struct Gen<'a> {
    r: Rng,
    spec: &'a Spec,
    prop: String,
    p: Profile,
    mode: Mode,
    next: u32,
    max_body: usize,
    /// Bodies of many megabytes, from this size on.
    giant: usize,
    /// The caller's HTTP client leaves redirections alone.
    no_redirect: bool,
    /// How many long texts the current operation has.
    long_texts: u32,
    variants: Vec<&'static str>,
    /// Chance (percent) of an exchange-level fault.
    fault_pct: u64,
}

/// The scenario with this number of this property's search.
pub fn scenario(spec: &Spec, prop: &str, seed: u64, index: u64) -> Scenario {
    if let Some(mut s) = scripted(prop, index) {
        s.prop = prop.into();
        s.index = index;
        s.seed = seed;
        return s;
    }
    let mut h = crate::rng::Fnv::default();
    h.write(prop.as_bytes());
    h.u64(seed);
    h.u64(index);
    let mut r = Rng::new(h.0);
    let p = profile(prop);
    let w: u64 = r.below(p.modes.iter().sum());
    let mode = if w < p.modes[0] {
        Mode::Calm
    } else if w < p.modes[0] + p.modes[1] {
        Mode::Slow
    } else {
        Mode::Faulty
    };
    let mut variants: Vec<&'static str> = p.variants.to_vec();
    while variants.len() > 1 && r.pct(55) {
        let i = r.below(variants.len() as u64) as usize;
        variants.remove(i);
    }
    let fault_pct = *r.pick(&[10, 30, 60, 100]);
    let run_seed = r.next();
    let mut g = Gen { r, spec, prop: prop.into(), p, mode, next: 1, max_body: 1 << 20, giant: 0, no_redirect: false, long_texts: 0, variants, fault_pct };
    if g.r.permille(20) {
        g.max_body = 6 << 20;
    }
    let mut sc = g.run();
    g.own_times(&mut sc);
    #[cfg(feature = "mocks")]
    if prop == "C22" {
        crate::mocks::prepare(&mut sc, spec);
        sc.base_path.clear();
    }
    sc.prop = prop.into();
    sc.seed = run_seed;
    sc.index = index;
    sc
}

/// Fixed scenarios that come first: they exercise recorded and repaired defects.
fn scripted(prop: &str, index: u64) -> Option<Scenario> {
    let one = |call: &str, args: Value, ex: Exch| {
        Some(Scenario {
            tasks: vec![Task {
                start_ms: 0,
                ops: vec![Op { id: 1, call: call.into(), args, exch: vec![ex], cancel: None, consume: Default::default(), before_ms: 0 }],
            }],
            ..Default::default()
        })
    };
    let thing = || Exch { body: Blob::Text(r#"{"id":1,"name":"n","kind":"alpha","tags":[]}"#.into()), ..Default::default() };
    let none = Exch { status: 200, framing: Framing::None, headers: vec![("content-length".into(), "+5".into())], ..Default::default() };
    match (prop, index) {
        ("C06", 0) => one("pos:thing_get", json!({"id": ".."}), thing()),
        ("C06", 1) => one("bld:thing_get", json!({"id": "."}), thing()),
        ("C06", 2) => one("pos:thing_get", json!({"id": "a\\b"}), thing()),
        ("C06", 3) => one("pos:thing_get", json!({"id": "\\..\\.."}), thing()),
        ("C07" | "C11", 0) => {
            // A streamed body after an HTTP/1.0 answer on the same connection.
            let old = Exch { http10: true, ..thing() };
            let body = json!({"chunks": [[0, {"text": "abc"}]], "fail": false});
            let mut s = one("pos:thing_get", json!({"id": "x"}), old)?;
            let up = Op { id: 2, call: "pos:upload_octet".into(), args: json!({"name": "n", "body": body}), exch: vec![Exch { status: 204, framing: Framing::None, ..Default::default() }], cancel: None, consume: Default::default(), before_ms: 0 };
            s.tasks[0].ops.push(up);
            Some(s)
        }
        ("C05", 0) => one("pos:thing_head", json!({"id": "x"}), none),
        _ => None,
    }
}

impl<'a> Gen<'a> {
    /// With a time limit of the caller's own, the server takes its time in proportion.
    fn own_times(&mut self, sc: &mut Scenario) {
        let Some(c) = &sc.own_client else { return };
        let (to, from) = (c.timeout_ms, 15_000);
        let scale = |us: u64| if us < 1000 { us } else { us * to / from };
        let proportional = self.r.pct(60);
        for e in sc.tasks.iter_mut().flat_map(|t| &mut t.ops).flat_map(|o| &mut o.exch) {
            if c.no_redirect && matches!(e.status, 301 | 302 | 303 | 307 | 308) && e.headers.iter().all(|(n, _)| n != "location") && self.r.pct(80) {
                e.headers.push(("location".into(), self.r.pick(&["/elsewhere", "http://10.0.0.1:8080/things", "http://other.example/x"]).to_string()));
            }
            if proportional {
                e.delay_us = scale(e.delay_us);
                for (_, gap) in &mut e.cuts {
                    *gap = scale(*gap);
                }
            }
        }
    }

    fn own_client(&mut self) -> OwnClient {
        let mut headers = vec![];
        for (n, v) in [("user-agent", "caller/1.0 (x)"), ("x-from-client", "a b"), ("authorization", "Bearer s3cr3t"), ("api-version", "not this one")] {
            if self.r.pct(30) {
                headers.push((n.to_string(), v.to_string()));
            }
        }
        OwnClient {
            timeout_ms: *self.r.pick(&[15_000, 2_000, 40_000, 120_000, 120_000, 600_000]),
            no_pool: self.r.pct(30),
            no_redirect: self.r.pct(40),
            title_case: self.r.pct(20),
            headers,
        }
    }

    fn run(&mut self) -> Scenario {
        let mut sc = Scenario::default();
        sc.net = self.net();
        sc.base_path = self.r.pick(&["", "", "", "/api", "/api/v1", "/p.q~r/s-t", "/a%20b"]).to_string();
        sc.ipv6 = self.r.pct(10);
        sc.clone_client = self.r.pct(50);
        if self.r.pct(12) {
            let c = self.own_client();
            self.no_redirect = c.no_redirect;
            sc.own_client = Some(c);
        }
        sc.recovery = self.r.pct(self.p.recovery);
        if self.mode != Mode::Calm && self.r.pct(25) {
            sc.read_rate = ReadRate { bytes: *self.r.pick(&[16, 100, 1000, 4096]), every_us: self.r.range(10, 3000) };
            self.max_body = self.max_body.min(sc.read_rate.bytes * 200);
        }
        if self.mode == Mode::Faulty && self.r.pct(40) {
            let n = self.r.range(1, 4);
            sc.conns = (0..n).map(|_| self.conn_plan()).collect();
        } else if self.mode == Mode::Slow && self.r.pct(20) {
            sc.conns = vec![ConnPlan::Delay(self.r.range(1, 4000))];
        }
        // Rarely, a single call with bodies of many megabytes over a fast network.
        if self.mode == Mode::Calm && self.r.permille(if matches!(self.prop.as_str(), "C01" | "C02") { 6 } else { 3 }) {
            self.giant = *self.r.pick(&[7 << 20, 15 << 20, 31 << 20, 63 << 20]);
            self.max_body = self.giant + (4 << 20);
            self.p.cancel = 0;
            sc.net.lat_us = 1;
            sc.net.rcvbuf = 4 << 20;
            sc.net.sndbuf = 4 << 20;
            sc.tasks.push(Task { start_ms: 0, ops: vec![self.op()] });
            return sc;
        }
        // Now and then a long-lived client: hundreds of calls, or dozens at once.
        let long = self.mode != Mode::Faulty && self.r.permille(if self.prop == "C11" { 12 } else { 4 });
        if long {
            self.max_body = self.max_body.min(3000);
            self.p.cancel = self.p.cancel.min(2);
            sc.read_rate = Default::default();
            let (nt, per) = *self.r.pick(&[(1, 300), (3, 90), (40, 4), (1, 300), (3, 90), (1, 2200)]);
            if per > 2000 {
                // One operation over and over.
                let i = self.r.below(self.p.ops.len() as u64) as usize;
                self.p.ops = &self.p.ops[i..i + 1];
                self.max_body = 300;
            }
            for _ in 0..nt {
                let mut t = Task { start_ms: 0, ops: vec![] };
                for _ in 0..self.r.range(per / 2, per) {
                    t.ops.push(self.op());
                }
                sc.tasks.push(t);
            }
            return sc;
        }
        let (nt, per) = if self.r.pct(self.p.multi) { (self.r.range(2, 6), 4) } else if self.r.pct(40) { (1, 4) } else { (1, 1) };
        for _ in 0..nt {
            let mut t = Task { start_ms: if self.r.pct(50) { 0 } else { self.r.range(0, 40) }, ops: vec![] };
            for _ in 0..self.r.range(1, per) {
                let mut op = self.op();
                if self.r.pct(20) {
                    op.before_ms = *self.r.pick(&[1, 5, 50, 500, 5000]);
                }
                t.ops.push(op);
            }
            sc.tasks.push(t);
        }
        sc
    }

    // ------------------------------------------------------------ network

    fn net(&mut self) -> Net {
        let mut n = Net { ..Default::default() };
        let r = &mut self.r;
        if r.pct(40) {
            n.event_interval = *r.pick(&[1, 2, 7, 61]);
            n.global_interval = *r.pick(&[1, 3, 31]);
        }
        if r.pct(30) {
            n.defer = *r.pick(&[50, 200, 500]);
        }
        if self.mode == Mode::Calm {
            n.lat_us = *r.pick(&[1, 200, 2000]);
            return n;
        }
        n.lat_us = *r.pick(&[1, 100, 1000, 20_000, 80_000]);
        if r.pct(60) {
            n.jitter_us = *r.pick(&[10, 500, 5_000, 60_000]);
        }
        if r.pct(40) {
            n.sndbuf = *r.pick(&[64, 300, 1024, 4096, 16384, 65536]);
        }
        if r.pct(40) {
            n.rcvbuf = *r.pick(&[64, 300, 1024, 4096, 16384, 65536]);
        }
        self.max_body = self.max_body.min(n.sndbuf.min(n.rcvbuf) * 200);
        if r.pct(40) {
            n.short_read = *r.pick(&[50, 300, 900]);
            self.max_body = self.max_body.min(200_000);
        }
        if r.pct(40) {
            n.short_write = *r.pick(&[50, 300, 900]);
            self.max_body = self.max_body.min(200_000);
        }
        if r.pct(30) {
            n.eagain = *r.pick(&[20, 200, 500]);
        }
        if r.pct(30) {
            n.batch = *r.pick(&[1, 2, 3]);
        }
        if r.pct(15) {
            n.pause = *r.pick(&[5, 50]);
            n.pause_ms = *r.pick(&[1, 20, 300]);
        }
        if r.pct(25) {
            n.loss = *r.pick(&[10, 100, 300]);
            n.rto_ms = *r.pick(&[10, 200, 1000]);
        }
        n.rst_discards = r.pct(50);
        if r.pct(15) {
            for _ in 0..r.range(1, 3) {
                n.clock_jumps.push((r.range(0, 3000), *r.pick(&[-86_400i64, -3600, -1, 1, 60, 86_400 * 400])));
            }
            n.clock_jumps.sort();
        }
        if self.mode == Mode::Faulty {
            if r.pct(20) {
                let a = r.range(0, 2000);
                n.partitions.push((a, a + *r.pick(&[10, 500, 3000, 14_000, 16_000, 40_000])));
            }
            if r.pct(15) {
                let a = r.range(0, 1000);
                n.crashes.push((a, a + *r.pick(&[1, 50, 1000, 20_000])));
            }
        }
        n
    }

    fn conn_plan(&mut self) -> ConnPlan {
        let r = &mut self.r;
        match r.below(12) {
            0..=2 => ConnPlan::Ok,
            3 => ConnPlan::Delay(*r.pick(&[1, 100, 3000, 14_000, 14_990, 16_000])),
            4 => ConnPlan::Refused,
            5 => ConnPlan::Unreachable,
            6 => ConnPlan::TimedOut(*r.pick(&[10, 1000, 14_000])),
            7 => ConnPlan::Blackhole,
            8 => ConnPlan::Emfile,
            9 => ConnPlan::AcceptClose(*r.pick(&[0, 1, 100])),
            10 => ConnPlan::AcceptReset(*r.pick(&[0, 1, 100])),
            _ => ConnPlan::Delay(r.range(0, 50)),
        }
    }

    // ------------------------------------------------------------ values

    fn word(&mut self) -> String {
        let n = self.r.range(1, 8);
        (0..n).map(|_| *self.r.pick(b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_") as char).collect()
    }

    /// A length, often one at which something may change.
    fn len(&mut self, lo: u64, hi: u64) -> u64 {
        let hi = hi.max(lo);
        if self.r.pct(85) {
            return self.r.range(lo, hi);
        }
        let p = 1u64 << self.r.range(6, 23);
        (p + self.r.below(3)).saturating_sub(1).clamp(lo, hi)
    }

    fn text(&mut self) -> String {
        if self.long_texts < 5 && self.r.permille(25) {
            // A long one, in bytes at most 2000; a target has at most 65534.
            self.long_texts += 1;
            let unit = self.r.pick(&["x", "ab cd/", "é", "日本", "a+b=c&", "%2F", "\u{1f600}", "..", "?#"]).to_string();
            let n = self.r.range(20, 2000) as usize / unit.len();
            return unit.repeat(n.max(1));
        }
        match self.r.below(10) {
            0..=2 => self.word(),
            3..=6 => self.r.pick(NASTY).to_string(),
            7 | 8 => {
                let n = self.r.range(1, 4);
                (0..n).map(|_| if self.r.pct(70) { self.r.pick(NASTY).to_string() } else { self.word() }).collect()
            }
            _ => {
                let n = self.r.range(1, 12);
                (0..n)
                    .map(|_| {
                        let c = match self.r.below(4) {
                            0 => self.r.below(0x80),
                            1 => self.r.below(0x800),
                            2 => self.r.below(0x10000),
                            _ => self.r.below(0x110000),
                        };
                        char::from_u32(c as u32).unwrap_or('\u{fffd}')
                    })
                    .collect()
            }
        }
    }

    fn path_text(&mut self) -> String {
        loop {
            let t = self.text();
            if t != "." && t != ".." {
                return t;
            }
        }
    }

    /// Text that fits into a header field (unless `bad`).
    fn header_text(&mut self, bad: bool) -> String {
        let t = self.text();
        if bad {
            return format!("{}{}{}", self.word(), self.r.pick(&["\n", "\r\nx-injected: 1", "\u{0}", "\u{7f}", "\u{1b}"]), self.word());
        }
        t.chars().filter(|c| !c.is_control()).collect::<String>().trim().to_string()
    }

    fn uuid(&mut self) -> String {
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&self.r.next().to_be_bytes());
        b[8..].copy_from_slice(&self.r.next().to_be_bytes());
        let h: String = b.iter().map(|x| format!("{x:02x}")).collect();
        format!("{}-{}-{}-{}-{}", &h[..8], &h[8..12], &h[12..16], &h[16..20], &h[20..])
    }

    fn date(&mut self) -> String {
        let r = &mut self.r;
        let frac = match r.below(4) {
            0 => ".125",
            1 => ".000001",
            2 => ".123456789",
            _ => "",
        };
        format!(
            "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}{frac}Z",
            *r.pick(&[1970, 1999, 2024, 2038, 2199]),
            r.range(1, 12),
            r.range(1, 28),
            r.below(24),
            r.below(60),
            r.below(60)
        )
    }

    fn int(&mut self, lo: i128, hi: i128) -> Value {
        let r = &mut self.r;
        let v: i128 = match r.below(6) {
            0 => lo,
            1 => hi,
            2 => 0,
            3 => r.below(100) as i128,
            4 => -(r.below(100) as i128),
            _ => lo + (r.next() as i128) % (hi - lo + 1),
        };
        let v = v.clamp(lo, hi);
        if v < 0 {
            json!(v as i64)
        } else {
            json!(v as u64)
        }
    }

    fn float(&mut self) -> Value {
        let r = &mut self.r;
        let v = *r.pick(&[0.0, -0.0, 1.0, 0.1, -2.5, 1e21, 1e-7, 123456.789, 5e-324, 1.7976931348623157e308, 3.0, -1.0, 0.30000000000000004]);
        json!(v)
    }

    /// A valid document of the schema.
    pub fn value(&mut self, s: &Value, depth: usize) -> Value {
        let spec = self.spec;
        let s = spec.schema(s);
        if s.get("nullable").and_then(|n| n.as_bool()).unwrap_or(false) && self.r.pct(30) {
            return Value::Null;
        }
        if let Some(e) = s.get("enum").and_then(|e| e.as_array()) {
            return self.r.pick(e).clone();
        }
        match s.get("type").and_then(|t| t.as_str()) {
            Some("string") => match s.get("format").and_then(|f| f.as_str()) {
                Some("uuid") => self.uuid().into(),
                Some("date-time") => self.date().into(),
                _ => {
                    let mut t = self.text();
                    if let Some(m) = s.get("maxLength").and_then(|m| m.as_u64()) {
                        t = t.chars().take(m as usize).collect();
                        if self.r.pct(10) {
                            t = "ü".repeat(m as usize);
                        }
                    }
                    if s.get("minLength").is_some() && t.is_empty() {
                        t = "n".into();
                    }
                    t.into()
                }
            },
            Some("integer") => {
                let min = s.get("minimum").and_then(|m| m.as_i64()).unwrap_or(i64::MIN) as i128;
                match s.get("format").and_then(|f| f.as_str()).unwrap_or("int64") {
                    "uint32" => self.int(min.max(0), u32::MAX as i128),
                    "uint64" => self.int(0, u64::MAX as i128),
                    "int32" => self.int(i32::MIN as i128, i32::MAX as i128),
                    _ => self.int(i64::MIN as i128, i64::MAX as i128),
                }
            }
            Some("number") => self.float(),
            Some("boolean") => self.r.pct(50).into(),
            Some("array") => {
                let n = if depth > 3 { 0 } else { self.r.below(4) };
                (0..n).map(|_| self.value(&s["items"], depth + 1)).collect()
            }
            Some("object") => {
                let mut o = Map::new();
                let req: Vec<&str> = s.get("required").and_then(|r| r.as_array()).map(|a| a.iter().filter_map(|v| v.as_str()).collect()).unwrap_or_default();
                if let Some(p) = s.get("properties").and_then(|p| p.as_object()) {
                    for (k, ps) in p {
                        if req.contains(&k.as_str()) || self.r.pct(if depth > 2 { 20 } else { 50 }) {
                            let v = self.value(ps, depth + 1);
                            o.insert(k.clone(), v);
                        }
                    }
                }
                if let Some(a) = s.get("additionalProperties").filter(|a| a.is_object()) {
                    for _ in 0..self.r.below(4) {
                        let k = self.text();
                        let v = self.value(a, depth + 1);
                        o.insert(k, v);
                    }
                }
                Value::Object(o)
            }
            _ => self.any(depth),
        }
    }

    fn any(&mut self, depth: usize) -> Value {
        match self.r.below(if depth > 3 { 5 } else { 7 }) {
            0 => Value::Null,
            1 => self.r.pct(50).into(),
            2 => self.int(i64::MIN as i128, u64::MAX as i128),
            3 => self.float(),
            4 => self.text().into(),
            5 => (0..self.r.below(4)).map(|_| self.any(depth + 1)).collect(),
            _ => {
                let mut o = Map::new();
                for _ in 0..self.r.below(4) {
                    let k = self.text();
                    o.insert(k, self.any(depth + 1));
                }
                Value::Object(o)
            }
        }
    }

    /// The text of a JSON document, spelled one way or another.
    fn spell(&mut self, v: &Value) -> String {
        match self.r.below(4) {
            0 => serde_json::to_string_pretty(v).unwrap(),
            1 => format!("\r\n\t {v} \n"),
            2 => {
                // Escapes instead of plain characters.
                let s = v.to_string();
                let mut o = String::new();
                let mut in_str = false;
                let mut esc = false;
                for c in s.chars() {
                    if in_str && !esc && c == '/' {
                        o.push_str("\\/");
                        continue;
                    }
                    if in_str && !esc && (c as u32) > 0x7f {
                        let mut b = [0u16; 2];
                        for u in c.encode_utf16(&mut b) {
                            o.push_str(&format!("\\u{u:04x}"));
                        }
                        continue;
                    }
                    if c == '"' && !esc {
                        in_str = !in_str;
                    }
                    esc = in_str && c == '\\' && !esc;
                    o.push(c);
                }
                o
            }
            _ => v.to_string(),
        }
    }

    /// A body for a documented type: mostly a valid document, sometimes nearly one.
    fn json_body(&mut self, schema: &Value) -> Blob {
        let v = self.value(schema, 0);
        let mut s = self.spell(&v);
        if (self.giant > 0 || self.r.pct(8)) && self.max_body > 10_000 {
            // A big one.
            let n = self.len(self.giant.max(1000) as u64, self.max_body as u64) as usize;
            let t = s.trim_end().to_string();
            return Blob::Pad { head: t, fill: if self.r.pct(80) { ' ' } else { 'x' }, len: n, tail: String::new() };
        }
        if !self.r.pct(self.p.mutate) {
            return Blob::Text(s);
        }
        let other = self.any(1);
        match self.r.below(20) {
            0 => {
                let n = self.r.below(s.chars().count() as u64 + 1) as usize;
                s = s.chars().take(n).collect();
            }
            1 => s.push_str(self.r.pick(&["x", "}", "]", ",", "0", " null", "{}", "\u{0}", "\n\n{\"a\":1}", "//", "\""])),
            2 => s = other.to_string(),
            3 | 4 => {
                if let Value::Object(mut o) = v {
                    if let Some(k) = o.keys().next().cloned() {
                        let ks: Vec<String> = o.keys().cloned().collect();
                        let k2 = self.r.pick(&ks).clone();
                        if self.r.pct(50) {
                            o.remove(&k2);
                        } else {
                            o.insert(k2, other);
                        }
                        let _ = k;
                    }
                    s = Value::Object(o).to_string();
                } else {
                    s = format!("[{s}]");
                }
            }
            5 => s = String::new(),
            6 => {
                let before = *self.r.pick(&["\u{feff}", "\u{feff}", ")]}',\n", "for(;;);", "// x\n", "/* x */", "\u{c}", "\u{0}", "data: ", "callback(", "\u{85}", "\u{2028}"]);
                s = format!("{before}{s}");
            }
            7 => {
                let mut b = s.into_bytes();
                let at = self.r.below(b.len() as u64 + 1) as usize;
                b.insert(at, *self.r.pick(&[0xff, 0xc3, 0x80, 0x00, 0xed]));
                return Blob::raw(&b);
            }
            8 => s = format!("{s}{s}"),
            9 => s = self.r.pick(&["NaN", "Infinity", "01", "1.", "+1", "'a'", "\"\\x\"", "\"\\ud800\"", "nul", "tru", "[1,]", "{,}", "{\"a\":1,\"a\":2}", "\"a\nb\"", "1e400", "-", " ", "\r\n\r\n", "\u{1f}\u{8b}\u{8}\u{0}", "\"\\u0000\"", "\"\\ud83d\\ude00\"", "undefined", "True", "0x10", "{}", "[]", "\"\"", "0", "--x\r\n"]).to_string(),
            10 => s = "<html><body>502</body></html>".into(),
            11 => s = format!("  {s}  \t"),
            12 => {
                if let Value::Object(mut o) = v {
                    o.insert("unknown".into(), other);
                    s = Value::Object(o).to_string();
                } else {
                    s = "null".into();
                }
            }
            // A field given twice, the same or not, perhaps spelled with an escape.
            13 | 14 => {
                if let Value::Object(o) = &v {
                    let ks: Vec<String> = o.keys().cloned().collect();
                    if !ks.is_empty() {
                        let k = self.r.pick(&ks).clone();
                        let val = if self.r.pct(50) { o[&k].clone() } else { other };
                        let mut key = serde_json::to_string(&k).unwrap();
                        if k.starts_with(|c: char| c.is_ascii_lowercase()) && self.r.pct(30) {
                            key = format!("\"\\u{:04x}{}", k.as_bytes()[0], &key[2..]);
                        }
                        let t = v.to_string();
                        s = if self.r.pct(50) { format!("{{{key}:{val},{}", &t[1..]) } else { format!("{},{key}:{val}}}", &t[..t.len() - 1]) };
                    }
                }
            }
            // Numbers spelled another way.
            15 => {
                let with = *self.r.pick(&["1.0", "1e2", "-0", "-0.0", "1E+2", "0.1e1", "9007199254740993", "18446744073709551615", "18446744073709551616", "1e-400", "340282366920938463463374607431768211455"]);
                let b = v.to_string();
                let digits: Vec<usize> = b.match_indices(|c: char| c.is_ascii_digit()).map(|x| x.0).filter(|&i| i > 0 && matches!(b.as_bytes()[i - 1], b':' | b'[' | b',')).collect();
                s = match digits.first() {
                    Some(_) => {
                        let i = *self.r.pick(&digits);
                        let e = b[i..].find(|c: char| !matches!(c, '0'..='9' | '.' | 'e' | 'E' | '-' | '+')).map_or(b.len(), |n| i + n);
                        format!("{}{with}{}", &b[..i], &b[e..])
                    }
                    None => with.to_string(),
                };
            }
            // Nested deeper than a reader may allow.
            16 => {
                let n = self.r.range(60, 300) as usize;
                let deep = format!("{}{}", "[".repeat(n), "]".repeat(n));
                s = match &v {
                    Value::Object(o) if !o.is_empty() => format!("{{\"unknown\":{deep},{}", &v.to_string()[1..]),
                    _ => deep,
                };
            }
            // Something after a gap.
            17 => {
                let n = self.r.range(100, 20_000.min(self.max_body as u64).max(200)) as usize;
                let tail = self.r.pick(&["x", "{}", "null", "]", "\u{0}", "\u{c}", "\u{a0}"]).to_string();
                return Blob::Pad { head: s, fill: *self.r.pick(&[' ', '\n']), len: n, tail };
            }
            // Letters of a text in the other case.
            18 => {
                let at: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_alphabetic()).map(|x| x.0).collect();
                if !at.is_empty() {
                    let i = *self.r.pick(&at);
                    let c = (s.as_bytes()[i] ^ 0x20) as char;
                    s.replace_range(i..i + 1, &c.to_string());
                }
            }
            _ => s = s.replacen(':', "=", 1),
        }
        Blob::Text(s)
    }

    fn raw_blob(&mut self) -> Blob {
        if self.giant > 0 || self.r.pct(15) {
            let len = self.len(self.giant.max(1) as u64, self.max_body as u64) as usize;
            return Blob::Gen { seed: self.r.next() >> 12, len };
        }
        let r = &mut self.r;
        match r.below(10) {
            0 => Blob::default(),
            1 => Blob::Text("x".into()),
            2 => Blob::Gen { seed: r.next() >> 12, len: r.range(1, 40) as usize },
            3 | 4 => Blob::Gen { seed: r.next() >> 12, len: r.range(1, 3000.min(self.max_body as u64)) as usize },
            5 => Blob::Gen { seed: r.next() >> 12, len: r.range(1, 100_000.min(self.max_body as u64)) as usize },
            6 => Blob::Fill { byte: *r.pick(b"aA\n\0\xff"), len: r.range(1, 20_000.min(self.max_body as u64)) as usize },
            7 => Blob::Text("{\"code\":3,\"message\":\"m\"}".into()),
            8 => {
                let len = if r.pct(30) { r.range(1, self.max_body as u64) } else { r.range(1, 5000.min(self.max_body as u64)) };
                Blob::Gen { seed: r.next() >> 12, len: len as usize }
            }
            _ => {
                let t = self.text();
                Blob::Text(t)
            }
        }
    }

    // ------------------------------------------------------------ exchanges

    fn headers(&mut self, op: Option<&Operation>, status: u16) -> Vec<(String, String)> {
        let mut h: Vec<(String, String)> = vec![];
        let mut n = if self.prop == "C05" { self.r.below(9) } else { self.r.below(4) };
        // A crowd now and then; hyper takes a hundred.
        if self.r.permille(if self.prop == "C05" { 12 } else { 3 }) {
            n = self.r.range(30, 90);
        }
        let long = self.r.permille(15);
        for _ in 0..n {
            let name = match self.r.below(10) {
                0 => format!("x-{}", self.word()),
                1..=3 => self.r.pick(REST).to_string(),
                _ => self
                    .r
                    .pick(&["x-hdr", "X-Hdr", "x-request-id", "Set-Cookie", "etag", "date", "server", "x-rate-limit", "X-MiXeD-CaSe", "link", "warning", "retry-after", "via", "x-empty", "x!#$%&'*+.^_`|~"])
                    .to_string(),
            };
            let v = match self.r.below(9) {
                7 | 8 => usual_value(&mut self.r, &name),
                0 => String::new(),
                1 => self.word(),
                2 => format!("{}, {}", self.word(), self.word()),
                // latin-1 bytes
                3 => "caf\u{e9} \u{ff}\u{80}".into(),
                4 => "\u{e6}\u{97}\u{a5}".into(),
                5 => format!("{}={}; path=/", self.word(), self.word()),
                _ => {
                    let n = if long { self.r.range(300, 6000) } else { self.r.range(1, 300) };
                    (0..n).map(|_| *self.r.pick(b"abc 123\t,;\"") as char).collect::<String>().trim().to_string()
                }
            };
            h.push((name, v));
        }
        if self.r.pct(60) {
            let ct = self
                .r
                .pick(&["application/json", "application/json; charset=utf-8", "text/plain; charset=iso-8859-1", "text/html", "application/octet-stream", "application/problem+json", "garbage", "application/json; charset=utf-16", "text/event-stream", "application/x-ndjson", "application/xml", "multipart/mixed; boundary=x", "application/vnd.api+json", "application/JSON", "application/json;charset=\"ISO-8859-1\"", ""])
                .to_string();
            let name = self.r.pick(&["content-type", "Content-Type", "CONTENT-TYPE"]).to_string();
            h.push((name, ct));
        }
        if !matches!(status, 301 | 302 | 303 | 307 | 308) && self.r.pct(12) {
            let to = usual_value(&mut self.r, "location");
            h.push((self.r.pick(&["location", "Location"]).to_string(), to));
        }
        let nobody = op.is_some_and(|o| o.method == "HEAD") || status == 204 || status == 304;
        if nobody && self.r.pct(60) {
            let v = self.r.pick(&["0", "5", "18446744073709551615", "18446744073709551616", "-1", "abc", "", "1 2", "007", "5, 5", "1e3", "0x10", "99999999999999999999999"]).to_string();
            h.push(("content-length".into(), v));
            if self.r.pct(15) {
                h.push(("Content-Length".into(), self.r.pick(&["0", "7", "x"]).to_string()));
            }
        }
        // A shuffled order.
        for i in (1..h.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            h.swap(i, j);
        }
        h
    }

    fn cuts(&mut self, body: usize) -> Vec<(usize, u64)> {
        if self.mode == Mode::Calm && self.r.pct(70) {
            return vec![];
        }
        let total = body + 400;
        let r = &mut self.r;
        match r.below(6) {
            0 => vec![],
            1 => vec![(r.range(1, 400) as usize, r.range(0, 3000)), (total, r.range(0, 3_000_000))],
            2 => {
                let k = (total / 150).max(1);
                vec![(r.range(k as u64, k as u64 + 20) as usize, r.range(0, 2000))]
            }
            3 => (0..r.range(2, 6)).map(|_| (r.range((total / 40).max(1) as u64, (total / 3) as u64 + 10) as usize, r.range(0, 20_000))).collect(),
            4 => vec![(total / 3 + 1, r.range(100_000, 6_000_000))],
            _ => vec![((total / 300).max(1), 0)],
        }
    }

    fn status(&mut self, op: Option<&Operation>) -> u16 {
        let Some(op) = op else { return *self.r.pick(&[200, 200, 200, 400, 500]) };
        if op.websocket {
            return if self.r.pct(self.p.success) { 101 } else { *self.r.pick(&[200, 201, 400, 401, 403, 404, 426, 499, 500, 502, 204]) };
        }
        let want_ok = self.r.pct(self.p.success);
        for _ in 0..20 {
            let s = match self.r.below(10) {
                0..=5 => {
                    let (k, ..) = self.r.pick(&op.responses).clone();
                    if k == "default" {
                        *self.r.pick(&[200, 201, 202, 299, 400, 404, 500, 503, 600, 777, 999])
                    } else if let Some(c) = k.strip_suffix("XX") {
                        let c: u16 = c.parse().unwrap();
                        c * 100 + *self.r.pick(&[0, 0, 1, 2, 3, 4, 5, 9, 18, 22, 50, 99])
                    } else {
                        k.parse().unwrap()
                    }
                }
                6 | 7 => *self.r.pick(&[200, 201, 202, 204, 205, 206, 299]),
                8 => *self.r.pick(&[300, 304, 306, 399, 400, 401, 404, 409, 418, 429, 499, 500, 502, 503, 599, 600, 999]),
                _ => {
                    let top = if self.r.pct(20) { 999 } else { 599 };
                    self.r.range(200, top) as u16
                }
            };
            let s = if self.no_redirect && s >= 300 && self.r.pct(20) { *self.r.pick(&[301, 302, 303, 307, 308]) } else { s };
            if ((200..300).contains(&s)) == want_ok {
                return s;
            }
        }
        200
    }

    fn framing(&mut self, op: Option<&Operation>, status: u16, body: usize) -> (Framing, bool) {
        let nobody = op.is_some_and(|o| o.method == "HEAD") || matches!(status, 204 | 304 | 101);
        if nobody {
            return (Framing::None, false);
        }
        match self.r.below(20) {
            0..=8 => (Framing::Len, self.r.pct(5)),
            9..=16 => {
                let lo = (body / 200).max(1) as u64;
                let sizes = match self.r.below(4) {
                    0 => vec![],
                    1 => vec![lo as usize],
                    2 => vec![self.r.range(lo, lo + 50) as usize, self.r.range(lo, lo + 5000) as usize],
                    _ => (0..self.r.range(1, 4)).map(|_| self.r.range(lo, (body as u64).max(lo)) as usize).collect(),
                };
                let trailers = if self.r.pct(15) { vec![("x-trailer".to_string(), "t".to_string())] } else { vec![] };
                (Framing::Chunked { sizes, ext: self.r.pct(15), trailers }, false)
            }
            _ => (Framing::Close, self.r.pct(40)),
        }
    }

    fn fault(&mut self, e: &mut Exch, body: usize) {
        let r = &mut self.r;
        let at = match r.below(6) {
            0 => r.range(0, 20) as usize,
            1 => r.range(0, 200) as usize,
            2 => (r.range(40, 200) + r.below(body as u64 + 1)) as usize,
            3 => 60 + body,
            4 => r.range(60, 120 + body as u64) as usize,
            _ => (body + 100).saturating_sub(r.below(60) as usize),
        };
        match r.below(14) {
            0..=2 => e.fault = Some((at, CutKind::Fin)),
            3..=5 => e.fault = Some((at, CutKind::Rst)),
            6 | 7 => e.fault = Some((at, CutKind::Stall)),
            8 => e.silent = true,
            9 => e.delay_us = *r.pick(&[1_000_000, 14_000_000, 14_999_000, 15_001_000, 20_000_000]),
            10 => {
                e.bad_head = Some(
                    r.pick(&[
                        "garbage\r\n\r\n",
                        "HTTP/1.1 20 OK\r\n\r\n",
                        "HTTP/1.1 abc OK\r\ncontent-length: 0\r\n\r\n",
                        "HTTP/3.0 200 OK\r\n\r\n",
                        "HTTP/1.1 200 OK\r\nbad header line\r\n\r\n",
                        "HTTP/1.1 200 OK\r\ncontent-length: 5x\r\n\r\nhello",
                        "\u{0}\u{1}\u{2}",
                        "HTTP/1.1 200 OK\r\ntransfer-encoding: chunked\r\nx: \u{0}\r\n\r\n",
                        "HTTP/1.1 1000 X\r\n\r\n",
                    ])
                    .to_string(),
                )
            }
            11 => {
                // A trickle.
                let n = (body + 300) / 60;
                e.cuts = vec![(n.max(1), r.range(200_000, 2_000_000))];
            }
            12 => e.read_stop = Some(r.below(600) as usize),
            _ => e.read_rst = Some(r.below(600) as usize),
        }
    }

    fn after(&mut self) -> After {
        let r = &mut self.r;
        match r.below(10) {
            0..=6 => After::KeepAlive,
            7 => After::Close(r.range(0, 2000)),
            8 => After::IdleFin(*r.pick(&[0, 10, 1000, 100_000])),
            _ => After::IdleRst(*r.pick(&[0, 10, 1000, 100_000])),
        }
    }

    fn finish_exch(&mut self, op: Option<&Operation>, mut e: Exch, has_req_body: bool) -> Exch {
        let n = e.body.bytes().len();
        (e.framing, e.http10) = self.framing(op, e.status, n);
        if e.headers.is_empty() {
            e.headers = self.headers(op, e.status);
        }
        e.cuts = self.cuts(n);
        if self.r.pct(25) {
            e.delay_us = *self.r.pick(&[1, 1000, 50_000, 2_000_000]);
        }
        if !e.http10 && self.r.pct(8) {
            e.interim = (0..self.r.range(1, 3)).map(|_| *self.r.pick(&[100, 102, 103, 199])).collect();
        }
        if self.r.pct(10) {
            e.reason = self.r.pick(&["Okey dokey", "x", "Not\tReally", "a b c"]).to_string();
        }
        if e.framing != Framing::Close && e.status != 101 {
            e.after = self.after();
        }
        if has_req_body && self.r.pct(12) {
            e.when = if self.r.pct(50) { When::AfterHead } else { When::AfterBytes(self.r.range(1, 5000) as usize) };
        }
        if self.mode == Mode::Faulty && self.r.pct(self.fault_pct) {
            self.fault(&mut e, n);
            // An answer to HEAD has no body whose length could be wrong.
            if op.is_some_and(|o| o.method == "HEAD") && e.bad_head.as_ref().is_some_and(|h| h.contains(": 5x")) {
                e.bad_head = Some("HTTP/1.1 20 OK\r\n\r\n".into());
            }
        }
        e
    }

    fn exch(&mut self, op: &Operation) -> Exch {
        let status = self.status(Some(op));
        let mut e = Exch { status, ..Default::default() };
        let has_body = op.body.is_some();
        match op.class(status) {
            Class::Success(Carrier::Json, Some(s)) | Class::Error(Carrier::Json, Some(s)) => e.body = self.json_body(&s),
            Class::Success(Carrier::Upgraded, _) => {
                e.tunnel = Some(self.server_tunnel());
                e.headers = self.headers(Some(op), status);
                e.headers.retain(|(n, _)| !n.eq_ignore_ascii_case("content-length"));
                let proto = match self.r.below(12) {
                    0..=7 => "websocket",
                    8 => "WebSocket",
                    9 => "websocket, x/1",
                    10 => "x-proto/2",
                    _ => "",
                };
                if !proto.is_empty() {
                    e.headers.push(("upgrade".into(), proto.into()));
                }
                // Some servers frame the empty body of an acceptance, which has none.
                match self.r.below(20) {
                    0 => e.headers.push(("content-length".into(), self.r.pick(&["0", "0", "7"]).to_string())),
                    1 => e.headers.push(("transfer-encoding".into(), "chunked".into())),
                    _ => {}
                }
            }
            Class::Success(Carrier::Unit, _) | Class::Error(Carrier::Unit, _) if self.r.pct(60) => {}
            _ => e.body = if self.r.pct(20) { Blob::Text("{\"code\":1,\"message\":\"x\"}".into()) } else { self.raw_blob() },
        }
        if op.method == "HEAD" || matches!(status, 204 | 304) {
            e.body = Blob::default();
        }
        if op.websocket && status != 101 && self.r.pct(40) {
            e.headers = self.headers(Some(op), status);
            e.headers.push(("upgrade".into(), self.r.pick(&["websocket", "h2c"]).to_string()));
        }
        let mut e = self.finish_exch(Some(op), e, has_body);
        if status == 101 {
            e.http10 = self.r.pct(6);
            if let Some((_, CutKind::Stall)) = e.fault {
                e.fault = None;
            }
        }
        e
    }

    fn server_tunnel(&mut self) -> Tunnel {
        let cap = (self.max_body as u64).min(if self.r.pct(10) { 300_000 } else { 60_000 });
        let mut t = Tunnel::default();
        let r = &mut self.r;
        let msg = |r: &mut Rng| {
            let len = if r.pct(20) { r.range(1, cap) } else { r.range(0, 200) };
            Blob::Gen { seed: r.next() >> 12, len: len as usize }
        };
        if r.pct(50) {
            t.early = msg(r);
        }
        for _ in 0..r.below(5) {
            let d = *r.pick(&[0, 10, 1000, 50_000]);
            let m = msg(r);
            t.msgs.push((d, m));
        }
        t.echo = r.pct(40);
        if r.pct(60) {
            let k = if self.mode == Mode::Faulty && r.pct(40) { CutKind::Rst } else { CutKind::Fin };
            t.end = Some((*r.pick(&[0, 1000, 100_000]), k));
        }
        if self.mode == Mode::Faulty && r.pct(20) {
            t.rst_after_in = Some(r.range(1, 500) as usize);
        }
        t
    }

    fn client_tunnel(&mut self) -> Value {
        let cap = (self.max_body as u64).min(if self.r.pct(10) { 300_000 } else { 60_000 });
        let r = &mut self.r;
        let send: Vec<(u64, Blob)> = (0..r.below(5))
            .map(|_| {
                let len = if r.pct(20) { r.range(1, cap) } else { r.range(1, 200) };
                (*r.pick(&[0, 10, 1000, 50_000]), Blob::Gen { seed: r.next() >> 12, len: len as usize })
            })
            .collect();
        json!({
            "send": send, "shutdown": r.pct(40), "buf": *r.pick(&[1000, 4096, 300, 64, 65536]),
            "limit_ms": *r.pick(&[50, 1000, 5000, 25_000]), "read_gap_us": *r.pick(&[0, 0, 0, 100, 5000]),
        })
    }

    // ------------------------------------------------------------ calls

    fn op(&mut self) -> Op {
        self.long_texts = 0;
        let total: u64 = self.p.ops.iter().map(|(w, _)| *w).sum();
        let mut w = self.r.below(total);
        let mut name = self.p.ops[0].1;
        for (k, n) in self.p.ops {
            if w < *k {
                name = n;
                break;
            }
            w -= k;
        }
        let id = self.next;
        self.next += 1;
        let mut o = if let Some(d) = name.strip_prefix("dir:") {
            self.direct(id, d)
        } else {
            let mut v = *self.r.pick(&self.variants.clone());
            if name == "obj_query" && v != "pos" && v != "hpos" {
                v = "pos";
            }
            if v == "cli" {
                self.cli(id, name)
            } else {
                let mut o = self.normal(id, v, name);
                if crate::oracle::is_builder(v) && self.r.pct(12) {
                    self.set_twice(&mut o);
                }
                o
            }
        };
        if self.r.pct(self.p.cancel) {
            let paged = name.ends_with("_stream");
            o.cancel = Some(match self.r.below(3) {
                0 if paged => Cancel::Items(self.r.below(6) as usize),
                0 | 1 => Cancel::Polls(self.r.below(12) as u32),
                _ => Cancel::After(*self.r.pick(&[0, 10, 300, 1000, 5000, 50_000, 1_000_000])),
            });
        } else if name.ends_with("_stream") && self.r.pct(self.p.cancel) {
            o.cancel = Some(Cancel::Items(self.r.below(6) as usize));
        }
        if self.r.pct(30) {
            o.consume.gaps_us = (0..self.r.range(1, 3)).map(|_| *self.r.pick(&[0, 100, 10_000, 500_000])).collect();
        }
        if self.r.pct(12) {
            o.consume.hold_us = *self.r.pick(&[100, 50_000, 3_000_000, 14_500_000]);
        }
        o
    }

    /// Some arguments of a builder are given twice; the later value counts.
    fn set_twice(&mut self, o: &mut Op) {
        let Some(a) = o.args.as_object().cloned() else { return };
        let mut first = Map::new();
        for (k, v) in a {
            if self.r.pct(40) {
                continue;
            }
            match v {
                Value::String(_) => {
                    let t = if self.r.pct(40) { self.header_text(true) } else { self.text() };
                    first.insert(k, json!(t));
                }
                Value::Number(_) => {
                    first.insert(k, json!(self.r.below(50)));
                }
                _ => {}
            }
        }
        if !first.is_empty() {
            o.args["_first"] = Value::Object(first);
        }
    }

    fn blank(&self, id: u32, call: String, args: Value, exch: Vec<Exch>) -> Op {
        Op { id, call, args, exch, cancel: None, consume: Default::default(), before_ms: 0 }
    }

    /// Arguments of the operation by its description.
    fn args(&mut self, op: &Operation, variant: &str, name: &str, bad: bool) -> Map<String, Value> {
        let mut a = Map::new();
        let bld = crate::oracle::is_builder(variant);
        for p in &op.params {
            if p.name == "x-op" || (p.name == "page_token" && name.ends_with("_stream")) {
                continue;
            }
            if !p.required && self.r.pct(if name == "search" { 60 } else { 45 }) {
                continue;
            }
            let s = self.spec.schema(&p.schema);
            let plain = s.get("type").and_then(|t| t.as_str()) == Some("string") && s.get("format").is_none() && s.get("enum").is_none();
            let mut v = match p.place {
                In::Path if plain => {
                    let t = self.path_text();
                    match s.get("maxLength").and_then(|m| m.as_u64()) {
                        Some(m) => {
                            let t: String = t.chars().take(m as usize).collect();
                            if t.is_empty() || t == "." || t == ".." { "n".into() } else { t }
                        }
                        None => t,
                    }
                    .into()
                }
                In::Header if plain => {
                    let b = bad && self.r.pct(30);
                    self.header_text(b).into()
                }
                _ => self.value(&p.schema, 1),
            };
            // A fixed limit near what the pages hold.
            if p.name == "limit" && self.r.pct(70) {
                v = self.r.range(1, 9).into();
            }
            if name == "proj_list" || name == "proj_list_stream" {
                if p.name == "project" && v.as_str().is_some_and(|s| s == "." || s == "..") {
                    v = "p".into();
                }
            }
            a.insert(p.name.clone(), v);
        }
        if bad && bld {
            match self.r.below(3) {
                0 => {
                    let req: Vec<String> = op.params.iter().filter(|p| p.required && p.name != "x-op").map(|p| p.name.clone()).collect();
                    if !req.is_empty() {
                        a.remove(self.r.pick(&req));
                    }
                }
                1 => {
                    for k in ["kind", "sort", "x-kind"] {
                        if op.params.iter().any(|p| p.name == k) {
                            a.insert(k.into(), self.r.pick(&["nope", "", "Alpha", "alpha ", "be_ta"]).to_string().into());
                        }
                    }
                }
                _ => {
                    for (k, v) in [("limit", json!(0)), ("part_no", json!(-1)), ("part_no", json!(1i64 << 40)), ("x-num", json!(1i64 << 40))] {
                        if op.params.iter().any(|p| p.name == k) && self.r.pct(60) {
                            a.insert(k.into(), v);
                        }
                    }
                    if op.params.iter().any(|p| p.name == "name" && p.schema.get("$ref").is_some()) {
                        a.insert("name".into(), if self.r.pct(50) { "".into() } else { "x".repeat(64).into() });
                    }
                    if op.id == "thing_put" && self.r.pct(50) {
                        a.insert("id".into(), if self.r.pct(50) { "".into() } else { "ü".repeat(64).into() });
                    }
                }
            }
        }
        a
    }

    fn normal(&mut self, id: u32, variant: &str, name: &str) -> Op {
        let spec = self.spec;
        let op = &spec.ops[crate::oracle::base_name(name)];
        let bad = self.r.pct(self.p.invalid);
        let mut a = self.args(op, variant, name, bad);
        let bld = crate::oracle::is_builder(variant);
        if let Some((ct, schema)) = &op.body {
            let drop = bad && bld && self.r.pct(25);
            if !drop {
                let b = match ct.as_str() {
                    "application/octet-stream" => self.octet(),
                    "text/plain" | "text/x-markdown" => match if self.giant > 0 { 1 } else { self.r.below(4) } {
                        0 => json!(self.text()),
                        1 => json!({"fill": {"byte": 97, "len": self.len(self.giant.max(1) as u64, self.max_body as u64)}}),
                        2 => json!({"pad": {"head": "ü\r\n", "fill": "日", "len": self.r.range(1, 20_000.min(self.max_body as u64 / 4 + 1)), "tail": "\n"}}),
                        _ => json!(format!("{}\r\n\r\n{}", self.text(), self.text())),
                    },
                    _ => {
                        let mut v = self.value(schema, 0);
                        if (self.giant > 0 || self.r.pct(6)) && v.get("name").is_some() && name.starts_with("thing_") {
                            let n = if self.giant > 0 { self.len(self.giant as u64 / 4, self.giant as u64 / 3) } else { self.len(1000, 300_000.min(self.max_body as u64).max(1001)) };
                            v["name"] = "N".repeat(n as usize).into();
                        }
                        v
                    }
                };
                a.insert("body".into(), b);
            }
        }
        if name == "thing_create" && bld && self.r.pct(30) {
            a.insert("body_map".into(), true.into());
            let mut b = Map::new();
            b.insert("id".into(), self.int(0, i64::MAX as i128));
            b.insert("name".into(), self.text().into());
            b.insert("kind".into(), self.r.pick(KINDS).to_string().into());
            b.insert("tags".into(), json!(["a", "b"]));
            if self.r.pct(50) {
                b.insert("note".into(), self.text().into());
            }
            if bad {
                let k = self.r.pick(&["id", "name", "kind", "tags"]).to_string();
                if self.r.pct(60) {
                    b.remove(&k);
                } else if self.r.pct(50) {
                    b.insert("kind".into(), "nope".into());
                } else {
                    b.insert("id".into(), json!(-4));
                }
            }
            a.insert("body".into(), Value::Object(b));
        }
        let upload = name.starts_with("upload_");
        let paged = name.ends_with("_stream");
        if bld && !upload && !paged && self.r.pct(if self.prop == "C11" || self.prop == "C08" { 12 } else { 4 }) {
            a.insert("repeat".into(), true.into());
        }
        if crate::oracle::is_hooked(variant) && self.r.pct(if self.prop == "C10" { 60 } else { 25 }) {
            let h = self.hooks(op, paged);
            if h.to_string().contains("\"fail\"") {
                a.remove("repeat");
            }
            a.insert("hooks".into(), h);
        }
        if op.websocket {
            let t = self.client_tunnel();
            a.insert("tunnel".into(), t);
        }
        let exch = if paged { self.page_exchs(op) } else { vec![self.exch(op)] };
        self.blank(id, format!("{variant}:{name}"), Value::Object(a), exch)
    }

    fn octet(&mut self) -> Value {
        if self.r.pct(50) {
            let b = self.raw_blob();
            return json!({ "blob": b });
        }
        let n = self.r.below(6);
        let cap = (self.max_body as u64 / 6).clamp(1, 100_000);
        let chunks: Vec<(u64, Blob)> = (0..n)
            .map(|_| {
                let len = match self.r.below(4) {
                    0 => 0,
                    1 => self.r.range(1, 20),
                    2 => self.r.range(1, 2000.min(cap)),
                    _ => self.r.range(1, cap),
                };
                (*self.r.pick(&[0, 0, 10, 1000, 30_000]), Blob::Gen { seed: self.r.next() >> 12, len: len as usize })
            })
            .collect();
        json!({"chunks": chunks, "fail": self.r.pct(25)})
    }

    fn hooks(&mut self, op: &Operation, paged: bool) -> Value {
        let mut pre = Map::new();
        let mut post = Map::new();
        if self.r.pct(50) {
            pre.insert("delay_us".into(), (*self.r.pick(&[1u64, 100, 10_000, 500_000])).into());
        }
        if self.r.pct(40) {
            let set = vec![json!(["x-hook", self.word()]), json!(["api-version", "9.9"])];
            let n = self.r.range(1, 2) as usize;
            pre.insert("set".into(), json!(set[..n]));
        }
        if self.r.pct(25) {
            let t = self.text();
            pre.insert("query".into(), json!([["hooked", t]]));
        }
        let octet = op.body.as_ref().is_some_and(|(c, _)| c == "application/octet-stream");
        if self.r.pct(10) && op.body.is_some() && !octet && op.body.as_ref().is_some_and(|(c, _)| c == "application/json") {
            // Same framing header only if the length is the same, so only where none was set.
            let _ = &mut pre;
        }
        if self.r.pct(20) {
            let t = self.text();
            pre.insert("fail".into(), t.into());
            if paged {
                pre.insert("from".into(), self.r.below(3).into());
            }
        }
        if self.r.pct(40) {
            post.insert("delay_us".into(), (*self.r.pick(&[1u64, 100, 10_000, 500_000])).into());
        }
        if self.r.pct(15) {
            let t = self.text();
            post.insert("fail".into(), t.into());
        }
        let mut h = Map::new();
        if !pre.is_empty() {
            h.insert("pre".into(), pre.into());
        }
        if !post.is_empty() {
            h.insert("post".into(), post.into());
        }
        h.into()
    }

    fn page_exchs(&mut self, op: &Operation) -> Vec<Exch> {
        let n = if self.r.permille(15) { self.r.range(7, 40) } else { *self.r.pick(&[1u64, 1, 2, 2, 3, 4, 6]) };
        let mut last: Option<String> = None;
        let fail = if self.r.pct(30) { self.r.below(n) } else { n };
        let mut v = vec![];
        let item = &self.spec.doc["components"]["schemas"]["Thing"];
        for i in 0..n {
            if i == fail {
                let e = self.exch(op);
                v.push(e);
                continue;
            }
            let k = if self.r.permille(15) { self.r.range(20, 150) } else { *self.r.pick(&[0u64, 0, 1, 1, 2, 3, 5]) };
            let items: Vec<Value> = (0..k).map(|_| self.value(item, 2)).collect();
            let mut page = json!({ "items": items });
            if i + 1 < n {
                // Perhaps the token of the page before once more.
                let again = self.r.pct(10);
                let t = match &last {
                    Some(t) if again => t.clone(),
                    _ if self.r.pct(30) => self.text(),
                    _ => format!("tok{i}-{}", self.word()),
                };
                last = Some(t.clone());
                page["next_page"] = t.into();
            } else if self.r.pct(50) {
                page["next_page"] = Value::Null;
            }
            let body = Blob::Text(self.spell(&page));
            let e = Exch { status: 200, body, ..Default::default() };
            let keep = self.mode;
            // Faults mostly strike at one page.
            if self.mode == Mode::Faulty && i + 1 < n && self.r.pct(70) {
                self.mode = Mode::Slow;
            }
            let e = self.finish_exch(Some(op), e, false);
            self.mode = keep;
            v.push(e);
        }
        // The server never goes on for ever.
        v.push(Exch { body: Blob::Text("{\"items\":[]}".into()), ..Default::default() });
        v
    }

    // ------------------------------------------------------------ direct calls

    fn direct(&mut self, id: u32, what: &str) -> Op {
        let plain = |g: &mut Self| {
            let status = *g.r.pick(&[200u16, 200, 204, 201, 202]);
            let body = if status == 204 { Blob::default() } else { g.raw_blob() };
            let e = Exch { status, body, ..Default::default() };
            g.finish_exch(None, e, false)
        };
        match what {
            "query" => {
                let n = self.r.range(1, 4);
                let params: Vec<Value> = (0..n).map(|_| self.query_param()).collect();
                let e = plain(self);
                self.blank(id, "dir:query".into(), json!({ "params": params }), vec![e])
            }
            "path" => {
                let segs: Vec<String> = (0..self.r.range(1, 3)).map(|_| self.path_text()).collect();
                let e = plain(self);
                self.blank(id, "dir:path".into(), json!({ "segments": segs }), vec![e])
            }
            "form" => {
                let shape = *self.r.pick(&["map", "imap", "flat", "wide", "oneof", "pairs", "nested", "mapseq", "num"]);
                let b = match shape {
                    "map" => self.str_map(),
                    "imap" => {
                        let mut o = Map::new();
                        for _ in 0..self.r.below(4) {
                            let k = self.text();
                            o.insert(k, self.int(i64::MIN as i128, i64::MAX as i128));
                        }
                        o.into()
                    }
                    "flat" => self.flat_value(),
            "wide" => self.wide_value(),
                    "wide" => self.wide_value(),
                    "oneof" => self.one_of(),
                    "pairs" => {
                        let mut v: Vec<Value> = vec![];
                        for _ in 0..*self.r.pick(&[0, 1, 2, 3, 4, 20]) {
                            let again = v.last().cloned().filter(|_| self.r.pct(25));
                            v.push(again.unwrap_or_else(|| json!([self.text(), self.text()])));
                        }
                        v.into()
                    }
                    "nested" => json!({ "a": self.flat_value() }),
                    "mapseq" => json!({ "k": ["a", "b"] }),
                    _ => json!(5),
                };
                let e = plain(self);
                self.blank(id, "dir:form".into(), json!({"shape": shape, "body": b}), vec![e])
            }
            "decode" => {
                let ty = *self.r.pick(&[
                    "value", "value", "string", "u64", "i64", "f64", "bool", "opt", "vec", "flat", "map", "wrapped", "untagged", "oneof", "unit", "char", "u8", "strs", "tuple",
                ]);
                let schema = match ty {
                    "string" | "wrapped" => json!({"type": "string"}),
                    "u64" => json!({"type": "integer", "format": "uint64"}),
                    "i64" => json!({"type": "integer", "format": "int64"}),
                    "f64" => json!({"type": "number"}),
                    "bool" => json!({"type": "boolean"}),
                    "opt" => json!({"type": "integer", "format": "uint32", "nullable": true}),
                    "vec" => json!({"type": "array", "items": {"type": "integer", "format": "int64"}}),
                    "strs" => json!({"type": "array", "items": {"type": "string"}}),
                    "u8" => json!({"type": "integer", "format": "uint32"}),
                    "flat" => json!({"type": "object", "required": ["b c"], "properties": {"a": {"type": "string"}, "b c": {"type": "integer", "format": "int64"}, "k": {"enum": ["be ta"]}}}),
                    "unit" => json!({"enum": [null]}),
                    "char" => json!({"enum": ["a", "ü", "\u{1F600}"]}),
                    "tuple" => json!({"enum": [[1, "a"], [255, ""], [256, "x"]]}),
                    "oneof" => json!({"enum": [{"name": "x"}, {"count": 5}]}),
                    "untagged" => json!({"enum": [true, 5, "s"]}),
                    "map" => json!({"type": "object", "additionalProperties": {}}),
                    _ => json!({}),
                };
                let status = *self.r.pick(&[200u16, 200, 200, 201, 299]);
                let body = self.json_body(&schema);
                let e = Exch { status, body, ..Default::default() };
                let e = self.finish_exch(None, e, false);
                self.blank(id, "dir:decode".into(), json!({ "ty": ty }), vec![e])
            }
            "upgrade" => {
                let op = self.spec.ops.values().find(|o| o.websocket).unwrap();
                let t = self.client_tunnel();
                let mut e = self.exch(op);
                // The answer comes while the request is still being written, and the
                // connection is gone before it is through.
                if e.status == 101 && self.mode == Mode::Faulty && self.r.pct(25) {
                    let upload = self.r.range(50_000, 400_000);
                    e.when = if self.r.pct(70) { When::AfterHead } else { When::AfterBytes(self.r.range(1, 20_000) as usize) };
                    let kind = if self.r.pct(60) { CutKind::Rst } else { CutKind::Fin };
                    e.fault = Some((if self.r.pct(80) { usize::MAX } else { self.r.range(1, 200) as usize }, kind));
                    return self.blank(id, "dir:upgrade".into(), json!({ "tunnel": t, "upload": upload }), vec![e]);
                }
                self.blank(id, "dir:upgrade".into(), json!({ "tunnel": t }), vec![e])
            }
            _ => {
                let variant = *self.r.pick(&["comm", "upgrade", "body", "status", "status", "response", "pre", "post", "invalid", "payload"]);
                let status = *self.r.pick(&[200u16, 400, 404, 418, 500, 503]);
                let body = self.json_body(&json!({}));
                let e = Exch { status, body, ..Default::default() };
                let e = self.finish_exch(None, e, false);
                let args = json!({"variant": variant, "as": *self.r.pick(&["comm", "upgrade", "body"]), "text": self.text(), "fields": self.fields()});
                self.blank(id, "dir:variants".into(), args, vec![e])
            }
        }
    }

    /// Header fields for a response value made by hand.
    fn fields(&mut self) -> Value {
        let mut v = vec![];
        for _ in 0..self.r.below(4) {
            v.push(json!([*self.r.pick(&["x-a", "set-cookie", "x-b"]), *self.r.pick(&["1", "2", "", "caf\u{e9}", "a, b"])]));
        }
        for _ in 0..*self.r.pick(&[0, 1, 1, 1, 1, 2]) {
            let n = if self.r.pct(30) {
                self.r.next().to_string()
            } else {
                self.r
                    .pick(&[
                        "0", "5", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "-1", "+1", "abc", "",
                        "1 2", "007", "5, 5", "5,6", "1e3", "0x10", "99999999999999999999999", "1.0", "5;", "5 ", " 5", "1_000", "\u{b2}", "5\t",
                    ])
                    .to_string()
            };
            v.push(json!(["content-length", n]));
        }
        v.into()
    }

    fn str_map(&mut self) -> Value {
        let mut o = Map::new();
        for _ in 0..*self.r.pick(&[0, 1, 1, 2, 2, 3, 3, 9, 40]) {
            let k = self.text();
            o.insert(k, self.text().into());
        }
        o.into()
    }

    fn flat_value(&mut self) -> Value {
        let mut o = Map::new();
        if self.r.pct(50) {
            o.insert("a".into(), self.text().into());
        }
        o.insert("b c".into(), self.int(i64::MIN as i128, i64::MAX as i128));
        if self.r.pct(50) {
            o.insert("k".into(), self.r.pick(&["be ta", "ga/mma&=", " Del+TA "]).to_string().into());
        }
        o.into()
    }

    fn wide_value(&mut self) -> Value {
        let mut o = Map::new();
        for (k, e) in [("s", "string"), ("n", "i64"), ("u", "u64"), ("b", "bool"), ("c", "char"), ("w", "string"), ("x", "untagged")] {
            o.insert(k.into(), self.query_elem(e));
        }
        for (k, e) in [("o", "string"), ("t", "i64"), ("e", "enum")] {
            let v = if self.r.pct(50) { Value::Null } else { self.query_elem(e) };
            o.insert(k.into(), v);
        }
        o.into()
    }

    fn one_of(&mut self) -> Value {
        if self.r.pct(50) {
            json!({ "name": self.text() })
        } else {
            json!({"count": self.int(0, u64::MAX as i128)})
        }
    }

    fn query_param(&mut self) -> Value {
        let shape = *self.r.pick(&[
            "bool", "i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64", "f32", "f64", "char", "string", "string", "enum", "untagged", "oneof", "flat", "wrapped", "map",
            "imap", "opt_string", "opt_i64", "opt_enum", "opt_seq", "opt_flat", "opt_opt", "seq_string", "seq_i64", "seq_bool", "seq_enum", "seq_f64", "seq_untagged",
            "seq_char", "set", "plain", "tuple", "seq_opt", "seq_seq", "shapes", "internal", "adjacent", "mixed", "opt_f64", "seq_u64", "array3", "opt_bool", "seq_wrapped",
            "opt_mixed", "wide", "opt_wide", "nested", "seq_flat", "map_flat",
        ]);
        let name = if self.r.pct(60) { self.r.pick(&["q", "limit", "a b", "tag[]", "ü", "type", "x&y", "a=b", "", "%41"]).to_string() } else { self.text() };
        let none = shape.starts_with("opt_") && self.r.pct(30);
        let base = shape.strip_prefix("opt_").unwrap_or(shape);
        let (seq, elem) = match base {
            "seq_seq" | "seq_flat" | "seq_opt" => (false, base),
            b => match b.strip_prefix("seq_") {
                Some(e) => (true, e),
                None => (false, b),
            },
        };
        let v = if none {
            Value::Null
        } else if seq {
            let n = *self.r.pick(&[0, 1, 1, 2, 2, 3, 3, 9, 40]);
            let mut v: Vec<Value> = vec![];
            for _ in 0..n {
                let again = v.last().cloned().filter(|_| self.r.pct(20));
                v.push(again.unwrap_or_else(|| self.query_elem(elem)));
            }
            v.into()
        } else {
            self.query_elem(elem)
        };
        json!({"name": name, "shape": shape, "value": v})
    }

    fn query_elem(&mut self, e: &str) -> Value {
        let r = |g: &mut Self, lo: i128, hi: i128| g.int(lo, hi);
        match e {
            "bool" => self.r.pct(50).into(),
            "i8" => r(self, -128, 127),
            "i16" => r(self, -32768, 32767),
            "i32" => r(self, i32::MIN as i128, i32::MAX as i128),
            "i64" => r(self, i64::MIN as i128, i64::MAX as i128),
            "u8" => r(self, 0, 255),
            "u16" => r(self, 0, 65535),
            "u32" => r(self, 0, u32::MAX as i128),
            "u64" | "opt" => r(self, 0, u64::MAX as i128),
            "f32" => json!(*self.r.pick(&[0.0, 1.0, 0.5, -2.25, 1024.0, 0.125, 0.1, -3.3, 16777216.0, 1e-7, 3.4028235e38])),
            "f64" => self.float(),
            "char" if self.r.pct(30) => {
                let c = self.r.below(0x110000) as u32;
                char::from_u32(c).unwrap_or('\u{fffd}').to_string().into()
            }
            "char" => self.r.pick(&["a", "A", "Z", "\u{c9}", "\u{df}", "\u{0}", "\u{7f}", "\u{fe0f}", " ", "ü", "&", "=", "+", "%", "\u{1F600}", "\n", "0"]).to_string().into(),
            "string" | "wrapped" | "plain" => self.text().into(),
            "wide" => self.wide_value(),
            "enum" => self.r.pick(&["be ta", "ga/mma&=", " Del+TA "]).to_string().into(),
            "untagged" => match self.r.below(3) {
                0 => self.r.pct(50).into(),
                1 => r(self, i64::MIN as i128, i64::MAX as i128),
                _ => self.text().into(),
            },
            "oneof" => self.one_of(),
            "flat" => self.flat_value(),
            "map" => self.str_map(),
            "imap" => {
                let mut o = Map::new();
                for _ in 0..self.r.below(4) {
                    let k = self.text();
                    o.insert(k, self.int(i64::MIN as i128, i64::MAX as i128));
                }
                o.into()
            }
            "seq" => (0..self.r.below(4)).map(|_| Value::from(self.text())).collect(),
            "set" => {
                let mut v: Vec<u64> = (0..self.r.below(5)).map(|_| self.r.below(1000)).collect();
                v.sort();
                v.dedup();
                json!(v)
            }
            "tuple" => json!([self.r.below(100), self.text()]),
            "seq_opt" => (0..self.r.below(4)).map(|_| if self.r.pct(40) { Value::Null } else { json!(self.r.below(100)) }).collect(),
            "seq_seq" => (0..self.r.below(3)).map(|_| json!(["a", "b"])).collect(),
            "shapes" => self
                .r
                .pick(&[json!("simple"), json!({"newtype": 42}), json!({"tuple": [1, 2]}), json!({"object": {"a": 1, "b": 2}})])
                .clone(),
            "internal" => {
                if self.r.pct(50) {
                    json!({"tag_name": "simple"})
                } else {
                    json!({"tag_name": "object", "a": self.r.below(9), "b": self.text()})
                }
            }
            "adjacent" => self
                .r
                .pick(&[
                    json!({"tag_name": "simple"}),
                    json!({"tag_name": "newtype", "content_name": -3}),
                    json!({"tag_name": "tuple", "content_name": [1, 2]}),
                    json!({"tag_name": "object", "content_name": {"a": 1, "b": 2}}),
                ])
                .clone(),
            "mixed" => match self.r.below(3) {
                0 => json!(self.r.below(1000)),
                1 => json!({"a": self.text(), "b": self.r.pct(50)}),
                _ => json!([self.text(), self.text()]),
            },
            "array3" => (0..3).map(|_| self.int(i64::MIN as i128, i64::MAX as i128)).collect(),
            "nested" => json!({ "a": self.flat_value() }),
            "seq_flat" => (0..self.r.below(3)).map(|_| self.flat_value()).collect(),
            "map_flat" => {
                let mut o = Map::new();
                for _ in 0..self.r.below(2) {
                    let k = self.text();
                    o.insert(k, self.flat_value());
                }
                o.into()
            }
            _ => unreachable!("{e}"),
        }
    }

    // ------------------------------------------------------------ commands

    fn cli(&mut self, id: u32, name: &str) -> Op {
        let spec = self.spec;
        let op = &spec.ops[name];
        let mut a = self.args(op, "cli", name, false);
        a.remove("page_token");
        if name == "proj_list" {
            let s = self.text();
            a.insert("selector".into(), s.into());
        }
        let mut argv = vec![];
        let mut args = Map::new();
        let paged = op.paginated;
        let text = |v: &Value| match v {
            Value::String(s) => s.clone(),
            v => v.to_string(),
        };
        let names: Vec<String> = a.keys().cloned().collect();
        for k in names {
            let t = text(&a[&k]).replace('\u{0}', "0");
            a.insert(k.clone(), if a[&k].is_string() { t.clone().into() } else { a[&k].clone() });
            argv.push(format!("--{}={t}", k.replace('_', "-")));
        }
        if let Some((_, schema)) = &op.body {
            let v = self.value(schema, 0);
            let flags = matches!(name, "form_post") && self.r.pct(60);
            if flags {
                for (k, x) in v.as_object().unwrap() {
                    let f = match k.as_str() {
                        "odd name&=" => "odd-name".to_string(),
                        k => k.replace('_', "-"),
                    };
                    argv.push(format!("--{f}={}", text(x)));
                }
            } else {
                args.insert("json_body".into(), v.clone());
            }
            a.insert("body".into(), v);
        }
        for i in (1..argv.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            argv.swap(i, j);
        }
        if self.r.pct(6) {
            match self.r.below(2) {
                0 => argv.push("--no-such-flag".into()),
                _ => argv.push("stray".into()),
            }
            args.insert("usage".into(), true.into());
        }
        args.insert("argv".into(), json!(argv));
        // The configuration may change the request, or refuse it.
        match self.r.below(20) {
            0 => drop(args.insert("step".into(), json!({"refuse": "not today"}))),
            1 | 2 => {
                let k = match name {
                    "thing_get" | "thing_delete" | "thing_head" => Some("id"),
                    "thing_list" => Some("filter"),
                    "thing_put" | "proj_list" => Some("project"),
                    "do_nothing" => Some("a"),
                    _ => None,
                };
                if let Some(k) = k {
                    let t = if k == "filter" { self.text() } else { self.path_text() };
                    args.insert("step".into(), json!({"set": t.clone()}));
                    a.insert(k.into(), t.into());
                }
            }
            _ => {}
        }
        args.insert("want".into(), a.into());
        let exch = if paged { self.page_exchs(op) } else { vec![self.exch(op)] };
        self.blank(id, format!("cli:{name}"), Value::Object(args), exch)
    }
}
