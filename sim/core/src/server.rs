//! The scripted HTTP/1.1 server on the other end of every simulated connection.
use crate::scenario::*;
use crate::world::*;
use std::collections::BTreeMap;

/// A request as the server received it.
#[derive(Clone, Debug)]
pub struct ReqRec {
    pub conn: usize,
    /// Op id from the marker header, if any.
    pub op: Option<u32>,
    /// n-th request of that op.
    pub nth: usize,
    pub method: String,
    pub target: String,
    pub version: String,
    /// Names lower-cased, values raw, in order.
    pub headers: Vec<(String, Vec<u8>)>,
    pub body: Vec<u8>,
    pub body_framing: ReqFraming,
    pub complete: bool,
    pub t_head: u64,
    pub t_complete: u64,
    /// Violations of HTTP framing by the client.
    pub bad: Option<String>,
    // The response.
    pub resp: Option<Resp>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum ReqFraming {
    None,
    Len(usize),
    Chunked,
}

/// The response as scheduled.
#[derive(Clone, Debug)]
pub struct Resp {
    pub exch: Exch,
    /// Offset of the first response byte in the connection's server->client stream.
    pub start: u64,
    /// End of the final head, relative to `start`.
    pub head_end: u64,
    /// End of the complete response, relative to `start`.
    pub end: u64,
    /// How many bytes are really sent (fault cut).
    pub sent: u64,
    pub body: Vec<u8>,
    /// (offset relative to start, body bytes decodable once consumed up to there); ascending.
    pub map: Vec<(u64, u64)>,
    /// Status line and header fields of the final head as sent.
    pub headers: Vec<(String, Vec<u8>)>,
    pub close_delim: bool,
    pub well_formed: bool,
    pub t_start: u64,
    pub tunnel_start: u64,
    pub tunnel_out: Vec<u8>,
}

impl Resp {
    /// Body bytes contained in the first `n` bytes of the response.
    pub fn decoded(&self, n: u64) -> u64 {
        let mut last = (self.head_end, 0u64);
        for &(o, d) in &self.map {
            if n >= o {
                last = (o, d);
            } else {
                // Data bytes run linearly up to (o, d) except for framing bytes.
                let left = o - n;
                let span = d - last.1;
                let gained = span.saturating_sub(left);
                // `map` has an entry at the start and end of each data run.
                return last.1 + gained;
            }
        }
        last.1
    }
}

#[derive(PartialEq, Debug)]
enum PState {
    Head,
    Body(usize),
    Tunnel(usize),
}

pub struct SrvConn {
    pub closed: bool, // sent FIN (or more)
    pub dead: bool,   // gone: data sent to it is answered with RST
    pub rst_on_data: bool,
    /// Has sent FIN but still reads.
    pub half: bool,
    pub no_read: bool,
    pub accept: ConnPlan,
    arrived: Vec<u8>,
    reading: bool,
    buf: Vec<u8>,
    state: PState,
    /// Responses being sent.
    busy: Option<usize>,
    idle_gen: u64,
    idle_pending: bool,
    pub eof_in: bool,
    pub tunnel_in: Vec<(u64, usize)>, // (t, total)
    pub tunnel_bytes: Vec<u8>,
    pub tunnel_from: u64,
    pub tunnel_rec: Option<usize>,
    read_cap: Option<usize>,
    pub partial: bool,
}

impl SrvConn {
    pub fn new(p: &ConnPlan) -> SrvConn {
        SrvConn {
            closed: false,
            dead: false,
            rst_on_data: false,
            half: false,
            no_read: matches!(p, ConnPlan::AcceptClose(_) | ConnPlan::AcceptReset(_)),
            accept: p.clone(),
            arrived: vec![],
            reading: false,
            buf: vec![],
            state: PState::Head,
            busy: None,
            idle_gen: 0,
            idle_pending: false,
            eof_in: false,
            tunnel_in: vec![],
            tunnel_bytes: vec![],
            tunnel_from: 0,
            tunnel_rec: None,
            read_cap: None,
            partial: false,
        }
    }

    /// An idle close is still to come.
    pub fn idle_open(&self) -> bool {
        self.idle_pending
    }

    /// An idle close is dropped when a new request has begun to be served.
    pub fn idle_now(&mut self, gen: u64) -> bool {
        let due = self.idle_pending && gen == self.idle_gen;
        if due {
            self.idle_pending = false;
        }
        due && self.busy.is_none() && matches!(self.state, PState::Head)
    }

    pub fn stops_reading(&self) -> bool {
        self.read_cap.is_some() || self.no_read
    }
}

pub struct Server {
    pub plans: BTreeMap<u32, Vec<Exch>>,
    pub reqs: Vec<ReqRec>,
    pub per_op: BTreeMap<u32, usize>,
    pub rate: ReadRate,
}

impl Server {
    pub fn new(sc: &Scenario) -> Server {
        let mut plans = BTreeMap::new();
        for t in &sc.tasks {
            for o in &t.ops {
                plans.insert(o.id, o.exch.clone());
            }
        }
        Server { plans, reqs: vec![], per_op: BTreeMap::new(), rate: sc.read_rate.clone() }
    }
}

pub fn accepted(w: &mut World, c: usize) {
    match w.conns[c].srv.accept.clone() {
        ConnPlan::AcceptClose(ms) if !w.faults_off => {
            let t = w.now + ms * MS;
            w.at(t, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Fault("closed_without_answer") });
        }
        ConnPlan::AcceptReset(ms) if !w.faults_off => {
            let t = w.now + ms * MS;
            w.at(t, Ev::Emit { c, seg: Seg::Rst, mark: Mark::Fault("reset_without_answer") });
        }
        // Accepted once the faults have ended: served like any other connection.
        _ => w.conns[c].srv.no_read = false,
    }
}

pub fn arrive(w: &mut World, c: usize, seg: Seg) {
    match seg {
        Seg::Data(d) => {
            if w.conns[c].srv.dead || w.conns[c].srv.closed || w.conns[c].srv.rst_on_data {
                // The peer's kernel answers data for a closed socket with a reset.
                w.ack(c, d.len());
                if !w.conns[c].srv.partial {
                    w.conns[c].srv.partial = true;
                }
                w.conns[c].srv.dead = true;
                w.send_to_client(c, Seg::Rst, Mark::Fault("reset_on_closed_peer"));
                return;
            }
            w.conns[c].srv.arrived.extend_from_slice(&d);
            if !w.conns[c].srv.no_read {
                kick(w, c);
            }
        }
        Seg::Fin => {
            w.conns[c].srv.eof_in = true;
            kick(w, c);
        }
        Seg::Rst => {
            w.conns[c].srv.eof_in = true;
            w.conns[c].srv.arrived.clear();
            w.conns[c].srv.dead = true;
            w.conns[c].srv.closed = true;
        }
    }
}

fn kick(w: &mut World, c: usize) {
    if w.conns[c].srv.reading {
        return;
    }
    let every = w.server.rate.every_us;
    if w.server.rate.bytes == 0 || every == 0 || w.faults_off {
        w.conns[c].srv.reading = true;
        read_step(w, c);
    } else {
        w.conns[c].srv.reading = true;
        let t = w.now + every * US;
        w.at(t, Ev::ServerRead { c });
    }
}

pub fn read_step(w: &mut World, c: usize) {
    w.conns[c].srv.reading = false;
    if w.conns[c].srv.dead {
        return;
    }
    let rate = w.server.rate.clone();
    let limited = rate.bytes > 0 && rate.every_us > 0 && !w.faults_off;
    let mut n = w.conns[c].srv.arrived.len();
    if limited {
        n = n.min(rate.bytes);
        w.count("server_reads_slowly");
    }
    if let Some(cap) = w.conns[c].srv.read_cap {
        n = n.min(cap);
        w.conns[c].srv.read_cap = Some(cap - n);
    }
    let d: Vec<u8> = w.conns[c].srv.arrived.drain(..n).collect();
    if n > 0 {
        w.ack(c, n);
        w.conns[c].srv.buf.extend_from_slice(&d);
        process(w, c);
    }
    let s = &w.conns[c].srv;
    if !s.arrived.is_empty() && !s.dead && s.read_cap != Some(0) && !s.no_read {
        kick(w, c);
        return;
    }
    if s.eof_in && s.arrived.is_empty() && !s.closed && !s.dead {
        eof(w, c);
    }
}

fn eof(w: &mut World, c: usize) {
    let idle = w.conns[c].srv.state == PState::Head && w.conns[c].srv.busy.is_none();
    w.t(format_args!("server: connection {c} ended by the client\n"));
    if idle {
        w.conns[c].srv.closed = true;
        w.send_to_client(c, Seg::Fin, Mark::Close);
    } else if let PState::Tunnel(_) = w.conns[c].srv.state {
        // Tunnel: the client is done sending; our side goes on by its script.
        let (now, total) = (w.now, w.conns[c].srv.tunnel_bytes.len());
        w.conns[c].srv.tunnel_in.push((now, total));
    } else if let PState::Body(_) = w.conns[c].srv.state {
        // An incomplete request: never answered.
        w.conns[c].srv.closed = true;
        w.conns[c].srv.dead = true;
        w.send_to_client(c, Seg::Fin, Mark::Close);
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn process(w: &mut World, c: usize) {
    loop {
        match w.conns[c].srv.state {
            PState::Head => {
                let Some(end) = find(&w.conns[c].srv.buf, b"\r\n\r\n") else { return };
                let head: Vec<u8> = w.conns[c].srv.buf.drain(..end + 4).collect();
                // A new request wins against a scheduled idle close in the server.
                w.conns[c].srv.idle_gen += 1;
                w.conns[c].srv.idle_pending = false;
                let rec = parse_head(w, c, &head[..end]);
                let id = w.server.reqs.len();
                let op = rec.op;
                let nth = rec.nth;
                w.t(format_args!(
                    "server: request #{id} on connection {c}: {} {} (op {:?} nth {})\n",
                    rec.method, rec.target, op, nth
                ));
                let ex = exch_of(w, op, nth);
                let framing = rec.body_framing.clone();
                w.server.reqs.push(rec);
                w.conns[c].srv.state = PState::Body(id);
                if !w.faults_off {
                    if let Some(k) = ex.read_stop {
                        let have = w.conns[c].srv.buf.len();
                        w.conns[c].srv.read_cap = Some(k.saturating_sub(have));
                        if framing != ReqFraming::None {
                            w.fault(c, "server_stops_reading");
                        }
                    }
                    if ex.read_rst == Some(0) {
                        reset(w, c, "reset_during_request");
                        return;
                    }
                }
                if ex.when == When::AfterHead && framing != ReqFraming::None {
                    w.count("early_response");
                    respond(w, c, id, &ex);
                }
            }
            PState::Body(id) => {
                let done = body_progress(w, c, id);
                let op = w.server.reqs[id].op;
                let nth = w.server.reqs[id].nth;
                let ex = exch_of(w, op, nth);
                if w.conns[c].srv.dead {
                    return;
                }
                let got = w.server.reqs[id].body.len();
                if !w.faults_off {
                    if let Some(k) = ex.read_rst {
                        if got >= k {
                            reset(w, c, "reset_during_request");
                            return;
                        }
                    }
                }
                if let When::AfterBytes(k) = ex.when {
                    if got >= k && !done && w.server.reqs[id].resp.is_none() {
                        w.count("early_response");
                        respond(w, c, id, &ex);
                    }
                }
                if !done {
                    return;
                }
                w.server.reqs[id].complete = true;
                w.server.reqs[id].t_complete = w.now;
                w.t(format_args!("server: request #{id} complete ({got} body bytes)\n"));
                if w.server.reqs[id].resp.is_none() {
                    respond(w, c, id, &ex);
                }
                if !matches!(w.conns[c].srv.state, PState::Tunnel(_)) {
                    w.conns[c].srv.state = PState::Head;
                }
                if w.conns[c].srv.buf.is_empty() {
                    return;
                }
            }
            PState::Tunnel(id) => {
                let d = std::mem::take(&mut w.conns[c].srv.buf);
                if d.is_empty() {
                    return;
                }
                w.conns[c].srv.tunnel_bytes.extend_from_slice(&d);
                let (now, total) = (w.now, w.conns[c].srv.tunnel_bytes.len());
                w.conns[c].srv.tunnel_in.push((now, total));
                let op = w.server.reqs[id].op;
                let nth = w.server.reqs[id].nth;
                let ex = exch_of(w, op, nth);
                let tn = ex.tunnel.unwrap_or_default();
                if tn.echo {
                    // Not before the response and what follows it at once have left.
                    let at = w.now.max(w.conns[c].srv.tunnel_from);
                    w.at(at, Ev::Emit { c, seg: Seg::Data(d), mark: Mark::Tunnel(id) });
                }
                if let Some(k) = tn.rst_after_in {
                    if total >= k && !w.faults_off {
                        reset(w, c, "tunnel_reset");
                    }
                }
                return;
            }
        }
    }
}

fn reset(w: &mut World, c: usize, kind: &'static str) {
    w.conns[c].srv.dead = true;
    w.conns[c].srv.closed = true;
    w.send_to_client(c, Seg::Rst, Mark::Fault(kind));
}

fn exch_of(w: &World, op: Option<u32>, nth: usize) -> Exch {
    match op.and_then(|o| w.server.plans.get(&o)) {
        Some(v) if !v.is_empty() => v[nth.min(v.len() - 1)].clone(),
        _ => Exch { status: 599, ..Exch::default() },
    }
}

fn parse_head(w: &mut World, c: usize, head: &[u8]) -> ReqRec {
    let mut bad = None;
    let mut lines = head.split(|&b| b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l));
    let first = String::from_utf8_lossy(lines.next().unwrap_or(b"")).to_string();
    let parts: Vec<&str> = first.split(' ').collect();
    if parts.len() != 3 {
        bad = Some(format!("bad request line {first:?}"));
    }
    let mut headers = vec![];
    for l in lines {
        match l.iter().position(|&b| b == b':') {
            Some(p) => {
                let name = String::from_utf8_lossy(&l[..p]).to_ascii_lowercase();
                let mut v = &l[p + 1..];
                while let [b' ' | b'\t', r @ ..] = v {
                    v = r;
                }
                while let [r @ .., b' ' | b'\t'] = v {
                    v = r;
                }
                headers.push((name, v.to_vec()));
            }
            None => bad = Some(format!("bad header line {:?}", String::from_utf8_lossy(l))),
        }
    }
    let get = |n: &str| headers.iter().find(|(k, _)| k == n).map(|(_, v)| String::from_utf8_lossy(v).to_string());
    let op = get("x-op").and_then(|v| v.parse::<u32>().ok());
    let te = get("transfer-encoding");
    let cl = get("content-length");
    let framing = match (te, cl) {
        (Some(t), None) if t.eq_ignore_ascii_case("chunked") => ReqFraming::Chunked,
        (None, Some(l)) => match l.parse() {
            Ok(n) => ReqFraming::Len(n),
            Err(_) => {
                bad = Some(format!("bad content-length {l:?}"));
                ReqFraming::None
            }
        },
        (None, None) => ReqFraming::None,
        _ => {
            bad = Some("both content-length and transfer-encoding, or an unknown coding".into());
            ReqFraming::None
        }
    };
    let nth = match op {
        Some(o) => {
            let n = w.server.per_op.entry(o).or_default();
            *n += 1;
            *n - 1
        }
        None => 0,
    };
    ReqRec {
        conn: c,
        op,
        nth,
        method: parts.first().unwrap_or(&"").to_string(),
        target: parts.get(1).unwrap_or(&"").to_string(),
        version: parts.get(2).unwrap_or(&"").to_string(),
        headers,
        body: vec![],
        body_framing: framing,
        complete: false,
        t_head: w.now,
        t_complete: 0,
        bad,
        resp: None,
    }
}

/// Moves request body bytes from the buffer to the record; true once complete.
fn body_progress(w: &mut World, c: usize, id: usize) -> bool {
    let buf = &mut w.conns[c].srv.buf;
    let rec = &mut w.server.reqs[id];
    match rec.body_framing {
        ReqFraming::None => true,
        ReqFraming::Len(n) => {
            let k = buf.len().min(n - rec.body.len());
            rec.body.extend(buf.drain(..k));
            rec.body.len() == n
        }
        ReqFraming::Chunked => loop {
            let Some(e) = find(buf, b"\r\n") else { return false };
            let line = String::from_utf8_lossy(&buf[..e]).to_string();
            let Ok(n) = usize::from_str_radix(line.split(';').next().unwrap_or("").trim(), 16) else {
                rec.bad = Some(format!("bad chunk size {line:?}"));
                w.conns[c].srv.dead = true;
                return false;
            };
            if n == 0 {
                // No trailers are sent by the client.
                if buf.len() < e + 4 {
                    return false;
                }
                buf.drain(..e + 4);
                return true;
            }
            if buf.len() < e + 2 + n + 2 {
                return false;
            }
            rec.body.extend_from_slice(&buf[e + 2..e + 2 + n]);
            if &buf[e + 2 + n..e + 4 + n] != b"\r\n" {
                rec.bad = Some("chunk not followed by CRLF".into());
            }
            buf.drain(..e + 4 + n);
        },
    }
}

fn default_reason(s: u16) -> &'static str {
    match s {
        200 => "OK",
        201 => "Created",
        202 => "Accepted",
        204 => "No Content",
        400 => "Bad Request",
        404 => "Not Found",
        500 => "Internal Server Error",
        101 => "Switching Protocols",
        _ => "Whatever",
    }
}

fn latin1(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

/// Builds and schedules the response to request `id`.
fn respond(w: &mut World, c: usize, id: usize, ex: &Exch) {
    if w.server.reqs[id].resp.is_some() {
        return;
    }
    if ex.silent && !w.faults_off {
        w.fault(c, "server_never_answers");
        w.conns[c].srv.busy = Some(id);
        return;
    }
    let head_req = w.server.reqs[id].method == "HEAD";
    let mut raw: Vec<u8> = vec![];
    for s in &ex.interim {
        raw.extend_from_slice(format!("HTTP/1.1 {s} Interim\r\nx-interim: {s}\r\nx-hdr: interim\r\n\r\n").as_bytes());
        w.count("interim_response");
    }
    let body = ex.body.bytes();
    let ver = if ex.http10 { "HTTP/1.0" } else { "HTTP/1.1" };
    let reason = if ex.reason.is_empty() { default_reason(ex.status) } else { &ex.reason };
    let mut headers: Vec<(String, Vec<u8>)> =
        ex.headers.iter().map(|(n, v)| (n.clone(), latin1(v))).collect();
    let mut close_delim = false;
    let nobody = head_req || ex.status == 204 || ex.status == 304 || ex.status == 101;
    match &ex.framing {
        Framing::Len => headers.push(("content-length".into(), body.len().to_string().into_bytes())),
        Framing::Chunked { .. } => headers.push(("transfer-encoding".into(), b"chunked".to_vec())),
        Framing::Close => close_delim = !nobody,
        Framing::None => {}
    }
    let keepalive10 = ex.http10 && ex.after == After::KeepAlive && !close_delim;
    if matches!(ex.after, After::Close(_)) || close_delim {
        headers.push(("connection".into(), b"close".to_vec()));
    } else if keepalive10 {
        headers.push(("connection".into(), b"keep-alive".to_vec()));
    } else if ex.tunnel.is_some() && ex.status == 101 {
        // The option's name is matched without regard to case, alone or in a list.
        let value: &[u8] = match id % 5 {
            0 | 1 => b"upgrade",
            2 => b"Upgrade",
            3 => b"keep-alive, Upgrade",
            _ => b"UPGRADE",
        };
        headers.push(("connection".into(), value.to_vec()));
    }
    if let Some(bad) = &ex.bad_head {
        raw.extend_from_slice(&latin1(bad));
        w.fault(c, "malformed_response_head");
    } else {
        raw.extend_from_slice(format!("{ver} {} ", ex.status).as_bytes());
        raw.extend_from_slice(&latin1(reason));
        raw.extend_from_slice(b"\r\n");
        for (n, v) in &headers {
            raw.extend_from_slice(n.as_bytes());
            raw.extend_from_slice(b": ");
            raw.extend_from_slice(v);
            raw.extend_from_slice(b"\r\n");
        }
        raw.extend_from_slice(b"\r\n");
    }
    let head_end = raw.len() as u64;
    let mut map: Vec<(u64, u64)> = vec![];
    if !nobody && ex.bad_head.is_none() {
        match &ex.framing {
            Framing::Chunked { sizes, ext, trailers } => {
                let mut off = 0;
                let mut i = 0;
                while off < body.len() {
                    let want = if sizes.is_empty() { body.len() } else { sizes[i % sizes.len()].max(1) };
                    i += 1;
                    let k = want.min(body.len() - off);
                    if *ext {
                        raw.extend_from_slice(format!("{k:X};name=\"v\"\r\n").as_bytes());
                    } else {
                        raw.extend_from_slice(format!("{k:x}\r\n").as_bytes());
                    }
                    map.push((raw.len() as u64, off as u64));
                    raw.extend_from_slice(&body[off..off + k]);
                    off += k;
                    map.push((raw.len() as u64, off as u64));
                    raw.extend_from_slice(b"\r\n");
                }
                raw.extend_from_slice(b"0\r\n");
                for (n, v) in trailers {
                    raw.extend_from_slice(format!("{n}: {v}\r\n").as_bytes());
                }
                raw.extend_from_slice(b"\r\n");
            }
            _ => {
                map.push((raw.len() as u64, 0));
                raw.extend_from_slice(&body);
                map.push((raw.len() as u64, body.len() as u64));
            }
        }
    }
    let end = raw.len() as u64;
    let mut tunnel_out = vec![];
    if let (Some(t), 101) = (&ex.tunnel, ex.status) {
        tunnel_out = t.early.bytes();
        raw.extend_from_slice(&tunnel_out);
    }
    let mut cut = None;
    if let Some((at, kind)) = &ex.fault {
        if !w.faults_off {
            let at = (*at).min(raw.len());
            raw.truncate(at);
            cut = Some(kind.clone());
        }
    }
    let start = {
        let co = &w.conns[c];
        co.srv_planned()
    };
    let sent = raw.len() as u64;
    w.t(format_args!(
        "server: answers request #{id} with {} ({} head + body bytes{})\n",
        ex.status,
        raw.len(),
        if cut.is_some() { ", cut by a fault" } else { "" }
    ));
    // Emission schedule.
    let mut t = w.now + ex.delay_us * US;
    let t_start = t;
    let mut off = 0;
    let mut i = 0;
    let plain_end = cut.is_none();
    if raw.is_empty() {
        w.at(t, Ev::Nop);
    }
    while off < raw.len() {
        let (sz, gap) = if ex.cuts.is_empty() { (raw.len(), 0) } else { ex.cuts[i % ex.cuts.len()] };
        let k = sz.max(1).min(raw.len() - off);
        if i > 0 {
            t += gap * US;
        }
        i += 1;
        let last = off + k == raw.len();
        let mark = if last && plain_end { Mark::End(id) } else { Mark::Plain };
        w.at(t, Ev::Emit { c, seg: Seg::Data(raw[off..off + k].to_vec()), mark });
        off += k;
    }
    let tunnel = ex.tunnel.clone().filter(|_| ex.status == 101 && cut.is_none());
    match &cut {
        Some(CutKind::Fin) => w.at(t, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Fault("response_cut_fin") }),
        Some(CutKind::Rst) => w.at(t, Ev::Emit { c, seg: Seg::Rst, mark: Mark::Fault("response_cut_reset") }),
        Some(CutKind::Stall) => w.fault(c, "response_stalls"),
        Some(CutKind::Garbage(b)) => {
            w.fault(c, "response_garbage");
            w.at(t, Ev::Emit { c, seg: Seg::Data(b.bytes()), mark: Mark::Plain });
            w.at(t, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Fault("response_cut_fin") });
        }
        None => {}
    }
    if ex.bad_head.is_some() && cut.is_none() {
        w.at(t, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Fault("malformed_then_fin") });
    }
    let rec = &mut w.server.reqs[id];
    rec.resp = Some(Resp {
        exch: ex.clone(),
        start,
        head_end,
        end,
        sent,
        body: if nobody { vec![] } else { body },
        map,
        headers,
        close_delim,
        well_formed: ex.bad_head.is_none() && !matches!(cut, Some(CutKind::Garbage(_))),
        t_start,
        tunnel_start: end,
        tunnel_out: tunnel_out.clone(),
    });
    w.conns[c].plan_more(sent);
    w.conns[c].srv.busy = Some(id);
    if cut.is_some() || ex.bad_head.is_some() {
        return;
    }
    if let Some(tn) = tunnel {
        w.conns[c].srv.state = PState::Tunnel(id);
        w.conns[c].srv.tunnel_rec = Some(id);
        let mut at = t;
        w.conns[c].srv.tunnel_from = t;
        for (d, b) in &tn.msgs {
            at += d * US;
            let b = b.bytes();
            if b.is_empty() {
                continue;
            }
            w.at(at, Ev::Emit { c, seg: Seg::Data(b), mark: Mark::Tunnel(id) });
        }
        match tn.end {
            Some((d, CutKind::Rst)) => {
                w.at(at + d * US, Ev::Emit { c, seg: Seg::Rst, mark: Mark::Fault("tunnel_reset") })
            }
            Some((d, CutKind::Fin)) => w.at(at + d * US, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Plain }),
            _ => {}
        }
        return;
    }
    if close_delim {
        w.at(t, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Close });
    }
}

/// The last byte of response `id` has left the server.
pub fn response_sent(w: &mut World, c: usize, id: usize) {
    w.conns[c].srv.busy = None;
    let Some(r) = w.server.reqs[id].resp.as_ref() else { return };
    if r.exch.status == 101 && r.exch.tunnel.is_some() {
        w.conns[c].srv.busy = Some(id);
        return;
    }
    let after = r.exch.after.clone();
    if r.close_delim {
        return;
    }
    let now = w.now;
    match after {
        After::KeepAlive => {}
        After::Close(us) => w.at(now + us * US, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Close }),
        After::IdleFin(us) => {
            w.count("idle_close_race");
            w.conns[c].srv.idle_pending = true;
            let gen = w.conns[c].srv.idle_gen;
            w.at(now + us * US, Ev::Emit { c, seg: Seg::Fin, mark: Mark::Idle(gen) });
        }
        After::IdleRst(us) => {
            w.count("idle_reset_race");
            w.conns[c].srv.idle_pending = true;
            let gen = w.conns[c].srv.idle_gen;
            w.at(now + us * US, Ev::Emit { c, seg: Seg::Rst, mark: Mark::Idle(gen) });
        }
    }
    // A close-after while the request is still arriving leaves the rest unread.
}
