//! The simulated operating system kernel (sockets, epoll, clock, randomness) and
//! network. Single-threaded, driven by one event queue and one PRNG.
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, VecDeque};
use std::fmt::Write as _;

use crate::rng::{Fnv, Rng};
use crate::scenario::*;
use crate::server::SrvConn;

pub const FD0: i32 = 1_000_000;
pub const MS: u64 = 1_000_000;
pub const US: u64 = 1_000;
/// The monotonic clock does not start at zero.
pub const T0: u64 = 1_000_000 * MS;
/// 2024-01-01, for CLOCK_REALTIME.
pub const WALL0: i64 = 1_704_067_200;

pub const EPOLLIN: u32 = 1;
pub const EPOLLOUT: u32 = 4;
pub const EPOLLERR: u32 = 8;
pub const EPOLLHUP: u32 = 0x10;
pub const EPOLLRDHUP: u32 = 0x2000;
pub const EPOLLET: u32 = 1 << 31;

#[derive(Debug, Clone)]
pub enum Seg {
    Data(Vec<u8>),
    Fin,
    Rst,
}

#[derive(Debug)]
pub enum Ev {
    ConnectDone { c: usize, err: i32 },
    /// The server hands a segment to its kernel.
    Emit { c: usize, seg: Seg, mark: Mark },
    ToClient { c: usize, seg: Seg, mark: Mark },
    ToServer { c: usize, seg: Seg },
    ServerRead { c: usize },
    Crash,
    ClockJump(i64),
    Nop,
}

/// Why a segment was sent (for the fault log).
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Mark {
    /// A message of the upgraded connection of this request.
    Tunnel(usize),
    Plain,
    /// End of a response (request record index).
    End(usize),
    Fault(&'static str),
    /// Not a fault: announced or legitimate close.
    Close,
    /// A close of an idle connection; dropped if a new request has come since.
    Idle(u64),
}

pub enum Fd {
    Tcp(Sock),
    Epoll { interest: BTreeMap<i32, (u32, u64)>, edges: BTreeSet<i32> },
    Event { count: u64 },
    /// A duplicate of another descriptor (tokio duplicates its epoll descriptor).
    Alias(i32),
}

#[derive(Default)]
pub struct Sock {
    pub nonblock: bool,
    pub v6: bool,
    pub conn: Option<usize>,
}

#[derive(PartialEq, Clone, Copy, Debug)]
pub enum CState {
    Connecting,
    Open,
    Failed,
}

/// One simulated TCP connection.
pub struct Conn {
    pub fd: Option<i32>, // None once the client closed it
    pub state: CState,
    pub t_connect: u64,
    pub so_error: i32,
    pub err_taken: bool,
    // server -> client
    pub rcv: VecDeque<u8>,
    pub backlog: VecDeque<(Seg, Mark)>,
    pub fin_in: bool, // FIN has arrived
    pub rst_in: bool, // RST has arrived
    pub last_to_client: u64,
    pub emitted: u64,
    pub planned: u64,
    pub arrived: u64,
    pub consumed: u64,
    pub eof_read_at: Option<u64>,
    pub err_read_at: Option<u64>,
    pub rx_log: Vec<(u64, u64)>,      // (t, consumed)
    pub arrive_log: Vec<(u64, u64)>,  // (t, arrived)
    // client -> server
    pub unacked: usize,
    pub sent: u64,
    pub last_to_server: u64,
    pub fin_out: bool,
    // server side
    pub srv: SrvConn,
    /// Edge flags.
    pub wr_blocked: bool,
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct FaultRec {
    pub t: u64,
    pub conn: usize,
    pub kind: String,
}

pub struct World {
    pub on: bool,
    pub now: u64,
    pub wall_off: i64,
    seq: u64,
    heap: BinaryHeap<Reverse<(u64, u64, usize)>>,
    evs: BTreeMap<usize, Ev>,
    ev_id: usize,
    pub rng: Rng,
    pub ent: Rng,
    pub net: Net,
    pub fds: BTreeMap<i32, Fd>,
    next_fd: i32,
    pub conns: Vec<Conn>,
    pub conn_plan: Vec<ConnPlan>,
    pub attempts: usize,
    pub server: crate::server::Server,
    pub faults: Vec<FaultRec>,
    pub fault_counts: BTreeMap<String, u64>,
    pub trace: Fnv,
    pub shape: Fnv,
    pub verbose: bool,
    pub lines: Vec<String>,
    pub stuck: Option<String>,
    pub steps: u64,
    pub pauses: Vec<(u64, u64)>,
    pub clock_reads: u64,
    pub faults_off: bool,
    pub syscalls: u64,
}

impl Conn {
    /// Server->client bytes scheduled so far on this connection.
    pub fn srv_planned(&self) -> u64 {
        self.planned
    }
    pub fn plan_more(&mut self, n: u64) {
        self.planned += n;
    }
}

impl World {
    pub fn new(sc: &Scenario) -> World {
        let mut root = Rng::new(sc.seed);
        let rng = root.fork(1);
        let ent = root.fork(2);
        let mut w = World {
            on: false,
            now: T0,
            wall_off: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            evs: BTreeMap::new(),
            ev_id: 0,
            rng,
            ent,
            net: sc.net.clone(),
            fds: BTreeMap::new(),
            next_fd: FD0,
            conns: vec![],
            conn_plan: sc.conns.clone(),
            attempts: 0,
            server: crate::server::Server::new(sc),
            faults: vec![],
            fault_counts: BTreeMap::new(),
            trace: Fnv::default(),
            shape: Fnv::default(),
            verbose: false,
            lines: vec![],
            stuck: None,
            steps: 0,
            pauses: vec![],
            clock_reads: 0,
            faults_off: false,
            syscalls: 0,
        };
        for (a, b) in sc.net.crashes.clone() {
            let _ = b;
            w.at(T0 + a * MS, Ev::Crash);
        }
        for (a, by) in sc.net.clock_jumps.clone() {
            w.at(T0 + a * MS, Ev::ClockJump(by));
        }
        w
    }

    pub fn rel(&self) -> u64 {
        self.now - T0
    }

    pub fn t(&mut self, a: std::fmt::Arguments<'_>) {
        let n = self.rel();
        let _ = write!(self.trace, "{n} ");
        let _ = self.trace.write_fmt(a);
        if self.verbose {
            self.lines.push(format!("{:>12.3}ms {}", n as f64 / 1e6, a));
        }
    }

    pub fn shape(&mut self, kind: u64, who: u64) {
        self.shape.u64(kind << 32 | who);
    }

    pub fn count(&mut self, kind: &str) {
        *self.fault_counts.entry(kind.to_string()).or_default() += 1;
    }

    pub fn fault(&mut self, conn: usize, kind: &str) {
        self.count(kind);
        self.t(format_args!("FAULT {kind} on connection {conn}\n"));
        self.faults.push(FaultRec { t: self.now, conn, kind: kind.to_string() });
    }

    pub fn at(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        self.ev_id += 1;
        let id = self.ev_id;
        self.heap.push(Reverse((t.max(self.now), self.seq, id)));
        self.evs.insert(id, ev);
    }

    fn next_time(&self) -> Option<u64> {
        self.heap.peek().map(|Reverse((t, _, _))| *t)
    }

    pub fn in_crash(&self, t: u64) -> Option<u64> {
        if self.faults_off {
            return None;
        }
        let r = t.saturating_sub(T0) / MS;
        self.net.crashes.iter().find(|(a, b)| r >= *a && r < *b).map(|(_, b)| T0 + b * MS)
    }

    /// The arrival time of a segment sent now, given the direction's last arrival.
    fn transit(&mut self, last: u64, conn: usize) -> u64 {
        let mut d = self.net.lat_us * US;
        if self.net.jitter_us > 0 {
            d += self.rng.below(self.net.jitter_us * US + 1);
        }
        if !self.faults_off {
            if self.net.loss > 0 {
                let mut rto = self.net.rto_ms * MS;
                let mut n = 0;
                while n < 4 && self.rng.permille(self.net.loss) {
                    d += rto;
                    rto *= 2;
                    n += 1;
                    self.fault(conn, "segment_lost_retransmitted");
                }
            }
            let r = (self.now - T0) / MS;
            let parts = self.net.partitions.clone();
            for (a, b) in parts {
                if r >= a && r < b {
                    let heal = T0 + b * MS + self.rng.below(self.net.rto_ms * MS + 1);
                    if heal > self.now + d {
                        d = heal - self.now;
                        self.fault(conn, "partition_delay");
                    }
                }
            }
        }
        (self.now + d).max(last)
    }

    // ---------------------------------------------------------------- events

    pub fn run_due(&mut self) {
        while let Some(t) = self.next_time() {
            if t > self.now {
                break;
            }
            let Reverse((_, _, id)) = self.heap.pop().unwrap();
            let ev = self.evs.remove(&id).unwrap();
            self.handle(ev);
        }
    }

    /// After the client is gone: lets everything still under way arrive.
    pub fn drain(&mut self) {
        let until = self.now + 200_000 * MS;
        let mut n = 0;
        while let Some(t) = self.next_time() {
            n += 1;
            if t > until || n > 100_000 {
                break;
            }
            self.now = self.now.max(t);
            self.run_due();
        }
    }

    fn handle(&mut self, ev: Ev) {
        match ev {
            Ev::Nop => {}
            Ev::ConnectDone { c, err } => {
                if self.conns[c].fd.is_none() {
                    return;
                }
                self.shape(1, c as u64);
                if err == 0 {
                    self.conns[c].state = CState::Open;
                    self.t(format_args!("connection {c} established\n"));
                } else {
                    self.conns[c].state = CState::Failed;
                    self.conns[c].so_error = err;
                    let k = match err {
                        libc::ECONNREFUSED => "connect_refused",
                        libc::ETIMEDOUT => "connect_timed_out",
                        _ => "connect_error",
                    };
                    self.fault(c, k);
                }
                self.edge_conn(c);
                if err == 0 {
                    crate::server::accepted(self, c);
                }
            }
            Ev::Emit { c, seg, mark } => {
                if self.conns[c].srv.dead || (self.conns[c].srv.half && !matches!(seg, Seg::Rst)) {
                    return;
                }
                let mut mark = mark;
                if let Mark::Idle(gen) = mark {
                    if !self.conns[c].srv.idle_now(gen) {
                        return;
                    }
                    mark = Mark::Close;
                }
                match &seg {
                    Seg::Data(d) => self.conns[c].emitted += d.len() as u64,
                    // A plain FIN (end of a tunnel's script) only ends the server's sending.
                    Seg::Fin if mark == Mark::Plain => self.conns[c].srv.half = true,
                    Seg::Fin => self.conns[c].srv.closed = true,
                    Seg::Rst => {
                        self.conns[c].srv.closed = true;
                        self.conns[c].srv.dead = true;
                    }
                }
                let last = self.conns[c].last_to_client;
                let at = self.transit(last, c);
                self.conns[c].last_to_client = at;
                if let Mark::End(r) = mark {
                    crate::server::response_sent(self, c, r);
                }
                if let (Mark::Tunnel(r), Seg::Data(d)) = (&mark, &seg) {
                    self.server.reqs[*r].resp.as_mut().unwrap().tunnel_out.extend_from_slice(d);
                }
                self.at(at, Ev::ToClient { c, seg, mark });
            }
            Ev::ToClient { c, seg, mark } => self.deliver(c, seg, mark),
            Ev::ToServer { c, seg } => crate::server::arrive(self, c, seg),
            Ev::ServerRead { c } => crate::server::read_step(self, c),
            Ev::Crash | Ev::ClockJump(_) if self.faults_off => {}
            Ev::Crash => {
                self.fault(usize::MAX, "server_crash");
                for c in 0..self.conns.len() {
                    if self.conns[c].state == CState::Open && !self.conns[c].srv.dead {
                        let last = self.conns[c].last_to_client;
                        let at = self.transit(last, c);
                        self.conns[c].srv.dead = true;
                        self.conns[c].srv.closed = true;
                        // Half of the time the peer's reset is never seen until the client sends.
                        if self.rng.pct(60) {
                            self.at(at, Ev::ToClient { c, seg: Seg::Rst, mark: Mark::Fault("crash_reset") });
                        } else {
                            self.conns[c].srv.rst_on_data = true;
                        }
                    }
                }
            }
            Ev::ClockJump(by) => {
                self.wall_off += by;
                self.fault(usize::MAX, "wall_clock_jump");
            }
        }
    }

    fn deliver(&mut self, c: usize, seg: Seg, mark: Mark) {
        if self.conns[c].fd.is_none() || self.conns[c].rst_in {
            return;
        }
        if !self.conns[c].backlog.is_empty() && !matches!(seg, Seg::Rst) {
            self.conns[c].backlog.push_back((seg, mark));
            return;
        }
        self.shape(2, c as u64);
        match seg {
            Seg::Data(d) => {
                let lim = self.net.rcvbuf;
                let co = &mut self.conns[c];
                let room = lim.saturating_sub(co.rcv.len());
                if room < d.len() {
                    let (a, b) = d.split_at(room);
                    co.rcv.extend(a);
                    co.arrived += room as u64;
                    co.backlog.push_back((Seg::Data(b.to_vec()), mark));
                } else {
                    co.rcv.extend(&d);
                    co.arrived += d.len() as u64;
                }
                let a = co.arrived;
                let now = self.now;
                co.arrive_log.push((now, a));
                self.t(format_args!("connection {c}: {} bytes arrive at the client\n", d.len()));
            }
            Seg::Fin => {
                self.conns[c].fin_in = true;
                if let Mark::Fault(k) = mark {
                    self.fault(c, k);
                } else {
                    self.faults.push(FaultRec { t: self.now, conn: c, kind: "close".into() });
                    self.t(format_args!("connection {c}: FIN arrives at the client\n"));
                }
            }
            Seg::Rst => {
                let disc = self.net.rst_discards;
                let co = &mut self.conns[c];
                co.rst_in = true;
                co.so_error = libc::ECONNRESET;
                co.backlog.clear();
                if disc {
                    co.rcv.clear();
                }
                let k = if let Mark::Fault(k) = mark { k } else { "reset" };
                self.fault(c, k);
            }
        }
        self.edge_conn(c);
    }

    fn drain_backlog(&mut self, c: usize) {
        let mut rest = std::mem::take(&mut self.conns[c].backlog);
        while let Some((seg, mark)) = rest.pop_front() {
            self.deliver(c, seg, mark);
            // deliver() may have pushed back a remainder.
            if !self.conns[c].backlog.is_empty() {
                self.conns[c].backlog.extend(rest);
                return;
            }
        }
    }

    /// Frees room in the client's send buffer.
    pub fn ack(&mut self, c: usize, n: usize) {
        let co = &mut self.conns[c];
        co.unacked = co.unacked.saturating_sub(n);
        if co.wr_blocked {
            co.wr_blocked = false;
            self.edge_conn(c);
        }
    }

    pub fn send_to_client(&mut self, c: usize, seg: Seg, mark: Mark) {
        let last = self.conns[c].last_to_client;
        let at = self.transit(last, c);
        self.conns[c].last_to_client = at;
        self.at(at, Ev::ToClient { c, seg, mark });
    }

    // ----------------------------------------------------------------- epoll

    fn mask(&self, fd: i32) -> u32 {
        match self.fds.get(&fd) {
            Some(Fd::Event { count }) => {
                if *count > 0 {
                    EPOLLIN | EPOLLOUT
                } else {
                    EPOLLOUT
                }
            }
            Some(Fd::Tcp(s)) => {
                let Some(c) = s.conn else { return EPOLLOUT | EPOLLHUP };
                let co = &self.conns[c];
                match co.state {
                    CState::Connecting => 0,
                    CState::Failed => EPOLLIN | EPOLLOUT | EPOLLERR | EPOLLHUP | EPOLLRDHUP,
                    CState::Open => {
                        let mut m = 0;
                        if !co.rcv.is_empty() || co.fin_in || co.rst_in {
                            m |= EPOLLIN;
                        }
                        if co.unacked < self.net.sndbuf || co.rst_in {
                            m |= EPOLLOUT;
                        }
                        if co.fin_in {
                            m |= EPOLLRDHUP;
                            if co.fin_out {
                                m |= EPOLLHUP;
                            }
                        }
                        if co.rst_in {
                            m |= EPOLLRDHUP | EPOLLHUP;
                            if co.so_error != 0 {
                                m |= EPOLLERR;
                            }
                        }
                        m
                    }
                }
            }
            _ => 0,
        }
    }

    fn edge_conn(&mut self, c: usize) {
        if let Some(fd) = self.conns[c].fd {
            self.edge(fd);
        }
    }

    fn edge(&mut self, fd: i32) {
        for f in self.fds.values_mut() {
            if let Fd::Epoll { interest, edges } = f {
                if interest.contains_key(&fd) {
                    edges.insert(fd);
                }
            }
        }
    }

    fn alloc(&mut self, f: Fd) -> i32 {
        let fd = self.next_fd;
        self.next_fd += 1;
        self.fds.insert(fd, f);
        fd
    }

    pub fn sys_epoll_create(&mut self) -> i32 {
        self.alloc(Fd::Epoll { interest: BTreeMap::new(), edges: BTreeSet::new() })
    }

    pub fn sys_eventfd(&mut self, init: u32) -> i32 {
        self.alloc(Fd::Event { count: init as u64 })
    }

    pub fn sys_dup(&mut self, fd: i32) -> i32 {
        if !self.fds.contains_key(&fd) {
            return -libc::EBADF;
        }
        self.alloc(Fd::Alias(fd))
    }

    fn resolve(&self, fd: i32) -> i32 {
        match self.fds.get(&fd) {
            Some(Fd::Alias(f)) => *f,
            _ => fd,
        }
    }

    pub fn sys_epoll_ctl(&mut self, ep: i32, op: i32, fd: i32, ev: u32, data: u64) -> i32 {
        let ep = self.resolve(ep);
        let ready = self.mask(fd) & (ev | EPOLLERR | EPOLLHUP) != 0;
        let known = self.fds.contains_key(&fd);
        let Some(Fd::Epoll { interest, edges }) = self.fds.get_mut(&ep) else { return -libc::EBADF };
        match op {
            libc::EPOLL_CTL_ADD | libc::EPOLL_CTL_MOD => {
                if !known {
                    return -libc::EBADF;
                }
                interest.insert(fd, (ev, data));
                if ready {
                    edges.insert(fd);
                }
                0
            }
            libc::EPOLL_CTL_DEL => {
                edges.remove(&fd);
                if interest.remove(&fd).is_some() {
                    0
                } else {
                    -libc::ENOENT
                }
            }
            _ => -libc::EINVAL,
        }
    }

    fn ready_list(&mut self, ep: i32, max: usize) -> Vec<(u32, u64)> {
        let cand: Vec<i32> = match self.fds.get(&ep) {
            Some(Fd::Epoll { edges, .. }) => edges.iter().copied().collect(),
            _ => return vec![],
        };
        let mut out = vec![];
        let mut order: Vec<(i32, u32, u64)> = vec![];
        let mut drop = vec![];
        for fd in cand {
            let m = self.mask(fd);
            let Some(Fd::Epoll { interest, .. }) = self.fds.get(&ep) else { unreachable!() };
            let Some((want, data)) = interest.get(&fd).copied() else {
                drop.push(fd);
                continue;
            };
            let r = m & (want | EPOLLERR | EPOLLHUP);
            if r == 0 {
                drop.push(fd);
            } else {
                order.push((fd, r, data));
            }
        }
        // The kernel's order of ready descriptors is one of the schedule's choices.
        for i in (1..order.len()).rev() {
            let j = self.rng.below(i as u64 + 1) as usize;
            order.swap(i, j);
        }
        let mut lim = max;
        if self.net.batch > 0 && order.len() > 1 {
            lim = lim.min(self.net.batch);
            if order.len() > lim {
                self.count("epoll_batch_limited");
            }
        }
        for (fd, r, data) in order.into_iter().take(lim) {
            drop.push(fd);
            out.push((r, data));
            self.shape(3, fd as u64);
        }
        if let Some(Fd::Epoll { edges, .. }) = self.fds.get_mut(&ep) {
            for fd in drop {
                edges.remove(&fd);
            }
        }
        out
    }

    pub fn sys_epoll_wait(&mut self, ep: i32, max: usize, timeout: i32) -> Vec<(u32, u64)> {
        let ep = self.resolve(ep);
        self.steps += 1;
        if self.steps > 3_000_000 {
            self.stuck = Some("more than 3000000 scheduler steps: no progress".into());
            crate::bail();
        }
        if self.net.pause > 0 && !self.faults_off && self.rng.permille(self.net.pause) {
            let d = self.rng.range(1, self.net.pause_ms.max(1)) * MS;
            self.pauses.push((self.now, d));
            self.fault(usize::MAX, "process_stalled");
            self.now += d;
        }
        self.run_due();
        let r = self.ready_list(ep, max);
        if !r.is_empty() || timeout == 0 {
            return r;
        }
        let deadline = if timeout < 0 { u64::MAX } else { self.now + timeout as u64 * MS };
        loop {
            match self.next_time() {
                Some(t) if t <= deadline => {
                    self.now = self.now.max(t);
                    self.run_due();
                    let r = self.ready_list(ep, max);
                    if !r.is_empty() {
                        return r;
                    }
                }
                _ => {
                    if deadline == u64::MAX {
                        self.stuck = Some("nothing left to happen, yet calls are unfinished".into());
                        crate::bail();
                    }
                    self.now = deadline;
                    return vec![];
                }
            }
        }
    }

    // --------------------------------------------------------------- sockets

    pub fn sys_socket(&mut self, domain: i32, ty: i32) -> i32 {
        if let Some(ConnPlan::Emfile) = self.conn_plan.get(self.attempts) {
            self.attempts += 1;
            if !self.faults_off {
                self.fault(usize::MAX, "socket_emfile");
                return -libc::EMFILE;
            }
        }
        self.alloc(Fd::Tcp(Sock {
            nonblock: ty & libc::SOCK_NONBLOCK != 0,
            v6: domain == libc::AF_INET6,
            conn: None,
        }))
    }

    pub fn sys_connect(&mut self, fd: i32) -> i32 {
        match self.fds.get(&fd) {
            Some(Fd::Tcp(s)) => {
                if s.conn.is_some() {
                    return -libc::EISCONN;
                }
            }
            _ => return -libc::EBADF,
        }
        let plan = if self.faults_off {
            ConnPlan::Ok
        } else {
            self.conn_plan.get(self.attempts).cloned().unwrap_or_default()
        };
        let n = self.attempts;
        self.attempts += 1;
        if plan == ConnPlan::Unreachable {
            self.fault(usize::MAX, "connect_unreachable");
            return -libc::ENETUNREACH;
        }
        let c = self.conns.len();
        let srv = SrvConn::new(&plan);
        self.conns.push(Conn {
            fd: Some(fd),
            state: CState::Connecting,
            t_connect: self.now,
            so_error: 0,
            err_taken: false,
            rcv: VecDeque::new(),
            backlog: VecDeque::new(),
            fin_in: false,
            rst_in: false,
            last_to_client: 0,
            emitted: 0,
            planned: 0,
            arrived: 0,
            consumed: 0,
            eof_read_at: None,
            err_read_at: None,
            rx_log: vec![],
            arrive_log: vec![],
            unacked: 0,
            sent: 0,
            last_to_server: 0,
            fin_out: false,
            srv,
            wr_blocked: false,
        });
        if let Some(Fd::Tcp(s)) = self.fds.get_mut(&fd) {
            s.conn = Some(c);
        }
        self.t(format_args!("connection {c}: connect (attempt {n}, plan {plan:?})\n"));
        let rtt = self.transit(0, c) - self.now;
        let t = self.now + rtt;
        match plan {
            ConnPlan::Refused => self.at(t, Ev::ConnectDone { c, err: libc::ECONNREFUSED }),
            ConnPlan::TimedOut(ms) => self.at(self.now + ms * MS, Ev::ConnectDone { c, err: libc::ETIMEDOUT }),
            ConnPlan::Blackhole => self.fault(c, "connect_blackhole"),
            ConnPlan::Delay(ms) => {
                self.fault(c, "connect_delay");
                self.at(t + ms * MS, Ev::ConnectDone { c, err: 0 })
            }
            _ => {
                if self.in_crash(t).is_some() {
                    self.at(t, Ev::ConnectDone { c, err: libc::ECONNREFUSED })
                } else {
                    self.at(t, Ev::ConnectDone { c, err: 0 })
                }
            }
        }
        -libc::EINPROGRESS
    }

    pub fn conn_of(&self, fd: i32) -> Option<usize> {
        match self.fds.get(&fd) {
            Some(Fd::Tcp(s)) => s.conn,
            _ => None,
        }
    }

    pub fn sys_so_error(&mut self, fd: i32) -> i32 {
        if let Some(c) = self.conn_of(fd) {
            let e = self.conns[c].so_error;
            self.conns[c].so_error = 0;
            if e != 0 {
                self.conns[c].err_taken = true;
                if self.conns[c].err_read_at.is_none() {
                    self.conns[c].err_read_at = Some(self.now);
                }
            }
            e
        } else {
            0
        }
    }

    /// How many bytes may be received, or an error (negated errno). The bytes are
    /// taken by the caller through `take`.
    pub fn sys_recv(&mut self, fd: i32, want: usize) -> Result<Vec<u8>, i32> {
        let Some(c) = self.conn_of(fd) else { return Err(libc::ENOTCONN) };
        self.syscalls += 1;
        if self.conns[c].state == CState::Connecting {
            return Err(libc::EAGAIN);
        }
        if !self.conns[c].rcv.is_empty() && want > 0 {
            if self.net.eagain > 0 && self.rng.permille(self.net.eagain) {
                self.count("spurious_eagain");
                self.edge(fd);
                return Err(libc::EAGAIN);
            }
            let mut n = want.min(self.conns[c].rcv.len());
            if n > 1 && self.net.short_read > 0 && self.rng.permille(self.net.short_read) {
                let cap = if self.rng.pct(50) { 16 } else { 1 << 20 };
            n = self.rng.range(1, (n as u64 - 1).min(cap)) as usize;
            self.count("short_read");
            }
            let co = &mut self.conns[c];
            let v: Vec<u8> = co.rcv.drain(..n).collect();
            co.consumed += n as u64;
            let (now, total) = (self.now, co.consumed);
            co.rx_log.push((now, total));
            let left = !co.rcv.is_empty();
            self.t(format_args!("connection {c}: client receives {n} bytes\n"));
            if !self.conns[c].backlog.is_empty() {
                self.drain_backlog(c);
            }
            if left && n < want {
                // The rest is presented as a separate arrival.
                self.edge(fd);
            }
            return Ok(v);
        }
        let now = self.now;
        let co = &mut self.conns[c];
        if co.so_error != 0 {
            let e = co.so_error;
            co.so_error = 0;
            co.err_taken = true;
            if co.err_read_at.is_none() {
                co.err_read_at = Some(now);
            }
            return Err(e);
        }
        if co.fin_in || co.rst_in || co.state == CState::Failed {
            if co.eof_read_at.is_none() {
                co.eof_read_at = Some(now);
                self.t(format_args!("connection {c}: client reads end of stream\n"));
            }
            return Ok(vec![]);
        }
        Err(libc::EAGAIN)
    }

    pub fn sys_send(&mut self, fd: i32, bufs: &[&[u8]]) -> Result<usize, i32> {
        let Some(c) = self.conn_of(fd) else { return Err(libc::ENOTCONN) };
        self.syscalls += 1;
        let total: usize = bufs.iter().map(|b| b.len()).sum();
        let now = self.now;
        {
            let co = &mut self.conns[c];
            if co.state == CState::Connecting {
                return Err(libc::EAGAIN);
            }
            if co.so_error != 0 {
                let e = co.so_error;
                co.so_error = 0;
                co.err_taken = true;
                if co.err_read_at.is_none() {
                    co.err_read_at = Some(now);
                }
                return Err(e);
            }
            if co.rst_in || co.fin_out || co.state == CState::Failed {
                return Err(libc::EPIPE);
            }
        }
        if total == 0 {
            return Ok(0);
        }
        if self.net.eagain > 0 && self.rng.permille(self.net.eagain) {
            self.count("spurious_eagain");
            self.edge(fd);
            return Err(libc::EAGAIN);
        }
        let room = self.net.sndbuf.saturating_sub(self.conns[c].unacked);
        if room == 0 {
            self.conns[c].wr_blocked = true;
            self.count("send_buffer_full");
            return Err(libc::EAGAIN);
        }
        let mut n = total.min(room);
        if n < total {
            self.conns[c].wr_blocked = true;
            self.count("send_buffer_full");
        }
        if n > 1 && self.net.short_write > 0 && self.rng.permille(self.net.short_write) {
            let cap = if self.rng.pct(50) { 16 } else { 1 << 20 };
            n = self.rng.range(1, (n as u64 - 1).min(cap)) as usize;
            self.count("short_write");
            self.edge(fd);
        }
        let mut data = Vec::with_capacity(n);
        for b in bufs {
            let k = b.len().min(n - data.len());
            data.extend_from_slice(&b[..k]);
            if data.len() == n {
                break;
            }
        }
        let last = self.conns[c].last_to_server;
        let at = self.transit(last, c);
        let co = &mut self.conns[c];
        co.last_to_server = at;
        co.unacked += n;
        co.sent += n as u64;
        self.t(format_args!("connection {c}: client sends {n} of {total} bytes\n"));
        self.shape(4, c as u64);
        self.at(at, Ev::ToServer { c, seg: Seg::Data(data) });
        Ok(n)
    }

    pub fn sys_shutdown(&mut self, fd: i32, how: i32) -> i32 {
        let Some(c) = self.conn_of(fd) else { return -libc::ENOTCONN };
        if how != libc::SHUT_RD && !self.conns[c].fin_out {
            self.conns[c].fin_out = true;
            let last = self.conns[c].last_to_server;
            let at = self.transit(last, c);
            self.conns[c].last_to_server = at;
            self.t(format_args!("connection {c}: client shuts down its sending side\n"));
            self.at(at, Ev::ToServer { c, seg: Seg::Fin });
        }
        0
    }

    pub fn sys_close(&mut self, fd: i32) -> i32 {
        for f in self.fds.values_mut() {
            if let Fd::Epoll { interest, edges } = f {
                interest.remove(&fd);
                edges.remove(&fd);
            }
        }
        match self.fds.remove(&fd) {
            None => return -libc::EBADF,
            Some(Fd::Tcp(Sock { conn: Some(c), .. })) => {
                let unread = !self.conns[c].rcv.is_empty();
                self.conns[c].fd = None;
                self.t(format_args!("connection {c}: client closes it\n"));
                self.shape(5, c as u64);
                if self.conns[c].state == CState::Open && !self.conns[c].rst_in {
                    let last = self.conns[c].last_to_server;
                    let at = self.transit(last, c);
                    self.conns[c].last_to_server = at;
                    let seg = if unread { Seg::Rst } else { Seg::Fin };
                    if unread || !self.conns[c].fin_out {
                        self.at(at, Ev::ToServer { c, seg });
                    }
                }
            }
            _ => {}
        }
        0
    }

    pub fn sys_event_write(&mut self, fd: i32, v: u64) {
        if let Some(Fd::Event { count }) = self.fds.get_mut(&fd) {
            *count += v;
        }
        self.edge(fd);
    }

    pub fn sys_event_read(&mut self, fd: i32) -> Option<u64> {
        if let Some(Fd::Event { count }) = self.fds.get_mut(&fd) {
            if *count > 0 {
                let v = *count;
                *count = 0;
                return Some(v);
            }
        }
        None
    }
}

impl World {
    /// Stops all faults; returns how long (ns) their after-effects still travel.
    pub fn heal(&mut self) -> u64 {
        self.faults_off = true;
        let mut far = self.now;
        for c in 0..self.conns.len() {
            if self.conns[c].state == CState::Open && self.conns[c].fd.is_some() && !self.conns[c].rst_in {
                let s = &self.conns[c].srv;
                if s.dead || s.rst_on_data || s.stops_reading() || s.idle_open() {
                    self.conns[c].srv.dead = true;
                    self.conns[c].srv.closed = true;
                    self.send_to_client(c, Seg::Rst, Mark::Close);
                }
            }
            if self.conns[c].fd.is_some() {
                far = far.max(self.conns[c].last_to_client).max(self.conns[c].last_to_server);
            }
        }
        far - self.now + MS
    }
}
