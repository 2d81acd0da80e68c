//! The explicit description of one simulated run: everything the run does
//! follows from this structure (and nothing else).
use serde::{Deserialize, Serialize};

use crate::rng::Rng;

/// Byte content that stays readable in a replay file.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Blob {
    Text(String),
    /// One char per byte (latin-1).
    Raw(String),
    /// `len` pseudo-random bytes from `seed`.
    Gen { seed: u64, len: usize },
    /// The same byte over and over.
    Fill { byte: u8, len: usize },
    /// `head`, then `len` times the character `fill`, then `tail`.
    Pad { head: String, fill: char, len: usize, tail: String },
}

impl Default for Blob {
    fn default() -> Self {
        Blob::Text(String::new())
    }
}

impl Blob {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Blob::Text(s) => s.as_bytes().to_vec(),
            Blob::Raw(s) => s.chars().map(|c| c as u32 as u8).collect(),
            Blob::Gen { seed, len } => {
                let mut r = Rng::new(*seed);
                let mut v = Vec::with_capacity(*len + 8);
                while v.len() < *len {
                    v.extend_from_slice(&r.next().to_le_bytes());
                }
                v.truncate(*len);
                v
            }
            Blob::Fill { byte, len } => vec![*byte; *len],
            Blob::Pad { head, fill, len, tail } => {
                let mut s = String::with_capacity(head.len() + len + tail.len());
                s.push_str(head);
                for _ in 0..*len {
                    s.push(*fill);
                }
                s.push_str(tail);
                s.into_bytes()
            }
        }
    }
    pub fn raw(b: &[u8]) -> Blob {
        Blob::Raw(b.iter().map(|&c| c as char).collect())
    }
}

fn is_default<T: Default + PartialEq>(v: &T) -> bool {
    *v == T::default()
}

/// Knobs of the simulated network and kernel.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Net {
    pub lat_us: u64,
    pub jitter_us: u64,
    /// Bytes the client may have sent that the server has not yet consumed.
    pub sndbuf: usize,
    pub rcvbuf: usize,
    pub short_read: u64,  // permille
    pub short_write: u64, // permille
    pub eagain: u64,      // permille
    /// At most this many epoll events per wait (0: no limit).
    pub batch: usize,
    pub rst_discards: bool,
    pub pause: u64, // permille of epoll waits that stall the process
    pub pause_ms: u64,
    pub loss: u64, // permille of segments lost once or more
    pub rto_ms: u64,
    /// Partition windows in ms (all segments in the window wait for its end).
    pub partitions: Vec<(u64, u64)>,
    /// Windows in ms in which the server is down (connections reset, new ones refused).
    pub crashes: Vec<(u64, u64)>,
    /// Wall-clock jumps: (at ms, by signed seconds).
    pub clock_jumps: Vec<(u64, i64)>,
    /// Tokio scheduler knobs.
    pub event_interval: u32,
    pub global_interval: u32,
    /// permille chance that a polled-ready task is left for later.
    pub defer: u64,
}

impl Default for Net {
    fn default() -> Self {
        Net {
            lat_us: 200,
            jitter_us: 0,
            sndbuf: 1 << 20,
            rcvbuf: 1 << 20,
            short_read: 0,
            short_write: 0,
            eagain: 0,
            batch: 0,
            rst_discards: false,
            pause: 0,
            pause_ms: 0,
            loss: 0,
            rto_ms: 200,
            partitions: vec![],
            crashes: vec![],
            clock_jumps: vec![],
            event_interval: 61,
            global_interval: 31,
            defer: 0,
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
pub enum ConnPlan {
    #[default]
    Ok,
    Delay(u64), // ms
    Refused,
    Unreachable, // immediate ENETUNREACH from connect()
    TimedOut(u64), // ETIMEDOUT after ms
    Blackhole,
    Emfile, // socket() fails
    /// Accepts, then closes with FIN after ms without reading.
    AcceptClose(u64),
    /// Accepts, then resets after ms without reading.
    AcceptReset(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
pub enum When {
    #[default]
    AfterBody,
    AfterHead,
    /// After this many body bytes arrived (or the whole body).
    AfterBytes(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
pub enum Framing {
    #[default]
    Len,
    /// Chunk sizes are used cyclically.
    Chunked { sizes: Vec<usize>, ext: bool, trailers: Vec<(String, String)> },
    /// Delimited by the end of the connection.
    Close,
    /// No framing header and no body bytes (HEAD, 204, 304, 101).
    None,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum CutKind {
    Fin,
    Rst,
    Stall,
    /// Bytes that are not valid at this point, then FIN.
    Garbage(Blob),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(rename_all = "snake_case")]
pub enum After {
    #[default]
    KeepAlive,
    /// `connection: close` is announced and FIN follows.
    Close(u64),
    /// Not announced: FIN after us of idling.
    IdleFin(u64),
    IdleRst(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Tunnel {
    /// Server bytes sent right behind the 101 head (same segments).
    #[serde(skip_serializing_if = "is_default")]
    pub early: Blob,
    /// Further server messages: (delay us, bytes).
    #[serde(skip_serializing_if = "is_default")]
    pub msgs: Vec<(u64, Blob)>,
    /// Echo whatever arrives.
    #[serde(skip_serializing_if = "is_default")]
    pub echo: bool,
    /// What the server does once it sent all its messages: FIN, RST or nothing;
    /// (delay us, kind).
    #[serde(skip_serializing_if = "is_default")]
    pub end: Option<(u64, CutKind)>,
    /// Reset the tunnel once this many client bytes arrived.
    #[serde(skip_serializing_if = "is_default")]
    pub rst_after_in: Option<usize>,
}

/// What the server does with one request.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Exch {
    #[serde(skip_serializing_if = "is_default")]
    pub when: When,
    #[serde(skip_serializing_if = "is_default")]
    pub delay_us: u64,
    #[serde(skip_serializing_if = "is_default")]
    pub interim: Vec<u16>,
    pub status: u16,
    #[serde(skip_serializing_if = "is_default")]
    pub http10: bool,
    #[serde(skip_serializing_if = "is_default")]
    pub reason: String,
    /// Values are latin-1.
    #[serde(skip_serializing_if = "is_default")]
    pub headers: Vec<(String, String)>,
    #[serde(skip_serializing_if = "is_default")]
    pub body: Blob,
    #[serde(skip_serializing_if = "is_default")]
    pub framing: Framing,
    /// How the response bytes are cut into segments: (bytes, gap before it in us), cyclic.
    #[serde(skip_serializing_if = "is_default")]
    pub cuts: Vec<(usize, u64)>,
    /// At this offset of the response bytes, the fault happens.
    #[serde(skip_serializing_if = "is_default")]
    pub fault: Option<(usize, CutKind)>,
    #[serde(skip_serializing_if = "is_default")]
    pub after: After,
    /// Replaces the head by these bytes.
    #[serde(skip_serializing_if = "is_default")]
    pub bad_head: Option<String>,
    /// The server stops reading the request after this many bytes.
    #[serde(skip_serializing_if = "is_default")]
    pub read_stop: Option<usize>,
    /// The server resets after reading this many bytes of the request.
    #[serde(skip_serializing_if = "is_default")]
    pub read_rst: Option<usize>,
    /// Never answers.
    #[serde(skip_serializing_if = "is_default")]
    pub silent: bool,
    #[serde(skip_serializing_if = "is_default")]
    pub tunnel: Option<Tunnel>,
}

impl Default for Exch {
    fn default() -> Self {
        Exch {
            when: When::AfterBody,
            delay_us: 0,
            interim: vec![],
            status: 200,
            http10: false,
            reason: String::new(),
            headers: vec![],
            body: Blob::default(),
            framing: Framing::Len,
            cuts: vec![],
            fault: None,
            after: After::KeepAlive,
            bad_head: None,
            read_stop: None,
            read_rst: None,
            silent: false,
            tunnel: None,
        }
    }
}

/// How the server drains requests on connection (bytes per step, us between).
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct ReadRate {
    pub bytes: usize,
    pub every_us: u64,
}

/// When a call is abandoned.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Cancel {
    /// After so many us.
    After(u64),
    /// After so many polls of the call.
    Polls(u32),
    /// A stream: dropped after so many items.
    Items(usize),
}

/// How a stream (raw or paginated) is consumed.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Consume {
    /// Pause before each item (us); cyclic.
    #[serde(skip_serializing_if = "is_default")]
    pub gaps_us: Vec<u64>,
    /// Hold the response this long before touching its stream.
    #[serde(skip_serializing_if = "is_default")]
    pub hold_us: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub id: u32,
    /// Which operation, in which generated client.
    pub call: String,
    #[serde(default, skip_serializing_if = "is_default")]
    pub args: serde_json::Value,
    /// The server's behaviour for the n-th request of this op (the last one repeats).
    #[serde(default, skip_serializing_if = "is_default")]
    pub exch: Vec<Exch>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub cancel: Option<Cancel>,
    #[serde(default, skip_serializing_if = "is_default")]
    pub consume: Consume,
    #[serde(default, skip_serializing_if = "is_default")]
    pub before_ms: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Task {
    #[serde(default)]
    pub start_ms: u64,
    pub ops: Vec<Op>,
}

/// How the caller configured the HTTP client it handed over.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct OwnClient {
    pub timeout_ms: u64,
    /// Keep no idle connections.
    pub no_pool: bool,
    /// Do not follow redirections.
    pub no_redirect: bool,
    pub title_case: bool,
    pub headers: Vec<(String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    /// Appended to http://host, e.g. "" or "/api/v1" or "/".
    pub base_path: String,
    pub ipv6: bool,
    /// Clone the client per task rather than share one by reference.
    pub clone_client: bool,
    pub net: Net,
    pub conns: Vec<ConnPlan>,
    pub read_rate: ReadRate,
    pub tasks: Vec<Task>,
    /// After all tasks, with faults off, one more call that must succeed.
    pub recovery: bool,
    /// The HTTP client is the caller's, not the default one.
    #[serde(skip_serializing_if = "Option::is_none")]
    pub own_client: Option<OwnClient>,
    /// How the clients are packaged: build script (empty), macro, standalone.
    #[serde(default, skip_serializing_if = "String::is_empty")]
    pub pack: String,
}
