//! A preloaded library that puts a process's file system, clock and randomness under a
//! plan: every call on a file below the scratch root (and on standard output) is
//! recorded and may be made to fail, to transfer less, or to be the last one before a
//! crash. Calls that change anything outside the root are refused.
//!
//! The plan is a text file named by SIM_PLAN, one directive per line:
//!   root DIR            the scratch root (absolute)
//!   log FILE            where the record goes
//!   seed N              of the random choices below, of getrandom and of the clock
//!   short PCT           that share of reads and writes transfers only part
//!   eintr PCT           that share of reads and writes is interrupted first
//!   fail CLASS N ERRNO  the N-th call (from 0) of the class fails; N* = from then on
//!   crash N HOW         the process ends at its N-th recorded call: before, after, torn
//!   cap BYTES           the disk holds that many more bytes
//! Classes: mkdir openw openr write read close sync rename unlink trunc stat stdout
//! Record: one line per call: `index class path requested result note`; successful
//! and interrupted reads and writes to standard output are only counted.
#![allow(clippy::missing_safety_doc, invalid_runtime_symbol_definitions)]
use libc::*;
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

const MAXFD: usize = 1024;

struct Fail {
    class: String,
    nth: u64,
    all_later: bool,
    errno: i32,
}

struct Seam {
    root: Vec<u8>,
    log: i32,
    rng: u64,
    clock: i64,
    short: u64,
    eintr: u64,
    fails: Vec<Fail>,
    crash: Option<(u64, u8)>,
    cap: Option<i64>,
    calls: u64,
    per_class: Vec<(&'static str, u64)>,
    /// Reads: whole, short, interrupted (they are not recorded one by one).
    reads: [u64; 3],
    /// Path of each open descriptor below the root (or standard output).
    fds: Vec<Option<Vec<u8>>>,
}

struct Holder(UnsafeCell<Option<Seam>>);
unsafe impl Sync for Holder {}
static SEAM: Holder = Holder(UnsafeCell::new(None));
/// 0 not started, 1 starting, 2 active, 3 no plan
static STATE: AtomicU32 = AtomicU32::new(0);
static LOCK: AtomicU32 = AtomicU32::new(0);

fn raw_read(path: *const c_char) -> Option<Vec<u8>> {
    unsafe {
        let fd = syscall(SYS_openat, AT_FDCWD, path, O_RDONLY, 0) as i32;
        if fd < 0 {
            return None;
        }
        let mut v = vec![];
        let mut b = [0u8; 4096];
        loop {
            let n = syscall(SYS_read, fd, b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            v.extend_from_slice(&b[..n as usize]);
        }
        syscall(SYS_close, fd);
        Some(v)
    }
}

unsafe fn start() -> Option<Seam> {
    let plan = getenv(c"SIM_PLAN".as_ptr());
    if plan.is_null() {
        return None;
    }
    let text = String::from_utf8(raw_read(plan)?).ok()?;
    let mut s = Seam {
        root: vec![],
        log: -1,
        rng: 1,
        clock: 0,
        short: 0,
        eintr: 0,
        fails: vec![],
        crash: None,
        cap: None,
        calls: 0,
        per_class: vec![],
        reads: [0; 3],
        fds: vec![None; MAXFD],
    };
    for l in text.lines() {
        let w: Vec<&str> = l.split(' ').collect();
        let n = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        match w[0] {
            "root" => s.root = w[1].as_bytes().to_vec(),
            "log" => {
                let mut p = w[1].as_bytes().to_vec();
                p.push(0);
                s.log = syscall(SYS_openat, AT_FDCWD, p.as_ptr(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0o600) as i32;
                // Out of the way of the descriptors the program sees.
                let up = syscall(SYS_fcntl, s.log, F_DUPFD_CLOEXEC, 900) as i32;
                syscall(SYS_close, s.log);
                s.log = up;
            }
            "seed" => {
                s.rng = n(1).wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x1234_5678;
                s.clock = (s.next() % 4_000_000_000) as i64;
            }
            "short" => s.short = n(1),
            "eintr" => s.eintr = n(1),
            "fail" => s.fails.push(Fail {
                class: w[1].into(),
                nth: w[2].trim_end_matches('*').parse().unwrap_or(0),
                all_later: w[2].ends_with('*'),
                errno: n(3) as i32,
            }),
            "crash" => s.crash = Some((n(1), w.get(2).map_or(b'b', |h| h.as_bytes()[0]))),
            "cap" => s.cap = Some(n(1) as i64),
            _ => {}
        }
    }
    s.fds[1] = Some(b"<stdout>".to_vec());
    Some(s)
}

/// Runs `f` on the seam, or returns `None` where no plan is in force.
fn with<R>(f: impl FnOnce(&mut Seam) -> R) -> Option<R> {
    match STATE.load(SeqCst) {
        3 | 1 => return None,
        0 => {
            STATE.store(1, SeqCst);
            unsafe {
                *SEAM.0.get() = start();
                STATE.store(if (*SEAM.0.get()).is_some() { 2 } else { 3 }, SeqCst);
            }
        }
        _ => {}
    }
    while LOCK.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let r = unsafe { (*SEAM.0.get()).as_mut().map(f) };
    LOCK.store(0, SeqCst);
    r
}

enum What {
    Go,
    Fail(i32),
    /// Transfer only that many bytes.
    Part(usize),
    /// Carry the call out and crash, writing that many bytes.
    Crash(Option<usize>),
}

impl Seam {
    fn next(&mut self) -> u64 {
        self.rng = self.rng.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }

    fn emit(&mut self, line: String) {
        if self.log >= 0 {
            unsafe { syscall(SYS_write, self.log, line.as_ptr(), line.len()) };
        }
    }

    fn record(&mut self, class: &str, path: &[u8], want: i64, got: i64, note: &str) {
        let l = format!("{} {class} {} {want} {got} {note}\n", self.calls, String::from_utf8_lossy(path).replace(' ', "\u{2423}"));
        self.calls += 1;
        self.emit(l);
    }

    fn decide(&mut self, class: &'static str, transfer: Option<usize>) -> What {
        let nth = match self.per_class.iter_mut().find(|c| c.0 == class) {
            Some(c) => {
                c.1 += 1;
                c.1 - 1
            }
            None => {
                self.per_class.push((class, 1));
                0
            }
        };
        if let Some((at, how)) = self.crash {
            if at == self.calls && class != "read" && class != "stdout" {
                match how {
                    b'b' => {
                        self.record(class, b"-", 0, 0, "crash-before");
                        unsafe { syscall(SYS_exit_group, 137) };
                    }
                    b't' => {
                        let n = transfer.map(|n| if n == 0 { 0 } else { (self.next() % (n as u64 + 1)) as usize });
                        return What::Crash(n);
                    }
                    _ => return What::Crash(transfer),
                }
            }
        }
        if let Some(f) = self.fails.iter().find(|f| f.class == class && (f.nth == nth || f.all_later && nth >= f.nth)) {
            return What::Fail(f.errno);
        }
        if let Some(n) = transfer {
            if class != "stdout" || n > 0 {
                if self.eintr > 0 && self.next() % 100 < self.eintr {
                    return What::Fail(EINTR);
                }
                if n > 1 && self.short > 0 && self.next() % 100 < self.short {
                    return What::Part(1 + (self.next() % (n as u64 - 1)) as usize);
                }
            }
        }
        What::Go
    }

    /// The absolute path a call means, lexically normalised.
    unsafe fn path(&self, dir: i32, p: *const c_char) -> Vec<u8> {
        let p = std::ffi::CStr::from_ptr(p).to_bytes();
        let mut full: Vec<u8> = if p.first() == Some(&b'/') {
            vec![]
        } else if dir == AT_FDCWD {
            let mut b = [0u8; 4096];
            let n = syscall(SYS_getcwd, b.as_mut_ptr(), b.len());
            b[..(n.max(1) - 1) as usize].to_vec()
        } else {
            let link = format!("/proc/self/fd/{dir}\0");
            let mut b = [0u8; 4096];
            let n = syscall(SYS_readlinkat, AT_FDCWD, link.as_ptr(), b.as_mut_ptr(), b.len());
            b[..n.max(0) as usize].to_vec()
        };
        full.push(b'/');
        full.extend_from_slice(p);
        let mut out: Vec<&[u8]> = vec![];
        for c in full.split(|b| *b == b'/') {
            match c {
                b"" | b"." => {}
                b".." => {
                    out.pop();
                }
                c => out.push(c),
            }
        }
        let mut v = vec![];
        for c in out {
            v.push(b'/');
            v.extend_from_slice(c);
        }
        v
    }

    fn inside(&self, p: &[u8]) -> bool {
        p.starts_with(&self.root) && !self.root.is_empty() && (p.len() == self.root.len() || p[self.root.len()] == b'/')
    }

    fn rel<'a>(&self, p: &'a [u8]) -> &'a [u8] {
        if self.inside(p) && p.len() > self.root.len() {
            &p[self.root.len() + 1..]
        } else {
            p
        }
    }

    fn of_fd(&self, fd: i32) -> Option<Vec<u8>> {
        self.fds.get(fd as usize).and_then(|p| p.clone())
    }
}

unsafe fn set(e: i32) -> i64 {
    *__errno_location() = e;
    -1
}

/// A call that names a path and moves no data.
unsafe fn named(class: &'static str, mutates: bool, dir: i32, p: *const c_char, go: impl Fn() -> c_long) -> c_long {
    let r = with(|s| {
        let full = s.path(dir, p);
        if !s.inside(&full) {
            if mutates {
                s.record(class, &full, 0, -(EACCES as i64), "outside");
                return set(EACCES);
            }
            return go();
        }
        let rel = s.rel(&full).to_vec();
        match s.decide(class, None) {
            What::Fail(e) => {
                s.record(class, &rel, 0, -(e as i64), "injected");
                set(e)
            }
            What::Crash(_) => {
                let r = go();
                s.record(class, &rel, 0, r, "crash-after");
                syscall(SYS_exit_group, 137);
                r
            }
            _ => {
                let r = go();
                let e = *__errno_location();
                s.record(class, &rel, 0, if r < 0 { -(e as i64) } else { r }, "");
                *__errno_location() = e;
                r
            }
        }
    });
    r.unwrap_or_else(go)
}

unsafe fn do_open(dir: i32, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    let writes = flags & O_ACCMODE != O_RDONLY || flags & (O_CREAT | O_TRUNC) != 0;
    let dev = with(|s| {
        let full = s.path(dir, p);
        full.starts_with(b"/dev/") && !s.inside(&full)
    })
    .unwrap_or(false);
    let class = if writes { "openw" } else { "openr" };
    let fd = if dev {
        syscall(SYS_openat, dir, p, flags, mode)
    } else {
        named(class, writes, dir, p, || syscall(SYS_openat, dir, p, flags, mode))
    } as c_int;
    if fd >= 0 && !dev {
        with(|s| {
            let full = s.path(dir, p);
            if s.inside(&full) && (fd as usize) < MAXFD {
                s.fds[fd as usize] = Some(s.rel(&full).to_vec());
            }
        });
    }
    fd
}

#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(p: *const c_char, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat64(p: *const c_char, mode: mode_t) -> c_int {
    do_open(AT_FDCWD, p, O_CREAT | O_WRONLY | O_TRUNC, mode)
}

/// A call that moves up to `n` bytes through a descriptor.
unsafe fn moved(class: &'static str, fd: c_int, n: usize, go: impl Fn(usize) -> c_long) -> ssize_t {
    let r = with(|s| {
        let Some(path) = s.of_fd(fd) else { return go(n) };
        let class = if path == b"<stdout>" && class == "write" { "stdout" } else { class };
        let fit = match s.cap {
            Some(c) if class == "write" => (c.max(0) as usize).min(n),
            _ => n,
        };
        let (r, note) = match s.decide(class, Some(n)) {
            What::Fail(e) => (-(e as i64), "injected"),
            What::Go if fit == 0 && n > 0 => (-(ENOSPC as i64), "full"),
            What::Crash(k) => {
                let r = match k {
                    Some(0) | None => 0,
                    Some(k) => go(k),
                };
                s.record(class, &path, n as i64, r, "crash-after");
                syscall(SYS_exit_group, 137);
                (0, "")
            }
            w => {
                let k = match w {
                    What::Part(k) => k.min(fit.max(1)).min(n),
                    _ => fit,
                };
                if k == 0 && n > 0 || (class == "write" && fit == 0 && n > 0) {
                    (-(ENOSPC as i64), "full")
                } else {
                    let r = go(k);
                    let e = *__errno_location();
                    (if r < 0 { -(e as i64) } else { r }, if k < n { "short" } else { "" })
                }
            }
        };
        if r > 0 && class == "write" {
            if let Some(c) = &mut s.cap {
                *c -= r;
            }
        }
        if (class == "read" || class == "stdout") && (r >= 0 || r == -(EINTR as i64)) {
            s.reads[if r < 0 { 2 } else { usize::from(note == "short") }] += 1;
        } else {
            s.record(class, &path, n as i64, r, note);
        }
        if r < 0 {
            set(-r as i32)
        } else {
            r
        }
    });
    r.unwrap_or_else(|| go(n)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    moved("write", fd, n, |k| syscall(SYS_write, fd, b, k))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    moved("write", fd, n, |k| syscall(SYS_pwrite64, fd, b, k, off))
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, b: *const c_void, n: size_t, off: off_t) -> ssize_t {
    moved("write", fd, n, |k| syscall(SYS_pwrite64, fd, b, k, off))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    moved("read", fd, n, |k| syscall(SYS_read, fd, b, k))
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    moved("read", fd, n, |k| syscall(SYS_pread64, fd, b, k, off))
}

unsafe fn vectored(class: &'static str, nr: c_long, fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    let all = std::slice::from_raw_parts(v, n.max(0) as usize);
    let total: usize = all.iter().map(|x| x.iov_len).sum();
    moved(class, fd, total, |mut k| {
        // Only the first `k` bytes of the vector.
        let mut part = vec![];
        for x in all {
            let l = x.iov_len.min(k);
            if l > 0 {
                part.push(iovec { iov_base: x.iov_base, iov_len: l });
            }
            k -= l;
        }
        syscall(nr, fd, part.as_ptr(), part.len())
    })
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    vectored("write", SYS_writev, fd, v, n)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, n: c_int) -> ssize_t {
    vectored("read", SYS_readv, fd, v, n)
}
/// The kernel's own copying would hide the bytes: callers fall back to read and write.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut off64_t, o: c_int, oo: *mut off64_t, n: size_t, f: c_uint) -> ssize_t {
    if with(|s| s.of_fd(o).is_some()).unwrap_or(false) {
        return set(ENOSYS) as ssize_t;
    }
    syscall(SYS_copy_file_range, i, io, o, oo, n, f as c_ulong) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if with(|s| s.of_fd(o).is_some()).unwrap_or(false) {
        return set(ENOSYS) as ssize_t;
    }
    syscall(SYS_sendfile, o, i, off, n) as ssize_t
}

/// A call on a descriptor that moves no data.
unsafe fn on_fd(class: &'static str, fd: c_int, go: impl Fn() -> c_long) -> c_int {
    let r = with(|s| {
        let Some(path) = s.of_fd(fd) else { return go() };
        match s.decide(class, None) {
            What::Fail(e) => {
                if class == "close" {
                    go();
                }
                s.record(class, &path, 0, -(e as i64), "injected");
                set(e)
            }
            What::Crash(_) => {
                let r = go();
                s.record(class, &path, 0, r, "crash-after");
                syscall(SYS_exit_group, 137);
                r
            }
            _ => {
                let r = go();
                s.record(class, &path, 0, r, "");
                r
            }
        }
    });
    r.unwrap_or_else(go) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd > 2 && with(|s| s.log == fd).unwrap_or(false) {
        return 0;
    }
    let r = on_fd("close", fd, || syscall(SYS_close, fd));
    with(|s| {
        if let Some(p) = s.fds.get_mut(fd as usize) {
            *p = None;
        }
    });
    r
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    on_fd("sync", fd, || syscall(SYS_fsync, fd))
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    on_fd("sync", fd, || syscall(SYS_fdatasync, fd))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
    on_fd("trunc", fd, || syscall(SYS_ftruncate, fd, n))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, n: off_t) -> c_int {
    on_fd("trunc", fd, || syscall(SYS_ftruncate, fd, n))
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: mode_t) -> c_int {
    named("mkdir", true, AT_FDCWD, p, || syscall(SYS_mkdir, p, m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, p: *const c_char, m: mode_t) -> c_int {
    named("mkdir", true, d, p, || syscall(SYS_mkdirat, d, p, m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    named("unlink", true, AT_FDCWD, p, || syscall(SYS_unlink, p)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, f: c_int) -> c_int {
    named("unlink", true, d, p, || syscall(SYS_unlinkat, d, p, f)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    named("unlink", true, AT_FDCWD, p, || syscall(SYS_rmdir, p)) as c_int
}
unsafe fn do_rename(d: c_int, p: *const c_char, d2: c_int, p2: *const c_char, f: c_uint) -> c_int {
    // Both ends have to be inside.
    if with(|s| {
        let to = s.path(d2, p2);
        !s.inside(&to)
    })
    .unwrap_or(false)
    {
        return set(EACCES) as c_int;
    }
    let r = named("rename", true, d, p, || syscall(SYS_renameat2, d, p, d2, p2, f as c_ulong)) as c_int;
    with(|s| {
        let to = s.path(d2, p2);
        let to = s.rel(&to).to_vec();
        s.emit(format!("# renamed-to {} {r}\n", String::from_utf8_lossy(&to)));
    });
    r
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const c_char, p2: *const c_char) -> c_int {
    do_rename(AT_FDCWD, p, AT_FDCWD, p2, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(d: c_int, p: *const c_char, d2: c_int, p2: *const c_char) -> c_int {
    do_rename(d, p, d2, p2, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(d: c_int, p: *const c_char, d2: c_int, p2: *const c_char, f: c_uint) -> c_int {
    do_rename(d, p, d2, p2, f)
}
#[no_mangle]
pub unsafe extern "C" fn link(p: *const c_char, p2: *const c_char) -> c_int {
    named("rename", true, AT_FDCWD, p2, || syscall(SYS_link, p, p2)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d: c_int, p: *const c_char, d2: c_int, p2: *const c_char, f: c_int) -> c_int {
    named("rename", true, d2, p2, || syscall(SYS_linkat, d, p, d2, p2, f)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(p: *const c_char, p2: *const c_char) -> c_int {
    named("rename", true, AT_FDCWD, p2, || syscall(SYS_symlink, p, p2)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    named("stat", true, AT_FDCWD, p, || syscall(SYS_chmod, p, m)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(p: *const c_char, n: off64_t) -> c_int {
    named("trunc", true, AT_FDCWD, p, || syscall(SYS_truncate, p, n)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, f: c_int, m: c_uint, b: *mut c_void) -> c_int {
    if p.is_null() || *p == 0 {
        return syscall(SYS_statx, d, p, f, m as c_ulong, b) as c_int;
    }
    named("stat", false, d, p, || syscall(SYS_statx, d, p, f, m as c_ulong, b)) as c_int
}

/// No process is started from inside the simulation.
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    with(|s| {
        for i in 0..n {
            *(b as *mut u8).add(i) = s.next() as u8;
        }
        n as ssize_t
    })
    .unwrap_or_else(|| syscall(SYS_getrandom, b, n, f as c_ulong) as ssize_t)
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: clockid_t, t: *mut timespec) -> c_int {
    with(|s| {
        s.clock += 1;
        (*t).tv_sec = s.clock;
        (*t).tv_nsec = (s.clock * 7919) % 1_000_000_000;
        0
    })
    .unwrap_or_else(|| syscall(SYS_clock_gettime, c, t) as c_int)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    with(|s| 2 + (s.clock % 30000) as pid_t).unwrap_or_else(|| syscall(SYS_getpid) as pid_t)
}

extern "C" fn finish() {
    with(|s| {
        let [a, b, c] = s.reads;
        s.emit(format!("# reads {a} {b} {c}\n"));
    });
}
#[used]
#[link_section = ".fini_array"]
static FINISH: extern "C" fn() = finish;
