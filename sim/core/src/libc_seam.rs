//! The seam: definitions of the libc symbols through which the client stack reaches
//! the operating system. Simulated descriptors go to the `World`, all others to the
//! real kernel by raw system calls.
#![allow(clippy::missing_safety_doc)]
use libc::*;
use std::cell::UnsafeCell;

use crate::world::{World, FD0, T0, WALL0};

struct Holder(UnsafeCell<Option<Box<World>>>);
unsafe impl Sync for Holder {}
static WORLD: Holder = Holder(UnsafeCell::new(None));

pub fn install(w: World) {
    unsafe { *WORLD.0.get() = Some(Box::new(w)) }
}

/// The world of this run. Single-threaded by construction.
#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { (*WORLD.0.get()).as_mut().expect("no simulated world") }
}

#[inline]
/// Whether a simulated run is under way.
pub fn simulated() -> bool {
    active().is_some()
}

fn active() -> Option<&'static mut World> {
    match unsafe { (*WORLD.0.get()).as_mut() } {
        Some(w) if w.on => Some(w),
        _ => None,
    }
}

#[inline]
unsafe fn ret(r: i32) -> c_int {
    if r < 0 {
        *__errno_location() = -r;
        -1
    } else {
        r
    }
}

#[inline]
unsafe fn fail(e: i32) -> ssize_t {
    *__errno_location() = e;
    -1
}

#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    match active() {
        Some(w) if domain == AF_INET || domain == AF_INET6 => ret(w.sys_socket(domain, ty)),
        _ => syscall(SYS_socket, domain, ty, proto) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if fd >= FD0 {
        return ret(crate::libc_seam::world().sys_connect(fd));
    }
    syscall(SYS_connect, fd, a, l) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
    if fd >= FD0 {
        return 0;
    }
    syscall(SYS_bind, fd, a, l) as c_int
}

unsafe fn put_int(val: *mut c_void, len: *mut socklen_t, v: c_int) {
    if *len >= 4 {
        *(val as *mut c_int) = v;
        *len = 4;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getsockopt(fd: c_int, lvl: c_int, name: c_int, val: *mut c_void, len: *mut socklen_t) -> c_int {
    if fd >= FD0 {
        let v = if lvl == SOL_SOCKET && name == SO_ERROR { world().sys_so_error(fd) } else { 0 };
        put_int(val, len, v);
        return 0;
    }
    syscall(SYS_getsockopt, fd, lvl, name, val, len) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, lvl: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    if fd >= FD0 {
        return 0;
    }
    syscall(SYS_setsockopt, fd, lvl, name, val, len) as c_int
}

unsafe fn put_addr(fd: c_int, peer: bool, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    let w = world();
    let (v6, c) = match w.fds.get(&fd) {
        Some(crate::world::Fd::Tcp(s)) => (s.v6, s.conn.unwrap_or(0)),
        _ => return ret(-EBADF),
    };
    let port: u16 = if peer { 8080 } else { 40000 + c as u16 };
    if v6 {
        let mut s: sockaddr_in6 = std::mem::zeroed();
        s.sin6_family = AF_INET6 as u16;
        s.sin6_port = port.to_be();
        s.sin6_addr.s6_addr[0] = 0xfd;
        s.sin6_addr.s6_addr[15] = if peer { 1 } else { 2 };
        let n = (*l as usize).min(std::mem::size_of_val(&s));
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
        *l = std::mem::size_of_val(&s) as u32;
    } else {
        let mut s: sockaddr_in = std::mem::zeroed();
        s.sin_family = AF_INET as u16;
        s.sin_port = port.to_be();
        s.sin_addr.s_addr = u32::from_be_bytes([10, 0, 0, if peer { 1 } else { 2 }]).to_be();
        let n = (*l as usize).min(std::mem::size_of_val(&s));
        std::ptr::copy_nonoverlapping(&s as *const _ as *const u8, a as *mut u8, n);
        *l = std::mem::size_of_val(&s) as u32;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if fd >= FD0 {
        return put_addr(fd, true, a, l);
    }
    syscall(SYS_getpeername, fd, a, l) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
    if fd >= FD0 {
        return put_addr(fd, false, a, l);
    }
    syscall(SYS_getsockname, fd, a, l) as c_int
}

unsafe fn v_recv(fd: c_int, parts: &mut [&mut [u8]]) -> ssize_t {
    let w = world();
    if let Some(crate::world::Fd::Event { .. }) = w.fds.get(&fd) {
        return match w.sys_event_read(fd) {
            Some(v) => {
                parts[0][..8].copy_from_slice(&v.to_ne_bytes());
                8
            }
            None => fail(EAGAIN),
        };
    }
    let want = parts.iter().map(|p| p.len()).sum();
    match w.sys_recv(fd, want) {
        Ok(v) => {
            let mut off = 0;
            for p in parts {
                let k = p.len().min(v.len() - off);
                p[..k].copy_from_slice(&v[off..off + k]);
                off += k;
            }
            v.len() as ssize_t
        }
        Err(e) => fail(e),
    }
}

unsafe fn v_send(fd: c_int, parts: &[&[u8]]) -> ssize_t {
    let w = world();
    if let Some(crate::world::Fd::Event { .. }) = w.fds.get(&fd) {
        let mut b = [0u8; 8];
        b.copy_from_slice(&parts[0][..8]);
        w.sys_event_write(fd, u64::from_ne_bytes(b));
        return 8;
    }
    match w.sys_send(fd, parts) {
        Ok(n) => n as ssize_t,
        Err(e) => fail(e),
    }
}

#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    if fd >= FD0 {
        return v_recv(fd, &mut [std::slice::from_raw_parts_mut(buf as *mut u8, n)]);
    }
    syscall(SYS_recvfrom, fd, buf, n, flags, 0usize, 0usize) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
    if fd >= FD0 {
        return v_recv(fd, &mut [std::slice::from_raw_parts_mut(buf as *mut u8, n)]);
    }
    syscall(SYS_recvfrom, fd, buf, n, flags, a, l) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if fd >= FD0 {
        return v_recv(fd, &mut [std::slice::from_raw_parts_mut(buf as *mut u8, n)]);
    }
    syscall(SYS_read, fd, buf, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if fd >= FD0 {
        let mut v: Vec<&mut [u8]> = (0..n as usize)
            .map(|i| {
                let e = &*iov.add(i);
                std::slice::from_raw_parts_mut(e.iov_base as *mut u8, e.iov_len)
            })
            .collect();
        return v_recv(fd, &mut v);
    }
    syscall(SYS_readv, fd, iov, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn send(fd: c_int, buf: *const c_void, n: size_t, flags: c_int) -> ssize_t {
    if fd >= FD0 {
        return v_send(fd, &[std::slice::from_raw_parts(buf as *const u8, n)]);
    }
    syscall(SYS_sendto, fd, buf, n, flags, 0usize, 0usize) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, l: socklen_t) -> ssize_t {
    if fd >= FD0 {
        return v_send(fd, &[std::slice::from_raw_parts(buf as *const u8, n)]);
    }
    syscall(SYS_sendto, fd, buf, n, flags, a, l) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if fd >= FD0 {
        return v_send(fd, &[std::slice::from_raw_parts(buf as *const u8, n)]);
    }
    syscall(SYS_write, fd, buf, n) as ssize_t
}

unsafe fn iov_ro<'a>(iov: *const iovec, n: usize) -> Vec<&'a [u8]> {
    (0..n)
        .map(|i| {
            let e = &*iov.add(i);
            std::slice::from_raw_parts(e.iov_base as *const u8, e.iov_len)
        })
        .collect()
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    if fd >= FD0 {
        return v_send(fd, &iov_ro(iov, n as usize));
    }
    syscall(SYS_writev, fd, iov, n) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, flags: c_int) -> ssize_t {
    if fd >= FD0 {
        return v_send(fd, &iov_ro((*m).msg_iov, (*m).msg_iovlen));
    }
    syscall(SYS_sendmsg, fd, m, flags) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
    if fd >= FD0 {
        return ret(world().sys_shutdown(fd, how));
    }
    syscall(SYS_shutdown, fd, how) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if fd >= FD0 {
        return ret(world().sys_close(fd));
    }
    syscall(SYS_close, fd) as c_int
}

unsafe fn v_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    let w = world();
    match cmd {
        F_GETFD => FD_CLOEXEC,
        F_SETFD => 0,
        F_GETFL => match w.fds.get(&fd) {
            Some(crate::world::Fd::Tcp(s)) if s.nonblock => O_RDWR | O_NONBLOCK,
            Some(_) => O_RDWR,
            None => ret(-EBADF),
        },
        F_SETFL => {
            if let Some(crate::world::Fd::Tcp(s)) = w.fds.get_mut(&fd) {
                s.nonblock = arg as c_int & O_NONBLOCK != 0;
            }
            0
        }
        F_DUPFD | F_DUPFD_CLOEXEC => ret(w.sys_dup(fd)),
        _ => ret(-EINVAL),
    }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if fd >= FD0 {
        return v_fcntl(fd, cmd, arg);
    }
    syscall(SYS_fcntl, fd, cmd, arg) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    fcntl(fd, cmd, arg)
}

#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: c_ulong, arg: usize) -> c_int {
    if fd >= FD0 {
        if req == FIONBIO as c_ulong {
            if let Some(crate::world::Fd::Tcp(s)) = world().fds.get_mut(&fd) {
                s.nonblock = *(arg as *const c_int) != 0;
            }
            return 0;
        }
        return ret(-EINVAL);
    }
    syscall(SYS_ioctl, fd, req, arg) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_create1(flags: c_int) -> c_int {
    match active() {
        Some(w) => w.sys_epoll_create(),
        None => syscall(SYS_epoll_create1, flags) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn epoll_ctl(ep: c_int, op: c_int, fd: c_int, ev: *mut epoll_event) -> c_int {
    if ep >= FD0 {
        let (e, d) = if ev.is_null() { (0, 0) } else { ((*ev).events, (*ev).u64) };
        return ret(world().sys_epoll_ctl(ep, op, fd, e, d));
    }
    syscall(SYS_epoll_ctl, ep, op, fd, ev) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn epoll_wait(ep: c_int, evs: *mut epoll_event, max: c_int, timeout: c_int) -> c_int {
    if ep >= FD0 {
        let v = world().sys_epoll_wait(ep, max as usize, timeout);
        for (i, (e, d)) in v.iter().enumerate() {
            *evs.add(i) = epoll_event { events: *e, u64: *d };
        }
        return v.len() as c_int;
    }
    syscall(SYS_epoll_pwait, ep, evs, max, timeout, 0usize, 8usize) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: c_uint, flags: c_int) -> c_int {
    match active() {
        Some(w) => w.sys_eventfd(init),
        None => syscall(SYS_eventfd2, init, flags) as c_int,
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: clockid_t, ts: *mut timespec) -> c_int {
    if let Some(w) = active() {
        if clk == CLOCK_MONOTONIC || clk == CLOCK_BOOTTIME || clk == CLOCK_MONOTONIC_COARSE || clk == CLOCK_MONOTONIC_RAW {
            w.clock_reads += 1;
            if w.clock_reads > 50_000_000 {
                w.stuck = Some("clock polled 50 million times: livelock".into());
                crate::bail();
            }
            (*ts).tv_sec = (w.now / 1_000_000_000) as i64;
            (*ts).tv_nsec = (w.now % 1_000_000_000) as i64;
            return 0;
        }
        if clk == CLOCK_REALTIME || clk == CLOCK_REALTIME_COARSE {
            let n = w.now - T0;
            (*ts).tv_sec = WALL0 + w.wall_off + (n / 1_000_000_000) as i64;
            (*ts).tv_nsec = (n % 1_000_000_000) as i64;
            return 0;
        }
    }
    syscall(SYS_clock_gettime, clk, ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(w) = active() {
        w.now += (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        return 0;
    }
    syscall(SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: clockid_t, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(w) = active() {
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        if flags & TIMER_ABSTIME != 0 {
            w.now = w.now.max(d);
        } else {
            w.now += d;
        }
        return 0;
    }
    // clock_nanosleep returns the error number itself.
    let r = syscall(SYS_clock_nanosleep, clk, flags, req, rem) as c_int;
    if r == -1 {
        *__errno_location()
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: c_uint) -> ssize_t {
    if let Some(w) = active() {
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n);
        for ch in out.chunks_mut(8) {
            let v = w.ent.next().to_le_bytes();
            let k = ch.len();
            ch.copy_from_slice(&v[..k]);
        }
        return n as ssize_t;
    }
    syscall(SYS_getrandom, buf, n, flags) as ssize_t
}
