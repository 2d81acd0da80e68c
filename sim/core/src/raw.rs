//! The C library's `syscall`: some crates draw random numbers with it (getrandom 0.2).
use libc::{c_int, c_long, c_void};
use std::arch::asm;

/// # Safety
/// As for the C function. Callers pass up to six arguments; the others are not looked at
/// by the kernel.
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_getrandom && crate::libc_seam::simulated() {
        return crate::libc_seam::getrandom(a as *mut c_void, b as usize, c as u32) as c_long;
    }
    let r: c_long;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if (-4095..0).contains(&r) {
        *libc::__errno_location() = -r as c_int;
        return -1;
    }
    r
}
