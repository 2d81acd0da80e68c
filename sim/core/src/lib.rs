//! The simulated operating system and network (no code under test in here).
pub mod libc_seam;
pub mod raw;
pub mod rng;
pub mod scenario;
pub mod server;
pub mod world;

static mut BAIL: Option<fn() -> !> = None;

/// How a run that cannot go on is ended.
pub fn on_bail(f: fn() -> !) {
    unsafe { BAIL = Some(f) }
}

pub fn bail() -> ! {
    unsafe { BAIL.unwrap()() }
}
