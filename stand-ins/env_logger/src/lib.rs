//! Stand-in for `env_logger`.
pub fn init() {}
