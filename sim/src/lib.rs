//! Empty on purpose: `cargo build --lib` builds every dependency of the simulator while the
//! generator is still being built and run.
