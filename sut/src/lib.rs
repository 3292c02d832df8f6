#![allow(warnings)]
//! The broker, compiled from /repo's working tree.
include!("/repo/src/main.rs");

const _SRC: &str = env!("VERIF_SRC_HASH");

/// Runs the broker's `main` to its end.
pub fn run_main() -> bool {
    main().is_ok()
}

#[cfg(feature = "stats")]
pub fn stats() -> (usize, usize, usize, usize, usize, usize, usize) {
    crate::core::broker_info::get_stats()
}
