//! Property-based testing and coverage-guided fuzzing engine.
//!
//! A case is a byte string, the *tape*: every generator decision is read from
//! it, so that a case is a pure function of its tape, shrinking works on the
//! tape, and a replay file is a tape. See `runner` for how cases are driven.
pub mod cov;
pub mod json;
pub mod runner;
pub mod tape;
pub mod xml;

pub use runner::{no_panic, run_main, Case, Check, Sub, Verdict};
pub use tape::Tape;

/// Fail the property with a formatted message unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => {
        if !($c) {
            return Err(format!($($arg)*));
        }
    };
}
