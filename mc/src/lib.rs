//! Exhaustive exploration of shogi_core against a reference model.
/// Fails a unit with a message.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

/// Fails a unit unless the condition holds.
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)) } };
}

/// Fails a unit unless both sides are equal.
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if !(*a == *b) { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)) }
    }};
}

pub mod iters;
pub mod dl;
pub mod edits;
pub mod model;
pub mod obs;
pub mod order;
pub mod roots;
pub mod runner;
pub mod step;
pub mod vals;

pub use model::*;
pub use obs::*;
pub use runner::*;
