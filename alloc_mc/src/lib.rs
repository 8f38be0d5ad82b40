//! What the explorations of the allocator share.
pub mod ledger;
pub mod statics;
pub use ledger::*;
