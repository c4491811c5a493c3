//! Explorer framework: enumerates cases in worker processes, attributes panics, crashes and hangs of
//! the code under test to the case being executed, and writes evidence and replay files.
//! Does not depend on teleparse.
pub mod cfg;
pub mod json;
pub mod sup;
pub use sup::*;
