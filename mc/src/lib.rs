pub mod alloc;
pub mod checks;
pub mod engine;
pub mod gen;
pub mod inst;
pub mod mock;
pub mod oracle;
pub mod sc;
pub mod scal;
pub mod sched;
pub mod win;
#[cfg(feature = "types")]
pub mod wide;
