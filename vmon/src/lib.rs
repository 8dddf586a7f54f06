//! Run-time monitoring library used by every check in /verif.
//!
//! * `core`    : event log, participant context, schedule perturbation, fault injection
//! * `payload` : payload types with unique identities and drop accounting
//! * `oracle`  : offline checker of a recorded history against a protocol description
//! * `watch`   : online deadlock / livelock detector (thread states from /proc)
//! * `runner`  : workload loop, statistics, JSON report
pub mod alloc;
pub mod core;
pub mod json;
pub mod oracle;
pub mod payload;
pub mod runner;
pub mod watch;

pub use crate::core::*;
pub use crate::oracle::*;
pub use crate::payload::*;
pub use crate::runner::*;
pub type R = Result<(), Box<dyn std::error::Error>>;
