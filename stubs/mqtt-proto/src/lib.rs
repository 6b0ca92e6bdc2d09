//! Stand-in for mqtt-proto 0.4 (the crate is not in the offline cache).  It implements the MQTT 3.1,
//! 3.1.1 and 5.0 packet types and wire codec that akasa uses, from the OASIS specifications and from
//! the way akasa and its tests use the crate.  It is part of the trusted base of every check that
//! executes akasa code.
pub mod v3;
pub mod v5;
mod poll;
mod types;
mod wire;

pub use poll::{GenericPollPacket, GenericPollPacketState, PollHeader};
pub use types::*;
pub use wire::*;
