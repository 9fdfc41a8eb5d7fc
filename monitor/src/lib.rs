//! Runtime monitors for zkevm_opcode_defs.
pub mod abi;
pub mod engine;
#[cfg(feature = "traced")]
pub mod guide;
pub mod hash;
pub mod identity;
pub mod ops;
pub mod spec;
pub mod tables;
pub mod words;
pub mod watch;
pub mod world;

pub fn probes(id: &str) -> Option<Vec<engine::Probe>> {
    words::probes(id).or_else(|| tables::probes(id)).or_else(|| abi::probes(id)).or_else(|| hash::probes(id)).or_else(|| identity::probes(id))
}
