//! Offline stand-in: the published RustCrypto sha2 under the name of the pinned git revision.
pub use real::*;
