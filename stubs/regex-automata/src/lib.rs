//! Offline stand-in for the `regex-automata-fork` git dependency of dd-sds (which cannot be
//! fetched here). dd-sds only uses `util::pool::{Pool, PoolGuard}`: a thread-safe pool of
//! lazily created values.
pub mod util {
    pub mod pool;
}
