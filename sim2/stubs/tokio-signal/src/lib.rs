//! The real tokio, with signals that never arrive.
pub use tokio::*;
pub mod signal {
    pub async fn ctrl_c() -> std::io::Result<()> {
        std::future::pending().await
    }
}
