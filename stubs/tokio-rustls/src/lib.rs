//! Offline stand-in: TLS is never used.
pub mod rustls { #[derive(Debug, Clone)] pub struct ServerConfig; }
