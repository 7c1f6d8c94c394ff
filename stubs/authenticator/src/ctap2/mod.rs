pub mod attestation;
pub mod server;
