//! Independent reference for what the Minisign format and its primitives mean.
//! Written from the specifications (RFC 7693, FIPS 180-4, RFC 8032, libsodium's scrypt
//! parameter rule, the Minisign file format). Never calls the crate under test.
pub mod b64;
pub mod blake2b;
pub mod ed25519;
pub mod kdf;
pub mod mini;
pub mod sha512;
