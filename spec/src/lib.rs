//! Independent, deliberately plain executable specifications used as oracles.
//! Nothing in here is derived from graviola's sources.
pub mod aead;
pub mod der;
pub mod ec;
pub mod ed25519;
pub mod hash;
pub mod mlkem;
pub mod nat;
pub mod rsa;
pub mod x25519;
