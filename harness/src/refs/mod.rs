pub mod c25519;
pub mod chacha;
pub mod der;
pub mod ec;
pub mod keccak;
pub mod mlkem;
