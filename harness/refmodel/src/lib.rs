//! Independent reference model of NTRU round 3 (KEM), of SHA3-256 and of the
//! NIST AES-256-CTR DRBG.  Written from the specification, with different
//! algorithms from the code under test wherever there is a choice:
//! generic bit-stream packing, extended Euclid for inverses, plain integer
//! convolution, comparison sort, re-encryption check for ciphertext validity.
//! Nothing here depends on /repo.

pub mod aes;
pub mod gf;
pub mod ntru;
pub mod sha3;

pub use aes::Drbg;
pub use ntru::{Params, ALL};
pub use sha3::sha3_256;
