//! Shared pieces of the EVM monitors: an independent hash, an ABI model, a recording precompile handle, a small runtime.
pub mod abi;
pub mod handle;
pub mod rt;
pub fn keccak(b: &[u8]) -> [u8; 32] { use tiny_keccak::{Hasher, Keccak}; let mut k = Keccak::v256(); k.update(b); let mut o = [0u8; 32]; k.finalize(&mut o); o }
pub fn selector(s: &str) -> u32 { let k = keccak(s.as_bytes()); u32::from_be_bytes([k[0], k[1], k[2], k[3]]) }
