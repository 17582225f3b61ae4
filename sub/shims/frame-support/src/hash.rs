use sp_io::hashing::*;
pub trait Hashable: Sized { fn blake2_128(&self) -> [u8; 16]; fn blake2_256(&self) -> [u8; 32]; fn twox_128(&self) -> [u8; 16]; fn twox_64_concat(&self) -> Vec<u8>; }
impl<T: codec::Codec> Hashable for T { fn blake2_128(&self) -> [u8; 16] { self.using_encoded(blake2_128) } fn blake2_256(&self) -> [u8; 32] { self.using_encoded(blake2_256) } fn twox_128(&self) -> [u8; 16] { self.using_encoded(twox_128) } fn twox_64_concat(&self) -> Vec<u8> { self.using_encoded(Twox64Concat::hash) } }
pub trait StorageHasher: 'static { type Output: AsRef<[u8]>; fn hash(x: &[u8]) -> Self::Output; }
pub trait ReversibleStorageHasher: StorageHasher { fn reverse(x: &[u8]) -> &[u8]; }
pub struct Identity; impl StorageHasher for Identity { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { x.to_vec() } } impl ReversibleStorageHasher for Identity { fn reverse(x: &[u8]) -> &[u8] { x } }
pub struct Twox64Concat; impl StorageHasher for Twox64Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { let mut v = twox_64(x).to_vec(); v.extend_from_slice(x); v } } impl ReversibleStorageHasher for Twox64Concat { fn reverse(x: &[u8]) -> &[u8] { &x[8.min(x.len())..] } }
pub struct Blake2_128Concat; impl StorageHasher for Blake2_128Concat { type Output = Vec<u8>; fn hash(x: &[u8]) -> Vec<u8> { let mut v = blake2_128(x).to_vec(); v.extend_from_slice(x); v } } impl ReversibleStorageHasher for Blake2_128Concat { fn reverse(x: &[u8]) -> &[u8] { &x[16.min(x.len())..] } }
pub struct Blake2_128; impl StorageHasher for Blake2_128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { blake2_128(x) } }
pub struct Blake2_256; impl StorageHasher for Blake2_256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { blake2_256(x) } }
pub struct Twox128; impl StorageHasher for Twox128 { type Output = [u8; 16]; fn hash(x: &[u8]) -> [u8; 16] { twox_128(x) } }
pub struct Twox256; impl StorageHasher for Twox256 { type Output = [u8; 32]; fn hash(x: &[u8]) -> [u8; 32] { twox_256(x) } }
