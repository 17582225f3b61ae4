use super::{unhashed, KeyPrefixIterator, PrefixIterator};
use crate::hash::*;
use crate::traits::{Get, GetDefault, StorageInstance};
use codec::{Decode, Encode, EncodeLike, FullCodec};
use std::marker::PhantomData;
pub use crate::traits::StorageInfo;

pub trait QueryKindTrait<V, OnEmpty> { type Query; fn from_opt(v: Option<V>) -> Self::Query; fn into_opt(q: Self::Query) -> Option<V>; }
pub struct OptionQuery; impl<V, E> QueryKindTrait<V, E> for OptionQuery { type Query = Option<V>; fn from_opt(v: Option<V>) -> Option<V> { v } fn into_opt(q: Option<V>) -> Option<V> { q } }
pub struct ValueQuery; impl<V, E: Get<V>> QueryKindTrait<V, E> for ValueQuery { type Query = V; fn from_opt(v: Option<V>) -> V { v.unwrap_or_else(E::get) } fn into_opt(q: V) -> Option<V> { Some(q) } }
pub struct ResultQuery<E>(PhantomData<E>); impl<V, Err: Default, E> QueryKindTrait<V, E> for ResultQuery<Err> { type Query = Result<V, Err>; fn from_opt(v: Option<V>) -> Result<V, Err> { v.ok_or_else(Default::default) } fn into_opt(q: Result<V, Err>) -> Option<V> { q.ok() } }
fn base<P: StorageInstance>() -> Vec<u8> { super::storage_prefix(P::pallet_prefix().as_bytes(), P::STORAGE_PREFIX.as_bytes()).to_vec() }

pub struct StorageValue<Prefix, Value, QueryKind = OptionQuery, OnEmpty = GetDefault>(PhantomData<(Prefix, Value, QueryKind, OnEmpty)>);
impl<P: StorageInstance, V: FullCodec, Q: QueryKindTrait<V, E>, E> StorageValue<P, V, Q, E> {
	pub fn hashed_key() -> [u8; 32] { base::<P>().try_into().unwrap() }
	pub fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() } pub fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() }
	pub fn exists() -> bool { unhashed::exists(&Self::hashed_key()) }
	pub fn get() -> Q::Query { Q::from_opt(unhashed::get(&Self::hashed_key())) }
	pub fn try_get() -> Result<V, ()> { unhashed::get(&Self::hashed_key()).ok_or(()) }
	pub fn put<A: EncodeLike<V>>(v: A) { unhashed::put(&Self::hashed_key(), &v) }
	pub fn set(v: Q::Query) { match Q::into_opt(v) { Some(v) => Self::put(v), None => Self::kill() } }
	pub fn kill() { unhashed::kill(&Self::hashed_key()) }
	pub fn take() -> Q::Query { Q::from_opt(unhashed::take(&Self::hashed_key())) }
	pub fn mutate<R, F: FnOnce(&mut Q::Query) -> R>(f: F) -> R { let mut v = Self::get(); let r = f(&mut v); Self::set(v); r }
	pub fn try_mutate<R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(f: F) -> Result<R, Er> { let mut v = Self::get(); let r = f(&mut v); if r.is_ok() { Self::set(v) } r }
	pub fn mutate_exists<R, F: FnOnce(&mut Option<V>) -> R>(f: F) -> R { let mut v = Self::try_get().ok(); let r = f(&mut v); match v { Some(v) => Self::put(v), None => Self::kill() } r }
	pub fn try_mutate_exists<R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(f: F) -> Result<R, Er> { let mut v = Self::try_get().ok(); let r = f(&mut v); if r.is_ok() { match v { Some(v) => Self::put(v), None => Self::kill() } } r }
	pub fn translate<O: Decode, F: FnOnce(Option<O>) -> Option<V>>(f: F) -> Result<Option<V>, ()> { let o = match unhashed::get_raw(&Self::hashed_key()) { Some(r) => Some(O::decode(&mut &r[..]).map_err(|_| ())?), None => None }; let n = f(o); if let Some(n) = &n { unhashed::put(&Self::hashed_key(), n) } else { Self::kill() } Ok(n) }
	pub fn append<I: Encode, EI: EncodeLike<I>>(i: EI) where V: AppendLike<I> { let mut raw = unhashed::get_raw(&Self::hashed_key()).unwrap_or_default(); raw = <V as AppendLike<I>>::append(raw, i.encode()); unhashed::put_raw(&Self::hashed_key(), &raw) }
	pub fn try_append<I: Encode, EI: EncodeLike<I>>(i: EI) -> Result<(), ()> where V: AppendLike<I> { let raw = unhashed::get_raw(&Self::hashed_key()).unwrap_or_default(); if let Some(b) = V::bound() { if V::count(&raw) >= b { return Err(()); } } unhashed::put_raw(&Self::hashed_key(), &<V as AppendLike<I>>::append(raw, i.encode())); Ok(()) }
	pub fn decode_len() -> Option<usize> where V: codec::DecodeLength { unhashed::get_raw(&Self::hashed_key()).and_then(|v| <V as codec::DecodeLength>::len(&v).ok()) }
}
impl<P, V, Q, E> super::StorageValue<V> for StorageValue<P, V, Q, E> where V: FullCodec {}
/// sequences that can grow by one encoded element
pub trait AppendLike<I> { fn bound() -> Option<usize> { None }
	fn count(raw: &[u8]) -> usize { if raw.is_empty() { 0 } else { codec::Compact::<u32>::decode(&mut &raw[..]).map(|x| x.0 as usize).unwrap_or(0) } }
	fn append(raw: Vec<u8>, item: Vec<u8>) -> Vec<u8> { let mut r = &raw[..]; let n = if raw.is_empty() { 0 } else { codec::Compact::<u32>::decode(&mut r).expect("length prefix").0 }; let mut o = codec::Compact(n + 1).encode(); o.extend_from_slice(r); o.extend(item); o } }
impl<I> AppendLike<I> for Vec<I> {}
impl<I, S: Get<u32>> AppendLike<I> for sp_core::bounded::BoundedVec<I, S> { fn bound() -> Option<usize> { Some(S::get() as usize) } }


pub struct StorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> super::StoragePrefixedMap<V> for StorageMap<P, H, K, V, Q, E, M> { fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() } fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() } fn final_prefix() -> [u8; 32] { base::<P>().try_into().unwrap() } }
impl<P: StorageInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
	pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { let mut b = base::<P>(); b.extend_from_slice(k.using_encoded(H::hash).as_ref()); b }
	pub fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() } pub fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() } pub fn final_prefix() -> [u8; 32] { base::<P>().try_into().unwrap() }
	pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { unhashed::exists(&Self::hashed_key_for(k)) }
	pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query { Q::from_opt(unhashed::get(&Self::hashed_key_for(k))) }
	pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(k)).ok_or(()) }
	pub fn swap<A: EncodeLike<K>, B: EncodeLike<K>>(a: A, b: B) { let (ka, kb) = (Self::hashed_key_for(a), Self::hashed_key_for(b)); let (va, vb) = (unhashed::get_raw(&ka), unhashed::get_raw(&kb)); for (k, v) in [(ka, vb), (kb, va)] { match v { Some(v) => unhashed::put_raw(&k, &v), None => unhashed::kill(&k) } } }
	pub fn insert<A: EncodeLike<K>, B: EncodeLike<V>>(k: A, v: B) { unhashed::put(&Self::hashed_key_for(k), &v) }
	pub fn set<A: EncodeLike<K>>(k: A, q: Q::Query) { Self::put_opt(&Self::hashed_key_for(k), Q::into_opt(q)) }
	pub fn remove<A: EncodeLike<K>>(k: A) { unhashed::kill(&Self::hashed_key_for(k)) }
	fn put_opt(k: &[u8], v: Option<V>) { match v { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }
	pub fn mutate<A: EncodeLike<K>, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { let k = Self::hashed_key_for(k); let mut v = Q::from_opt(unhashed::get(&k)); let r = f(&mut v); Self::put_opt(&k, Q::into_opt(v)); r }
	pub fn try_mutate<A: EncodeLike<K>, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(k); let mut v = Q::from_opt(unhashed::get(&k)); let r = f(&mut v); if r.is_ok() { Self::put_opt(&k, Q::into_opt(v)) } r }
	pub fn mutate_exists<A: EncodeLike<K>, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { let k = Self::hashed_key_for(k); let mut v = unhashed::get(&k); let r = f(&mut v); Self::put_opt(&k, v); r }
	pub fn try_mutate_exists<A: EncodeLike<K>, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(k); let mut v = unhashed::get(&k); let r = f(&mut v); if r.is_ok() { Self::put_opt(&k, v) } r }
	pub fn take<A: EncodeLike<K>>(k: A) -> Q::Query { Q::from_opt(unhashed::take(&Self::hashed_key_for(k))) }
	pub fn append<I: Encode, EI: EncodeLike<I>, A: EncodeLike<K>>(k: A, i: EI) where V: AppendLike<I> { let k = Self::hashed_key_for(k); let raw = unhashed::get_raw(&k).unwrap_or_default(); unhashed::put_raw(&k, &<V as AppendLike<I>>::append(raw, i.encode())) }
	pub fn try_append<A: EncodeLike<K> + Clone, I: Encode, EI: EncodeLike<I>>(k: A, i: EI) -> Result<(), ()> where V: AppendLike<I> { let k = Self::hashed_key_for(k); let raw = unhashed::get_raw(&k).unwrap_or_default(); if let Some(b) = V::bound() { if V::count(&raw) >= b { return Err(()); } } unhashed::put_raw(&k, &<V as AppendLike<I>>::append(raw, i.encode())); Ok(()) }
	pub fn decode_len<A: EncodeLike<K>>(k: A) -> Option<usize> where V: codec::DecodeLength { unhashed::get_raw(&Self::hashed_key_for(k)).and_then(|v| <V as codec::DecodeLength>::len(&v).ok()) }
	pub fn clear(l: u32, _: Option<&[u8]>) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix(&base::<P>(), Some(l)) }
	pub fn remove_all(l: Option<u32>) -> sp_io::KillStorageResult { let r = sp_io::storage::clear_prefix(&base::<P>(), l); if r.maybe_cursor.is_some() { sp_io::KillStorageResult::SomeRemaining(r.unique) } else { sp_io::KillStorageResult::AllRemoved(r.unique) } }
	pub fn migrate_key<OldHasher: StorageHasher, A: EncodeLike<K>>(k: A) -> Option<V> { let mut b = base::<P>(); b.extend_from_slice(k.using_encoded(OldHasher::hash).as_ref()); unhashed::take(&b).map(|v: V| { unhashed::put(&Self::hashed_key_for(k), &v); v }) }
	pub fn iter_values() -> PrefixIterator<V> { PrefixIterator::new(base::<P>(), base::<P>(), |_, v| V::decode(&mut &v[..])) }
	pub fn translate_values<O: Decode, F: FnMut(O) -> Option<V>>(mut f: F) { let p = base::<P>(); let mut k = p.clone(); while let Some(n) = sp_io::storage::next_key(&k).filter(|n| n.starts_with(&p)) { if let Some(o) = unhashed::get::<O>(&n) { Self::put_opt(&n, f(o)) } k = n; } }
}
impl<P: StorageInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageMap<P, H, K, V, Q, E, M> {
	fn kv(k: &[u8], v: &[u8]) -> Result<(K, V), codec::Error> { Ok((K::decode(&mut H::reverse(k))?, V::decode(&mut &v[..])?)) }
	pub fn iter() -> PrefixIterator<(K, V)> { PrefixIterator::new(base::<P>(), base::<P>(), Self::kv) }
	pub fn iter_from(s: Vec<u8>) -> PrefixIterator<(K, V)> { PrefixIterator::new(base::<P>(), s, Self::kv) }
	pub fn iter_keys() -> KeyPrefixIterator<K> { KeyPrefixIterator::new(base::<P>(), base::<P>(), |k| K::decode(&mut H::reverse(k))) }
	pub fn iter_keys_from(s: Vec<u8>) -> KeyPrefixIterator<K> { KeyPrefixIterator::new(base::<P>(), s, |k| K::decode(&mut H::reverse(k))) }
	pub fn iter_from_key<A: EncodeLike<K>>(k: A) -> PrefixIterator<(K, V)> { Self::iter_from(Self::hashed_key_for(k)) }
	pub fn drain() -> PrefixIterator<(K, V)> { Self::iter().drain() }
	pub fn translate<O: Decode, F: FnMut(K, O) -> Option<V>>(mut f: F) { let p = base::<P>(); let mut k = p.clone(); while let Some(n) = sp_io::storage::next_key(&k).filter(|n| n.starts_with(&p)) { if let (Some(o), Ok(key)) = (unhashed::get::<O>(&n), K::decode(&mut H::reverse(&n[p.len()..]))) { Self::put_opt(&n, f(key, o)) } k = n; } }
}

pub trait CountedStorageMapInstance: StorageInstance { const COUNTER_PREFIX: &'static str; }
pub struct CountedStorageMap<Prefix, Hasher, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher, Key, Value, QueryKind, OnEmpty, MaxValues)>);
type Map<P, H, K, V, Q, E, M> = StorageMap<P, H, K, V, Q, E, M>;
impl<P: CountedStorageMapInstance, H: StorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> CountedStorageMap<P, H, K, V, Q, E, M> {
	fn ck() -> [u8; 32] { super::storage_prefix(P::pallet_prefix().as_bytes(), P::COUNTER_PREFIX.as_bytes()) }
	pub fn count() -> u32 { unhashed::get_or_default(&Self::ck()) }
	fn track<R>(k: &[u8], f: impl FnOnce() -> R) -> R { let a = unhashed::exists(k); let r = f(); let b = unhashed::exists(k); if a != b { let c = Self::count(); unhashed::put(&Self::ck(), &(if b { c.saturating_add(1) } else { c.saturating_sub(1) })) } r }
	pub fn hashed_key_for<A: EncodeLike<K>>(k: A) -> Vec<u8> { Map::<P, H, K, V, Q, E, M>::hashed_key_for(k) }
	pub fn contains_key<A: EncodeLike<K>>(k: A) -> bool { Map::<P, H, K, V, Q, E, M>::contains_key(k) }
	pub fn get<A: EncodeLike<K>>(k: A) -> Q::Query { Map::<P, H, K, V, Q, E, M>::get(k) }
	pub fn try_get<A: EncodeLike<K>>(k: A) -> Result<V, ()> { Map::<P, H, K, V, Q, E, M>::try_get(k) }
	pub fn insert<A: EncodeLike<K> + Clone, B: EncodeLike<V>>(k: A, v: B) { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::insert(k, v)) }
	pub fn remove<A: EncodeLike<K> + Clone>(k: A) { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::remove(k)) }
	pub fn mutate<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Q::Query) -> R>(k: A, f: F) -> R { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::mutate(k, f)) }
	pub fn try_mutate<A: EncodeLike<K> + Clone, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::try_mutate(k, f)) }
	pub fn mutate_exists<A: EncodeLike<K> + Clone, R, F: FnOnce(&mut Option<V>) -> R>(k: A, f: F) -> R { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::mutate_exists(k, f)) }
	pub fn try_mutate_exists<A: EncodeLike<K> + Clone, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(k: A, f: F) -> Result<R, Er> { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::try_mutate_exists(k, f)) }
	pub fn take<A: EncodeLike<K> + Clone>(k: A) -> Q::Query { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::take(k)) }
	pub fn set<A: EncodeLike<K> + Clone>(k: A, q: Q::Query) { Self::track(&Self::hashed_key_for(k.clone()), || Map::<P, H, K, V, Q, E, M>::set(k, q)) }
	pub fn clear(l: u32, _: Option<&[u8]>) -> sp_io::MultiRemovalResults { let r = sp_io::storage::clear_prefix(&base::<P>(), Some(l)); let c = Self::count(); unhashed::put(&Self::ck(), &c.saturating_sub(r.unique)); r }
	pub fn iter_values() -> PrefixIterator<V> { Map::<P, H, K, V, Q, E, M>::iter_values() }
	pub fn initialize_counter() -> u32 { let n = Self::iter_values().count() as u32; unhashed::put(&Self::ck(), &n); n }
}
impl<P: CountedStorageMapInstance, H: ReversibleStorageHasher, K: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> CountedStorageMap<P, H, K, V, Q, E, M> { pub fn iter() -> PrefixIterator<(K, V)> { Map::<P, H, K, V, Q, E, M>::iter() } pub fn iter_keys() -> KeyPrefixIterator<K> { Map::<P, H, K, V, Q, E, M>::iter_keys() } pub fn drain() -> PrefixIterator<(K, V)> { unhashed::kill(&Self::ck()); Map::<P, H, K, V, Q, E, M>::drain() } }

pub struct StorageDoubleMap<Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Hasher1, Key1, Hasher2, Key2, Value, QueryKind, OnEmpty, MaxValues)>);
impl<P: StorageInstance, H1: StorageHasher, K1: FullCodec, H2: StorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> {
	fn pre<A: EncodeLike<K1>>(a: A) -> Vec<u8> { let mut b = base::<P>(); b.extend_from_slice(a.using_encoded(H1::hash).as_ref()); b }
	pub fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() } pub fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() } pub fn final_prefix() -> [u8; 32] { base::<P>().try_into().unwrap() }
	pub fn hashed_key_for<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Vec<u8> { let mut x = Self::pre(a); x.extend_from_slice(b.using_encoded(H2::hash).as_ref()); x }
	fn put_opt(k: &[u8], v: Option<V>) { match v { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }
	pub fn contains_key<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> bool { unhashed::exists(&Self::hashed_key_for(a, b)) }
	pub fn get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query { Q::from_opt(unhashed::get(&Self::hashed_key_for(a, b))) }
	pub fn try_get<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(a, b)).ok_or(()) }
	pub fn insert<A: EncodeLike<K1>, B: EncodeLike<K2>, C: EncodeLike<V>>(a: A, b: B, v: C) { unhashed::put(&Self::hashed_key_for(a, b), &v) }
	pub fn set<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B, q: Q::Query) { Self::put_opt(&Self::hashed_key_for(a, b), Q::into_opt(q)) }
	pub fn remove<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) { unhashed::kill(&Self::hashed_key_for(a, b)) }
	pub fn take<A: EncodeLike<K1>, B: EncodeLike<K2>>(a: A, b: B) -> Q::Query { Q::from_opt(unhashed::take(&Self::hashed_key_for(a, b))) }
	pub fn mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Q::Query) -> R>(a: A, b: B, f: F) -> R { let k = Self::hashed_key_for(a, b); let mut v = Q::from_opt(unhashed::get(&k)); let r = f(&mut v); Self::put_opt(&k, Q::into_opt(v)); r }
	pub fn try_mutate<A: EncodeLike<K1>, B: EncodeLike<K2>, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(a: A, b: B, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(a, b); let mut v = Q::from_opt(unhashed::get(&k)); let r = f(&mut v); if r.is_ok() { Self::put_opt(&k, Q::into_opt(v)) } r }
	pub fn mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, F: FnOnce(&mut Option<V>) -> R>(a: A, b: B, f: F) -> R { let k = Self::hashed_key_for(a, b); let mut v = unhashed::get(&k); let r = f(&mut v); Self::put_opt(&k, v); r }
	pub fn try_mutate_exists<A: EncodeLike<K1>, B: EncodeLike<K2>, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(a: A, b: B, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(a, b); let mut v = unhashed::get(&k); let r = f(&mut v); if r.is_ok() { Self::put_opt(&k, v) } r }
	pub fn clear(l: u32, _: Option<&[u8]>) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix(&base::<P>(), Some(l)) }
	pub fn clear_prefix<A: EncodeLike<K1>>(a: A, l: u32, _: Option<&[u8]>) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix(&Self::pre(a), Some(l)) }
	#[allow(deprecated)] pub fn remove_prefix<A: EncodeLike<K1>>(a: A, l: Option<u32>) -> sp_io::KillStorageResult { let r = sp_io::storage::clear_prefix(&Self::pre(a), l); sp_io::KillStorageResult::AllRemoved(r.unique) }
	pub fn contains_prefix<A: EncodeLike<K1>>(a: A) -> bool { let p = Self::pre(a); sp_io::storage::next_key(&p).map(|k| k.starts_with(&p)).unwrap_or(false) }
	pub fn iter_prefix_values<A: EncodeLike<K1>>(a: A) -> PrefixIterator<V> { let p = Self::pre(a); PrefixIterator::new(p.clone(), p, |_, v| V::decode(&mut &v[..])) }
	pub fn iter_values() -> PrefixIterator<V> { PrefixIterator::new(base::<P>(), base::<P>(), |_, v| V::decode(&mut &v[..])) }
}
impl<P: StorageInstance, H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageDoubleMap<P, H1, K1, H2, K2, V, Q, E, M> {
	fn keys(k: &[u8]) -> Result<(K1, K2), codec::Error> { let mut r = H1::reverse(k); let a = K1::decode(&mut r)?; Ok((a, K2::decode(&mut H2::reverse(r))?)) }
	pub fn iter() -> PrefixIterator<(K1, K2, V)> { PrefixIterator::new(base::<P>(), base::<P>(), |k, v| { let (a, b) = Self::keys(k)?; Ok((a, b, V::decode(&mut &v[..])?)) }) }
	pub fn iter_keys() -> KeyPrefixIterator<(K1, K2)> { KeyPrefixIterator::new(base::<P>(), base::<P>(), Self::keys) }
	pub fn iter_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { let p = Self::pre(a); PrefixIterator::new(p.clone(), p, |k, v| Ok((K2::decode(&mut H2::reverse(k))?, V::decode(&mut &v[..])?))) }
	pub fn iter_key_prefix<A: EncodeLike<K1>>(a: A) -> KeyPrefixIterator<K2> { let p = Self::pre(a); KeyPrefixIterator::new(p.clone(), p, |k| K2::decode(&mut H2::reverse(k))) }
	pub fn drain_prefix<A: EncodeLike<K1>>(a: A) -> PrefixIterator<(K2, V)> { Self::iter_prefix(a).drain() }
	pub fn drain() -> PrefixIterator<(K1, K2, V)> { Self::iter().drain() }
	pub fn translate<O: Decode, F: FnMut(K1, K2, O) -> Option<V>>(mut f: F) { let p = base::<P>(); let mut k = p.clone(); while let Some(n) = sp_io::storage::next_key(&k).filter(|n| n.starts_with(&p)) { if let (Some(o), Ok((a, b))) = (unhashed::get::<O>(&n), Self::keys(&n[p.len()..])) { Self::put_opt(&n, f(a, b, o)) } k = n; } }
}

pub struct Key<H, K>(PhantomData<(H, K)>);
pub trait KeyGenerator { type Key; type KArg: Encode; fn join(parts: &[Vec<u8>]) -> Vec<u8>; fn split(b: &[u8]) -> Result<Self::Key, codec::Error>; }
pub trait EncodeLikeTuple<T> {}
pub trait TupleToEncodedIter { fn parts(&self) -> Vec<Vec<u8>>; }
/// `K` is a key whose first components are `KP`
pub trait HasKeyPrefix<KP>: KeyGenerator { type Suffix; fn partial(parts: &[Vec<u8>]) -> Vec<u8>; fn split_suffix(b: &[u8]) -> Result<Self::Suffix, codec::Error>; }
macro_rules! nkeys { ($($h:ident $k:ident $a:ident $i:tt),*) => {
	impl<$($h: ReversibleStorageHasher, $k: FullCodec),*> KeyGenerator for ($(Key<$h, $k>,)*) { type Key = ($($k,)*); type KArg = ($($k,)*); fn join(p: &[Vec<u8>]) -> Vec<u8> { let mut o = vec![]; $( o.extend_from_slice($h::hash(&p[$i]).as_ref()); )* o } #[allow(unused_assignments)] fn split(b: &[u8]) -> Result<Self::Key, codec::Error> { let mut r = b; Ok(($({ let mut x = $h::reverse(r); let v = $k::decode(&mut x)?; r = x; v },)*)) } }
	impl<$($k: Encode, $a: EncodeLike<$k>),*> EncodeLikeTuple<($($k,)*)> for ($($a,)*) {}
	impl<'t, $($k: Encode, $a: EncodeLike<$k>),*> EncodeLikeTuple<($($k,)*)> for &'t ($($a,)*) {}
	impl<$($a: Encode),*> TupleToEncodedIter for ($($a,)*) { fn parts(&self) -> Vec<Vec<u8>> { vec![$(self.$i.encode()),*] } }
	impl<'t, $($a: Encode),*> TupleToEncodedIter for &'t ($($a,)*) { fn parts(&self) -> Vec<Vec<u8>> { (*self).parts() } }
}; }
nkeys!(HA KA A 0); nkeys!(HA KA A 0, HB KB B 1); nkeys!(HA KA A 0, HB KB B 1, HC KC C 2); nkeys!(HA KA A 0, HB KB B 1, HC KC C 2, HD KD D 3);
impl<H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, H3: ReversibleStorageHasher, K3: FullCodec> HasKeyPrefix<(K1,)> for (Key<H1, K1>, Key<H2, K2>, Key<H3, K3>) { type Suffix = (K2, K3); fn partial(p: &[Vec<u8>]) -> Vec<u8> { H1::hash(&p[0]).as_ref().to_vec() } fn split_suffix(b: &[u8]) -> Result<(K2, K3), codec::Error> { <(Key<H2, K2>, Key<H3, K3>) as KeyGenerator>::split(b) } }
impl<H1: ReversibleStorageHasher, K1: FullCodec, H2: ReversibleStorageHasher, K2: FullCodec, H3: ReversibleStorageHasher, K3: FullCodec> HasKeyPrefix<(K1, K2)> for (Key<H1, K1>, Key<H2, K2>, Key<H3, K3>) { type Suffix = K3; fn partial(p: &[Vec<u8>]) -> Vec<u8> { let mut o = H1::hash(&p[0]).as_ref().to_vec(); o.extend_from_slice(H2::hash(&p[1]).as_ref()); o } fn split_suffix(b: &[u8]) -> Result<K3, codec::Error> { K3::decode(&mut H3::reverse(b)) } }
pub struct StorageNMap<Prefix, Key, Value, QueryKind = OptionQuery, OnEmpty = GetDefault, MaxValues = GetDefault>(PhantomData<(Prefix, Key, Value, QueryKind, OnEmpty, MaxValues)>);
impl<P: StorageInstance, K: KeyGenerator, V: FullCodec, Q: QueryKindTrait<V, E>, E, M> StorageNMap<P, K, V, Q, E, M> {
	pub fn pallet_prefix() -> &'static [u8] { P::pallet_prefix().as_bytes() } pub fn storage_prefix() -> &'static [u8] { P::STORAGE_PREFIX.as_bytes() } pub fn final_prefix() -> [u8; 32] { base::<P>().try_into().unwrap() }
	pub fn hashed_key_for<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(a: A) -> Vec<u8> { let mut b = base::<P>(); b.extend(K::join(&a.parts())); b }
	fn put_opt(k: &[u8], v: Option<V>) { match v { Some(v) => unhashed::put(k, &v), None => unhashed::kill(k) } }
	pub fn contains_key<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(a: A) -> bool { unhashed::exists(&Self::hashed_key_for(a)) }
	pub fn get<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(a: A) -> Q::Query { Q::from_opt(unhashed::get(&Self::hashed_key_for(a))) }
	pub fn try_get<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(a: A) -> Result<V, ()> { unhashed::get(&Self::hashed_key_for(a)).ok_or(()) }
	pub fn insert<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, B: EncodeLike<V>>(a: A, v: B) { unhashed::put(&Self::hashed_key_for(a), &v) }
	pub fn remove<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(a: A) { unhashed::kill(&Self::hashed_key_for(a)) }
	pub fn take<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter>(a: A) -> Q::Query { Q::from_opt(unhashed::take(&Self::hashed_key_for(a))) }
	pub fn mutate<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, F: FnOnce(&mut Q::Query) -> R>(a: A, f: F) -> R { let k = Self::hashed_key_for(a); let mut v = Q::from_opt(unhashed::get(&k)); let r = f(&mut v); Self::put_opt(&k, Q::into_opt(v)); r }
	pub fn try_mutate<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, Er, F: FnOnce(&mut Q::Query) -> Result<R, Er>>(a: A, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(a); let mut v = Q::from_opt(unhashed::get(&k)); let r = f(&mut v); if r.is_ok() { Self::put_opt(&k, Q::into_opt(v)) } r }
	pub fn mutate_exists<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, F: FnOnce(&mut Option<V>) -> R>(a: A, f: F) -> R { let k = Self::hashed_key_for(a); let mut v = unhashed::get(&k); let r = f(&mut v); Self::put_opt(&k, v); r }
	pub fn try_mutate_exists<A: EncodeLikeTuple<K::KArg> + TupleToEncodedIter, R, Er, F: FnOnce(&mut Option<V>) -> Result<R, Er>>(a: A, f: F) -> Result<R, Er> { let k = Self::hashed_key_for(a); let mut v = unhashed::get(&k); let r = f(&mut v); if r.is_ok() { Self::put_opt(&k, v) } r }
	pub fn iter() -> PrefixIterator<(K::Key, V)> { PrefixIterator::new(base::<P>(), base::<P>(), |k, v| Ok((K::split(k)?, V::decode(&mut &v[..])?))) }
	pub fn iter_keys() -> KeyPrefixIterator<K::Key> { KeyPrefixIterator::new(base::<P>(), base::<P>(), |k| K::split(k)) }
	pub fn iter_values() -> PrefixIterator<V> { PrefixIterator::new(base::<P>(), base::<P>(), |_, v| V::decode(&mut &v[..])) }
	pub fn iter_prefix<KP: TupleToEncodedIter>(kp: KP) -> PrefixIterator<(K::Suffix, V)> where K: HasKeyPrefix<KP> { let mut p = base::<P>(); p.extend(K::partial(&kp.parts())); PrefixIterator::new(p.clone(), p, |k, v| Ok((K::split_suffix(k)?, V::decode(&mut &v[..])?))) }
	pub fn iter_key_prefix<KP: TupleToEncodedIter>(kp: KP) -> KeyPrefixIterator<K::Suffix> where K: HasKeyPrefix<KP> { let mut p = base::<P>(); p.extend(K::partial(&kp.parts())); KeyPrefixIterator::new(p.clone(), p, |k| K::split_suffix(k)) }
	pub fn iter_prefix_values<KP: TupleToEncodedIter>(kp: KP) -> PrefixIterator<V> where K: HasKeyPrefix<KP> { let mut p = base::<P>(); p.extend(K::partial(&kp.parts())); PrefixIterator::new(p.clone(), p, |_, v| V::decode(&mut &v[..])) }
	pub fn clear(l: u32, _: Option<&[u8]>) -> sp_io::MultiRemovalResults { sp_io::storage::clear_prefix(&base::<P>(), Some(l)) }
	pub fn drain() -> PrefixIterator<(K::Key, V)> { Self::iter().drain() }
}
