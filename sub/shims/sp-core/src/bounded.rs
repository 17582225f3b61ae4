//! Collections with an upper bound on their length.
use crate::Get;
use codec::{Compact, Decode, DecodeLength, Encode, EncodeLike, Error, Input, MaxEncodedLen, Output};
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;
use std::ops::Deref;

pub mod alloc { pub use std::vec; }
#[macro_export]
macro_rules! bounded_vec {
	($ ($values:expr),* $(,)?) => { { $crate::bounded::try_vec(vec![$($values),*]) } };
	( $value:expr ; $repetition:expr ) => { { $crate::bounded::try_vec(vec![$value; $repetition]) } };
}
pub fn try_vec<T, S: Get<u32>>(v: Vec<T>) -> BoundedVec<T, S> { match BoundedVec::try_from(v) { Ok(x) => x, Err(_) => panic!("bounded_vec: bound exceeded") } }

macro_rules! vec_like { ($n:ident) => {
	pub struct $n<T, S>(Vec<T>, PhantomData<S>);
	impl<T, S> $n<T, S> {
		pub fn into_inner(self) -> Vec<T> { self.0 }
		pub fn as_slice(&self) -> &[T] { &self.0 }
		pub fn as_mut_slice(&mut self) -> &mut [T] { &mut self.0 }
		pub fn remove(&mut self, i: usize) -> T { self.0.remove(i) }
		pub fn swap_remove(&mut self, i: usize) -> T { self.0.swap_remove(i) }
		pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.0.retain(f) }
		pub fn pop(&mut self) -> Option<T> { self.0.pop() }
		pub fn clear(&mut self) { self.0.clear() }
		pub fn truncate(&mut self, n: usize) { self.0.truncate(n) }
		pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> { self.0.iter_mut() }
		pub fn last_mut(&mut self) -> Option<&mut T> { self.0.last_mut() }
		pub fn first_mut(&mut self) -> Option<&mut T> { self.0.first_mut() }
		pub fn get_mut<I: std::slice::SliceIndex<[T]>>(&mut self, i: I) -> Option<&mut <I as std::slice::SliceIndex<[T]>>::Output> { self.0.get_mut(i) }
		pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> std::vec::Drain<'_, T> { self.0.drain(r) }
		pub fn sort(&mut self) where T: Ord { self.0.sort() }
		pub fn sort_by<F: FnMut(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) { self.0.sort_by(f) }
		pub fn sort_by_key<K: Ord, F: FnMut(&T) -> K>(&mut self, f: F) { self.0.sort_by_key(f) }
		pub fn reverse(&mut self) { self.0.reverse() }
		pub fn len(&self) -> usize { self.0.len() }
		pub fn is_empty(&self) -> bool { self.0.is_empty() }
		#[allow(dead_code)] fn unchecked_from(v: Vec<T>) -> Self { $n(v, PhantomData) }
	}
	impl<T, S: Get<u32>> $n<T, S> {
		pub fn new() -> Self { $n(Vec::new(), PhantomData) }
		pub fn bound() -> usize { S::get() as usize }
		pub fn with_bounded_capacity(_: usize) -> Self { Self::new() }
		pub fn is_full(&self) -> bool { self.0.len() >= Self::bound() }
		pub fn try_push(&mut self, e: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.push(e); Ok(()) } else { Err(e) } }
		pub fn try_insert(&mut self, i: usize, e: T) -> Result<(), T> { if self.0.len() < Self::bound() { self.0.insert(i, e); Ok(()) } else { Err(e) } }
		pub fn force_push(&mut self, e: T) { self.try_push(e).map_err(|_| "bound exceeded").unwrap() }
		pub fn try_extend(&mut self, w: impl IntoIterator<Item = T> + ExactSizeIterator) -> Result<(), ()> { if self.0.len() + w.len() > Self::bound() { Err(()) } else { self.0.extend(w); Ok(()) } }
		pub fn try_append(&mut self, o: &mut Vec<T>) -> Result<(), ()> { if self.0.len() + o.len() > Self::bound() { Err(()) } else { self.0.append(o); Ok(()) } }
		pub fn try_mutate(mut self, mut f: impl FnMut(&mut Vec<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then_some(self) }
		pub fn try_collect<I: IntoIterator<Item = T>>(i: I) -> Result<Self, ()> { Self::try_from(i.into_iter().collect::<Vec<_>>()).map_err(|_| ()) }
		pub fn truncate_from(mut v: Vec<T>) -> Self { v.truncate(Self::bound()); $n(v, PhantomData) }
		pub fn slide(&mut self, _: usize, _: usize) -> bool { unimplemented!() }
	}
	impl<T, S: Get<u32>> TryFrom<Vec<T>> for $n<T, S> { type Error = Vec<T>; fn try_from(v: Vec<T>) -> Result<Self, Vec<T>> { if v.len() <= Self::bound() { Ok($n(v, PhantomData)) } else { Err(v) } } }
	impl<T, S> From<$n<T, S>> for Vec<T> { fn from(v: $n<T, S>) -> Vec<T> { v.0 } }
	impl<T, S> Deref for $n<T, S> { type Target = Vec<T>; fn deref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsRef<Vec<T>> for $n<T, S> { fn as_ref(&self) -> &Vec<T> { &self.0 } }
	impl<T, S> AsRef<[T]> for $n<T, S> { fn as_ref(&self) -> &[T] { &self.0 } }
	impl<T, S> AsMut<[T]> for $n<T, S> { fn as_mut(&mut self) -> &mut [T] { &mut self.0 } }
	impl<T: Clone, S> Clone for $n<T, S> { fn clone(&self) -> Self { $n(self.0.clone(), PhantomData) } }
	impl<T, S> Default for $n<T, S> { fn default() -> Self { $n(Vec::new(), PhantomData) } }
	impl<T: std::fmt::Debug, S> std::fmt::Debug for $n<T, S> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.debug_tuple(stringify!($n)).field(&self.0).finish() } }
	impl<T: PartialEq, S, S2> PartialEq<$n<T, S2>> for $n<T, S> { fn eq(&self, o: &$n<T, S2>) -> bool { self.0 == o.0 } }
	impl<T: PartialEq, S> PartialEq<Vec<T>> for $n<T, S> { fn eq(&self, o: &Vec<T>) -> bool { &self.0 == o } }
	impl<T: PartialEq, S> PartialEq<&[T]> for $n<T, S> { fn eq(&self, o: &&[T]) -> bool { &self.0.as_slice() == o } }
	impl<T: Eq, S> Eq for $n<T, S> {}
	impl<T: PartialOrd, S> PartialOrd for $n<T, S> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
	impl<T: Ord, S> Ord for $n<T, S> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
	impl<T: std::hash::Hash, S> std::hash::Hash for $n<T, S> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.0.hash(h) } }
	impl<T, S, I: std::slice::SliceIndex<[T]>> std::ops::Index<I> for $n<T, S> { type Output = I::Output; fn index(&self, i: I) -> &I::Output { self.0.index(i) } }
	impl<T, S, I: std::slice::SliceIndex<[T]>> std::ops::IndexMut<I> for $n<T, S> { fn index_mut(&mut self, i: I) -> &mut I::Output { self.0.index_mut(i) } }
	impl<T, S> IntoIterator for $n<T, S> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
	impl<'a, T, S> IntoIterator for &'a $n<T, S> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter() } }
	impl<'a, T, S> IntoIterator for &'a mut $n<T, S> { type Item = &'a mut T; type IntoIter = std::slice::IterMut<'a, T>; fn into_iter(self) -> Self::IntoIter { self.0.iter_mut() } }
	impl<T: Encode, S> Encode for $n<T, S> { fn size_hint(&self) -> usize { self.0.size_hint() } fn encode_to<W: Output + ?Sized>(&self, w: &mut W) { self.0.encode_to(w) } }
	impl<T: Encode, S: Get<u32>> EncodeLike<Vec<T>> for $n<T, S> {}
	impl<T: Encode, S: Get<u32>> EncodeLike for $n<T, S> {}
	impl<T, S> DecodeLength for $n<T, S> { fn len(b: &[u8]) -> Result<usize, Error> { <Compact<u32>>::decode(&mut &b[..]).map(|x| x.0 as usize) } }
	impl<T: MaxEncodedLen, S: Get<u32>> MaxEncodedLen for $n<T, S> { fn max_encoded_len() -> usize { Compact(S::get()).encode().len().saturating_add((S::get() as usize).saturating_mul(T::max_encoded_len())) } }
	impl<T: scale_info::TypeInfo + 'static, S: 'static> scale_info::TypeInfo for $n<T, S> { type Identity = Vec<T>; fn type_info() -> scale_info::Type { <Vec<T> as scale_info::TypeInfo>::type_info() } }
	impl<T: serde::Serialize, S> serde::Serialize for $n<T, S> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(z) } }
	impl<'de, T: serde::Deserialize<'de>, S: Get<u32>> serde::Deserialize<'de> for $n<T, S> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let v = Vec::<T>::deserialize(d)?; Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds")) } }
}; }
vec_like!(BoundedVec);
vec_like!(WeakBoundedVec);
impl<T: Decode, S: Get<u32>> Decode for BoundedVec<T, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let v = Vec::<T>::decode(i)?; if v.len() > S::get() as usize { return Err("BoundedVec exceeds its limit".into()); } Ok(BoundedVec(v, PhantomData)) } }
impl<T: Decode, S: Get<u32>> Decode for WeakBoundedVec<T, S> { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { Ok(WeakBoundedVec(Vec::<T>::decode(i)?, PhantomData)) } }
impl<T, S: Get<u32>> WeakBoundedVec<T, S> { pub fn force_from(v: Vec<T>, _: Option<&'static str>) -> Self { WeakBoundedVec(v, PhantomData) } }
pub struct BoundedSlice<'a, T, S>(pub &'a [T], PhantomData<S>);
impl<'a, T, S: Get<u32>> TryFrom<&'a [T]> for BoundedSlice<'a, T, S> { type Error = &'a [T]; fn try_from(t: &'a [T]) -> Result<Self, &'a [T]> { if t.len() <= S::get() as usize { Ok(BoundedSlice(t, PhantomData)) } else { Err(t) } } }
impl<'a, T: Encode, S: Get<u32>> EncodeLike<BoundedVec<T, S>> for BoundedSlice<'a, T, S> {}
impl<'a, T: Encode, S> Encode for BoundedSlice<'a, T, S> { fn encode_to<W: Output + ?Sized>(&self, w: &mut W) { self.0.encode_to(w) } }
impl<T: Encode, S: Get<u32>> EncodeLike<BoundedVec<T, S>> for Vec<T> {}

macro_rules! map_like { ($n:ident, $inner:ident, [$($k:ident),*]) => {
	impl<$($k,)* S> $n<$($k,)* S> { pub fn into_inner(self) -> $inner<$($k),*> { self.0 } }
	impl<$($k,)* S> Deref for $n<$($k,)* S> { type Target = $inner<$($k),*>; fn deref(&self) -> &Self::Target { &self.0 } }
	impl<$($k: Clone,)* S> Clone for $n<$($k,)* S> { fn clone(&self) -> Self { $n(self.0.clone(), PhantomData) } }
	impl<$($k,)* S> Default for $n<$($k,)* S> { fn default() -> Self { $n($inner::new(), PhantomData) } }
	impl<$($k: std::fmt::Debug,)* S> std::fmt::Debug for $n<$($k,)* S> { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.debug_tuple(stringify!($n)).field(&self.0).finish() } }
	impl<$($k: PartialEq,)* S> PartialEq for $n<$($k,)* S> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
	impl<$($k: PartialEq,)* S> PartialEq<$inner<$($k),*>> for $n<$($k,)* S> { fn eq(&self, o: &$inner<$($k),*>) -> bool { &self.0 == o } }
	impl<$($k: Eq,)* S> Eq for $n<$($k,)* S> {}
	impl<$($k: PartialOrd,)* S> PartialOrd for $n<$($k,)* S> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
	impl<$($k: Ord,)* S> Ord for $n<$($k,)* S> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(&o.0) } }
	impl<$($k,)* S> Encode for $n<$($k,)* S> where $inner<$($k),*>: Encode { fn encode_to<W: Output + ?Sized>(&self, w: &mut W) { self.0.encode_to(w) } }
	impl<$($k,)* S> EncodeLike for $n<$($k,)* S> where $inner<$($k),*>: Encode {}
	impl<$($k,)* S: Get<u32>> Decode for $n<$($k,)* S> where $inner<$($k),*>: Decode { fn decode<I: Input>(i: &mut I) -> Result<Self, Error> { let v = $inner::<$($k),*>::decode(i)?; if v.len() > S::get() as usize { return Err("exceeds its limit".into()); } Ok($n(v, PhantomData)) } }
	impl<$($k: MaxEncodedLen,)* S: Get<u32>> MaxEncodedLen for $n<$($k,)* S> { fn max_encoded_len() -> usize { (S::get() as usize).saturating_mul(0usize $(+ $k::max_encoded_len())*).saturating_add(Compact(S::get()).encode().len()) } }
	impl<$($k: scale_info::TypeInfo + 'static,)* S: 'static> scale_info::TypeInfo for $n<$($k,)* S> { type Identity = $inner<$($k),*>; fn type_info() -> scale_info::Type { <$inner<$($k),*> as scale_info::TypeInfo>::type_info() } }
	impl<$($k,)* S: Get<u32>> TryFrom<$inner<$($k),*>> for $n<$($k,)* S> { type Error = (); fn try_from(v: $inner<$($k),*>) -> Result<Self, ()> { if v.len() <= S::get() as usize { Ok($n(v, PhantomData)) } else { Err(()) } } }
	impl<$($k,)* S> serde::Serialize for $n<$($k,)* S> where $inner<$($k),*>: serde::Serialize { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.serialize(z) } }
	impl<'de, $($k,)* S: Get<u32>> serde::Deserialize<'de> for $n<$($k,)* S> where $inner<$($k),*>: serde::Deserialize<'de> { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> { let v = $inner::<$($k),*>::deserialize(d)?; Self::try_from(v).map_err(|_| serde::de::Error::custom("out of bounds")) } }
	impl<'a, $($k,)* S> IntoIterator for &'a $n<$($k,)* S> where &'a $inner<$($k),*>: IntoIterator { type Item = <&'a $inner<$($k),*> as IntoIterator>::Item; type IntoIter = <&'a $inner<$($k),*> as IntoIterator>::IntoIter; fn into_iter(self) -> Self::IntoIter { (&self.0).into_iter() } }
	impl<$($k,)* S> IntoIterator for $n<$($k,)* S> { type Item = <$inner<$($k),*> as IntoIterator>::Item; type IntoIter = <$inner<$($k),*> as IntoIterator>::IntoIter; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
}; }
pub struct BoundedBTreeMap<K, V, S>(BTreeMap<K, V>, PhantomData<S>);
pub struct BoundedBTreeSet<T, S>(BTreeSet<T>, PhantomData<S>);
map_like!(BoundedBTreeMap, BTreeMap, [K, V]);
map_like!(BoundedBTreeSet, BTreeSet, [T]);
impl<K: Ord, V, S: Get<u32>> BoundedBTreeMap<K, V, S> {
	pub fn new() -> Self { Self(BTreeMap::new(), PhantomData) }
	pub fn bound() -> usize { S::get() as usize }
	pub fn clear(&mut self) { self.0.clear() }
	pub fn get_mut(&mut self, k: &K) -> Option<&mut V> { self.0.get_mut(k) }
	pub fn remove(&mut self, k: &K) -> Option<V> { self.0.remove(k) }
	pub fn iter_mut(&mut self) -> std::collections::btree_map::IterMut<'_, K, V> { self.0.iter_mut() }
	pub fn values_mut(&mut self) -> std::collections::btree_map::ValuesMut<'_, K, V> { self.0.values_mut() }
	pub fn try_insert(&mut self, k: K, v: V) -> Result<Option<V>, (K, V)> { if self.0.len() < Self::bound() || self.0.contains_key(&k) { Ok(self.0.insert(k, v)) } else { Err((k, v)) } }
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeMap<K, V>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then_some(self) }
	pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, f: F) { self.0.retain(f) }
}
impl<T: Ord, S: Get<u32>> BoundedBTreeSet<T, S> {
	pub fn new() -> Self { Self(BTreeSet::new(), PhantomData) }
	pub fn bound() -> usize { S::get() as usize }
	pub fn clear(&mut self) { self.0.clear() }
	pub fn remove<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool where T: std::borrow::Borrow<Q> { self.0.remove(k) }
	pub fn try_insert(&mut self, v: T) -> Result<bool, T> { if self.0.len() < Self::bound() || self.0.contains(&v) { Ok(self.0.insert(v)) } else { Err(v) } }
	pub fn try_mutate(mut self, mut f: impl FnMut(&mut BTreeSet<T>)) -> Option<Self> { f(&mut self.0); (self.0.len() <= Self::bound()).then_some(self) }
}
