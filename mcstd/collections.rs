//! Hash collections with a deterministic, seedable iteration order.
use real::borrow::Borrow;
pub use real::collections::*;
use real::fmt;
use real::hash::{BuildHasher, Hash};
use real::iter::{Extend, FromIterator, IntoIterator, Iterator};
use real::ops::{Deref, DerefMut, Index};
use real::prelude::rust_2021::*;

#[derive(Clone, Debug)]
pub struct McState(u64);
impl Default for McState {
	fn default() -> Self {
		McState(crate::mc::hash_seed())
	}
}
impl BuildHasher for McState {
	type Hasher = real::hash::DefaultHasher;
	fn build_hasher(&self) -> Self::Hasher {
		use real::hash::Hasher;
		let mut h = real::hash::DefaultHasher::new();
		h.write_u64(self.0);
		h
	}
}

pub struct HashMap<K, V, S = McState>(real::collections::HashMap<K, V, S>);
pub struct HashSet<K, S = McState>(real::collections::HashSet<K, S>);

impl<K, V> HashMap<K, V, McState> {
	pub fn new() -> Self {
		HashMap(real::collections::HashMap::with_hasher(McState::default()))
	}
	pub fn with_capacity(n: usize) -> Self {
		HashMap(real::collections::HashMap::with_capacity_and_hasher(
			n,
			McState::default(),
		))
	}
}
impl<K, V, S> HashMap<K, V, S> {
	pub fn with_hasher(s: S) -> Self {
		HashMap(real::collections::HashMap::with_hasher(s))
	}
	pub fn with_capacity_and_hasher(n: usize, s: S) -> Self {
		HashMap(real::collections::HashMap::with_capacity_and_hasher(n, s))
	}
	pub fn into_keys(self) -> real::collections::hash_map::IntoKeys<K, V> {
		self.0.into_keys()
	}
	pub fn into_values(self) -> real::collections::hash_map::IntoValues<K, V> {
		self.0.into_values()
	}
}
impl<K, V, S> Deref for HashMap<K, V, S> {
	type Target = real::collections::HashMap<K, V, S>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<K, V, S> DerefMut for HashMap<K, V, S> {
	fn deref_mut(&mut self) -> &mut Self::Target {
		&mut self.0
	}
}
impl<K, V, S: Default> Default for HashMap<K, V, S> {
	fn default() -> Self {
		HashMap(real::collections::HashMap::with_hasher(S::default()))
	}
}
impl<K: Clone, V: Clone, S: Clone> Clone for HashMap<K, V, S> {
	fn clone(&self) -> Self {
		HashMap(self.0.clone())
	}
}
impl<K: fmt::Debug, V: fmt::Debug, S> fmt::Debug for HashMap<K, V, S> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: Eq + Hash, V: PartialEq, S: BuildHasher> PartialEq for HashMap<K, V, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq + Hash, V: Eq, S: BuildHasher> Eq for HashMap<K, V, S> {}
impl<K: Eq + Hash, V, S: BuildHasher + Default> FromIterator<(K, V)> for HashMap<K, V, S> {
	fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
		HashMap(real::collections::HashMap::from_iter(i))
	}
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, McState> {
	fn from(a: [(K, V); N]) -> Self {
		Self::from_iter(a)
	}
}
impl<K: Eq + Hash, V, S: BuildHasher> Extend<(K, V)> for HashMap<K, V, S> {
	fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) {
		self.0.extend(i)
	}
}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
	type Item = (K, V);
	type IntoIter = real::collections::hash_map::IntoIter<K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> {
	type Item = (&'a K, &'a V);
	type IntoIter = real::collections::hash_map::Iter<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> {
	type Item = (&'a K, &'a mut V);
	type IntoIter = real::collections::hash_map::IterMut<'a, K, V>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter_mut()
	}
}
impl<K: Eq + Hash + Borrow<Q>, Q: Eq + Hash + ?Sized, V, S: BuildHasher> Index<&Q>
	for HashMap<K, V, S>
{
	type Output = V;
	fn index(&self, k: &Q) -> &V {
		&self.0[k]
	}
}

impl<K> HashSet<K, McState> {
	pub fn new() -> Self {
		HashSet(real::collections::HashSet::with_hasher(McState::default()))
	}
	pub fn with_capacity(n: usize) -> Self {
		HashSet(real::collections::HashSet::with_capacity_and_hasher(
			n,
			McState::default(),
		))
	}
}
impl<K, S> HashSet<K, S> {
	pub fn with_hasher(s: S) -> Self {
		HashSet(real::collections::HashSet::with_hasher(s))
	}
}
impl<K, S> Deref for HashSet<K, S> {
	type Target = real::collections::HashSet<K, S>;
	fn deref(&self) -> &Self::Target {
		&self.0
	}
}
impl<K, S> DerefMut for HashSet<K, S> {
	fn deref_mut(&mut self) -> &mut Self::Target {
		&mut self.0
	}
}
impl<K, S: Default> Default for HashSet<K, S> {
	fn default() -> Self {
		HashSet(real::collections::HashSet::with_hasher(S::default()))
	}
}
impl<K: Clone, S: Clone> Clone for HashSet<K, S> {
	fn clone(&self) -> Self {
		HashSet(self.0.clone())
	}
}
impl<K: fmt::Debug, S> fmt::Debug for HashSet<K, S> {
	fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
		self.0.fmt(f)
	}
}
impl<K: Eq + Hash, S: BuildHasher> PartialEq for HashSet<K, S> {
	fn eq(&self, o: &Self) -> bool {
		self.0 == o.0
	}
}
impl<K: Eq + Hash, S: BuildHasher> Eq for HashSet<K, S> {}
impl<K: Eq + Hash, S: BuildHasher + Default> FromIterator<K> for HashSet<K, S> {
	fn from_iter<I: IntoIterator<Item = K>>(i: I) -> Self {
		HashSet(real::collections::HashSet::from_iter(i))
	}
}
impl<K: Eq + Hash, const N: usize> From<[K; N]> for HashSet<K, McState> {
	fn from(a: [K; N]) -> Self {
		Self::from_iter(a)
	}
}
impl<K: Eq + Hash, S: BuildHasher> Extend<K> for HashSet<K, S> {
	fn extend<I: IntoIterator<Item = K>>(&mut self, i: I) {
		self.0.extend(i)
	}
}
impl<K, S> IntoIterator for HashSet<K, S> {
	type Item = K;
	type IntoIter = real::collections::hash_set::IntoIter<K>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.into_iter()
	}
}
impl<'a, K, S> IntoIterator for &'a HashSet<K, S> {
	type Item = &'a K;
	type IntoIter = real::collections::hash_set::Iter<'a, K>;
	fn into_iter(self) -> Self::IntoIter {
		self.0.iter()
	}
}
