//! `std` as the verifier sees it: everything is re-exported from the real `std` except
//! `collections::{HashMap, BTreeMap, HashSet}`, which become association lists.
//!
//! ASSUMED CONTRACT of the real maps: finite maps keyed by `Eq` (resp. `Ord`) equality;
//! `HashMap` iteration order is unspecified (here: insertion order, or reversed when
//! the harness sets `collections::REVERSED`).
pub use std::*;

pub mod collections {
	pub use std::collections::*;
	pub use self::hash_map::HashMap;
	pub use self::btree_map::BTreeMap;
	pub use self::hash_set::HashSet;

	pub mod hash_set {
		/// Elements pairwise distinct.
		#[derive(Debug)]
		pub struct HashSet<T> { pub elements: Vec<T> }
		impl<T> HashSet<T> {
			pub fn new() -> Self { HashSet { elements: Vec::new() } }
			pub fn len(&self) -> usize { self.elements.len() }
			pub fn is_empty(&self) -> bool { self.elements.is_empty() }
			pub fn clear(&mut self) { self.elements.clear() }
		}
		impl<T: Eq> HashSet<T> {
			pub fn contains(&self, t: &T) -> bool {
				let mut i = 0;
				while i < self.elements.len() { if self.elements[i] == *t { return true; } i += 1; }
				false
			}
			pub fn insert(&mut self, t: T) -> bool { if self.contains(&t) { false } else { self.elements.push(t); true } }
		}
		impl<T> Default for HashSet<T> { fn default() -> Self { Self::new() } }
	}

	pub mod hash_map {
		use std::{borrow::Borrow, fmt, iter::FromIterator, ops::Index};

		pub struct HashMap<K, V> { pub entries: Vec<(K, V)> }

		pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
		pub struct OccupiedEntry<'a, K, V> { entry: &'a mut (K, V) }
		pub struct VacantEntry<'a, K, V> { key: K, map: &'a mut HashMap<K, V> }
		impl<'a, K, V> OccupiedEntry<'a, K, V> {
			pub fn get(&self) -> &V { &self.entry.1 }
			pub fn get_mut(&mut self) -> &mut V { &mut self.entry.1 }
			pub fn into_mut(self) -> &'a mut V { &mut self.entry.1 }
			pub fn key(&self) -> &K { &self.entry.0 }
			pub fn insert(&mut self, v: V) -> V { std::mem::replace(&mut self.entry.1, v) }
		}
		impl<'a, K, V> VacantEntry<'a, K, V> {
			pub fn key(&self) -> &K { &self.key }
			pub fn insert(self, v: V) -> &'a mut V {
				self.map.entries.push((self.key, v));
				let n = self.map.entries.len();
				&mut self.map.entries[n - 1].1
			}
		}
		impl<'a, K, V> Entry<'a, K, V> {
			pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
			pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
		}

		impl<K, V> HashMap<K, V> {
			pub fn new() -> Self { HashMap { entries: Vec::new() } }
			pub fn with_capacity(_: usize) -> Self { Self::new() }
			pub fn len(&self) -> usize { self.entries.len() }
			pub fn is_empty(&self) -> bool { self.entries.is_empty() }
			pub fn clear(&mut self) { self.entries.clear() }
			pub fn iter(&self) -> Iter<'_, K, V> { Iter(self.entries.iter()) }
			pub fn keys(&self) -> impl Iterator<Item = &K> + '_ { self.entries.iter().map(|e| &e.0) }
			pub fn values(&self) -> impl Iterator<Item = &V> + '_ { self.entries.iter().map(|e| &e.1) }
			pub fn drain(&mut self) -> std::vec::Drain<'_, (K, V)> { self.entries.drain(..) }
		}
		impl<K: Eq, V> HashMap<K, V> {
			fn find<Q: ?Sized + Eq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
				let mut i = 0;
				while i < self.entries.len() {
					if self.entries[i].0.borrow() == k { return Some(i); }
					i += 1;
				}
				None
			}
			pub fn get<Q: ?Sized + Eq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(&self.entries[i].1), None => None } }
			pub fn get_mut<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(&mut self.entries[i].1), None => None } }
			pub fn contains_key<Q: ?Sized + Eq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
			pub fn insert(&mut self, k: K, v: V) -> Option<V> {
				match self.find(&k) {
					Some(i) => Some(std::mem::replace(&mut self.entries[i].1, v)),
					None => { self.entries.push((k, v)); None }
				}
			}
			pub fn remove<Q: ?Sized + Eq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { match self.find(k) { Some(i) => Some(self.entries.remove(i).1), None => None } }
			pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
				match self.find(&k) {
					Some(i) => Entry::Occupied(OccupiedEntry { entry: &mut self.entries[i] }),
					None => Entry::Vacant(VacantEntry { key: k, map: self }),
				}
			}
		}
		pub struct Iter<'a, K, V>(std::slice::Iter<'a, (K, V)>);
		impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<(&'a K, &'a V)> { self.0.next().map(|e| (&e.0, &e.1)) } }
		impl<K, V> Default for HashMap<K, V> { fn default() -> Self { Self::new() } }
		impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for HashMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
		impl<K: Eq, V: PartialEq> PartialEq for HashMap<K, V> {
			fn eq(&self, o: &Self) -> bool {
				self.len() == o.len() && self.iter().all(|(k, v)| match o.get(k) { Some(w) => *v == *w, None => false })
			}
		}
		impl<K: Eq, V: Eq> Eq for HashMap<K, V> {}
		impl<K: Eq, V> FromIterator<(K, V)> for HashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut m = Self::new(); for (k, v) in i { m.insert(k, v); } m } }
		impl<K: Eq, V> Extend<(K, V)> for HashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
		impl<K, V> IntoIterator for HashMap<K, V> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.entries.into_iter() } }
		impl<'a, K, V> IntoIterator for &'a HashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
		impl<K: Eq, V> Index<&K> for HashMap<K, V> { type Output = V; fn index(&self, k: &K) -> &V { self.get(k).expect("no entry found for key") } }
		impl<K: Eq, V, const N: usize> From<[(K, V); N]> for HashMap<K, V> { fn from(a: [(K, V); N]) -> Self { std::iter::IntoIterator::into_iter(a).collect() } }
	}

	pub mod btree_map {
		use std::{cmp::Ordering, hash::{Hash, Hasher}, iter::FromIterator, fmt};

		/// Entries kept sorted by key, keys pairwise distinct.
		pub struct BTreeMap<K, V> { pub entries: Vec<(K, V)> }
		impl<K, V> BTreeMap<K, V> {
			pub fn new() -> Self { BTreeMap { entries: Vec::new() } }
			pub fn len(&self) -> usize { self.entries.len() }
			pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> + '_ { self.entries.iter().map(|e| (&e.0, &e.1)) }
		}
		impl<K: Ord, V> BTreeMap<K, V> {
			pub fn insert(&mut self, k: K, v: V) -> Option<V> {
				let mut i = 0;
				while i < self.entries.len() {
					match k.cmp(&self.entries[i].0) {
						Ordering::Less => { self.entries.insert(i, (k, v)); return None; }
						Ordering::Equal => return Some(std::mem::replace(&mut self.entries[i].1, v)),
						Ordering::Greater => i += 1,
					}
				}
				self.entries.push((k, v));
				None
			}
		}
		impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut m = Self::new(); for (k, v) in i { m.insert(k, v); } m } }
		impl<K: PartialEq, V: PartialEq> PartialEq for BTreeMap<K, V> { fn eq(&self, o: &Self) -> bool { self.entries == o.entries } }
		impl<K: Eq, V: Eq> Eq for BTreeMap<K, V> {}
		impl<K: PartialOrd, V: PartialOrd> PartialOrd for BTreeMap<K, V> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.entries.partial_cmp(&o.entries) } }
		impl<K: Ord, V: Ord> Ord for BTreeMap<K, V> { fn cmp(&self, o: &Self) -> Ordering { self.entries.cmp(&o.entries) } }
		impl<K: Hash, V: Hash> Hash for BTreeMap<K, V> {
			fn hash<H: Hasher>(&self, s: &mut H) { s.write_usize(self.entries.len()); for e in &self.entries { e.hash(s); } }
		}
		impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for BTreeMap<K, V> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.debug_map().entries(self.iter()).finish() } }
		impl<K, V> Default for BTreeMap<K, V> { fn default() -> Self { Self::new() } }
		impl<K, V> IntoIterator for BTreeMap<K, V> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.entries.into_iter() } }
	}
}

/// ASSUMED CONTRACT of `thread_local!` as hush uses it: immutable lazily built constants.
pub struct LocalKey<T: 'static>(pub fn() -> T);
impl<T> LocalKey<T> {
	pub fn with<R, F: FnOnce(&T) -> R>(&'static self, f: F) -> R {
		let v = std::mem::ManuallyDrop::new((self.0)());
		f(&v)
	}
}
#[macro_export]
macro_rules! thread_local {
	($($(#[$a:meta])* $vis:vis static $name:ident : $t:ty = $e:expr);* $(;)?) => {
		$($(#[$a])* $vis static $name: $crate::LocalKey<$t> = { fn init() -> $t { $e } $crate::LocalKey(init) };)*
	};
}
