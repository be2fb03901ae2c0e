//! Association list with the interface of a hash map (verification stand-in)
use std::borrow::Borrow;
use std::hash::Hash;
use std::iter::FromIterator;
#[derive(Debug, Clone)]
pub struct FxHashMap<K, V> { items: Vec<(K, V)> }
impl<K, V> Default for FxHashMap<K, V> { fn default() -> Self { FxHashMap { items: Vec::new() } } }
impl<K: PartialEq, V: PartialEq> PartialEq for FxHashMap<K, V> { fn eq(&self, o: &Self) -> bool { self.items == o.items } }
impl<K: Eq + Hash, V> FxHashMap<K, V> {
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        for item in self.items.iter_mut() {
            if item.0 == k { return Some(std::mem::replace(&mut item.1, v)); }
        }
        self.items.push((k, v));
        None
    }
    pub fn get<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        for item in self.items.iter() { if item.0.borrow() == k { return Some(&item.1); } }
        None
    }
    pub fn get_mut<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        for item in self.items.iter_mut() { if item.0.borrow() == k { return Some(&mut item.1); } }
        None
    }
    pub fn contains_key<Q: ?Sized + Eq + Hash>(&self, k: &Q) -> bool where K: Borrow<Q> { self.get(k).is_some() }
    pub fn remove<Q: ?Sized + Eq + Hash>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        let mut i = 0;
        while i < self.items.len() { if self.items[i].0.borrow() == k { return Some(self.items.remove(i).1); } i += 1; }
        None
    }
    pub fn reserve(&mut self, n: usize) { self.items.reserve(n) }
    pub fn with_capacity_and_hasher<H>(_n: usize, _h: H) -> Self { Self::default() }
    pub fn with_hasher<H>(_h: H) -> Self { Self::default() }
}
impl<K, V> FxHashMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_n: usize) -> Self { Self::default() }
    pub fn len(&self) -> usize { self.items.len() }
    pub fn is_empty(&self) -> bool { self.items.is_empty() }
    pub fn clear(&mut self) { self.items.clear() }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { inner: self.items.iter() } }
    pub fn keys(&self) -> impl Iterator<Item = &K> { self.items.iter().map(|i| &i.0) }
    pub fn values(&self) -> impl Iterator<Item = &V> { self.items.iter().map(|i| &i.1) }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> { self.items.iter_mut().map(|i| &mut i.1) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> { self.items.iter_mut().map(|i| (&i.0, &mut i.1)) }
}
pub struct Iter<'a, K, V> { inner: std::slice::Iter<'a, (K, V)> }
impl<'a, K, V> Iterator for Iter<'a, K, V> { type Item = (&'a K, &'a V); fn next(&mut self) -> Option<Self::Item> { self.inner.next().map(|i| (&i.0, &i.1)) } }
impl<'a, K, V> IntoIterator for &'a FxHashMap<K, V> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<K, V> IntoIterator for FxHashMap<K, V> { type Item = (K, V); type IntoIter = std::vec::IntoIter<(K, V)>; fn into_iter(self) -> Self::IntoIter { self.items.into_iter() } }
impl<K: Eq + Hash, V> FromIterator<(K, V)> for FxHashMap<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); for (k, v) in it { m.insert(k, v); } m } }
impl<K: Eq + Hash, V> Extend<(K, V)> for FxHashMap<K, V> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } } }
impl<K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V> std::ops::Index<&Q> for FxHashMap<K, V> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry") } }
