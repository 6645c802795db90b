//! Stands in for the `rpds` crate, which is not available offline: persistent maps by sharing a whole `BTreeMap`.

use std::borrow::Borrow;
use std::collections::{btree_map, BTreeMap};
use std::ops::Index;
use std::sync::Arc;

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct RedBlackTreeMapSync<K, V> {
    map: Arc<BTreeMap<K, V>>,
}

pub type RedBlackTreeMap<K, V> = RedBlackTreeMapSync<K, V>;

impl<K, V> Clone for RedBlackTreeMapSync<K, V> {
    fn clone(&self) -> Self {
        Self { map: self.map.clone() }
    }
}

impl<K, V> Default for RedBlackTreeMapSync<K, V> {
    fn default() -> Self {
        Self { map: Arc::default() }
    }
}

impl<K: Ord, V> RedBlackTreeMapSync<K, V> {
    pub fn new_sync() -> Self {
        Self::default()
    }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.map.get(k)
    }
    pub fn get_key_value<Q: Ord + ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.map.get_key_value(k)
    }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(k)
    }
    pub fn size(&self) -> usize {
        self.map.len()
    }
    pub fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    pub fn iter(&self) -> btree_map::Iter<'_, K, V> {
        self.map.iter()
    }
    pub fn keys(&self) -> btree_map::Keys<'_, K, V> {
        self.map.keys()
    }
    pub fn values(&self) -> btree_map::Values<'_, K, V> {
        self.map.values()
    }
    pub fn first(&self) -> Option<(&K, &V)> {
        self.map.first_key_value()
    }
    pub fn last(&self) -> Option<(&K, &V)> {
        self.map.last_key_value()
    }
    pub fn range<Q: Ord + ?Sized, R: std::ops::RangeBounds<Q>>(&self, r: R) -> btree_map::Range<'_, K, V>
    where
        K: Borrow<Q>,
    {
        self.map.range(r)
    }
}

impl<K: Ord + Clone, V: Clone> RedBlackTreeMapSync<K, V> {
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        Arc::make_mut(&mut self.map).get_mut(k)
    }
    pub fn insert_mut(&mut self, k: K, v: V) {
        // Unlike `BTreeMap`, the crate replaces the key too.
        let m = Arc::make_mut(&mut self.map);
        m.remove(&k);
        m.insert(k, v);
    }
    pub fn remove_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.map.contains_key(k) && Arc::make_mut(&mut self.map).remove(k).is_some()
    }
    #[must_use]
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut m = self.clone();
        m.insert_mut(k, v);
        m
    }
    #[must_use]
    pub fn remove<Q: Ord + ?Sized>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut m = self.clone();
        m.remove_mut(k);
        m
    }
}

impl<K: Ord, V, Q: Ord + ?Sized> Index<&Q> for RedBlackTreeMapSync<K, V>
where
    K: Borrow<Q>,
{
    type Output = V;
    fn index(&self, k: &Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

impl<K: Ord, V> FromIterator<(K, V)> for RedBlackTreeMapSync<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        Self { map: Arc::new(it.into_iter().collect()) }
    }
}

impl<'a, K: Ord, V> IntoIterator for &'a RedBlackTreeMapSync<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = btree_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter {
        self.map.iter()
    }
}
