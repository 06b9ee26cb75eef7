//! Stands in for rpds: a sorted map whose clones are independent.
use std::borrow::Borrow;
use std::sync::Arc;

pub struct RedBlackTreeMapSync<K, V>(Arc<Vec<Arc<(K, V)>>>);
impl<K, V> Default for RedBlackTreeMapSync<K, V> {
    fn default() -> Self {
        RedBlackTreeMapSync(Arc::new(vec![]))
    }
}
impl<K, V> Clone for RedBlackTreeMapSync<K, V> {
    fn clone(&self) -> Self {
        RedBlackTreeMapSync(self.0.clone())
    }
}
impl<K: std::fmt::Debug, V: std::fmt::Debug> std::fmt::Debug for RedBlackTreeMapSync<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_map().entries(self.0.iter().map(|e| (&e.0, &e.1))).finish()
    }
}
impl<K: Ord, V> RedBlackTreeMapSync<K, V> {
    pub fn new_sync() -> Self {
        Self::default()
    }
    fn at<Q: Ord + ?Sized>(&self, k: &Q) -> Result<usize, usize>
    where
        K: Borrow<Q>,
    {
        for (n, e) in self.0.iter().enumerate() {
            match e.0.borrow().cmp(k) {
                std::cmp::Ordering::Less => (),
                std::cmp::Ordering::Equal => return Ok(n),
                std::cmp::Ordering::Greater => return Err(n),
            }
        }
        Err(self.0.len())
    }
    pub fn get<Q: Ord + ?Sized>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.at(k).ok().map(|n| &self.0[n].1)
    }
    pub fn contains_key<Q: Ord + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.at(k).is_ok()
    }
    pub fn get_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q> + Clone,
        V: Clone,
    {
        let n = self.at(k).ok()?;
        Some(&mut Arc::make_mut(&mut Arc::make_mut(&mut self.0)[n]).1)
    }
    pub fn insert_mut(&mut self, k: K, v: V) {
        let at = self.at(&k);
        let e = Arc::new((k, v));
        let all = Arc::make_mut(&mut self.0);
        match at {
            Ok(n) => all[n] = e,
            Err(n) => all.insert(n, e),
        }
    }
    pub fn insert(&self, k: K, v: V) -> Self {
        let mut c = self.clone();
        c.insert_mut(k, v);
        c
    }
    pub fn remove_mut<Q: Ord + ?Sized>(&mut self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        match self.at(k) {
            Ok(n) => {
                Arc::make_mut(&mut self.0).remove(n);
                true
            }
            Err(_) => false,
        }
    }
    pub fn size(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.0.iter().map(|e| (&e.0, &e.1))
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.0.iter().map(|e| &e.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.0.iter().map(|e| &e.1)
    }
}
impl<'a, K, V> IntoIterator for &'a RedBlackTreeMapSync<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::iter::Map<std::slice::Iter<'a, Arc<(K, V)>>, fn(&'a Arc<(K, V)>) -> (&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter().map(|e| (&e.0, &e.1))
    }
}
impl<K: Ord, V> FromIterator<(K, V)> for RedBlackTreeMapSync<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(all: I) -> Self {
        let mut m = Self::default();
        for (k, v) in all {
            m.insert_mut(k, v);
        }
        m
    }
}
impl<K: Ord, V> RedBlackTreeMapSync<K, V> {
    pub fn remove<Q: Ord + ?Sized>(&self, k: &Q) -> Self
    where
        K: Borrow<Q>,
    {
        let mut c = self.clone();
        c.remove_mut(k);
        c
    }
    pub fn get_key_value<Q: Ord + ?Sized>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.at(k).ok().map(|n| (&self.0[n].0, &self.0[n].1))
    }
    pub fn first(&self) -> Option<(&K, &V)> {
        self.0.first().map(|e| (&e.0, &e.1))
    }
    pub fn last(&self) -> Option<(&K, &V)> {
        self.0.last().map(|e| (&e.0, &e.1))
    }
}
