//! Stand-in for `elsa`: append-only maps on the standard hash map (whose iteration order depends on
//! the process's hash seed, as in the original).
use std::cell::UnsafeCell;
use std::collections::hash_map::RandomState;
use std::collections::{BTreeMap, HashMap};
use std::hash::Hash;
use std::ops::Deref;

/// # Safety
/// The target must not move when the value moves.
pub unsafe trait StableDeref: Deref {}
unsafe impl<T> StableDeref for Vec<T> {}
unsafe impl StableDeref for String {}
unsafe impl<T: ?Sized> StableDeref for Box<T> {}
unsafe impl<T: ?Sized> StableDeref for std::sync::Arc<T> {}
unsafe impl<T: ?Sized> StableDeref for std::rc::Rc<T> {}
unsafe impl<T: ?Sized> StableDeref for &T {}

pub struct FrozenMap<K, V, S = RandomState> {
    map: UnsafeCell<HashMap<K, V, S>>,
}
impl<K: Eq + Hash, V> FrozenMap<K, V> {
    pub fn new() -> Self {
        Self { map: UnsafeCell::new(HashMap::new()) }
    }
    pub fn len(&self) -> usize {
        unsafe { &*self.map.get() }.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
impl<K: Eq + Hash, V: StableDeref> FrozenMap<K, V> {
    pub fn insert(&self, k: K, v: V) -> &V::Target {
        let m = unsafe { &mut *self.map.get() };
        &**m.entry(k).or_insert(v)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V::Target>
    where
        K: std::borrow::Borrow<Q>,
    {
        unsafe { &*self.map.get() }.get(k).map(|v| &**v)
    }
}
impl<K: Eq + Hash, V> FrozenMap<K, V> {
    pub fn map_get<Q: ?Sized + Hash + Eq, T>(&self, k: &Q, f: impl FnOnce(&V) -> T) -> Option<T>
    where
        K: std::borrow::Borrow<Q>,
    {
        unsafe { &*self.map.get() }.get(k).map(f)
    }
    pub fn into_map(self) -> HashMap<K, V> {
        self.map.into_inner()
    }
    pub fn as_mut(&mut self) -> &mut HashMap<K, V> {
        self.map.get_mut()
    }
    pub fn keys_cloned(&self) -> Vec<K>
    where
        K: Clone,
    {
        unsafe { &*self.map.get() }.keys().cloned().collect()
    }
}
impl<K: Eq + Hash, V> Default for FrozenMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone, S: Clone> Clone for FrozenMap<K, V, S> {
    fn clone(&self) -> Self {
        Self { map: UnsafeCell::new(unsafe { &*self.map.get() }.clone()) }
    }
}
impl<K: Eq + Hash, V> From<HashMap<K, V>> for FrozenMap<K, V> {
    fn from(m: HashMap<K, V>) -> Self {
        Self { map: UnsafeCell::new(m) }
    }
}

pub struct FrozenBTreeMap<K, V>(UnsafeCell<BTreeMap<K, V>>);
impl<K: Ord, V: StableDeref> FrozenBTreeMap<K, V> {
    pub fn new() -> Self {
        Self(UnsafeCell::new(BTreeMap::new()))
    }
    pub fn insert(&self, k: K, v: V) -> &V::Target {
        &**unsafe { &mut *self.0.get() }.entry(k).or_insert(v)
    }
    pub fn get(&self, k: &K) -> Option<&V::Target> {
        unsafe { &*self.0.get() }.get(k).map(|v| &**v)
    }
    pub fn map_get<T>(&self, k: &K, f: impl FnOnce(&V) -> T) -> Option<T> {
        unsafe { &*self.0.get() }.get(k).map(f)
    }
    pub fn into_map(self) -> BTreeMap<K, V> {
        self.0.into_inner()
    }
}
impl<K: Ord, V: StableDeref> Default for FrozenBTreeMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone> Clone for FrozenBTreeMap<K, V> {
    fn clone(&self) -> Self {
        Self(UnsafeCell::new(unsafe { &*self.0.get() }.clone()))
    }
}
pub mod map {
    pub use super::{FrozenBTreeMap, FrozenMap};
}
