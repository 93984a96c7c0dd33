//! CONTRACT MODEL of `dashmap::DashMap` 4.0.2, as far as membership goes: the map is an
//! arbitrary set of 32-bit keys that does not change. Everything else is outside the model.
use std::borrow::Borrow;
use std::collections::hash_map::RandomState;
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;

#[cold]
fn limit() -> ! {
    panic!("MODEL-LIMIT: outside the contract model of `dashmap`");
}

/// Whether a key is in the map; set by the harness.
pub static mut MEMBER: fn(u32) -> bool = unknown;
fn unknown(_: u32) -> bool {
    limit()
}

pub struct DashMap<K, V, S = RandomState>(PhantomData<(K, V, S)>);

unsafe impl<K: Send, V: Send, S> Send for DashMap<K, V, S> {}
unsafe impl<K: Send + Sync, V: Send + Sync, S> Sync for DashMap<K, V, S> {}

impl<K: Eq + Hash, V> DashMap<K, V, RandomState> {
    pub fn new() -> Self {
        DashMap(PhantomData)
    }
    pub fn with_capacity(_: usize) -> Self {
        DashMap(PhantomData)
    }
}
impl<K: Eq + Hash, V> Default for DashMap<K, V, RandomState> {
    fn default() -> Self {
        DashMap(PhantomData)
    }
}
impl<K, V, S> fmt::Debug for DashMap<K, V, S> {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        limit()
    }
}

/// A reference to an element; its value is not modelled.
pub struct Ref<'a, K, V>(PhantomData<(&'a K, &'a V)>);
impl<'a, K, V> std::ops::Deref for Ref<'a, K, V> {
    type Target = V;
    fn deref(&self) -> &V {
        limit()
    }
}

impl<K: Eq + Hash, V, S> DashMap<K, V, S> {
    /// ensures result == key in self@
    pub fn contains_key<Q>(&self, key: &Q) -> bool
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        if std::mem::size_of::<Q>() != 4 {
            limit()
        }
        unsafe { MEMBER(*(key as *const Q as *const u32)) }
    }
    /// ensures result is Some iff key in self@
    pub fn get<Q>(&self, key: &Q) -> Option<Ref<'_, K, V>>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        if self.contains_key(key) {
            Some(Ref(PhantomData))
        } else {
            None
        }
    }
    pub fn insert(&self, _: K, _: V) -> Option<V> {
        limit()
    }
    pub fn remove<Q>(&self, _: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
        Q: Hash + Eq,
    {
        limit()
    }
    pub fn len(&self) -> usize {
        limit()
    }
    pub fn is_empty(&self) -> bool {
        limit()
    }
    pub fn clear(&self) {
        limit()
    }
}
