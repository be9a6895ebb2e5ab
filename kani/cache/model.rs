//! Stand-in for std::collections::HashMap in the C21 proofs: its contract with the state of an
//! arbitrary map. The keys a proof touches are tracked exactly; whether and with what value a
//! freshly touched key is present in an arbitrary map is unconstrained, and the entries that are
//! never touched are only counted. So one proof covers maps of every size and content.
#![allow(dead_code)]

pub const SLOTS: usize = 4;
/// when set, a new map has any content instead of none
pub static mut ARBITRARY: bool = false;

#[derive(Debug, Clone, Copy)]
struct Slot<K, V> {
    key: K,
    val: Option<V>,
}
#[derive(Debug)]
pub struct HashMap<K, V> {
    // interior mutability: looking at an arbitrary map decides what it holds
    slots: std::cell::RefCell<[Option<Slot<K, V>>; SLOTS]>,
    rest: std::cell::Cell<usize>,
}
pub mod hash_map {
    pub use super::{Entry, HashMap, OccupiedEntry, VacantEntry};
}

/// values the proofs can conjure
pub trait Any: Copy {
    fn any() -> Self;
}
impl Any for (f64, f64) {
    fn any() -> Self {
        (kani::any(), kani::any())
    }
}
impl Any for (f64, f64, f64, f64) {
    fn any() -> Self {
        (kani::any(), kani::any(), kani::any(), kani::any())
    }
}

impl<K: Copy + PartialEq, V: Any> HashMap<K, V> {
    pub fn new() -> Self {
        let n: usize = if unsafe { ARBITRARY } { kani::any() } else { 0 };
        kani::assume(n < 1 << 40);
        HashMap { slots: std::cell::RefCell::new([None; SLOTS]), rest: std::cell::Cell::new(n) }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
    /// the slot of this key, tracking it from now on
    fn slot(&self, k: &K) -> usize {
        let mut s = self.slots.borrow_mut();
        let mut i = 0;
        while i < SLOTS {
            match &s[i] {
                Some(e) => {
                    if e.key == *k {
                        return i;
                    }
                }
                None => {
                    let n = self.rest.get();
                    let there: bool = kani::any();
                    kani::assume(!there || n > 0);
                    if there {
                        self.rest.set(n - 1);
                    }
                    s[i] = Some(Slot { key: *k, val: if there { Some(V::any()) } else { None } });
                    return i;
                }
            }
            i += 1;
        }
        panic!("model: too many keys")
    }
    fn cell(&mut self, k: &K) -> &mut Slot<K, V> {
        let i = self.slot(k);
        self.slots.get_mut()[i].as_mut().unwrap()
    }
    fn view(&self, k: &K) -> Option<&V> {
        let i = self.slot(k);
        // no slot is overwritten while the map is borrowed
        unsafe { (*self.slots.as_ptr())[i].as_ref().unwrap().val.as_ref() }
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        self.view(k)
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        self.cell(k).val.as_mut()
    }
    pub fn get_key_value<'a>(&'a self, k: &'a K) -> Option<(&'a K, &'a V)> {
        self.view(k).map(|v| (k, v))
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.view(k).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        self.cell(&k).val.replace(v)
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        self.cell(k).val.take()
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        let s = self.cell(&k);
        if s.val.is_some() {
            Entry::Occupied(OccupiedEntry(s))
        } else {
            Entry::Vacant(VacantEntry(s))
        }
    }
    pub fn len(&self) -> usize {
        let s = self.slots.borrow();
        let mut n = self.rest.get();
        let mut i = 0;
        while i < SLOTS {
            if let Some(e) = &s[i] {
                if e.val.is_some() {
                    n += 1;
                }
            }
            i += 1;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn clear(&mut self) {
        self.rest.set(0);
        let s = self.slots.get_mut();
        let mut i = 0;
        while i < SLOTS {
            if let Some(e) = &mut s[i] {
                e.val = None;
            }
            i += 1;
        }
    }
    pub fn capacity(&self) -> usize {
        let c: usize = kani::any();
        kani::assume(c >= self.len());
        c
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _: usize) {}
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let n = self.rest.get();
        let s = self.slots.get_mut();
        let mut i = 0;
        while i < SLOTS {
            if let Some(e) = &mut s[i] {
                if let Some(v) = &mut e.val {
                    if !f(&e.key, v) {
                        e.val = None;
                    }
                }
            }
            i += 1;
        }
        // the entries that are not tracked: any number of them may go
        let left: usize = kani::any();
        kani::assume(left <= n);
        self.rest.set(left);
    }
}
impl<K: Copy + PartialEq, V: Any> Default for HashMap<K, V> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Copy + PartialEq, V: Any> Clone for HashMap<K, V> {
    fn clone(&self) -> Self {
        HashMap { slots: std::cell::RefCell::new(*self.slots.borrow()), rest: self.rest.clone() }
    }
}
impl<K: Copy + PartialEq, V: Any + PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, _: &Self) -> bool {
        kani::any()
    }
}
impl<K: Copy + PartialEq, V: Any> std::ops::Index<&K> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &K) -> &V {
        self.get(k).expect("no entry found for key")
    }
}
pub enum Entry<'a, K, V> {
    Occupied(OccupiedEntry<'a, K, V>),
    Vacant(VacantEntry<'a, K, V>),
}
pub struct OccupiedEntry<'a, K, V>(&'a mut Slot<K, V>);
pub struct VacantEntry<'a, K, V>(&'a mut Slot<K, V>);
impl<'a, K, V> Entry<'a, K, V> {
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => e.insert(f()),
        }
    }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(e) => e.into_mut(),
            Entry::Vacant(e) => {
                let v = f(&e.0.key);
                e.insert(v)
            }
        }
    }
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(e) = &mut self {
            f(e.get_mut())
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(e) => &e.0.key,
            Entry::Vacant(e) => &e.0.key,
        }
    }
}
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V {
        self.0.val.as_ref().unwrap()
    }
    pub fn get_mut(&mut self) -> &mut V {
        self.0.val.as_mut().unwrap()
    }
    pub fn into_mut(self) -> &'a mut V {
        self.0.val.as_mut().unwrap()
    }
    pub fn insert(&mut self, v: V) -> V {
        self.0.val.replace(v).unwrap()
    }
    pub fn remove(self) -> V {
        self.0.val.take().unwrap()
    }
    pub fn key(&self) -> &K {
        &self.0.key
    }
}
impl<'a, K, V> VacantEntry<'a, K, V> {
    pub fn insert(self, v: V) -> &'a mut V {
        self.0.val = Some(v);
        self.0.val.as_mut().unwrap()
    }
    pub fn key(&self) -> &K {
        &self.0.key
    }
}
