//! Concrete key types; the specification only sees their index in the session's universe.
use crate::track::Tk;
use serde::Serialize;
use std::any::Any;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

thread_local! {
    static UNI: RefCell<Option<Box<dyn Any>>> = const { RefCell::new(None) };
}
pub struct Uni<K> {
    pub ix: HashMap<K, i64>,
    pub keys: Vec<K>,
}
pub trait Key: Clone + Eq + Ord + Hash + Debug + Serialize + 'static {
    /// Debug output of this key type is recorded by the tracker
    const LOGS: bool = false;
    const TRACKED: bool = false;
    fn parse(s: &str) -> Self;
    fn from_json(s: &str) -> Option<Self> {
        Some(Self::parse(s))
    }
    fn nth(i: i64) -> Self {
        UNI.with(|u| u.borrow().as_ref().unwrap().downcast_ref::<Uni<Self>>().unwrap().keys[i as usize].clone())
    }
    fn id(&self) -> i64 {
        UNI.with(|u| {
            *u.borrow().as_ref().unwrap().downcast_ref::<Uni<Self>>().unwrap().ix.get(self).unwrap_or(&-1)
        })
    }
    fn set_universe(v: &[String]) {
        let keys: Vec<Self> = v.iter().map(|s| Self::parse(s)).collect();
        let ix: HashMap<Self, i64> = keys.iter().cloned().enumerate().map(|(i, k)| (k, i as i64)).collect();
        assert_eq!(ix.len(), keys.len(), "universe is not injective");
        UNI.with(|u| *u.borrow_mut() = Some(Box::new(Uni { ix, keys })));
    }
}
#[macro_export]
macro_rules! num_key {
    ($($t:ty),*) => {$(
        impl $crate::key::Key for $t {
            fn parse(s: &str) -> Self { s.parse().unwrap() }
            fn from_json(s: &str) -> Option<Self> { s.parse().ok() }
        }
    )*};
}
num_key!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);
num_key!(
    std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroUsize,
    std::num::NonZeroI8, std::num::NonZeroI16, std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroIsize
);
impl Key for String {
    fn parse(s: &str) -> Self { s.into() }
}
impl Key for Box<str> {
    fn parse(s: &str) -> Self { s.into() }
}
impl Key for &'static str {
    fn parse(s: &str) -> Self { Box::leak(Box::<str>::from(s)) }
}
impl Key for Tk {
    const LOGS: bool = true;
    const TRACKED: bool = true;
    fn parse(s: &str) -> Self { Tk::new(s.parse().unwrap()) }
    fn nth(i: i64) -> Self { Tk::new(i) }
    fn id(&self) -> i64 { self.get() }
    fn set_universe(_: &[String]) {}
}

/// A query form that is not the key type itself but equivalent to it.
#[repr(transparent)]
pub struct Eqv<K>(pub K);
impl<K> Eqv<K> {
    pub fn of(k: &K) -> &Eqv<K> {
        // SAFETY: repr(transparent)
        unsafe { &*(k as *const K as *const Eqv<K>) }
    }
}
impl<K: Hash> Hash for Eqv<K> {
    fn hash<H: Hasher>(&self, h: &mut H) { self.0.hash(h) }
}
impl<K: PartialEq> PartialEq for Eqv<K> {
    fn eq(&self, o: &Self) -> bool { self.0 == o.0 }
}
impl<K: Eq> Eq for Eqv<K> {}
impl<K: PartialOrd> PartialOrd for Eqv<K> {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { self.0.partial_cmp(&o.0) }
}
impl<K: Ord> Ord for Eqv<K> {
    fn cmp(&self, o: &Self) -> Ordering { self.0.cmp(&o.0) }
}
impl<K: Clone> Clone for Eqv<K> {
    fn clone(&self) -> Self { Eqv(self.0.clone()) }
}
impl<K: Copy> Copy for Eqv<K> {}
#[macro_export]
macro_rules! eqv {
    ($($t:ty),*) => {$(
        impl equivalent::Equivalent<$t> for $crate::key::Eqv<$t> {
            fn equivalent(&self, k: &$t) -> bool { self.0 == *k }
        }
        impl equivalent::Comparable<$t> for $crate::key::Eqv<$t> {
            fn compare(&self, k: &$t) -> std::cmp::Ordering { self.0.cmp(k) }
        }
    )*};
}
eqv!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, String, Box<str>, &'static str, Tk);
eqv!(
    std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroUsize,
    std::num::NonZeroI8, std::num::NonZeroI16, std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroIsize
);
impl<K: frozen_collections_core::traits::Scalar> frozen_collections_core::traits::Scalar for Eqv<K> {
    fn index(&self) -> usize { self.0.index() }
}
