//! Uniform, object-safe view of every map and set type under test.
use crate::key::Key;
use crate::track::{Tv, debug_log};
use frozen_collections_core::traits::{Len, Map, MapQuery, Set, SetExtras, SetIteration, SetQuery};
use std::any::Any;

pub type Item = Vec<i64>;

/* ------------------------------- iterators ------------------------------ */
pub trait DynIter {
    fn next(&mut self, nv: Option<i64>) -> Option<Item>;
    fn nth(&mut self, n: usize) -> Option<Item>;
    fn size(&self) -> (usize, Option<usize>);
    fn len(&self) -> Option<usize>;
    fn cl(&self) -> Option<BoxIter>;
    fn rest(self: Box<Self>, how: &str) -> Vec<Item>;
    fn count(self: Box<Self>) -> usize;
    fn last(self: Box<Self>) -> Option<Item>;
    fn dbg(&self) -> Option<Vec<(bool, i64)>>;
}
pub type BoxIter = Box<dyn DynIter>;

pub struct It<I: Iterator> {
    pub it: I,
    pub conv: fn(I::Item, Option<i64>) -> Item,
    pub cl: Option<fn(&I) -> I>,
    pub dbg: Option<fn(&I) -> String>,
    pub len: Option<fn(&I) -> usize>,
}
impl<I: Iterator> DynIter for It<I> {
    fn next(&mut self, nv: Option<i64>) -> Option<Item> {
        self.it.next().map(|x| (self.conv)(x, nv))
    }
    fn nth(&mut self, n: usize) -> Option<Item> {
        self.it.nth(n).map(|x| (self.conv)(x, None))
    }
    fn size(&self) -> (usize, Option<usize>) {
        self.it.size_hint()
    }
    fn len(&self) -> Option<usize> {
        self.len.map(|f| f(&self.it))
    }
    fn cl(&self) -> Option<BoxIter> {
        self.cl.map(|f| erase(It { it: f(&self.it), conv: self.conv, cl: self.cl, dbg: self.dbg, len: self.len }))
    }
    fn rest(self: Box<Self>, how: &str) -> Vec<Item> {
        let conv = self.conv;
        let mut it = self.it;
        let mut out = Vec::new();
        match how {
            "fold" => it.fold(Vec::new(), |mut a, x| {
                a.push(conv(x, None));
                a
            }),
            "each" => {
                it.for_each(|x| out.push(conv(x, None)));
                out
            }
            "collect" => it.map(|x| conv(x, None)).collect(),
            "nth" => {
                while let Some(x) = it.nth(0) {
                    out.push(conv(x, None));
                }
                out
            }
            "try" => {
                let mut it = it;
                let _: Option<()> = it.try_for_each(|x| {
                    out.push(conv(x, None));
                    Some(())
                });
                out
            }
            "peek" => {
                let mut it = it.peekable();
                while it.peek().is_some() {
                    out.push(conv(it.next().unwrap(), None));
                }
                out
            }
            "reduce" => it
                .map(|x| vec![conv(x, None)])
                .reduce(|mut a, mut b| {
                    a.append(&mut b);
                    a
                })
                .unwrap_or_default(),
            _ => {
                for x in it {
                    out.push(conv(x, None));
                }
                out
            }
        }
    }
    fn count(self: Box<Self>) -> usize {
        self.it.count()
    }
    fn last(self: Box<Self>) -> Option<Item> {
        let conv = self.conv;
        self.it.last().map(|x| conv(x, None))
    }
    fn dbg(&self) -> Option<Vec<(bool, i64)>> {
        self.dbg.map(|f| debug_log(|| f(&self.it)))
    }
}
pub fn erase<'a, I: Iterator + 'a>(it: It<I>) -> BoxIter {
    let b: Box<dyn DynIter + 'a> = Box::new(it);
    // SAFETY: plans only use an iterator while the collection it borrows is neither moved, dropped
    // nor mutably borrowed by anything else (the runner enforces it).
    unsafe { std::mem::transmute::<Box<dyn DynIter + 'a>, BoxIter>(b) }
}
pub fn c_kv<K: Key>(x: (&K, &Tv), _: Option<i64>) -> Item { vec![x.0.id(), x.1.get()] }
pub fn c_k<K: Key>(x: &K, _: Option<i64>) -> Item { vec![x.id()] }
pub fn c_v(x: &Tv, _: Option<i64>) -> Item { vec![x.get()] }
pub fn c_kvm<K: Key>(x: (&K, &mut Tv), nv: Option<i64>) -> Item {
    let r = vec![x.0.id(), x.1.get()];
    if let Some(v) = nv {
        *x.1 = Tv::new(if v < -1 { r[1] - 1 - v } else { v });
    }
    r
}
pub fn c_vm(x: &mut Tv, nv: Option<i64>) -> Item {
    let r = vec![x.get()];
    if let Some(v) = nv {
        *x = Tv::new(if v < -1 { r[0] - 1 - v } else { v });
    }
    r
}
pub fn c_okv<K: Key>(x: (K, Tv), _: Option<i64>) -> Item { vec![x.0.id(), x.1.get()] }
pub fn c_ok<K: Key>(x: K, _: Option<i64>) -> Item { vec![x.id()] }
pub fn c_ov(x: Tv, _: Option<i64>) -> Item { vec![x.get()] }

/// clone + debug + exact size
#[macro_export]
macro_rules! it_full {
    ($it:expr, $conv:expr) => {
        $crate::obj::erase($crate::obj::It {
            it: $it, conv: $conv,
            cl: Some(|x| x.clone()),
            dbg: Some(|x| format!("{x:?}")),
            len: Some(|x| ExactSizeIterator::len(x)),
        })
    };
}
#[macro_export]
macro_rules! it_nc {
    ($it:expr, $conv:expr) => {
        $crate::obj::erase($crate::obj::It {
            it: $it, conv: $conv, cl: None,
            dbg: Some(|x| format!("{x:?}")),
            len: Some(|x| ExactSizeIterator::len(x)),
        })
    };
}
#[macro_export]
macro_rules! it_op {
    ($it:expr, $conv:expr) => {
        $crate::obj::erase($crate::obj::It {
            it: $it, conv: $conv,
            cl: Some(|x| x.clone()),
            dbg: Some(|x| format!("{x:?}")),
            len: None,
        })
    };
}
fn it_bare<'a, I: Iterator + 'a>(it: I, conv: fn(I::Item, Option<i64>) -> Item) -> BoxIter {
    erase(It { it, conv, cl: None, dbg: None, len: None })
}

/* --------------------------------- maps --------------------------------- */
/// How a call is made.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Via {
    Inh,    // inherent method with the key type
    Alt,    // inherent method with another query form
    Tr,     // through the traits, statically
    Dyn,    // through a trait object
    TAlt,   // through the traits with another query form
    Unsafe, // get_disjoint_unchecked_mut (inherent)
    UnsafeTr,
    IntoRef, // IntoIterator for references
}
impl Via {
    pub fn parse(s: &str) -> Via {
        match s {
            "inh" => Via::Inh,
            "alt" => Via::Alt,
            "tr" => Via::Tr,
            "dyn" => Via::Dyn,
            "talt" => Via::TAlt,
            "unsafe" => Via::Unsafe,
            "unsafetr" => Via::UnsafeTr,
            "intoref" => Via::IntoRef,
            _ => panic!("unknown via {s}"),
        }
    }
}

#[macro_export]
macro_rules! dis_n {
    ($ks:expr, |$a:ident| $body:expr) => {
        {
            #[cfg(not(feature = "light"))]
            let r = $crate::dis_n!(@ $ks, |$a| $body, 0 1 2 3 4 5 6 7 8);
            #[cfg(feature = "light")]
            let r = $crate::dis_n!(@ $ks, |$a| $body, 0 1 2 3);
            r
        }
    };
    (more $ks:expr, |$a:ident| $body:expr) => {
        {
            #[cfg(not(feature = "light"))]
            let r = $crate::dis_n!(@ $ks, |$a| $body, 0 1 2 3 4 5 6 7 8 9 16 33);
            #[cfg(feature = "light")]
            let r = $crate::dis_n!(@ $ks, |$a| $body, 0 1 2 3);
            r
        }
    };
    (@ $ks:expr, |$a:ident| $body:expr, $($n:literal)*) => {
        match $ks.len() {
            $($n => {
                let $a: [_; $n] = std::array::from_fn(|i| $ks[i]);
                #[allow(unused_unsafe)]
                let r: [Option<&mut Tv>; $n] = $body;
                r.into_iter().collect::<Vec<_>>()
            })*
            _ => panic!("harness: too many keys"),
        }
    };
}

/// A map whose values take no space: one request for several values at once, and its size.
#[macro_export]
macro_rules! zero_sized {
    ($m:expr, $ks:expr) => {{
        let mut m = $m;
        let ks: Vec<_> = $ks;
        let n = m.len();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            $crate::zero_sized!(@ m, ks, 0 1 2 3 4 5)
        }));
        let all = m.values_mut().count();
        match r {
            Ok(r) => (n, all, false, r),
            Err(e) => { $crate::run::check_harness(&*e); (n, all, true, vec![]) }
        }
    }};
    (@ $m:ident, $ks:ident, $($n:literal)*) => {
        match $ks.len() {
            $($n => {
                let a: [_; $n] = std::array::from_fn(|i| &$ks[i]);
                $m.get_disjoint_mut(a).into_iter().map(|x| x.is_some()).collect::<Vec<bool>>()
            })*
            _ => panic!("harness: too many keys"),
        }
    };
}
/// The operation `zmap {ty, en, q}` with one constructor for each type.
#[macro_export]
macro_rules! zmap {
    ($k:ty, $a:expr, |$ks:ident| $($ty:literal => $m:expr),*) => {{
        let ints = |f: &str| $a[f].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect::<Vec<i64>>();
        let (en, q) = (ints("en"), ints("q"));
        let $ks: Vec<($k, ())> = en.iter().map(|i| (<$k>::nth(*i), ())).collect();
        let qs: Vec<$k> = q.iter().map(|i| <$k>::nth(*i)).collect();
        let ty = $a["ty"].as_str().unwrap();
        let (n, all, p, r) = match ty {
            $($ty => $crate::zero_sized!($m, qs),)*
            _ => panic!("harness: type {ty}"),
        };
        vec![serde_json::json!({"e": "zmap", "ty": ty, "en": en, "q": q, "n": n, "all": all, "p": p, "r": r})]
    }};
}

/// Calls that need the concrete type: inherent methods, alternative query forms, comparisons.
pub trait InhMap<K: Key>: Sized + 'static {
    fn i_get(&self, via: Via, k: &K) -> Option<&Tv>;
    fn i_get_mut(&mut self, via: Via, k: &K) -> Option<&mut Tv>;
    fn i_gkv(&self, via: Via, k: &K) -> Option<(&K, &Tv)>;
    fn i_has(&self, via: Via, k: &K) -> bool;
    fn i_idx(&self, via: Via, k: &K) -> &Tv;
    fn i_dis<'a>(&'a mut self, via: Via, ks: &[&K]) -> Vec<Option<&'a mut Tv>>;
    fn i_len(&self) -> (usize, bool);
    fn i_open(&self, via: Via, w: &str) -> BoxIter;
    fn i_open_mut(&mut self, via: Via, w: &str) -> BoxIter;
    fn i_open_own(self, w: &str) -> BoxIter;
    fn i_eq(&self, o: &DynMap<K>) -> Option<bool>;
    fn i_eq_same(&self, o: &Self) -> bool;
    fn i_dbg(&self) -> String;
    fn i_ser(&self, fmt: &str) -> Option<Result<crate::ser::Enc, String>>;
    fn i_probe(&self) -> Option<Option<usize>>;
}

pub trait MapObj<K: Key> {
    fn any(&self) -> &dyn Any;
    fn get(&self, via: Via, k: &K) -> Option<&Tv>;
    fn get_mut(&mut self, via: Via, k: &K) -> Option<&mut Tv>;
    fn gkv(&self, via: Via, k: &K) -> Option<(&K, &Tv)>;
    fn has(&self, via: Via, k: &K) -> bool;
    fn idx(&self, via: Via, k: &K) -> &Tv;
    fn dis<'a>(&'a mut self, via: Via, ks: &[&K]) -> Vec<Option<&'a mut Tv>>;
    fn len(&self, via: Via) -> (usize, bool);
    fn open(&self, via: Via, w: &str) -> BoxIter;
    fn open_mut(&mut self, via: Via, w: &str) -> BoxIter;
    fn open_own(self: Box<Self>, via: Via, w: &str) -> BoxIter;
    fn cl(&self) -> Box<dyn MapObj<K>>;
    fn eq(&self, o: &'static dyn MapObj<K>, same: bool) -> Option<bool>;
    fn dbg(&self) -> Vec<(bool, i64)>;
    fn ser(&self, fmt: &str) -> Option<Result<crate::ser::Enc, String>>;
    fn probe(&self) -> Option<Option<usize>>;
}

pub struct Gen<M>(pub M);
impl<K, M> MapObj<K> for Gen<M>
where
    K: Key,
    M: InhMap<K> + Map<K, Tv> + Clone + 'static,
{
    fn any(&self) -> &dyn Any { self }
    fn get(&self, via: Via, k: &K) -> Option<&Tv> {
        match via {
            Via::Tr => MapQuery::<K, Tv>::get(&self.0, k),
            Via::Dyn => (&self.0 as &dyn MapQuery<K, Tv>).get(k),
            _ => self.0.i_get(via, k),
        }
    }
    fn get_mut(&mut self, via: Via, k: &K) -> Option<&mut Tv> {
        match via {
            Via::Tr => MapQuery::<K, Tv>::get_mut(&mut self.0, k),
            Via::Dyn => (&mut self.0 as &mut dyn MapQuery<K, Tv>).get_mut(k),
            _ => self.0.i_get_mut(via, k),
        }
    }
    fn gkv(&self, via: Via, k: &K) -> Option<(&K, &Tv)> {
        match via {
            Via::Tr | Via::Dyn => frozen_collections_core::traits::MapExtras::<K, Tv, K>::get_key_value(&self.0, k),
            _ => self.0.i_gkv(via, k),
        }
    }
    fn has(&self, via: Via, k: &K) -> bool {
        match via {
            Via::Tr => MapQuery::<K, Tv>::contains_key(&self.0, k),
            Via::Dyn => (&self.0 as &dyn MapQuery<K, Tv>).contains_key(k),
            _ => self.0.i_has(via, k),
        }
    }
    fn idx(&self, via: Via, k: &K) -> &Tv { self.0.i_idx(via, k) }
    fn dis<'a>(&'a mut self, via: Via, ks: &[&K]) -> Vec<Option<&'a mut Tv>> {
        use frozen_collections_core::traits::MapExtras;
        match via {
            Via::Tr | Via::Dyn => dis_n!(more ks, |a| MapExtras::<K, Tv, K>::get_disjoint_mut(&mut self.0, a)),
            // SAFETY: plans request distinct keys here
            Via::UnsafeTr => dis_n!(ks, |a| unsafe { MapExtras::<K, Tv, K>::get_disjoint_unchecked_mut(&mut self.0, a) }),
            _ => self.0.i_dis(via, ks),
        }
    }
    fn len(&self, via: Via) -> (usize, bool) {
        match via {
            Via::Tr => (Len::len(&self.0), Len::is_empty(&self.0)),
            Via::Dyn => {
                let d = &self.0 as &dyn Len;
                (d.len(), d.is_empty())
            }
            _ => self.0.i_len(),
        }
    }
    fn open(&self, via: Via, w: &str) -> BoxIter {
        match (via, w) {
            (Via::Tr, "kv") => it_bare(self.0.iter(), c_kv::<K>),
            (Via::Tr, "k") => it_bare(self.0.keys(), c_k::<K>),
            (Via::Tr, "v") => it_bare(self.0.values(), c_v),
            _ => self.0.i_open(via, w),
        }
    }
    fn open_mut(&mut self, via: Via, w: &str) -> BoxIter {
        match (via, w) {
            (Via::Tr, "kv") => it_bare(self.0.iter_mut(), c_kvm::<K>),
            (Via::Tr, "v") => it_bare(self.0.values_mut(), c_vm),
            _ => self.0.i_open_mut(via, w),
        }
    }
    fn open_own(self: Box<Self>, via: Via, w: &str) -> BoxIter {
        match (via, w) {
            (Via::Tr, "kv") => it_bare(self.0.into_iter(), c_okv::<K>),
            (Via::Tr, "k") => it_bare(self.0.into_keys(), c_ok::<K>),
            (Via::Tr, "v") => it_bare(self.0.into_values(), c_ov),
            _ => self.0.i_open_own(w),
        }
    }
    fn cl(&self) -> Box<dyn MapObj<K>> { Box::new(Gen(self.0.clone())) }
    fn eq(&self, o: &'static dyn MapObj<K>, same: bool) -> Option<bool> {
        if same {
            o.any().downcast_ref::<Gen<M>>().map(|x| self.0.i_eq_same(&x.0))
        } else {
            self.0.i_eq(&DynMap(o))
        }
    }
    fn dbg(&self) -> Vec<(bool, i64)> { debug_log(|| self.0.i_dbg()) }
    fn ser(&self, fmt: &str) -> Option<Result<crate::ser::Enc, String>> { self.0.i_ser(fmt) }
    fn probe(&self) -> Option<Option<usize>> { self.0.i_probe() }
}

/// A map of unknown type as the right-hand side of a comparison.
pub struct DynMap<K: 'static>(pub &'static dyn MapObj<K>);
impl<K: Key> Len for DynMap<K> {
    fn len(&self) -> usize { self.0.len(Via::Tr).0 }
}
impl<K: Key> MapQuery<K, Tv> for DynMap<K> {
    fn get(&self, k: &K) -> Option<&Tv> { self.0.get(Via::Tr, k) }
    fn get_mut(&mut self, _: &K) -> Option<&mut Tv> { unimplemented!() }
    fn contains_key(&self, k: &K) -> bool { self.0.has(Via::Tr, k) }
}

/// Implements InhMap for one concrete map type.
/// `alt`: expression turning `&K` into the alternative query form of inherent methods;
/// `talt`: the same for trait methods; `eq`: whether it compares with other map types.
#[macro_export]
macro_rules! inh_map {
    ([$($g:tt)*] $m:ty, $k:ty, alt: |$a:ident| $alt:expr, talt: |$t:ident| $talt:expr, idxalt: $ia:ident, eq: $eq:ident) => {
        impl<$($g)*> $crate::obj::InhMap<$k> for $m {
            fn i_get(&self, via: Via, k: &$k) -> Option<&Tv> {
                match via {
                    Via::Alt => { let $a = k; self.get($alt) }
                    Via::TAlt => { let $t = k; MapQuery::get(self, $talt) }
                    _ => self.get(k),
                }
            }
            fn i_get_mut(&mut self, via: Via, k: &$k) -> Option<&mut Tv> {
                match via {
                    Via::Alt => { let $a = k; self.get_mut($alt) }
                    Via::TAlt => { let $t = k; MapQuery::get_mut(self, $talt) }
                    _ => self.get_mut(k),
                }
            }
            fn i_gkv(&self, via: Via, k: &$k) -> Option<(&$k, &Tv)> {
                match via {
                    Via::Alt => { let $a = k; self.get_key_value($alt) }
                    Via::TAlt => { let $t = k; MapExtras::get_key_value(self, $talt) }
                    _ => self.get_key_value(k),
                }
            }
            fn i_has(&self, via: Via, k: &$k) -> bool {
                match via {
                    Via::Alt => { let $a = k; self.contains_key($alt) }
                    Via::TAlt => { let $t = k; MapQuery::contains_key(self, $talt) }
                    _ => self.contains_key(k),
                }
            }
            fn i_idx(&self, via: Via, k: &$k) -> &Tv {
                match via {
                    Via::Alt => { $crate::inh_map!(@idx $ia self, k, $t, $talt) }
                    _ => &self[k],
                }
            }
            fn i_dis<'a>(&'a mut self, via: Via, ks: &[&$k]) -> Vec<Option<&'a mut Tv>> {
                match via {
                    Via::Alt => {
                        let ks: Vec<_> = ks.iter().map(|x| { let $a: &$k = *x; $alt }).collect();
                        $crate::dis_n!(ks, |a| self.get_disjoint_mut(a))
                    }
                    // SAFETY: plans request distinct keys here
                    Via::Unsafe => $crate::dis_n!(ks, |a| unsafe { self.get_disjoint_unchecked_mut(a) }),
                    _ => $crate::dis_n!(more ks, |a| self.get_disjoint_mut(a)),
                }
            }
            fn i_len(&self) -> (usize, bool) { (self.len(), self.is_empty()) }
            fn i_open(&self, via: Via, w: &str) -> $crate::obj::BoxIter {
                match (via, w) {
                    (Via::IntoRef, "kv") => $crate::it_full!(IntoIterator::into_iter(self), $crate::obj::c_kv::<$k>),
                    (_, "kv") => $crate::it_full!(self.iter(), $crate::obj::c_kv::<$k>),
                    (_, "k") => $crate::it_full!(self.keys(), $crate::obj::c_k::<$k>),
                    _ => $crate::it_full!(self.values(), $crate::obj::c_v),
                }
            }
            fn i_open_mut(&mut self, via: Via, w: &str) -> $crate::obj::BoxIter {
                match (via, w) {
                    (Via::IntoRef, "kv") => $crate::it_nc!(IntoIterator::into_iter(self), $crate::obj::c_kvm::<$k>),
                    (_, "kv") => $crate::it_nc!(self.iter_mut(), $crate::obj::c_kvm::<$k>),
                    _ => $crate::it_nc!(self.values_mut(), $crate::obj::c_vm),
                }
            }
            fn i_open_own(self, w: &str) -> $crate::obj::BoxIter {
                match w {
                    "kv" => $crate::it_nc!(IntoIterator::into_iter(self), $crate::obj::c_okv::<$k>),
                    "k" => $crate::it_nc!(self.into_keys(), $crate::obj::c_ok::<$k>),
                    _ => $crate::it_nc!(self.into_values(), $crate::obj::c_ov),
                }
            }
            #[allow(unused_variables)]
            fn i_eq(&self, o: &$crate::obj::DynMap<$k>) -> Option<bool> { $crate::inh_map!(@eq $eq self, o) }
            fn i_eq_same(&self, o: &Self) -> bool { *self == *o }
            fn i_dbg(&self) -> String { format!("{self:?}") }
            #[allow(unused_variables)]
            fn i_ser(&self, fmt: &str) -> Option<Result<$crate::ser::Enc, String>> { $crate::inh_set!(@ser $eq self, fmt) }
            fn i_probe(&self) -> Option<Option<usize>> { $crate::inh_set!(@probe $eq self) }
        }
    };
    (@eq yes $s:ident, $o:ident) => { Some(*$s == *$o) };
    (@eq no $s:ident, $o:ident) => { None };
    (@idx yes $s:ident, $k:ident, $t:ident, $talt:expr) => {{ let $t = $k; &$s[$talt] }};
    (@idx no $s:ident, $k:ident, $t:ident, $talt:expr) => { &$s[$k] };
}

/* --------------------------------- sets --------------------------------- */
pub trait CloneIter<'a, K: 'a>: Iterator<Item = &'a K> {
    fn cl(&self) -> Box<dyn CloneIter<'a, K> + 'a>;
}
impl<'a, K: 'a, I: Iterator<Item = &'a K> + Clone + 'a> CloneIter<'a, K> for I {
    fn cl(&self) -> Box<dyn CloneIter<'a, K> + 'a> { Box::new(self.clone()) }
}
pub struct BoxIt<'a, K: 'a>(pub Box<dyn CloneIter<'a, K> + 'a>);
impl<'a, K> Iterator for BoxIt<'a, K> {
    type Item = &'a K;
    fn next(&mut self) -> Option<&'a K> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<K> Clone for BoxIt<'_, K> {
    fn clone(&self) -> Self { BoxIt(self.0.cl()) }
}

pub trait InhSet<K: Key>: Sized + 'static {
    fn i_has(&self, via: Via, k: &K) -> bool;
    fn i_get(&self, via: Via, k: &K) -> Option<&K>;
    fn i_len(&self) -> (usize, bool);
    fn i_open(&self, via: Via) -> BoxIter;
    fn i_open_own(self) -> BoxIter;
    fn i_raw(&self) -> Box<dyn CloneIter<'_, K> + '_>;
    fn i_eq(&self, o: &DynSet<K>) -> Option<bool>;
    fn i_eq_same(&self, o: &Self) -> bool;
    fn i_dbg(&self) -> String;
    fn i_ser(&self, fmt: &str) -> Option<Result<crate::ser::Enc, String>>;
    fn i_probe(&self) -> Option<Option<usize>>;
    fn i_operator(&self, op: &str, o: &DynSet<K>) -> Option<Vec<Item>>;
}
pub trait SetObj<K: Key> {
    fn any(&self) -> &dyn Any;
    fn has(&self, via: Via, k: &K) -> bool;
    fn get(&self, via: Via, k: &K) -> Option<&K>;
    fn len(&self, via: Via) -> (usize, bool);
    fn open(&self, via: Via) -> BoxIter;
    fn open_own(self: Box<Self>, via: Via) -> BoxIter;
    fn raw(&self) -> Box<dyn CloneIter<'_, K> + '_>;
    fn cl(&self) -> Box<dyn SetObj<K>>;
    fn eq(&self, o: &'static dyn SetObj<K>, same: bool) -> Option<bool>;
    fn dbg(&self) -> Vec<(bool, i64)>;
    fn ser(&self, fmt: &str) -> Option<Result<crate::ser::Enc, String>>;
    fn probe(&self) -> Option<Option<usize>>;
    fn operator(&self, op: &str, o: &'static dyn SetObj<K>) -> Option<Vec<Item>>;
    fn rel(&self, op: &str, o: &'static dyn SetObj<K>, same: bool) -> bool;
    fn openop(&self, op: &str, o: &'static dyn SetObj<K>, same: bool) -> BoxIter;
}
fn rel_of<K, A: Set<K>, B: Set<K>>(op: &str, a: &A, b: &B) -> bool {
    use frozen_collections_core::traits::SetOps;
    match op {
        "sub" => SetOps::is_subset(a, b),
        "sup" => SetOps::is_superset(a, b),
        _ => SetOps::is_disjoint(a, b),
    }
}
fn op_of<K: Key, A: Set<K>, B: Set<K>>(op: &str, a: &A, b: &B) -> BoxIter
where
    for<'x> <A as SetIteration<K>>::Iterator<'x>: Clone,
    for<'x> <B as SetIteration<K>>::Iterator<'x>: Clone,
{
    use frozen_collections_core::traits::SetOps;
    match op {
        "union" => it_op!(SetOps::union(a, b), c_k::<K>),
        "inter" => it_op!(SetOps::intersection(a, b), c_k::<K>),
        "diff" => it_op!(SetOps::difference(a, b), c_k::<K>),
        _ => erase(It { it: SetOps::symmetric_difference(a, b), conv: c_k::<K>, cl: Some(|x| x.clone()), dbg: None, len: None }),
    }
}
impl<K, S> SetObj<K> for Gen<S>
where
    K: Key,
    S: InhSet<K> + Set<K> + Clone + 'static,
    for<'x> <S as SetIteration<K>>::Iterator<'x>: Clone,
{
    fn any(&self) -> &dyn Any { self }
    fn has(&self, via: Via, k: &K) -> bool {
        match via {
            Via::Tr => SetQuery::<K>::contains(&self.0, k),
            Via::Dyn => (&self.0 as &dyn SetQuery<K>).contains(k),
            _ => self.0.i_has(via, k),
        }
    }
    fn get(&self, via: Via, k: &K) -> Option<&K> {
        match via {
            Via::Tr => SetExtras::<K, K>::get(&self.0, k),
            Via::Dyn => (&self.0 as &dyn SetExtras<K, K>).get(k),
            _ => self.0.i_get(via, k),
        }
    }
    fn len(&self, via: Via) -> (usize, bool) {
        match via {
            Via::Tr => (Len::len(&self.0), Len::is_empty(&self.0)),
            Via::Dyn => {
                let d = &self.0 as &dyn Len;
                (d.len(), d.is_empty())
            }
            _ => self.0.i_len(),
        }
    }
    fn open(&self, via: Via) -> BoxIter {
        match via {
            Via::Tr => it_bare(SetIteration::iter(&self.0), c_k::<K>),
            _ => self.0.i_open(via),
        }
    }
    fn open_own(self: Box<Self>, via: Via) -> BoxIter {
        match via {
            Via::Tr => it_bare(IntoIterator::into_iter(self.0), c_ok::<K>),
            _ => self.0.i_open_own(),
        }
    }
    fn raw(&self) -> Box<dyn CloneIter<'_, K> + '_> { self.0.i_raw() }
    fn cl(&self) -> Box<dyn SetObj<K>> { Box::new(Gen(self.0.clone())) }
    fn eq(&self, o: &'static dyn SetObj<K>, same: bool) -> Option<bool> {
        if same {
            o.any().downcast_ref::<Gen<S>>().map(|x| self.0.i_eq_same(&x.0))
        } else {
            self.0.i_eq(&DynSet(o))
        }
    }
    fn dbg(&self) -> Vec<(bool, i64)> { debug_log(|| self.0.i_dbg()) }
    fn ser(&self, fmt: &str) -> Option<Result<crate::ser::Enc, String>> { self.0.i_ser(fmt) }
    fn probe(&self) -> Option<Option<usize>> { self.0.i_probe() }
    fn operator(&self, op: &str, o: &'static dyn SetObj<K>) -> Option<Vec<Item>> { self.0.i_operator(op, &DynSet(o)) }
    fn rel(&self, op: &str, o: &'static dyn SetObj<K>, same: bool) -> bool {
        match o.any().downcast_ref::<Gen<S>>() {
            Some(x) if same => rel_of(op, &self.0, &x.0),
            _ => rel_of(op, &self.0, &DynSet(o)),
        }
    }
    fn openop(&self, op: &str, o: &'static dyn SetObj<K>, same: bool) -> BoxIter {
        match o.any().downcast_ref::<Gen<S>>() {
            Some(x) if same => op_of(op, &self.0, &x.0),
            _ => op_of(op, &self.0, Box::leak(Box::new(DynSet(o)))),
        }
    }
}
/// A set of unknown type as the right-hand side of an operation.
pub struct DynSet<K: 'static>(pub &'static dyn SetObj<K>);
impl<K: Key> Len for DynSet<K> {
    fn len(&self) -> usize { self.0.len(Via::Tr).0 }
}
impl<K: Key> SetQuery<K> for DynSet<K> {
    fn contains(&self, k: &K) -> bool { self.0.has(Via::Tr, k) }
}
impl<K: Key> SetExtras<K, K> for DynSet<K> {
    fn get(&self, k: &K) -> Option<&K> { self.0.get(Via::Tr, k) }
}
impl<K: Key> IntoIterator for DynSet<K> {
    type Item = K;
    type IntoIter = std::vec::IntoIter<K>;
    fn into_iter(self) -> Self::IntoIter { unimplemented!() }
}
impl<K: Key> SetIteration<K> for DynSet<K> {
    type Iterator<'a> = BoxIt<'a, K>;
    fn iter(&self) -> BoxIt<'_, K> { BoxIt(self.0.raw()) }
}
impl<K: Key> Set<K, K> for DynSet<K> {}

#[macro_export]
macro_rules! inh_set {
    ([$($g:tt)*] $m:ty, $k:ty, alt: |$a:ident| $alt:expr, talt: |$t:ident| $talt:expr, eq: $eq:ident, ops: $ops:ident, ser: $ser:ident) => {
        impl<$($g)*> $crate::obj::InhSet<$k> for $m {
            fn i_has(&self, via: Via, k: &$k) -> bool {
                match via {
                    Via::Alt => { let $a = k; self.contains($alt) }
                    Via::TAlt => { let $t = k; SetQuery::contains(self, $talt) }
                    _ => self.contains(k),
                }
            }
            fn i_get(&self, via: Via, k: &$k) -> Option<&$k> {
                match via {
                    Via::Alt => { let $a = k; self.get($alt) }
                    Via::TAlt => { let $t = k; SetExtras::get(self, $talt) }
                    _ => self.get(k),
                }
            }
            fn i_len(&self) -> (usize, bool) { (self.len(), self.is_empty()) }
            fn i_open(&self, via: Via) -> $crate::obj::BoxIter {
                match via {
                    Via::IntoRef => $crate::it_full!(IntoIterator::into_iter(self), $crate::obj::c_k::<$k>),
                    _ => $crate::it_full!(self.iter(), $crate::obj::c_k::<$k>),
                }
            }
            fn i_open_own(self) -> $crate::obj::BoxIter {
                $crate::it_nc!(IntoIterator::into_iter(self), $crate::obj::c_ok::<$k>)
            }
            fn i_raw(&self) -> Box<dyn $crate::obj::CloneIter<'_, $k> + '_> { Box::new(self.iter()) }
            #[allow(unused_variables)]
            fn i_eq(&self, o: &$crate::obj::DynSet<$k>) -> Option<bool> { $crate::inh_map!(@eq $eq self, o) }
            fn i_eq_same(&self, o: &Self) -> bool { *self == *o }
            fn i_dbg(&self) -> String { format!("{self:?}") }
            #[allow(unused_variables)]
            fn i_ser(&self, fmt: &str) -> Option<Result<$crate::ser::Enc, String>> { $crate::inh_set!(@ser $ser self, fmt) }
            fn i_probe(&self) -> Option<Option<usize>> { $crate::inh_set!(@probe $ser self) }
            #[allow(unused_variables)]
            fn i_operator(&self, op: &str, o: &$crate::obj::DynSet<$k>) -> Option<Vec<$crate::obj::Item>> { $crate::inh_set!(@ops $ops self, op, o) }
        }
    };
    (@ser yes $s:ident, $f:ident) => { Some($crate::ser::Enc::of($f, $s)) };
    (@ser no $s:ident, $f:ident) => { None };
    (@probe yes $s:ident) => { Some($crate::ser::declared_len($s)) };
    (@probe no $s:ident) => { None };
    (@ops yes $s:ident, $op:ident, $o:ident) => {{
        let r = match $op {
            "union" => $s | $o,
            "inter" => $s & $o,
            "diff" => $s - $o,
            _ => $s ^ $o,
        };
        Some(r.into_iter().map(|k| vec![$crate::key::Key::id(&k)]).collect())
    }};
    (@ops no $s:ident, $op:ident, $o:ident) => { None };
}
