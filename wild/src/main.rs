//! Runs the sessions it reads and reports every call with its result, one JSON object per line.
//! A session: `<number> <representation> <shape> <seed> | <op> <args> | ...`, all of them numbers
mod keys;
use frozen_collections::{fz_scalar_map, fz_string_map};
use frozen_collections_core::fz_maps::*;
use frozen_collections_core::fz_sets::*;
use frozen_collections_core::hashers::BridgeHasher;
use frozen_collections_core::inline_maps::{InlineEytzingerSearchMap, InlineScanMap};
use frozen_collections_core::maps::{DenseScalarLookupMap, EytzingerSearchMap, HashMap as Hm, ScanMap, SparseScalarLookupMap};
use frozen_collections_core::traits::{LargeCollection, MapExtras, MapQuery, MediumCollection, SetExtras, SetOps, SmallCollection};
use keys::*;
use std::any::Any;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};

macro_rules! say {
    ($out:ident, $($x:tt)*) => {{
        write!($out, $($x)*).expect("harness");
        $out.push('\n');
    }};
}
type Item = Vec<i64>;
type Tag = Option<u32>;

/// the shape of the texts that are keys of a macro-declared map
const IS: u8 = 2;
fn wa(shape: u8, c: u32, tag: u32) -> Wa {
    Wa { texts: [text(shape, c), text(shape, (c + 1 + tag) % 11)], tag }
}
/// the keys of the macro-declared maps, by position; what follows is absent
fn il_key(list: u8, c: u32) -> u64 {
    let c = u64::from(c);
    match list {
        0 => if c < 10 { 5 + c } else { c - 10 },
        1 => if c < 10 { 3 + 2 * c + c % 2 } else { c },
        2 => if c < 10 { (c + 1) << 32 } else { (c + 1) << 40 },
        _ => if c < 10 { 1 + 1003 * c } else { c },
    }
}

trait Obj {
    fn any(&self) -> &dyn Any;
    fn get(&self, c: u32, f: Tag) -> Option<i64>;
    fn gkv(&self, c: u32, f: Tag) -> Option<Item>;
    fn has(&self, c: u32, f: Tag) -> bool;
    fn idx(&self, c: u32, f: Tag) -> i64;
    fn put(&mut self, c: u32, f: Tag, v: i64) -> Option<i64>;
    fn dis(&mut self, q: &[(u32, u32)], fine: bool, v: &[i64]) -> Vec<Option<i64>>;
    fn all(&self, w: &str) -> Vec<Item>;
    fn bump(&mut self, w: &str, to: &mut dyn FnMut() -> i64) -> Vec<Item>;
    fn take(self: Box<Self>, n: usize, w: &str) -> Vec<Item>;
    fn len(&self) -> usize;
    fn cl(&self) -> Box<dyn Obj>;
    fn same(&self, o: &dyn Obj) -> bool;
    fn op(&self, o: &dyn Obj, op: &str) -> Vec<Item>;
    fn rel(&self, o: &dyn Obj, op: &str) -> bool;
    /// the elements as they come, a panic now and then between them
    fn steps(&self, o: &dyn Obj, op: &str, every: u64) -> (Vec<Item>, bool);
}
fn stepped<'a, K: Wild + 'a>(mut it: impl Iterator<Item = &'a K>, every: u64) -> (Vec<Item>, bool) {
    let (mut r, mut panics) = (Vec::new(), 0);
    loop {
        fuse(if panics < 4 { every } else { 0 });
        match guard(|| it.next().map(|k| k.id())) {
            None => panics += 1,
            Some(None) => break,
            Some(Some(x)) => r.push(vec![x]),
        }
    }
    fuse(0);
    (r, panics > 0)
}

/// through a mutable reference, as different a use as possible: read all, write all, read all again
fn exchange(mut r: Vec<Option<&mut Tv>>, v: &[i64]) -> Vec<Option<i64>> {
    let old = r.iter().map(|x| x.as_ref().map(|x| x.id())).collect();
    for (x, v) in r.iter_mut().zip(v) {
        if let Some(x) = x {
            **x = Tv::new(*v);
        }
    }
    for (x, v) in r.iter().zip(v) {
        assert!(x.as_ref().is_none_or(|x| x.id() == *v), "references overlap");
    }
    old
}
macro_rules! q {
    (wk $s:ident $c:expr, $f:expr, $q:ident => $e:expr) => {
        if let Some(tag) = $f { let $q = &Fine { class: $c, tag }; $e } else { let $q = &Wk::make($c); $e }
    };
    (ws $s:ident $c:expr, $f:expr, $q:ident => $e:expr) => {
        if let Some(tag) = $f { let $q = &Fine { class: $c, tag }; $e } else { let $q = &Ws::make($c); $e }
    };
    (st $s:ident $c:expr, $f:expr, $q:ident => $e:expr) => {
        if let Some(tag) = $f { let $q = &wa($s.1, $c, tag); $e } else { let s = text($s.1, $c); let $q = s.as_str(); $e }
    };
    (il $s:ident $c:expr, $f:expr, $q:ident => $e:expr) => {{ let $q = &Fi { val: il_key($s.1, $c), tag: $f.unwrap_or(0) }; $e }};
    (is $s:ident $c:expr, $f:expr, $q:ident => $e:expr) => {
        if let Some(tag) = $f { let $q = &wa(IS, $c, tag); $e } else { let s = text(IS, $c); let $q = s.as_str(); $e }
    };
    (bt $s:ident $c:expr, $f:expr, $q:ident => $e:expr) => {{ let _: Tag = $f; let $q = &Wk::make($c); $e }};
}
macro_rules! qi {
    (ws $s:ident $c:expr, $q:ident => $e:expr) => {{ let $q = &Ws::make($c); $e }};
    (st $s:ident $c:expr, $q:ident => $e:expr) => {{ let $q = &text($s.1, $c); $e }};
    (il $s:ident $c:expr, $q:ident => $e:expr) => {{ let $q = &Fi { val: il_key($s.1, $c), tag: 0 }; $e }};
    (is $s:ident $c:expr, $q:ident => $e:expr) => {{ let $q = &wa(IS, $c, 0); $e }};
    ($k:ident $s:ident $c:expr, $q:ident => $e:expr) => {{ let $q = &Wk::make($c); $e }};
}
macro_rules! qs {
    (@ $s:ident $k:ident, $v:expr, $b:ident) => {
        match $k.len() {
            1 => exchange($s.0.get_disjoint_mut([&$b[0]]).into_iter().collect(), $v),
            2 => exchange($s.0.get_disjoint_mut([&$b[0], &$b[1]]).into_iter().collect(), $v),
            3 => exchange($s.0.get_disjoint_mut([&$b[0], &$b[1], &$b[2]]).into_iter().collect(), $v),
            _ => exchange($s.0.get_disjoint_mut([&$b[0], &$b[1], &$b[2], &$b[3]]).into_iter().collect(), $v),
        }
    };
    (wk $s:ident $k:ident, $fine:expr, $v:expr) => {
        if $fine { let b: Vec<Fine> = $k.iter().map(|x| Fine { class: x.0, tag: x.1 }).collect(); qs!(@ $s $k, $v, b) }
        else { let b: Vec<Wk> = $k.iter().map(|x| Wk::make(x.0)).collect(); qs!(@ $s $k, $v, b) }
    };
    (ws $s:ident $k:ident, $fine:expr, $v:expr) => {
        if $fine { let b: Vec<Fine> = $k.iter().map(|x| Fine { class: x.0, tag: x.1 }).collect(); qs!(@ $s $k, $v, b) }
        else { let b: Vec<Ws> = $k.iter().map(|x| Ws::make(x.0)).collect(); qs!(@ $s $k, $v, b) }
    };
    (il $s:ident $k:ident, $fine:expr, $v:expr) => {{
        let _: bool = $fine;
        let b: Vec<Fi> = $k.iter().map(|x| Fi { val: il_key($s.1, x.0), tag: x.1 }).collect();
        qs!(@ $s $k, $v, b)
    }};
    (is $s:ident $k:ident, $fine:expr, $v:expr) => {{
        let _: bool = $fine;
        let b: Vec<Wa> = $k.iter().map(|x| wa(IS, x.0, x.1)).collect();
        qs!(@ $s $k, $v, b)
    }};
    (st $s:ident $k:ident, $fine:expr, $v:expr) => {{
        if $fine {
            let b: Vec<Wa> = $k.iter().map(|x| wa($s.1, x.0, x.1)).collect();
            return qs!(@ $s $k, $v, b);
        }
        let t: Vec<String> = $k.iter().map(|x| text($s.1, x.0)).collect();
        let b: Vec<&str> = t.iter().map(|x| x.as_str()).collect();
        match $k.len() {
            1 => exchange($s.0.get_disjoint_mut([b[0]]).into_iter().collect(), $v),
            2 => exchange($s.0.get_disjoint_mut([b[0], b[1]]).into_iter().collect(), $v),
            3 => exchange($s.0.get_disjoint_mut([b[0], b[1], b[2]]).into_iter().collect(), $v),
            _ => exchange($s.0.get_disjoint_mut([b[0], b[1], b[2], b[3]]).into_iter().collect(), $v),
        }
    }};
    (bt $s:ident $k:ident, $fine:expr, $v:expr) => {{
        let _: bool = $fine;
        let b: Vec<Wk> = $k.iter().map(|x| Wk::make(x.0)).collect();
        match $k.len() {
            1 => exchange(MapExtras::get_disjoint_mut(&mut $s.0, [&b[0]]).into_iter().collect(), $v),
            2 => exchange(MapExtras::get_disjoint_mut(&mut $s.0, [&b[0], &b[1]]).into_iter().collect(), $v),
            3 => exchange(MapExtras::get_disjoint_mut(&mut $s.0, [&b[0], &b[1], &b[2]]).into_iter().collect(), $v),
            _ => exchange(MapExtras::get_disjoint_mut(&mut $s.0, [&b[0], &b[1], &b[2], &b[3]]).into_iter().collect(), $v),
        }
    }};
}
macro_rules! map_obj {
    ($name:ident, $t:ty, $k:tt) => {
        struct $name($t, u8);
        impl Obj for $name {
            fn any(&self) -> &dyn Any { self }
            fn get(&self, c: u32, f: Tag) -> Option<i64> { q!($k self c, f, q => self.0.get(q).map(|v| v.id())) }
            fn gkv(&self, c: u32, f: Tag) -> Option<Item> { q!($k self c, f, q => self.0.get_key_value(q).map(|(k, v)| vec![k.id(), v.id()])) }
            fn has(&self, c: u32, f: Tag) -> bool { q!($k self c, f, q => self.0.contains_key(q)) }
            fn idx(&self, c: u32, _: Tag) -> i64 { qi!($k self c, q => self.0[q].id()) }
            fn put(&mut self, c: u32, f: Tag, v: i64) -> Option<i64> {
                q!($k self c, f, q => self.0.get_mut(q).map(|x| { let o = x.id(); *x = Tv::new(v); o }))
            }
            fn dis(&mut self, q: &[(u32, u32)], fine: bool, v: &[i64]) -> Vec<Option<i64>> { qs!($k self q, fine, v) }
            fn all(&self, w: &str) -> Vec<Item> {
                match w {
                    "k" => self.0.keys().map(|k| vec![k.id()]).collect(),
                    "v" => self.0.values().map(|v| vec![v.id()]).collect(),
                    _ => self.0.iter().map(|(k, v)| vec![k.id(), v.id()]).collect(),
                }
            }
            fn bump(&mut self, w: &str, to: &mut dyn FnMut() -> i64) -> Vec<Item> {
                let mut one = |v: &mut Tv| { let n = to(); let o = v.id(); *v = Tv::new(n); vec![o, n] };
                if w == "v" { self.0.values_mut().map(|v| one(v)).collect() } else { self.0.iter_mut().map(|(_, v)| one(v)).collect() }
            }
            fn take(self: Box<Self>, n: usize, w: &str) -> Vec<Item> {
                match w {
                    "k" => self.0.into_keys().take(n).map(|k| vec![k.id()]).collect(),
                    "v" => self.0.into_values().take(n).map(|v| vec![v.id()]).collect(),
                    _ => self.0.into_iter().take(n).map(|(k, v)| vec![k.id(), v.id()]).collect(),
                }
            }
            fn len(&self) -> usize { self.0.len() }
            fn cl(&self) -> Box<dyn Obj> { Box::new($name(self.0.clone(), self.1)) }
            fn same(&self, o: &dyn Obj) -> bool { self.0 == o.any().downcast_ref::<Self>().expect("harness").0 }
            fn op(&self, _: &dyn Obj, _: &str) -> Vec<Item> { unreachable!("harness") }
            fn rel(&self, _: &dyn Obj, _: &str) -> bool { unreachable!("harness") }
            fn steps(&self, _: &dyn Obj, _: &str, _: u64) -> (Vec<Item>, bool) { unreachable!("harness") }
        }
    };
}
macro_rules! set_obj {
    ($name:ident, $t:ty, $k:tt) => {
        struct $name($t, u8);
        impl Obj for $name {
            fn any(&self) -> &dyn Any { self }
            fn get(&self, c: u32, f: Tag) -> Option<i64> { q!($k self c, f, q => self.0.get(q).map(|v| v.id())) }
            fn gkv(&self, c: u32, f: Tag) -> Option<Item> { self.get(c, f).map(|k| vec![k, 0]) }
            fn has(&self, c: u32, f: Tag) -> bool { q!($k self c, f, q => self.0.contains(q)) }
            fn idx(&self, _: u32, _: Tag) -> i64 { unreachable!("harness") }
            fn put(&mut self, _: u32, _: Tag, _: i64) -> Option<i64> { unreachable!("harness") }
            fn dis(&mut self, _: &[(u32, u32)], _: bool, _: &[i64]) -> Vec<Option<i64>> { unreachable!("harness") }
            fn all(&self, w: &str) -> Vec<Item> {
                if w == "k" { self.0.iter().map(|k| vec![k.id()]).collect() } else { (&self.0).into_iter().map(|k| vec![k.id(), 0]).collect() }
            }
            fn bump(&mut self, _: &str, _: &mut dyn FnMut() -> i64) -> Vec<Item> { unreachable!("harness") }
            fn take(self: Box<Self>, n: usize, w: &str) -> Vec<Item> {
                if w == "k" { self.0.into_iter().take(n).map(|k| vec![k.id()]).collect() } else { self.0.into_iter().take(n).map(|k| vec![k.id(), 0]).collect() }
            }
            fn len(&self) -> usize { self.0.len() }
            fn cl(&self) -> Box<dyn Obj> { Box::new($name(self.0.clone(), self.1)) }
            fn same(&self, o: &dyn Obj) -> bool { self.0 == o.any().downcast_ref::<Self>().expect("harness").0 }
            fn op(&self, o: &dyn Obj, op: &str) -> Vec<Item> {
                let o = &o.any().downcast_ref::<Self>().expect("harness").0;
                let s = &self.0;
                match op {
                    "union" => s.union(o).map(|k| vec![k.id()]).collect(),
                    "inter" => s.intersection(o).map(|k| vec![k.id()]).collect(),
                    "diff" => s.difference(o).map(|k| vec![k.id()]).collect(),
                    "sym" => s.symmetric_difference(o).map(|k| vec![k.id()]).collect(),
                    "or" => (s | o).into_iter().map(|k| vec![k.id()]).collect(),
                    "and" => (s & o).into_iter().map(|k| vec![k.id()]).collect(),
                    "minus" => (s - o).into_iter().map(|k| vec![k.id()]).collect(),
                    "xor" => (s ^ o).into_iter().map(|k| vec![k.id()]).collect(),
                    _ => unreachable!("harness"),
                }
            }
            fn steps(&self, o: &dyn Obj, op: &str, every: u64) -> (Vec<Item>, bool) {
                let o = &o.any().downcast_ref::<Self>().expect("harness").0;
                match op {
                    "union" => stepped(self.0.union(o), every),
                    "inter" => stepped(self.0.intersection(o), every),
                    "diff" => stepped(self.0.difference(o), every),
                    _ => stepped(self.0.symmetric_difference(o), every),
                }
            }
            fn rel(&self, o: &dyn Obj, op: &str) -> bool {
                let o = &o.any().downcast_ref::<Self>().expect("harness").0;
                match op {
                    "sub" => self.0.is_subset(o),
                    "sup" => self.0.is_superset(o),
                    _ => self.0.is_disjoint(o),
                }
            }
        }
    };
}
type Bh = BridgeHasher<WildBh>;
map_obj!(OFz, FzHashMap<Wk, Tv, WildBh>, wk);
map_obj!(OHm8, Hm<Wk, Tv, SmallCollection, Bh>, wk);
map_obj!(OHm16, Hm<Wk, Tv, MediumCollection, Bh>, wk);
map_obj!(OHm64, Hm<Wk, Tv, LargeCollection, Bh>, wk);
map_obj!(OScan, ScanMap<Wk, Tv>, wk);
map_obj!(OInl3, InlineScanMap<Wk, Tv, 3>, wk);
map_obj!(OInl5, InlineScanMap<Wk, Tv, 5>, wk);
map_obj!(OEytz, EytzingerSearchMap<Wk, Tv>, wk);
map_obj!(OInE3, InlineEytzingerSearchMap<Wk, Tv, 3>, wk);
map_obj!(OInE5, InlineEytzingerSearchMap<Wk, Tv, 5>, wk);
map_obj!(OOrd, FzOrderedMap<Wk, Tv>, wk);
map_obj!(OSca, FzScalarMap<Ws, Tv>, ws);
map_obj!(ODense, DenseScalarLookupMap<Ws, Tv>, ws);
map_obj!(OSparse, SparseScalarLookupMap<Ws, Tv>, ws);
map_obj!(OStr, FzStringMap<Box<str>, Tv, WildBh>, st);
map_obj!(OBt, BTreeMap<Wk, Tv>, bt);
set_obj!(SFz, FzHashSet<Wk, WildBh>, wk);
set_obj!(SOrd, FzOrderedSet<Wk>, wk);
set_obj!(SSca, FzScalarSet<Ws>, ws);
set_obj!(SStr, FzStringSet<Box<str>, WildBh>, st);

/// the maps that macros declare
fn declared(rep: &str, en: &mut Vec<Item>, nv: &mut i64) -> Box<dyn Obj> {
    let mut v = |list: u8, c: u32| {
        *nv += 1;
        en.push(vec![if list == 9 { i64::from(c) } else { il_key(list, c) as i64 }, *nv]);
        Tv::new(*nv)
    };
    match rep {
        "ildense" => {
            fz_scalar_map!(let m: A<u64, Tv>, { 5u64: v(0, 0), 6u64: v(0, 1), 7u64: v(0, 2), 8u64: v(0, 3), 9u64: v(0, 4), 10u64: v(0, 5), 11u64: v(0, 6), 12u64: v(0, 7), 13u64: v(0, 8), 14u64: v(0, 9) });
            map_obj!(O, A, il);
            Box::new(O(m, 0))
        }
        "ilsparse" => {
            fz_scalar_map!(let m: A<u64, Tv>, { 3u64: v(1, 0), 6u64: v(1, 1), 7u64: v(1, 2), 10u64: v(1, 3), 11u64: v(1, 4), 14u64: v(1, 5), 15u64: v(1, 6), 18u64: v(1, 7), 19u64: v(1, 8), 22u64: v(1, 9) });
            map_obj!(O, A, il);
            Box::new(O(m, 1))
        }
        "ilcoll" => {
            fz_scalar_map!(let m: A<u64, Tv>, { 0x1_0000_0000u64: v(2, 0), 0x2_0000_0000u64: v(2, 1), 0x3_0000_0000u64: v(2, 2), 0x4_0000_0000u64: v(2, 3), 0x5_0000_0000u64: v(2, 4),
                0x6_0000_0000u64: v(2, 5), 0x7_0000_0000u64: v(2, 6), 0x8_0000_0000u64: v(2, 7), 0x9_0000_0000u64: v(2, 8), 0xa_0000_0000u64: v(2, 9) });
            map_obj!(O, A, il);
            Box::new(O(m, 2))
        }
        "ilnocoll" => {
            fz_scalar_map!(let m: A<u64, Tv>, { 1u64: v(3, 0), 1004u64: v(3, 1), 2007u64: v(3, 2), 3010u64: v(3, 3), 4013u64: v(3, 4), 5016u64: v(3, 5), 6019u64: v(3, 6), 7022u64: v(3, 7), 8025u64: v(3, 8), 9028u64: v(3, 9) });
            map_obj!(O, A, il);
            Box::new(O(m, 3))
        }
        _ => {
            fz_string_map!(let m: A<&'static str, Tv>, { "common-head-000": v(9, 0), "common-head-001": v(9, 1), "common-head-002": v(9, 2), "common-head-003": v(9, 3), "common-head-004": v(9, 4),
                "common-head-005": v(9, 5), "common-head-006": v(9, 6), "common-head-007": v(9, 7), "common-head-008": v(9, 8), "common-head-009": v(9, 9) });
            map_obj!(O, A, is);
            Box::new(O(m, 4))
        }
    }
}

/// builds; None when the constructor refused
fn build(rep: &str, shape: u8, it: bool, cs: &[u32], en: &mut Vec<Item>, nv: &mut i64) -> Option<Box<dyn Obj>> {
    fn pairs<K: Make>(cs: &[u32], en: &mut Vec<Item>, nv: &mut i64) -> Vec<(K, Tv)> {
        cs.iter()
            .map(|c| {
                *nv += 1;
                let k = K::make(*c);
                en.push(vec![k.id(), *nv]);
                (k, Tv::new(*nv))
            })
            .collect()
    }
    fn keys<K: Make>(cs: &[u32], en: &mut Vec<Item>) -> Vec<K> {
        cs.iter()
            .map(|c| {
                let k = K::make(*c);
                en.push(vec![k.id(), 0]);
                k
            })
            .collect()
    }
    let bh = || BridgeHasher::new(WildBh);
    macro_rules! ok { ($o:ident, $e:expr) => { Some(Box::new($o($e, shape)) as Box<dyn Obj>) }; }
    match rep {
        "fz" => { let p = pairs(cs, en, nv); ok!(OFz, if it { p.into_iter().collect() } else { FzHashMap::with_hasher(p, WildBh) }) }
        "hm8" => { let p = pairs(cs, en, nv); ok!(OHm8, Hm::with_hasher(p, bh()).ok()?) }
        "hm16" => { let p = pairs(cs, en, nv); ok!(OHm16, Hm::with_hasher(p, bh()).ok()?) }
        "hm64" => { let p = pairs(cs, en, nv); ok!(OHm64, Hm::with_hasher(p, bh()).ok()?) }
        "scan" => { let p = pairs(cs, en, nv); ok!(OScan, ScanMap::new(p)) }
        "inl3" => { let p = pairs(cs, en, nv); ok!(OInl3, InlineScanMap::new(p)) }
        "inl5" => { let p = pairs(cs, en, nv); ok!(OInl5, InlineScanMap::new(p)) }
        "eytz" => { let p = pairs(cs, en, nv); ok!(OEytz, EytzingerSearchMap::new(p)) }
        "ine3" => { let p = pairs(cs, en, nv); ok!(OInE3, InlineEytzingerSearchMap::new(p)) }
        "ine5" => { let p = pairs(cs, en, nv); ok!(OInE5, InlineEytzingerSearchMap::new(p)) }
        "ord" => { let p = pairs(cs, en, nv); ok!(OOrd, if it { p.into_iter().collect() } else { FzOrderedMap::new(p) }) }
        "sca" => { let p = pairs(cs, en, nv); ok!(OSca, if it { p.into_iter().collect() } else { FzScalarMap::new(p) }) }
        "dense" => { let p = pairs(cs, en, nv); ok!(ODense, DenseScalarLookupMap::new(p).ok()?) }
        "sparse" => { let p = pairs(cs, en, nv); ok!(OSparse, SparseScalarLookupMap::new(p)) }
        "bt" => { let p = pairs(cs, en, nv); ok!(OBt, p.into_iter().collect()) }
        "str" => {
            let p: Vec<(String, Tv)> = cs.iter().map(|c| { *nv += 1; en.push(vec![i64::from(*c), *nv]); (text(shape, *c), Tv::new(*nv)) }).collect();
            ok!(OStr, if it { p.into_iter().collect() } else { FzStringMap::with_hasher(p, WildBh) })
        }
        "sfz" => { let p = keys(cs, en); ok!(SFz, if it { p.into_iter().collect() } else { FzHashSet::with_hasher(p, WildBh) }) }
        "sord" => { let p = keys(cs, en); ok!(SOrd, if it { p.into_iter().collect() } else { FzOrderedSet::new(p) }) }
        "ssca" => { let p = keys(cs, en); ok!(SSca, if it { p.into_iter().collect() } else { FzScalarSet::new(p) }) }
        "sstr" => {
            let p: Vec<String> = cs.iter().map(|c| { en.push(vec![i64::from(*c), 0]); text(shape, *c) }).collect();
            ok!(SStr, if it { p.into_iter().collect() } else { FzStringSet::with_hasher(p, WildBh) })
        }
        "ildense" | "ilsparse" | "ilcoll" | "ilnocoll" | "ilstr" => Some(declared(rep, en, nv)),
        _ => panic!("harness: {rep}"),
    }
}

fn num(s: &mut String, n: i64) {
    if n < 0 {
        s.push('-');
    }
    let mut b = [0u8; 20];
    let (mut i, mut n) = (20, n.unsigned_abs());
    loop {
        i -= 1;
        b[i] = b'0' + (n % 10) as u8;
        n /= 10;
        if n == 0 {
            break;
        }
    }
    for x in &b[i..] {
        s.push(*x as char);
    }
}
fn list(s: &mut String, x: impl Iterator<Item = i64>) {
    s.push('[');
    for (i, v) in x.enumerate() {
        if i > 0 {
            s.push(',');
        }
        num(s, v);
    }
    s.push(']');
}
fn js(x: &[Item]) -> String {
    let mut s = String::from("[");
    for (i, r) in x.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        list(&mut s, r.iter().copied());
    }
    s.push(']');
    s
}
fn jo(x: &[Option<i64>]) -> String {
    let mut s = String::new();
    list(&mut s, x.iter().map(|v| v.unwrap_or(-1)));
    s
}
/// what f returned, or None if planned panics (or the library's own) ended it
fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Some(r),
        Err(e) => {
            let m = e.downcast_ref::<String>().map(String::as_str).or(e.downcast_ref::<&str>().copied()).unwrap_or("");
            if m.contains("harness") {
                eprintln!("harness: {m}");
                std::process::exit(3);
            }
            if m.contains("references overlap") {
                overlap();
            }
            None
        }
    }
}

/// the words of a session's operations; everything is a number (cheap to read under an interpreter)
const MODE: i64 = 0;
const FUSE: i64 = 1;
const B: i64 = 2;
const C: i64 = 3;
const D: i64 = 4;
const GET: i64 = 5;
const IDX: i64 = 6;
const GKV: i64 = 7;
const HAS: i64 = 8;
const PUT: i64 = 9;
const DIS: i64 = 10;
const ALL: i64 = 11;
const BUMP: i64 = 12;
const TAKE: i64 = 13;
const LEN: i64 = 14;
const EQ: i64 = 15;
const REL: i64 = 16;
const OP: i64 = 17;
const LIVE: i64 = 18;
const STEPS: i64 = 19;
const DFUSE: i64 = 20;
const REPS: [&str; 25] = ["fz", "hm8", "hm16", "hm64", "scan", "inl3", "inl5", "eytz", "ine3", "ine5", "ord", "sca", "dense", "sparse", "bt", "str", "sfz", "sord", "ssca", "sstr",
    "ildense", "ilsparse", "ilcoll", "ilnocoll", "ilstr"];
const WAYS: [&str; 3] = ["kv", "k", "v"];
const SETOPS: [&str; 8] = ["union", "inter", "diff", "sym", "or", "and", "minus", "xor"];
const RELS: [&str; 3] = ["sub", "sup", "dis"];

/// class, or 1000 * (1 + tag) + class for a query with an equality of its own
fn cq(x: i64) -> (u32, Tag) {
    if x >= 1000 { ((x % 1000) as u32, Some((x / 1000 - 1) as u32)) } else { (x as u32, None) }
}

fn session(ops: Vec<Vec<i64>>) {
    let (sid, ri, shape, seed) = (ops[0][0], ops[0][1] as usize, ops[0][2] as u8, ops[0][3] as u64);
    let rep = REPS[ri];
    reset(seed);
    // what is printed first tells which session it is if this one does not come to its end
    std::io::stdout().write_all(format!("{{\"e\":\"reset\",\"s\":\"{sid}\"}}\n").as_bytes()).expect("harness");
    let mut out = String::new();
    let kind = if (16..20).contains(&ri) { "set" } else { "map" };
    let tracked = ri <= 10 || ri == 14 || ri == 16 || ri == 17;
    let mut objs: Vec<Option<Box<dyn Obj>>> = (0..8).map(|_| None).collect();
    let mut nv = 0;
    for a in ops.into_iter().skip(1) {
        let n = |i: usize| -> i64 { a[i] };
        let h = if a[0] >= B && a[0] != DFUSE && a.len() > 1 { a[1] } else { 0 };
        if !matches!(a[0], B | D | TAKE | OP | MODE | FUSE | DFUSE) {
            dfuse(0);
        }
        let missing = a[0] > B && a[0] != LIVE && a[0] != DFUSE && objs[h as usize].is_none();
        let second = matches!(a[0], EQ | OP | REL | STEPS) && objs[n(2) as usize].is_none();
        if missing || second {
            continue; // what should have built it was refused or panicked
        }
        match a[0] {
            MODE => mode(n(1) as u8, n(2) as u8, n(3) as u8, n(4) as u8),
            FUSE => fuse(n(1) as u64),
            DFUSE => dfuse(n(1) as u64),
            B => {
                let cs: Vec<u32> = a[3..].iter().map(|x| *x as u32).collect();
                let mut en = Vec::new();
                building(true);
                let r = guard(|| build(rep, shape, n(2) == 1, &cs, &mut en, &mut nv));
                building(false);
                fuse(0);
                dfuse(0);
                match r {
                    Some(Some(o)) => {
                        let kept = o.all("kv");
                        say!(out, "{{\"e\":\"build\",\"h\":{h},\"kind\":\"{kind}\",\"en\":{},\"kept\":{},\"ok\":true,\"p\":false}}", js(&en), js(&kept));
                        objs[h as usize] = Some(o);
                    }
                    r => say!(out, "{{\"e\":\"build\",\"h\":{h},\"kind\":\"{kind}\",\"en\":{},\"kept\":[],\"ok\":false,\"p\":{}}}", js(&en), r.is_none()),
                }
            }
            C => {
                let r = guard(|| objs[h as usize].as_ref().unwrap().cl());
                fuse(0);
                say!(out, "{{\"e\":\"clone\",\"h\":{h},\"g\":{},\"p\":{}}}", n(2), r.is_none());
                if let Some(o) = r {
                    objs[n(2) as usize] = Some(o);
                }
            }
            D => {
                let o = objs[h as usize].take();
                let r = guard(|| drop(o));
                say!(out, "{{\"e\":\"drop\",\"h\":{h},\"p\":{}}}", r.is_none());
            }
            GET | IDX => {
                let (x, f) = cq(n(2));
                let o = objs[h as usize].as_ref().unwrap();
                let r = guard(|| if a[0] == GET { o.get(x, f) } else { Some(o.idx(x, f)) });
                say!(out, "{{\"e\":\"get\",\"h\":{h},\"r\":{},\"p\":{}}}", r.flatten().unwrap_or(-1), r.is_none());
            }
            GKV => {
                let (x, f) = cq(n(2));
                let r = guard(|| objs[h as usize].as_ref().unwrap().gkv(x, f));
                say!(out, "{{\"e\":\"gkv\",\"h\":{h},\"r\":{},\"p\":{}}}", js(&r.clone().flatten().into_iter().collect::<Vec<_>>()), r.is_none());
            }
            HAS => {
                let (x, f) = cq(n(2));
                let r = guard(|| objs[h as usize].as_ref().unwrap().has(x, f));
                say!(out, "{{\"e\":\"has\",\"h\":{h},\"p\":{}}}", r.is_none());
            }
            PUT => {
                let (x, f) = cq(n(2));
                nv += 1;
                let o = objs[h as usize].as_mut().unwrap();
                let r = guard(|| o.put(x, f, nv));
                say!(out, "{{\"e\":\"put\",\"h\":{h},\"v\":{nv},\"r\":{},\"p\":{}}}", r.flatten().unwrap_or(-1), r.is_none());
            }
            DIS => {
                let ks: Vec<(u32, Tag)> = a[2..].iter().map(|x| cq(*x)).collect();
                let fine = ks.iter().any(|x| x.1.is_some());
                let ks: Vec<(u32, u32)> = ks.iter().map(|x| (x.0, x.1.unwrap_or(0))).collect();
                let v: Vec<i64> = ks.iter().map(|_| { nv += 1; nv }).collect();
                let o = objs[h as usize].as_mut().unwrap();
                let r = guard(|| o.dis(&ks, fine, &v));
                let t: Vec<String> = v.iter().map(|x| x.to_string()).collect();
                say!(out, "{{\"e\":\"dis\",\"h\":{h},\"v\":[{}],\"r\":{},\"p\":{}}}", t.join(","), jo(&r.clone().unwrap_or_default()), r.is_none());
            }
            ALL => {
                say!(out, "{{\"e\":\"all\",\"h\":{h},\"w\":\"{}\",\"r\":{}}}", WAYS[n(2) as usize], js(&objs[h as usize].as_ref().unwrap().all(WAYS[n(2) as usize])));
            }
            BUMP => {
                let o = objs[h as usize].as_mut().unwrap();
                let r = o.bump(WAYS[n(2) as usize], &mut || { nv += 1; nv });
                say!(out, "{{\"e\":\"bump\",\"h\":{h},\"r\":{}}}", js(&r));
            }
            TAKE => {
                let o = objs[h as usize].take().unwrap();
                let r = guard(|| o.take(n(2) as usize, WAYS[n(3) as usize]));
                say!(out, "{{\"e\":\"take\",\"h\":{h},\"n\":{},\"w\":\"{}\",\"r\":{},\"p\":{}}}", n(2), WAYS[n(3) as usize], js(&r.clone().unwrap_or_default()), r.is_none());
            }
            LEN => say!(out, "{{\"e\":\"len\",\"h\":{h},\"r\":{}}}", objs[h as usize].as_ref().unwrap().len()),
            EQ => {
                let r = guard(|| objs[h as usize].as_ref().unwrap().same(&**objs[n(2) as usize].as_ref().unwrap()));
                say!(out, "{{\"e\":\"has\",\"h\":{h},\"p\":{}}}", r.is_none());
            }
            REL => {
                let r = guard(|| objs[h as usize].as_ref().unwrap().rel(&**objs[n(2) as usize].as_ref().unwrap(), RELS[n(3) as usize]));
                say!(out, "{{\"e\":\"has\",\"h\":{h},\"p\":{}}}", r.is_none());
            }
            OP => {
                let r = guard(|| objs[h as usize].as_ref().unwrap().op(&**objs[n(2) as usize].as_ref().unwrap(), SETOPS[n(3) as usize]));
                say!(out, "{{\"e\":\"op\",\"h\":{h},\"g\":{},\"op\":\"{}\",\"r\":{},\"p\":{}}}", n(2), SETOPS[n(3) as usize], js(&r.clone().unwrap_or_default()), r.is_none());
            }
            STEPS => {
                let (r, p) = objs[h as usize].as_ref().unwrap().steps(&**objs[n(2) as usize].as_ref().unwrap(), SETOPS[n(3) as usize], n(4) as u64);
                say!(out, "{{\"e\":\"op\",\"h\":{h},\"g\":{},\"op\":\"{}\",\"r\":{},\"p\":{p}}}", n(2), SETOPS[n(3) as usize], js(&r));
            }
            LIVE => {
                let l = live();
                say!(out, "{{\"e\":\"live\",\"v\":{},\"k\":{},\"keys\":{}}}", l[0], l[1], tracked);
            }
            x => panic!("harness: {x}"),
        }
        if a[0] >= B && a[0] != DFUSE {
            fuse(0);
            dfuse(0);
        }
        if bad() {
            say!(out, "{{\"e\":\"crash\",\"err\":\"something destroyed was used\"}}");
        }
    }
    fuse(0);
    dfuse(0);
    drop(objs);
    if bad() {
        say!(out, "{{\"e\":\"crash\",\"err\":\"something destroyed was used\"}}");
    }
    std::io::stdout().write_all(out.as_bytes()).expect("harness");
}

fn main() {
    if std::env::var("WILD_LOUD").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let mut b = Vec::new();
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut b).expect("harness");
    let (mut ops, mut cur, mut n, mut some) = (Vec::new(), Vec::new(), 0i64, false);
    // by value: no borrow of the text for an aliasing model to remember
    for c in b.into_iter() {
        if c.is_ascii_digit() {
            n = n * 10 + i64::from(c - b'0');
            some = true;
            continue;
        }
        if some {
            cur.push(n);
            (n, some) = (0, false);
        }
        if c != b' ' && !cur.is_empty() {
            ops.push(std::mem::take(&mut cur));
        }
        if c == b'\n' && !ops.is_empty() {
            session(std::mem::take(&mut ops));
        }
    }
}
