//! Ordered collections: FzOrderedMap/Set, Eytzinger search maps, and the B-tree collections seen
//! through the traits.
#![allow(clippy::all, dead_code, unused_imports)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use frozen_collections_core::fz_maps::FzOrderedMap;
use frozen_collections_core::fz_sets::FzOrderedSet;
use frozen_collections_core::inline_maps::InlineEytzingerSearchMap as Iem;
use frozen_collections_core::inline_sets::InlineEytzingerSearchSet as Ies;
use frozen_collections_core::maps::EytzingerSearchMap;
use prelude::*;
use std::collections::{BTreeMap, BTreeSet};

macro_rules! inl_map {
    ($k:ty, $s:expr; $($n:literal)*) => { match $s.en.len() {
        $($n => Built::Ok(Box::new(Gen(Iem::<$k, Tv, $n>::new($s.vec())))),)*
        _ => panic!("harness: inline size"),
    }};
}
macro_rules! inl_set {
    ($k:ty, $s:expr; $($n:literal)*) => { match $s.en.len() {
        $($n => Built::Ok(Box::new(Gen(Ies::<$k, $n>::new(Iem::new($s.keys().into_iter().map(|x| (x, ())).collect()))))),)*
        _ => panic!("harness: inline size"),
    }};
}
macro_rules! family {
    ($k:ty, |$a:ident| $alt:expr) => {
        inh_map!([] FzOrderedMap<$k, Tv>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([] EytzingerSearchMap<$k, Tv>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([const N: usize] Iem<$k, Tv, N>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_set!([] FzOrderedSet<$k>, $k, alt: |$a| $alt, talt: |$a| $alt, eq: yes, ops: yes, ser: yes);
        inh_set!([const N: usize] Ies<$k, N>, $k, alt: |$a| $alt, talt: |$a| $alt, eq: yes, ops: yes, ser: yes);
        inh_map!([] BTreeMap<$k, Tv>, $k, alt: |$a| $a, talt: |$a| $a, idxalt: no, eq: no);
        inh_set!([] BTreeSet<$k>, $k, alt: |$a| $a, talt: |$a| $a, eq: no, ops: no, ser: yes);

        impl Fam<$k> for F {
            fn map(&self, ty: &str, route: &str, s: &Src) -> MB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen(map_routes!(FzOrderedMap<$k, Tv>, $k, route, s, new: FzOrderedMap::new(s.vec()), de: yes)))),
                    "eyt" => Built::Ok(Box::new(Gen(EytzingerSearchMap::new(s.vec())))),
                    "inl" => inl_map!($k, s; 0 1 2 3 4 5 6 7 8 9 10 11 12 15 16 17),
                    "std" => Built::Ok(Box::new(Gen(s.vec().into_iter().collect::<BTreeMap<$k, Tv>>()))),
                    _ => panic!("harness: type {ty}"),
                }
            }
            fn set(&self, ty: &str, route: &str, s: &Src) -> SB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen(set_routes!(FzOrderedSet<$k>, $k, route, s,
                        new: FzOrderedSet::new(s.keys()),
                        map: FzOrderedSet::from(FzOrderedMap::new(s.keys().into_iter().map(|x| (x, ())).collect())))))),
                    "inl" => inl_set!($k, s; 0 1 2 3 4 5 7 8),
                    "std" => Built::Ok(Box::new(Gen(s.keys().into_iter().collect::<BTreeSet<$k>>()))),
                    _ => panic!("harness: type {ty}"),
                }
            }
            fn special(&self, op: &str, a: &Value) -> Vec<Value> {
                assert!(op == "zmap", "harness: unknown op {op}");
                zmap!($k, a, |ks| "fz" => FzOrderedMap::<$k, ()>::new(ks), "eyt" => EytzingerSearchMap::<$k, ()>::new(ks), "inl" => Iem::<$k, (), 4>::new(ks))
            }
            fn map_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn MapObj<$k>>, String> { match ty { _ => read_map::<$k, FzOrderedMap<$k, Tv>>(t) } }
            fn set_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn SetObj<$k>>, String> { match ty { _ => read_set::<$k, FzOrderedSet<$k>>(t) } }
            fn parse(&self, ty: &str, t: &str) -> bool {
                match ty {
                    "map" => parses::<FzOrderedMap<$k, Tv>>(t),
                    _ => parses::<FzOrderedSet<$k>>(t),
                }
            }
        }
    };
}
struct F;
family!(i32, |k| Eqv::of(k));
family!(String, |k| k.as_str());
family!(Tk, |k| Eqv::of(k));

fn main() {
    run::main(|p, out| match p["k"].as_str().unwrap() {
        "i32" => run::session::<i32>(&F, p, out),
        "String" => run::session::<String>(&F, p, out),
        "Tk" => run::session::<Tk>(&F, p, out),
        k => panic!("harness: key {k}"),
    });
}
