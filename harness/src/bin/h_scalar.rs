//! Scalar-keyed collections for every integer and non-zero type and for derived enums, the lookup
//! tables behind them, and the scalar index itself.
#![allow(clippy::all, dead_code, unused_imports)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections_core::fz_maps::FzScalarMap;
use frozen_collections_core::fz_sets::FzScalarSet;
use frozen_collections_core::hashers::ScalarHasher;
use frozen_collections_core::maps::{DenseScalarLookupMap as Dense, HashMap as Hm, SparseScalarLookupMap as Sparse};
use prelude::*;
use std::num::*;

macro_rules! core_types {
    ($($k:ty: $lim:ident),*) => {$(
        inh_map!([] FzScalarMap<$k, Tv>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: no, eq: yes);
        inh_set!([] FzScalarSet<$k>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), eq: yes, ops: yes, ser: yes);
        impl Fam<$k> for F {
            fn map(&self, ty: &str, route: &str, s: &Src) -> MB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen(map_routes!(FzScalarMap<$k, Tv>, $k, route, s, new: FzScalarMap::new(s.vec()), de: yes)))),
                    _ => core_types!(@$lim $k, ty, s),
                }
            }
            fn set(&self, ty: &str, route: &str, s: &Src) -> SB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen(set_routes!(FzScalarSet<$k>, $k, route, s,
                        new: FzScalarSet::new(s.keys()),
                        map: FzScalarSet::from(FzScalarMap::new(s.keys().into_iter().map(|x| (x, ())).collect())))))),
                    _ => panic!("harness: type {ty}"),
                }
            }
            fn index(&self, k: &$k) -> Option<usize> { Some(k.index()) }
            fn special(&self, op: &str, a: &Value) -> Vec<Value> {
                assert!(op == "zmap", "harness: unknown op {op}");
                zmap!($k, a, |ks| "fz" => FzScalarMap::<$k, ()>::new(ks), "dense" => Dense::<$k, ()>::new(ks).unwrap(), "sparse" => Sparse::<$k, ()>::new(ks))
            }
            fn map_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn MapObj<$k>>, String> { match ty { _ => read_map::<$k, FzScalarMap<$k, Tv>>(t) } }
            fn set_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn SetObj<$k>>, String> { match ty { _ => read_set::<$k, FzScalarSet<$k>>(t) } }
            fn parse(&self, ty: &str, t: &str) -> bool {
                match ty {
                    "map" => parses::<FzScalarMap<$k, Tv>>(t),
                    _ => parses::<FzScalarSet<$k>>(t),
                }
            }
        }
    )*};
    (@yes $k:ty, $ty:expr, $s:expr) => {
        match $ty {
            "dense" => lim(Dense::<$k, Tv>::new($s.vec())),
            "sparse" => Built::Ok(Box::new(Gen(Sparse::<$k, Tv>::new($s.vec())))),
            "hms" => lim(Hm::<$k, Tv, usize, ScalarHasher>::with_hasher($s.vec(), ScalarHasher {})),
            "hms8" => lim(Hm::<$k, Tv, u8, ScalarHasher>::with_hasher($s.vec(), ScalarHasher {})),
            _ => panic!("harness: type {}", $ty),
        }
    };
    (@no $k:ty, $ty:expr, $s:expr) => { panic!("harness: type {}", $ty) };
}
macro_rules! lookup_types {
    ($($k:ty),*) => {$(
        inh_map!([] Dense<$k, Tv>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: no, eq: yes);
        inh_map!([] Sparse<$k, Tv>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: no, eq: yes);
        inh_map!([] Hm<$k, Tv, usize, ScalarHasher>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: no, eq: yes);
        inh_map!([] Hm<$k, Tv, u8, ScalarHasher>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: no, eq: yes);
    )*};
}
fn lim<K: Key, M>(r: Result<M, String>) -> MB<K>
where
    Gen<M>: MapObj<K> + 'static,
{
    match r {
        Ok(m) => Built::Ok(Box::new(Gen(m))),
        Err(_) => Built::Refused,
    }
}
struct F;
core_types!(u8: no, u16: no, u32: no, u64: yes, usize: no, i8: yes, i16: no, i32: yes, i64: no, isize: no,
    NonZeroU8: no, NonZeroU16: no, NonZeroU32: no, NonZeroU64: no, NonZeroUsize: no,
    NonZeroI8: no, NonZeroI16: no, NonZeroI32: no, NonZeroI64: no, NonZeroIsize: no,
    E1: no, E2: no, E5: no, E9: yes, E300: no);
lookup_types!(u64, i8, i32, E9);

macro_rules! dispatch {
    ($p:ident, $out:ident, $($k:ident)*) => {
        match $p["k"].as_str().unwrap() {
            $(stringify!($k) => run::session::<$k>(&F, $p, $out),)*
            k => panic!("harness: key {k}"),
        }
    };
}
fn main() {
    run::main(|p, out| dispatch!(p, out, u8 u16 u32 u64 usize i8 i16 i32 i64 isize
        NonZeroU8 NonZeroU16 NonZeroU32 NonZeroU64 NonZeroUsize
        NonZeroI8 NonZeroI16 NonZeroI32 NonZeroI64 NonZeroIsize E1 E2 E5 E9 E300));
}
