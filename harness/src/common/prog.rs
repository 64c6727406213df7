//! Views of the types that the macros and the emitter produce, for any size, table and hasher.
pub use crate::prelude::*;
pub use frozen_collections::hash_tables;
pub use frozen_collections::inline_maps::*;
pub use frozen_collections::inline_sets::*;
pub use frozen_collections_core::fz_maps::*;
pub use frozen_collections_core::fz_sets::*;
pub use frozen_collections_core::DefaultBuildHasher as Dh;

/// identity, so that a key is an expression and not a literal
pub fn x<T>(t: T) -> T { t }

/// scan, hash and eytzinger representations of one key type; `a` is the second query form
#[macro_export]
macro_rules! prog_views {
    ($k:ty, $alt:ty, |$a:ident| $ae:expr) => {
        inh_map!([const N: usize] InlineScanMap<$k, Tv, N>, $k, alt: |$a| $ae, talt: |$a| $ae, idxalt: yes, eq: yes);
        inh_set!([const N: usize] InlineScanSet<$k, N>, $k, alt: |$a| $ae, talt: |$a| $ae, eq: yes, ops: yes, ser: yes);
        inh_map!([const N: usize] InlineEytzingerSearchMap<$k, Tv, N>, $k, alt: |$a| $ae, talt: |$a| $ae, idxalt: yes, eq: yes);
        inh_set!([const N: usize] InlineEytzingerSearchSet<$k, N>, $k, alt: |$a| $ae, talt: |$a| $ae, eq: yes, ops: yes, ser: yes);
        inh_map!([const N: usize, const S: usize, CM: CollectionMagnitude + Clone + 'static, H: Hasher<$k> + Hasher<$alt> + Clone + 'static]
            InlineHashMap<$k, Tv, N, S, CM, H>, $k, alt: |$a| $ae, talt: |$a| $ae, idxalt: yes, eq: yes);
        inh_map!([const N: usize, const S: usize, CM: CollectionMagnitude + Clone + 'static, H: Hasher<$k> + Hasher<$alt> + Clone + 'static]
            InlineHashMapNoCollisions<$k, Tv, N, S, CM, H>, $k, alt: |$a| $ae, talt: |$a| $ae, idxalt: yes, eq: yes);
        inh_set!([const N: usize, const S: usize, CM: CollectionMagnitude + Clone + 'static, H: Hasher<$k> + Hasher<$alt> + Clone + 'static]
            InlineHashSet<$k, N, S, CM, H>, $k, alt: |$a| $ae, talt: |$a| $ae, eq: yes, ops: no, ser: yes);
        inh_set!([const N: usize, const S: usize, CM: CollectionMagnitude + Clone + 'static, H: Hasher<$k> + Hasher<$alt> + Clone + 'static]
            InlineHashSetNoCollisions<$k, N, S, CM, H>, $k, alt: |$a| $ae, talt: |$a| $ae, eq: yes, ops: no, ser: yes);
        inh_map!([] FzHashMap<$k, Tv>, $k, alt: |$a| $ae, talt: |$a| $ae, idxalt: yes, eq: yes);
        inh_set!([] FzHashSet<$k>, $k, alt: |$a| $ae, talt: |$a| $ae, eq: yes, ops: yes, ser: yes);
    };
}
/// what scalar keys have in addition
#[macro_export]
macro_rules! prog_scalar {
    ($k:ty) => {
        prog_views!($k, Eqv<$k>, |a| Eqv::of(a));
        inh_map!([const N: usize] InlineDenseScalarLookupMap<$k, Tv, N>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: yes, eq: yes);
        inh_set!([const N: usize] InlineDenseScalarLookupSet<$k, N>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), eq: yes, ops: yes, ser: yes);
        inh_map!([const N: usize, const L: usize, CM: CollectionMagnitude + Clone + 'static] InlineSparseScalarLookupMap<$k, Tv, N, L, CM>, $k,
            alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: yes, eq: yes);
        inh_set!([const N: usize, const L: usize, CM: CollectionMagnitude + Clone + 'static] InlineSparseScalarLookupSet<$k, N, L, CM>, $k,
            alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), eq: yes, ops: yes, ser: yes);
        inh_map!([] FzScalarMap<$k, Tv>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), idxalt: no, eq: yes);
        inh_set!([] FzScalarSet<$k>, $k, alt: |a| Eqv::of(a), talt: |a| Eqv::of(a), eq: yes, ops: yes, ser: yes);
    };
}
#[macro_export]
macro_rules! prog_boxstr {
    () => {
        prog_views!(Box<str>, str, |a| &**a);
        inh_map!([] FzStringMap<Box<str>, Tv>, Box<str>, alt: |a| &**a, talt: |a| &a.to_string(), idxalt: yes, eq: yes);
        inh_set!([] FzStringSet<Box<str>>, Box<str>, alt: |a| &**a, talt: |a| &a.to_string(), eq: yes, ops: yes, ser: yes);
    };
}
/// one family: the general-purpose types of that key, and the generated programs
#[macro_export]
macro_rules! prog_fam {
    ($f:ident, $k:ty, fz: $m:expr, fzs: $s:expr, maps: [$($mn:literal => $mf:path),*], sets: [$($sn:literal => $sf:path),*] $(, de: ($dm:ty, $ds:ty))?) => {
        struct $f;
        impl Fam<$k> for $f {
            fn map(&self, ty: &str, _: &str, s: &Src) -> MB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen($m(s.vec::<$k>())))),
                    $($mn => Built::Ok($mf()),)*
                    _ => panic!("harness: type {ty}"),
                }
            }
            fn set(&self, ty: &str, _: &str, s: &Src) -> SB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen($s(s.keys::<$k>())))),
                    $($sn => Built::Ok($sf()),)*
                    _ => panic!("harness: type {ty}"),
                }
            }
            $(
                fn map_from(&self, _: &str, t: &crate::ser::Enc) -> Result<Box<dyn MapObj<$k>>, String> { read_map::<$k, $dm>(t) }
                fn set_from(&self, _: &str, t: &crate::ser::Enc) -> Result<Box<dyn SetObj<$k>>, String> { read_set::<$k, $ds>(t) }
            )?
        }
    };
}
pub fn map<K: Key, M>(m: M) -> Box<dyn MapObj<K>>
where
    Gen<M>: MapObj<K> + 'static,
{
    Box::new(Gen(m))
}
pub fn set<K: Key, M>(m: M) -> Box<dyn SetObj<K>>
where
    Gen<M>: SetObj<K> + 'static,
{
    Box::new(Gen(m))
}
