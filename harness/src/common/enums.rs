//! Derived enumerations; declaration order is not alphabetical.
use crate::key::Key;
use frozen_collections::Scalar as DeriveScalar;
macro_rules! enum_key {
    ($n:ident: $($v:ident)*) => {
        #[derive(DeriveScalar, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, serde::Serialize, serde::Deserialize)]
        pub enum $n { $($v),* }
        impl Key for $n {
            fn parse(s: &str) -> Self { [$($n::$v),*][s.parse::<usize>().unwrap()] }
            fn from_json(s: &str) -> Option<Self> { [$($n::$v),*].into_iter().find(|x| format!("{x:?}") == s) }
        }
        crate::eqv!($n);
    };
}
enum_key!(E1: Only);
enum_key!(E2: No Yes);
enum_key!(E5: Zebra Apple Mango Cherry Banana);
enum_key!(E9: I H G F E D C B A);
include!("e300.rs");
