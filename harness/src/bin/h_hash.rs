//! Hash-keyed collections: FzHashMap/Set, maps::HashMap in three magnitudes, scan maps, and the
//! standard and hashbrown collections seen through the traits.
#![allow(clippy::all, dead_code, unused_imports)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use frozen_collections_core::DefaultBuildHasher as Dh;
use frozen_collections_core::fz_maps::FzHashMap;
use frozen_collections_core::fz_sets::FzHashSet;
use frozen_collections_core::hashers::BridgeHasher;
use frozen_collections_core::inline_maps::InlineScanMap;
use frozen_collections_core::inline_sets::InlineScanSet;
use frozen_collections_core::maps::{HashMap as Hm, ScanMap};
use prelude::*;
use std::collections::{HashMap, HashSet};

type Bb = BridgeHasher<Bh>;

macro_rules! inl_map {
    ($k:ty, $s:expr; $($n:literal)*) => { match $s.en.len() {
        $($n => Built::Ok(Box::new(Gen(InlineScanMap::<$k, Tv, $n>::new($s.vec())))),)*
        _ => panic!("harness: inline size"),
    }};
}
macro_rules! inl_set {
    ($k:ty, $s:expr; $($n:literal)*) => { match $s.en.len() {
        $($n => Built::Ok(Box::new(Gen(InlineScanSet::<$k, $n>::new(InlineScanMap::new($s.keys().into_iter().map(|x| (x, ())).collect()))))),)*
        _ => panic!("harness: inline size"),
    }};
}
macro_rules! family {
    ($k:ty, |$a:ident| $alt:expr) => {
        inh_map!([] FzHashMap<$k, Tv, Bh>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([] FzHashMap<$k, Tv, Dh>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([] Hm<$k, Tv, u8, Bb>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([] Hm<$k, Tv, u16, Bb>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([] Hm<$k, Tv, usize, Bb>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([] ScanMap<$k, Tv>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([const N: usize] InlineScanMap<$k, Tv, N>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: yes);
        inh_map!([] HashMap<$k, Tv>, $k, alt: |$a| $a, talt: |$a| $a, idxalt: yes, eq: no);
        inh_map!([] hashbrown::HashMap<$k, Tv, Bh>, $k, alt: |$a| $alt, talt: |$a| $alt, idxalt: yes, eq: no);
        inh_set!([] FzHashSet<$k, Bh>, $k, alt: |$a| $alt, talt: |$a| $alt, eq: yes, ops: yes, ser: yes);
        inh_set!([] FzHashSet<$k, Dh>, $k, alt: |$a| $alt, talt: |$a| $alt, eq: yes, ops: yes, ser: yes);
        inh_set!([const N: usize] InlineScanSet<$k, N>, $k, alt: |$a| $alt, talt: |$a| $alt, eq: yes, ops: yes, ser: yes);
        inh_set!([] HashSet<$k>, $k, alt: |$a| $a, talt: |$a| $a, eq: no, ops: no, ser: yes);
        inh_set!([] hashbrown::HashSet<$k, Bh>, $k, alt: |$a| $alt, talt: |$a| $alt, eq: no, ops: no, ser: no);

        impl Fam<$k> for F {
            fn map(&self, ty: &str, route: &str, s: &Src) -> MB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen(map_routes!(FzHashMap<$k, Tv, Bh>, $k, route, s,
                        new: FzHashMap::with_hasher(s.vec(), Bh::default()), de: yes)))),
                    "fzd" => Built::Ok(Box::new(Gen(map_routes!(FzHashMap<$k, Tv, Dh>, $k, route, s,
                        new: FzHashMap::new(s.vec()), de: yes)))),
                    "hm8" => lim(Hm::<$k, Tv, u8, Bb>::with_hasher(s.vec(), BridgeHasher::new(Bh::default()))),
                    "hm16" => lim(Hm::<$k, Tv, u16, Bb>::with_hasher(s.vec(), BridgeHasher::new(Bh::default()))),
                    "hm64" => lim(Hm::<$k, Tv, usize, Bb>::with_hasher(s.vec(), BridgeHasher::new(Bh::default()))),
                    "scan" => Built::Ok(Box::new(Gen(ScanMap::new(s.vec())))),
                    "inl" => inl_map!($k, s; 0 1 2 3 4 7),
                    "std" => Built::Ok(Box::new(Gen(s.vec().into_iter().collect::<HashMap<$k, Tv>>()))),
                    "hb" => Built::Ok(Box::new(Gen(s.vec().into_iter().collect::<hashbrown::HashMap<$k, Tv, Bh>>()))),
                    _ => panic!("harness: type {ty}"),
                }
            }
            fn set(&self, ty: &str, route: &str, s: &Src) -> SB<$k> {
                match ty {
                    "fz" => Built::Ok(Box::new(Gen(set_routes!(FzHashSet<$k, Bh>, $k, route, s,
                        new: FzHashSet::with_hasher(s.keys(), Bh::default()),
                        map: FzHashSet::from(FzHashMap::with_hasher(s.keys().into_iter().map(|x| (x, ())).collect(), Bh::default())))))),
                    "fzd" => Built::Ok(Box::new(Gen(set_routes!(FzHashSet<$k, Dh>, $k, route, s,
                        new: FzHashSet::new(s.keys()),
                        map: FzHashSet::from(FzHashMap::new(s.keys().into_iter().map(|x| (x, ())).collect())))))),
                    "inl" => inl_set!($k, s; 0 1 2 3 4 7),
                    "std" => Built::Ok(Box::new(Gen(s.keys().into_iter().collect::<HashSet<$k>>()))),
                    "hb" => Built::Ok(Box::new(Gen(s.keys().into_iter().collect::<hashbrown::HashSet<$k, Bh>>()))),
                    _ => panic!("harness: type {ty}"),
                }
            }
            fn special(&self, op: &str, a: &Value) -> Vec<Value> {
                if op == "zmap" {
                    return zmap!($k, a, |ks| "fz" => FzHashMap::<$k, (), Bh>::with_hasher(ks, Bh::default()),
                        "hm8" => Hm::<$k, (), u8, Bb>::with_hasher(ks, BridgeHasher::new(Bh::default())).unwrap(),
                        "scan" => ScanMap::<$k, ()>::new(ks), "inl" => InlineScanMap::<$k, (), 4>::new(ks));
                }
                assert!(op == "lenof", "harness: unknown op {op}");
                let n = a.as_u64().unwrap() as usize;
                let r = lens(n);
                vec![serde_json::json!({"e": "lenof", "n": n, "r": r.iter().map(|x| x.0).collect::<Vec<_>>(), "em": r.iter().map(|x| x.1).collect::<Vec<_>>()})]
            }
            fn map_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn MapObj<$k>>, String> { match ty { "fz" => read_map::<$k, FzHashMap<$k, Tv, Bh>>(t), _ => read_map::<$k, FzHashMap<$k, Tv, Dh>>(t) } }
            fn set_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn SetObj<$k>>, String> { match ty { "fz" => read_set::<$k, FzHashSet<$k, Bh>>(t), _ => read_set::<$k, FzHashSet<$k, Dh>>(t) } }
            fn parse(&self, ty: &str, t: &str) -> bool {
                match ty {
                    "map" => parses::<FzHashMap<$k, Tv, Bh>>(t),
                    _ => parses::<FzHashSet<$k, Bh>>(t),
                }
            }
        }
    };
}
fn lim<K: Key, M>(r: Result<M, String>) -> MB<K>
where
    Gen<M>: MapObj<K> + 'static,
{
    match r {
        Ok(m) => Built::Ok(Box::new(Gen(m))),
        Err(_) => Built::Refused,
    }
}
/// A deque whose contents wrap around the end of its buffer.
fn wrapped(n: usize) -> std::collections::VecDeque<u64> {
    let mut d = std::collections::VecDeque::with_capacity(n);
    d.extend(0..n as u64);
    for _ in 0..n / 2 {
        let x = d.pop_front().unwrap();
        d.push_back(x);
    }
    d
}
/// The length trait on everything it is implemented for, each with n elements.
fn lens(n: usize) -> Vec<(usize, bool)> {
    fn l<T: Len + ?Sized>(x: &T) -> (usize, bool) { (x.len(), x.is_empty()) }
    use std::collections::*;
    let t: String = "x".repeat(n);
    let v: Vec<u64> = (0..n as u64).collect();
    let cs = std::ffi::CString::new(t.clone()).unwrap();
    let os = std::ffi::OsString::from(&t);
    vec![
        l(&t), l(t.as_str()), l(&t.as_str()), l(cs.as_c_str()), l(&cs), l(&os), l(os.as_os_str()),
        l(&v), l(v.as_slice()), l(&v.clone().into_boxed_slice()), l(&Box::new(v.clone())), l(&t.clone().into_boxed_str()),
        l(&std::rc::Rc::new(v.clone())), l(&std::rc::Rc::<str>::from(t.as_str())),
        l(&std::sync::Arc::new(v.clone())), l(&std::sync::Arc::<str>::from(t.as_str())),
        l(&v.iter().copied().collect::<VecDeque<_>>()), l(&wrapped(n)), l(&v.iter().copied().collect::<LinkedList<_>>()),
        l(&v.iter().copied().collect::<BinaryHeap<_>>()), l(&v.iter().copied().collect::<BTreeSet<_>>()),
        l(&v.iter().copied().collect::<HashSet<_>>()), l(&v.iter().copied().collect::<hashbrown::HashSet<_>>()),
        l(&v.iter().map(|x| (*x, 0)).collect::<BTreeMap<_, _>>()), l(&v.iter().map(|x| (*x, 0)).collect::<HashMap<_, _>>()),
        l(&v.iter().map(|x| (*x, 0)).collect::<hashbrown::HashMap<_, _>>()),
    ]
}
struct F;
family!(u64, |k| Eqv::of(k));
family!(String, |k| k.as_str());
family!(Tk, |k| Eqv::of(k));

fn main() {
    run::main(|p, out| match p["k"].as_str().unwrap() {
        "u64" => run::session::<u64>(&F, p, out),
        "String" => run::session::<String>(&F, p, out),
        _ => run::session::<Tk>(&F, p, out),
    });
}
