//! String-keyed collections: FzStringMap/Set and the slice hashers they choose from.
#![allow(clippy::all, dead_code, unused_imports)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use frozen_collections_core::DefaultBuildHasher as Dh;
use frozen_collections_core::fz_maps::FzStringMap;
use frozen_collections_core::fz_sets::FzStringSet;
use frozen_collections_core::hashers::{BridgeHasher, LeftRangeHasher, LengthHasher, RightRangeHasher};
use frozen_collections_core::maps::HashMap as Hm;
use prelude::*;

type K = Box<str>;
inh_map!([] FzStringMap<K, Tv, Bh>, K, alt: |a| &**a, talt: |a| &a.to_string(), idxalt: yes, eq: yes);
inh_map!([] FzStringMap<K, Tv, Dh>, K, alt: |a| &**a, talt: |a| &a.to_string(), idxalt: yes, eq: yes);
inh_map!([] Hm<K, Tv, usize, LeftRangeHasher<Bh>>, K, alt: |a| &**a, talt: |a| &**a, idxalt: yes, eq: yes);
inh_map!([] Hm<K, Tv, usize, RightRangeHasher<Bh>>, K, alt: |a| &**a, talt: |a| &**a, idxalt: yes, eq: yes);
inh_map!([] Hm<K, Tv, usize, BridgeHasher<Bh>>, K, alt: |a| &**a, talt: |a| &**a, idxalt: yes, eq: yes);
inh_map!([] Hm<K, Tv, usize, LengthHasher>, K, alt: |a| a, talt: |a| a, idxalt: yes, eq: yes);
inh_set!([] FzStringSet<K, Bh>, K, alt: |a| &**a, talt: |a| &a.to_string(), eq: yes, ops: yes, ser: no);
inh_set!([] FzStringSet<K, Dh>, K, alt: |a| &**a, talt: |a| &a.to_string(), eq: yes, ops: yes, ser: yes);

fn lim<M>(r: Result<M, String>) -> MB<K>
where
    Gen<M>: MapObj<K> + 'static,
{
    match r {
        Ok(m) => Built::Ok(Box::new(Gen(m))),
        Err(_) => Built::Refused,
    }
}
struct F;
impl Fam<K> for F {
    fn map(&self, ty: &str, route: &str, s: &Src) -> MB<K> {
        let p: Vec<&str> = ty.split(':').collect();
        let range = || p[1].parse::<usize>().unwrap()..p[2].parse::<usize>().unwrap();
        match p[0] {
            "fz" => Built::Ok(Box::new(Gen(map_routes!(FzStringMap<K, Tv, Bh>, K, route, s,
                new: FzStringMap::with_hasher(s.vec::<K>(), Bh::default()), de: no)))),
            "fzd" => Built::Ok(Box::new(Gen(map_routes!(FzStringMap<K, Tv, Dh>, K, route, s,
                new: FzStringMap::new(s.vec::<K>()), de: yes)))),
            "lr" => lim(Hm::<K, Tv, usize, _>::with_hasher(s.vec(), LeftRangeHasher::new(Bh::default(), range()))),
            "rr" => lim(Hm::<K, Tv, usize, _>::with_hasher(s.vec(), RightRangeHasher::new(Bh::default(), range()))),
            "hm" => lim(Hm::<K, Tv, usize, _>::with_hasher(s.vec(), BridgeHasher::new(Bh::default()))),
            "ln" => lim(Hm::<K, Tv, usize, _>::with_hasher(s.vec(), LengthHasher)),
            _ => panic!("harness: type {ty}"),
        }
    }
    fn set(&self, ty: &str, route: &str, s: &Src) -> SB<K> {
        match ty {
            "fz" => Built::Ok(Box::new(Gen(set_routes!(FzStringSet<K, Bh>, K, route, s,
                new: FzStringSet::with_hasher(s.keys::<K>(), Bh::default()),
                map: FzStringSet::from(FzStringMap::with_hasher(s.keys::<K>().into_iter().map(|x| (x, ())).collect(), Bh::default())))))),
            "fzd" => Built::Ok(Box::new(Gen(set_routes!(FzStringSet<K, Dh>, K, route, s,
                new: FzStringSet::new(s.keys::<K>()),
                map: FzStringSet::from(FzStringMap::new(s.keys::<K>().into_iter().map(|x| (x, ())).collect())))))),
            _ => panic!("harness: type {ty}"),
        }
    }
    fn special(&self, op: &str, a: &Value) -> Vec<Value> {
        assert!(op == "zmap", "harness: unknown op {op}");
        zmap!(K, a, |ks| "fz" => FzStringMap::<K, (), Bh>::with_hasher(ks, Bh::default()))
    }
            fn map_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn MapObj<K>>, String> { match ty { _ => read_map::<K, FzStringMap<K, Tv, Dh>>(t) } }
            fn set_from(&self, ty: &str, t: &crate::ser::Enc) -> Result<Box<dyn SetObj<K>>, String> { match ty { "fz" => read_set::<K, FzStringSet<K, Bh>>(t), _ => read_set::<K, FzStringSet<K, Dh>>(t) } }
    fn parse(&self, ty: &str, t: &str) -> bool {
        match ty {
            "map" => parses::<FzStringMap<K, Tv>>(t),
            _ => parses::<FzStringSet<K>>(t),
        }
    }
}
fn main() {
    run::main(|p, out| run::session::<K>(&F, p, out));
}
