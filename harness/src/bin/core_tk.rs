// generated by bin/mkcore.py
#![allow(warnings)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/prog.rs"]
mod prog;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections::{fz_hash_map, fz_hash_set, fz_ordered_map, fz_ordered_set, fz_scalar_map, fz_scalar_set, fz_string_map, fz_string_set};
use prog::*;
use std::num::*;

prog_views!(Tk, Eqv<Tk>, |a| Eqv::of(a));
pub fn p68() -> Box<dyn MapObj<Tk>> { fz_ordered_map!(let m: A68<Tk, Tv>, { Tk::new(8): Tv::new(1), Tk::new(7): Tv::new(2) });  let m: A68 = m; map::<Tk, _>(m) }
pub fn p69() -> Box<dyn SetObj<Tk>> { fz_ordered_set!(let mut m: A69<Tk>, { Tk::new(1), Tk::new(8) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A69 = m; set::<Tk, _>(m) }
pub fn p70() -> Box<dyn MapObj<Tk>> { fz_ordered_map!(let mut m: A70<Tk, Tv>, { Tk::new(18): x(Tv::new(1)), Tk::new(9): Tv::new(2), Tk::new(2): x(Tv::new(3)), Tk::new(6): Tv::new(4), Tk::new(8): Tv::new(5), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A70 = m; map::<Tk, _>(m) }
pub fn p71() -> Box<dyn SetObj<Tk>> { fz_ordered_set!(let m: A71<Tk>, { Tk::new(4), Tk::new(7), Tk::new(13), Tk::new(10), Tk::new(12) });  let m: A71 = m; set::<Tk, _>(m) }
pub fn p72() -> Box<dyn MapObj<Tk>> { fz_ordered_map!(let mut m: A72<Tk, Tv>, { Tk::new(41): Tv::new(1), Tk::new(7): Tv::new(2), Tk::new(36): Tv::new(3), Tk::new(38): Tv::new(4), Tk::new(47): Tv::new(5), Tk::new(19): Tv::new(6), Tk::new(11): Tv::new(7), Tk::new(3): Tv::new(8), Tk::new(49): Tv::new(9), Tk::new(53): x(Tv::new(10)), Tk::new(39): Tv::new(11), Tk::new(29): Tv::new(12), Tk::new(43): Tv::new(13), Tk::new(21): Tv::new(14), Tk::new(14): x(Tv::new(15)), Tk::new(33): Tv::new(16), Tk::new(45): Tv::new(17) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A72 = m; map::<Tk, _>(m) }
pub fn p73() -> Box<dyn SetObj<Tk>> { set::<Tk, _>(fz_ordered_set!({ Tk::new(51), Tk::new(39), Tk::new(49), Tk::new(33), Tk::new(46), Tk::new(16), Tk::new(25), Tk::new(37), Tk::new(3), Tk::new(28), Tk::new(7), Tk::new(1), Tk::new(35), Tk::new(5), Tk::new(42), Tk::new(54), Tk::new(12) })) }
pub fn p74() -> Box<dyn MapObj<Tk>> { fz_hash_map!(let m: A74<Tk, Tv>, {  });  let m: A74 = m; map::<Tk, _>(m) }
pub fn p75() -> Box<dyn SetObj<Tk>> { fz_hash_set!(let m: A75<Tk>, {  });  let m: A75 = m; set::<Tk, _>(m) }
pub fn p76() -> Box<dyn MapObj<Tk>> { map::<Tk, _>(fz_hash_map!({ Tk::new(2): Tv::new(1), Tk::new(5): Tv::new(2) })) }
pub fn p77() -> Box<dyn SetObj<Tk>> { fz_hash_set!(let mut m: A77<Tk>, { Tk::new(2), Tk::new(0) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A77 = m; set::<Tk, _>(m) }
pub fn p78() -> Box<dyn MapObj<Tk>> { map::<Tk, _>(fz_hash_map!({ Tk::new(7): Tv::new(1), Tk::new(9): x(Tv::new(2)), Tk::new(4): Tv::new(3) })) }
pub fn p79() -> Box<dyn SetObj<Tk>> { fz_hash_set!(let m: A79<Tk>, { Tk::new(5), Tk::new(11), Tk::new(4) });  let m: A79 = m; set::<Tk, _>(m) }
pub fn p80() -> Box<dyn MapObj<Tk>> { fz_hash_map!(let m: A80<Tk, Tv>, { Tk::new(4): Tv::new(1), Tk::new(24): Tv::new(2), Tk::new(15): Tv::new(3), Tk::new(29): Tv::new(4), Tk::new(12): Tv::new(5), Tk::new(5): Tv::new(6), Tk::new(7): Tv::new(7), Tk::new(23): Tv::new(8), Tk::new(1): x(Tv::new(9)), });  let m: A80 = m; map::<Tk, _>(m) }
pub fn p81() -> Box<dyn SetObj<Tk>> { fz_hash_set!(let mut m: A81<Tk>, { Tk::new(29), Tk::new(9), Tk::new(5), Tk::new(10), Tk::new(1), Tk::new(23), Tk::new(24), Tk::new(28), Tk::new(20), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A81 = m; set::<Tk, _>(m) }
prog_fam!(FTk, Tk, fz: FzHashMap::<Tk, Tv>::new, fzs: FzHashSet::<Tk>::new, maps: ["p68" => p68, "p70" => p70, "p72" => p72, "p74" => p74, "p76" => p76, "p78" => p78, "p80" => p80], sets: ["p69" => p69, "p71" => p71, "p73" => p73, "p75" => p75, "p77" => p77, "p79" => p79, "p81" => p81], de: (FzHashMap::<Tk, Tv>, FzHashSet::<Tk>));
fn main() { run::main(|p, out| match p["k"].as_str().unwrap() { "Tk" => run::session::<Tk>(&FTk, p, out), k => panic!("harness: key {k}") }); }
