// generated by bin/mkcore.py
#![allow(warnings)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/prog.rs"]
mod prog;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections::{fz_hash_map, fz_hash_set, fz_ordered_map, fz_ordered_set, fz_scalar_map, fz_scalar_set, fz_string_map, fz_string_set};
use prog::*;
use std::num::*;

prog_boxstr!();
prog_scalar!(E5);
prog_scalar!(E9);
pub fn p82() -> Box<dyn MapObj<E9>> { fz_scalar_map!(let mut m: A82<E9, Tv>, { E9::G: Tv::new(1), E9::D: Tv::new(2), E9::I: Tv::new(3), E9::F: x(Tv::new(4)), E9::C: Tv::new(5), E9::A: Tv::new(6), E9::E: Tv::new(7) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A82 = m; map::<E9, _>(m) }
pub fn p83() -> Box<dyn SetObj<E9>> { fz_scalar_set!(let m: A83<E9>, { E9::H, E9::A, E9::F, E9::B, E9::C, E9::G, E9::I });  let m: A83 = m; set::<E9, _>(m) }
pub fn p84() -> Box<dyn MapObj<E5>> { map::<E5, _>(fz_scalar_map!({ E5::Banana: Tv::new(1), E5::Mango: x(Tv::new(2)), })) }
pub fn p85() -> Box<dyn SetObj<E5>> { fz_scalar_set!(let mut m: A85<E5>, { E5::Banana, E5::Cherry, }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A85 = m; set::<E5, _>(m) }
pub fn p86() -> Box<dyn MapObj<E5>> { fz_scalar_map!(let mut m: A86<E5, Tv>, { E5::Cherry: x(Tv::new(1)), E5::Apple: Tv::new(2), E5::Banana: Tv::new(3), E5::Mango: Tv::new(4), E5::Zebra: Tv::new(5), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A86 = m; map::<E5, _>(m) }
pub fn p87() -> Box<dyn SetObj<E5>> { fz_scalar_set!(let m: A87<E5>, { E5::Zebra, E5::Mango, E5::Banana, E5::Apple, E5::Cherry });  let m: A87 = m; set::<E5, _>(m) }
pub fn p88() -> Box<dyn MapObj<E9>> { map::<E9, _>(fz_ordered_map!({ E9::B: Tv::new(1), E9::F: Tv::new(2), E9::A: Tv::new(3), E9::E: Tv::new(4), E9::I: x(Tv::new(5)), })) }
pub fn p89() -> Box<dyn SetObj<E9>> { fz_ordered_set!(let mut m: A89<E9>, { E9::E, E9::B, E9::I, E9::G, E9::H }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A89 = m; set::<E9, _>(m) }
pub fn p90() -> Box<dyn MapObj<Box<str>>> { map::<Box<str>, _>(fz_string_map!({ Box::<str>::from("0001-common"): Tv::new(1), Box::<str>::from(r#"0002-common"#): Tv::new(2), Box::<str>::from("0003-common"): Tv::new(3), x::<Box<str>>(r#"0000-common"#.into()): Tv::new(4), x::<Box<str>>("0004-common".into()): x(Tv::new(5)), })) }
pub fn p91() -> Box<dyn SetObj<Box<str>>> { set::<Box<str>, _>(fz_string_set!({ Box::<str>::from("0003-common"), x::<Box<str>>("0000-common".into()), Box::<str>::from("0002-common"), x::<Box<str>>(r#"0004-common"#.into()), x::<Box<str>>("0001-common".into()) })) }
pub fn p92() -> Box<dyn MapObj<Box<str>>> { fz_string_map!(let m: A92<Box<str>, Tv>, { Box::<str>::from("chddaefaf"): x(Tv::new(1)), x::<Box<str>>("ahccdcc".into()): x(Tv::new(2)) });  let m: A92 = m; map::<Box<str>, _>(m) }
pub fn p93() -> Box<dyn SetObj<Box<str>>> { fz_string_set!(let mut m: A93<Box<str>>, { x::<Box<str>>("cah".into()), x::<Box<str>>("bgcacfggf".into()) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A93 = m; set::<Box<str>, _>(m) }
pub fn p94() -> Box<dyn MapObj<Box<str>>> { fz_string_map!(let mut m: A94<Box<str>, Tv>, { x::<Box<str>>("gddah".into()): Tv::new(1), x::<Box<str>>("gcccc".into()): Tv::new(2), Box::<str>::from("cahc"): Tv::new(3), Box::<str>::from("fceehdbf"): x(Tv::new(4)), x::<Box<str>>("abaghhcf".into()): Tv::new(5), x::<Box<str>>(r#"bfegacahcbcd"#.into()): Tv::new(6), Box::<str>::from("bdfghgeadf"): Tv::new(7), Box::<str>::from(r#"bfhgacaegdc"#): Tv::new(8), x::<Box<str>>("bhhbbabebaeg".into()): x(Tv::new(9)), x::<Box<str>>("bhfa".into()): Tv::new(10), Box::<str>::from("ffgbdge"): x(Tv::new(11)), x::<Box<str>>("ghbhac".into()): Tv::new(12), Box::<str>::from("hhhfcb"): x(Tv::new(13)), Box::<str>::from("bgge"): Tv::new(14), x::<Box<str>>("aeeffcdfh".into()): Tv::new(15), x::<Box<str>>("cag".into()): Tv::new(16) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A94 = m; map::<Box<str>, _>(m) }
pub fn p95() -> Box<dyn SetObj<Box<str>>> { set::<Box<str>, _>(fz_string_set!({ Box::<str>::from("afe"), x::<Box<str>>("bch".into()), x::<Box<str>>("ceaebafc".into()), x::<Box<str>>("afbadde".into()), Box::<str>::from("dced"), Box::<str>::from("gggacbgbgdd"), Box::<str>::from(r#"fhfeeh"#), x::<Box<str>>("cdghffbe".into()), x::<Box<str>>("bcdc".into()), x::<Box<str>>("hfcbca".into()), Box::<str>::from("fffbgccef"), Box::<str>::from("ba"), Box::<str>::from("abbff"), Box::<str>::from("afcgbffhbeah"), x::<Box<str>>("hcddadgbe".into()), Box::<str>::from("ahf") })) }
prog_fam!(Fbox, Box<str>, fz: FzStringMap::<Box<str>, Tv>::new, fzs: FzStringSet::<Box<str>>::new, maps: ["p90" => p90, "p92" => p92, "p94" => p94], sets: ["p91" => p91, "p93" => p93, "p95" => p95], de: (FzStringMap::<Box<str>, Tv>, FzStringSet::<Box<str>>));
prog_fam!(FE5, E5, fz: FzHashMap::<E5, Tv>::new, fzs: FzHashSet::<E5>::new, maps: ["p84" => p84, "p86" => p86], sets: ["p85" => p85, "p87" => p87], de: (FzHashMap::<E5, Tv>, FzHashSet::<E5>));
prog_fam!(FE9, E9, fz: FzHashMap::<E9, Tv>::new, fzs: FzHashSet::<E9>::new, maps: ["p82" => p82, "p88" => p88], sets: ["p83" => p83, "p89" => p89], de: (FzHashMap::<E9, Tv>, FzHashSet::<E9>));
fn main() { run::main(|p, out| match p["k"].as_str().unwrap() { "box" => run::session::<Box<str>>(&Fbox, p, out), "E5" => run::session::<E5>(&FE5, p, out), "E9" => run::session::<E9>(&FE9, p, out), k => panic!("harness: key {k}") }); }
