// generated by bin/mkcore.py
#![allow(warnings)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/prog.rs"]
mod prog;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections::{fz_hash_map, fz_hash_set, fz_ordered_map, fz_ordered_set, fz_scalar_map, fz_scalar_set, fz_string_map, fz_string_set};
use prog::*;
use std::num::*;

prog_scalar!(i32);
pub fn p0() -> Box<dyn MapObj<i32>> { fz_scalar_map!(let mut m: A0<i32, Tv>, { 1919946320_i32: x(Tv::new(1)) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A0 = m; map::<i32, _>(m) }
pub fn p1() -> Box<dyn SetObj<i32>> { set::<i32, _>(fz_scalar_set!({ 0i32 })) }
pub fn p2() -> Box<dyn MapObj<i32>> { fz_scalar_map!(let m: A2<i32, Tv>, { 1997978476_i32: Tv::new(1), 1_997_978_474_i32: Tv::new(2), 1997978477: Tv::new(3), 0b1110111000101101011101101101011i32: Tv::new(4), 1_997_978_473i32: Tv::new(5), });  let m: A2 = m; map::<i32, _>(m) }
pub fn p3() -> Box<dyn SetObj<i32>> { set::<i32, _>(fz_scalar_set!({ 1_i32, 3_i32, 0_i32, 2_i32, 4_i32 })) }
pub fn p4() -> Box<dyn MapObj<i32>> { fz_scalar_map!(let m: A4<i32, Tv>, { 19: Tv::new(1), 30: x(Tv::new(2)), 6: Tv::new(3), 28: x(Tv::new(4)), 3: Tv::new(5), 1: Tv::new(6), 27: Tv::new(7), 5: Tv::new(8), 26: x(Tv::new(9)), 11: x(Tv::new(10)), 0b0: Tv::new(11), 34: Tv::new(12), 10: Tv::new(13), 25: Tv::new(14), 35: Tv::new(15), 39: Tv::new(16), 0o17: Tv::new(17), 4: Tv::new(18), 0o15: Tv::new(19), 0x20: Tv::new(20), 33: Tv::new(21), 17: Tv::new(22), 21: x(Tv::new(23)), 0b10000: x(Tv::new(24)), 0x8: Tv::new(25), 38: Tv::new(26), 24: Tv::new(27), 29: Tv::new(28), 9: x(Tv::new(29)), 36: Tv::new(30), 31: Tv::new(31), 0o45: Tv::new(32), 0o27: Tv::new(33), 18: Tv::new(34), 7: Tv::new(35), 22: Tv::new(36), 12: x(Tv::new(37)), 20: Tv::new(38), 2: Tv::new(39), 0xe: Tv::new(40) });  let m: A4 = m; map::<i32, _>(m) }
pub fn p5() -> Box<dyn SetObj<i32>> { fz_scalar_set!(static M: A5<i32>, { 2_147_483_641_i32, 2147483629i32, 2147483618_i32, 2_147_483_643, 2147483619_i32, 0x7fffffe0, 2147483638, 2147483610i32, 2_147_483_632i32, 2_147_483_612_i32, 2147483626_i32, 2_147_483_611, 2147483642_i32, 2147483634, 0b1111111111111111111111111110111_i32, 2_147_483_633_i32, 2_147_483_613i32, 2147483622i32, 2147483628i32, 2147483631_i32, 2147483646_i32, 2147483617_i32, 2_147_483_608_i32, 2_147_483_635, 2147483614i32, 2147483609, 2_147_483_640_i32, 2147483615_i32, 2_147_483_621_i32, 2147483647i32, 2147483637i32, 2147483624i32, 0x7ffffffc, 0x7fffffe4_i32, 2147483625, 2147483627_i32, 0b1111111111111111111111111110100i32, 0x7fffffee, 0o17777777747_i32, 0x7ffffffdi32 }); let m: A5 = M.clone(); set::<i32, _>(m) }
pub fn p6() -> Box<dyn MapObj<i32>> { fz_scalar_map!(let m: A6<i32, Tv>, { 2147483643: Tv::new(1), 2147483636: Tv::new(2), 0o17777777777: Tv::new(3), 2147483644: Tv::new(4), });  let m: A6 = m; map::<i32, _>(m) }
pub fn p7() -> Box<dyn SetObj<i32>> { fz_scalar_set!(let m: A7<i32>, { 2_147_483_629_i32, 0b1111111111111111111111111111110i32, 2147483616_i32, 2147483647, });  let m: A7 = m; set::<i32, _>(m) }
pub fn p8() -> Box<dyn MapObj<i32>> { map::<i32, _>(fz_scalar_map!({ 3: Tv::new(1), 86: Tv::new(2), 61: Tv::new(3), 24: Tv::new(4), 0x0: Tv::new(5), 0o1: Tv::new(6), 54: Tv::new(7), 77: Tv::new(8), 42: x(Tv::new(9)), 96: Tv::new(10), 90: x(Tv::new(11)), 71: Tv::new(12), 45: Tv::new(13), 74: Tv::new(14), 0o111: x(Tv::new(15)), 0x4b: Tv::new(16), 78: Tv::new(17), 15: x(Tv::new(18)), 80: Tv::new(19), 40: x(Tv::new(20)), 0xc: Tv::new(21), 89: Tv::new(22), 62: x(Tv::new(23)), 99: Tv::new(24), 0x48: Tv::new(25), 44: Tv::new(26), 19: Tv::new(27), 30: Tv::new(28), 50: Tv::new(29), 0o151: Tv::new(30), 0x44: Tv::new(31), 25: Tv::new(32), 107: Tv::new(33) })) }
pub fn p9() -> Box<dyn SetObj<i32>> { fz_scalar_set!(let mut m: A9<i32>, { 0x34be96e9, 884_905_790, 884905735, 0o6457513557, 884905718, 884905743, 884_905_827, 884905748, 884905754, 884905776, 0x34be9771, 0b110100101111101001011101010111, 884905777, 0x34be96fa, 0x34be9713, 884_905_791, 884905789, 884905746, 0x34be973c, 884905737, 884905728, 884905766, 0o6457513512, 884_905_767, 0b110100101111101001011101010110, 884_905_717, 884905836, 0b110100101111101001011101101101, 884905778, 0x34be9761, 884905816, 0x34be96ea, 884_905_826 }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A9 = m; set::<i32, _>(m) }
pub fn p10() -> Box<dyn MapObj<i32>> { fz_scalar_map!(let mut m: A10<i32, Tv>, { 1275949897: Tv::new(1), 511406149: Tv::new(2), 1945648462: Tv::new(3), 532408467: Tv::new(4), 2140496727: x(Tv::new(5)), 0o10617370154: Tv::new(6), 0x6f78e6a8: x(Tv::new(7)), 1001366738: Tv::new(8) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A10 = m; map::<i32, _>(m) }
pub fn p11() -> Box<dyn SetObj<i32>> { fz_scalar_set!(static M: A11<i32>, { 1_445_529_027i32, 0xd58c90e_i32, 1291768221i32, 1318171860_i32, 2_020_414_153, 1430268072i32, 644_930_434, 1499566927_i32, }); let m: A11 = M.clone(); set::<i32, _>(m) }
pub fn p12() -> Box<dyn MapObj<i32>> { map::<i32, _>(fz_hash_map!({ 417360849: Tv::new(1), 434_218_456_i32: x(Tv::new(2)), 341054741: Tv::new(3), 1360578733i32: Tv::new(4), 1743882238_i32: x(Tv::new(5)), 0x33532dci32: Tv::new(6), 1117200086: Tv::new(7) })) }
pub fn p13() -> Box<dyn SetObj<i32>> { fz_hash_set!(static M: A13<i32>, { 99_714_893, 1045130422, 0x5ecd7e1c, 1646953095, 1516241409, 1_678_749_240, 691518786 }); let m: A13 = M.clone(); set::<i32, _>(m) }
prog_fam!(Fi32, i32, fz: FzHashMap::<i32, Tv>::new, fzs: FzHashSet::<i32>::new, maps: ["p0" => p0, "p2" => p2, "p4" => p4, "p6" => p6, "p8" => p8, "p10" => p10, "p12" => p12], sets: ["p1" => p1, "p3" => p3, "p5" => p5, "p7" => p7, "p9" => p9, "p11" => p11, "p13" => p13], de: (FzHashMap::<i32, Tv>, FzHashSet::<i32>));
fn main() { run::main(|p, out| match p["k"].as_str().unwrap() { "i32" => run::session::<i32>(&Fi32, p, out), k => panic!("harness: key {k}") }); }
