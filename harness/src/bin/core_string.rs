// generated by bin/mkcore.py
#![allow(warnings)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/prog.rs"]
mod prog;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections::{fz_hash_map, fz_hash_set, fz_ordered_map, fz_ordered_set, fz_scalar_map, fz_scalar_set, fz_string_map, fz_string_set};
use prog::*;
use std::num::*;

prog_views!(String, str, |a| a.as_str());
pub fn p58() -> Box<dyn MapObj<String>> { fz_hash_map!(let mut m: A58<String, Tv>, { String::from("dcgbde"): Tv::new(1), "cf".to_string(): Tv::new(2), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A58 = m; map::<String, _>(m) }
pub fn p59() -> Box<dyn SetObj<String>> { fz_hash_set!(let mut m: A59<String>, { String::from("hbcecggh"), "fffdfea".to_string(), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A59 = m; set::<String, _>(m) }
pub fn p60() -> Box<dyn MapObj<String>> { map::<String, _>(fz_hash_map!({ String::from("fcaaadccffgc"): Tv::new(1), String::from("efh"): Tv::new(2), String::from("dddccbh"): Tv::new(3), r#"dedgbdhd"#.to_string(): Tv::new(4) })) }
pub fn p61() -> Box<dyn SetObj<String>> { fz_hash_set!(let mut m: A61<String>, { "cfeachecha".to_string(), String::from("gcggceacad"), "gah".to_string(), String::from(r#"hccc"#) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A61 = m; set::<String, _>(m) }
pub fn p62() -> Box<dyn MapObj<String>> { fz_ordered_map!(let mut m: A62<String, Tv>, { "dhdeehae".to_string(): Tv::new(1), String::from("gbfgeac"): x(Tv::new(2)) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A62 = m; map::<String, _>(m) }
pub fn p63() -> Box<dyn SetObj<String>> { fz_ordered_set!(let mut m: A63<String>, { "had".to_string(), String::from("db") }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A63 = m; set::<String, _>(m) }
pub fn p64() -> Box<dyn MapObj<String>> { fz_ordered_map!(let mut m: A64<String, Tv>, { String::from("dgfbfehcbdad"): Tv::new(1), "cadfah".to_string(): x(Tv::new(2)), String::from("gecbghe"): Tv::new(3), "ebhcbhbd".to_string(): x(Tv::new(4)), "gd".to_string(): x(Tv::new(5)), "dffhcgafdhb".to_string(): x(Tv::new(6)), r#"afcffg"#.to_string(): x(Tv::new(7)) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A64 = m; map::<String, _>(m) }
pub fn p65() -> Box<dyn SetObj<String>> { fz_ordered_set!(let mut m: A65<String>, { String::from("gehbadeah"), String::from(r#"addefhgdbfac"#), r#"bdeeagdfb"#.to_string(), r#"cddb"#.to_string(), "dgacbf".to_string(), "gbaghabh".to_string(), "bbfcbeaae".to_string(), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A65 = m; set::<String, _>(m) }
pub fn p66() -> Box<dyn MapObj<String>> { fz_ordered_map!(let mut m: A66<String, Tv>, { r#"fafcfdhg"#.to_string(): Tv::new(1), "ffbgee".to_string(): x(Tv::new(2)), String::from("cgdff"): Tv::new(3), String::from("hafd"): x(Tv::new(4)), "bhaefcbhhgae".to_string(): Tv::new(5), String::from("cgcbbcc"): Tv::new(6), String::from("hcdhdab"): Tv::new(7), String::from("gfa"): Tv::new(8), r#"acccdhfegdb"#.to_string(): Tv::new(9), "baafgg".to_string(): x(Tv::new(10)), String::from("ge"): Tv::new(11), r#"degdbgadadcb"#.to_string(): Tv::new(12), "hbagceebefc".to_string(): Tv::new(13), String::from("cgfe"): Tv::new(14), "habechaabc".to_string(): Tv::new(15), "gagacffagege".to_string(): x(Tv::new(16)), "gdgbcagg".to_string(): x(Tv::new(17)), "aheffeggfdeg".to_string(): x(Tv::new(18)), "ad".to_string(): Tv::new(19), "bdhef".to_string(): x(Tv::new(20)), String::from("debdgbhe"): Tv::new(21), "dggahaed".to_string(): Tv::new(22), String::from(r#"ebdeeafe"#): Tv::new(23), String::from(r#"hgacdcbf"#): Tv::new(24), String::from("eeehchbcdbfb"): x(Tv::new(25)), String::from(r#"hb"#): Tv::new(26), String::from(r#"hcdea"#): Tv::new(27), "dabgdacfache".to_string(): Tv::new(28), "fedeg".to_string(): Tv::new(29), String::from("hhhcegcag"): x(Tv::new(30)), String::from("hafhggbfga"): x(Tv::new(31)), String::from("hccbccafcbf"): Tv::new(32), "adeaa".to_string(): Tv::new(33) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A66 = m; map::<String, _>(m) }
pub fn p67() -> Box<dyn SetObj<String>> { fz_ordered_set!(let mut m: A67<String>, { "eachabcc".to_string(), "ada".to_string(), String::from("ggdhh"), String::from("fbdehf"), String::from("gacd"), String::from("dfhgad"), String::from("bc"), String::from("afgh"), String::from("fg"), String::from("chacfhec"), "acchfef".to_string(), "agggfgh".to_string(), "afcfdhh".to_string(), String::from("bcgdedfchc"), "cfchbhgcgaa".to_string(), "age".to_string(), String::from("fdbbdceaa"), String::from("cgcbhadg"), "eadfefgacce".to_string(), "bb".to_string(), "fhfhdheb".to_string(), "hda".to_string(), "fbeabhcbfc".to_string(), "efdh".to_string(), "cc".to_string(), String::from(r#"bac"#), "ae".to_string(), "eabchcg".to_string(), String::from("gdbchag"), "cehfdbgaed".to_string(), "gcdcc".to_string(), String::from("bcd"), r#"dafhabaafgh"#.to_string() }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A67 = m; set::<String, _>(m) }
prog_fam!(FString, String, fz: FzHashMap::<String, Tv>::new, fzs: FzHashSet::<String>::new, maps: ["p58" => p58, "p60" => p60, "p62" => p62, "p64" => p64, "p66" => p66], sets: ["p59" => p59, "p61" => p61, "p63" => p63, "p65" => p65, "p67" => p67], de: (FzHashMap::<String, Tv>, FzHashSet::<String>));
fn main() { run::main(|p, out| match p["k"].as_str().unwrap() { "String" => run::session::<String>(&FString, p, out), k => panic!("harness: key {k}") }); }
