// generated by bin/mkcore.py
#![allow(warnings)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/prog.rs"]
mod prog;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections::{fz_hash_map, fz_hash_set, fz_ordered_map, fz_ordered_set, fz_scalar_map, fz_scalar_set, fz_string_map, fz_string_set};
use prog::*;
use std::num::*;

prog_views!(&'static str, str, |a| *a);
pub fn p36() -> Box<dyn MapObj<&'static str>> { fz_string_map!(let mut m: A36<&'static str, Tv>, { "0003-common": Tv::new(1), "0001-common": Tv::new(2), "0004-common": Tv::new(3), "0000-common": x(Tv::new(4)), "0002-common": Tv::new(5), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A36 = m; map::<&'static str, _>(m) }
pub fn p37() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let m: A37<&'static str>, { "0002-common", "0003-common", "0004-common", "0000-common", "0001-common" });  let m: A37 = m; set::<&'static str, _>(m) }
pub fn p38() -> Box<dyn MapObj<&'static str>> { fz_string_map!(let m: A38<&'static str, Tv>, { "0020-common": Tv::new(1), "0026-common": x(Tv::new(2)), "0029-common": Tv::new(3), "0028-common": Tv::new(4), r#"0032-common"#: Tv::new(5), "0000-common": Tv::new(6), "0017-common": Tv::new(7), "0023-common": Tv::new(8), "0018-common": Tv::new(9), "0030-common": Tv::new(10), "0009-common": Tv::new(11), "0005-common": x(Tv::new(12)), "0001-common": Tv::new(13), "0022-common": Tv::new(14), "0015-common": Tv::new(15), r#"0011-common"#: Tv::new(16), "0010-common": Tv::new(17), "0002-common": Tv::new(18), "0004-common": Tv::new(19), "0021-common": Tv::new(20), "0013-common": Tv::new(21), "0024-common": Tv::new(22), "0006-common": Tv::new(23), "0014-common": Tv::new(24), "0016-common": Tv::new(25), "0025-common": Tv::new(26), "0007-common": Tv::new(27), "0003-common": x(Tv::new(28)), "0019-common": x(Tv::new(29)), "0008-common": Tv::new(30), "0031-common": Tv::new(31), "0012-common": x(Tv::new(32)), "0027-common": Tv::new(33), });  let m: A38 = m; map::<&'static str, _>(m) }
pub fn p39() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let mut m: A39<&'static str>, { "0002-common", r#"0022-common"#, r#"0010-common"#, "0009-common", "0027-common", "0013-common", "0015-common", "0020-common", "0008-common", r#"0005-common"#, "0021-common", "0003-common", "0012-common", "0006-common", "0018-common", "0031-common", "0007-common", "0001-common", "0025-common", "0029-common", "0011-common", "0032-common", "0026-common", "0024-common", "0030-common", "0023-common", "0014-common", "0004-common", "0028-common", "0019-common", "0017-common", r#"0016-common"#, "0000-common" }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A39 = m; set::<&'static str, _>(m) }
pub fn p40() -> Box<dyn MapObj<&'static str>> { fz_string_map!(let mut m: A40<&'static str, Tv>, { "common-0000": Tv::new(1), "common-0007": Tv::new(2), "common-0002": Tv::new(3), r#"common-0004"#: Tv::new(4), "common-0005": Tv::new(5), "common-0008": Tv::new(6), "common-0003": Tv::new(7), "common-0006": Tv::new(8), r#"common-0001"#: x(Tv::new(9)), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A40 = m; map::<&'static str, _>(m) }
pub fn p41() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let m: A41<&'static str>, { "common-0001", "common-0004", r#"common-0002"#, "common-0007", "common-0008", "common-0003", "common-0000", r#"common-0006"#, "common-0005" });  let m: A41 = m; set::<&'static str, _>(m) }
pub fn p42() -> Box<dyn MapObj<&'static str>> { map::<&'static str, _>(fz_hash_map!({ r#"z0001"#: Tv::new(1), "zzz0015": Tv::new(2), r#"zz0014"#: Tv::new(3), "0006": Tv::new(4), "zzzz0004": Tv::new(5), "z0013": x(Tv::new(6)), "zz0008": Tv::new(7), "zzz0009": Tv::new(8), "z0007": x(Tv::new(9)), "zzz0003": Tv::new(10), "0000": Tv::new(11), "zz0002": Tv::new(12), "0012": Tv::new(13), "zzzzz0011": Tv::new(14), "zzzz0010": Tv::new(15), "zzzzz0005": Tv::new(16) })) }
pub fn p43() -> Box<dyn SetObj<&'static str>> { fz_hash_set!(static M: A43<&'static str>, { "zzzzz0011", "0006", "zzz0015", "z0013", "zz0014", "z0001", "zz0008", "zzz0003", "z0007", "zzzzz0005", "zz0002", "zzz0009", "zzzz0004", r#"0000"#, "zzzz0010", "0012" }); let m: A43 = M.clone(); set::<&'static str, _>(m) }
pub fn p44() -> Box<dyn MapObj<&'static str>> { fz_ordered_map!(let mut m: A44<&'static str, Tv>, { "aaaa": Tv::new(1), "aaaaaaaa": Tv::new(2), "aa": Tv::new(3), "aaaaaa": Tv::new(4), "aaaaaaa": Tv::new(5), "aaaaa": Tv::new(6), "a": Tv::new(7), "aaa": Tv::new(8), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A44 = m; map::<&'static str, _>(m) }
pub fn p45() -> Box<dyn SetObj<&'static str>> { fz_ordered_set!(let mut m: A45<&'static str>, { "aaaaaa", "aaaaaaaa", "aa", "a", "aaa", "aaaa", "aaaaa", r#"aaaaaaa"# }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A45 = m; set::<&'static str, _>(m) }
pub fn p46() -> Box<dyn MapObj<&'static str>> { fz_string_map!(let mut m: A46<&'static str, Tv>, { "к\u{43b}юч2\u{e9}😀ßß": x(Tv::new(1)), "\u{43a}\u{43b}\u{44e}ч0é😀": Tv::new(2), "клю\u{447}5é😀ßß": Tv::new(3), "ключ6\u{e9}😀": Tv::new(4), "ключ1é😀ß": Tv::new(5), "клю\u{447}3é😀": Tv::new(6), "\u{43a}л\u{44e}ч4é😀ß": Tv::new(7) }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A46 = m; map::<&'static str, _>(m) }
pub fn p47() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let mut m: A47<&'static str>, { "\u{43a}люч2é😀ßß", "кл\u{44e}\u{447}3é😀", "к\u{43b}юч5é😀ß\u{df}", "\u{43a}люч6\u{e9}\u{1f600}", "к\u{43b}юч0é😀", "\u{43a}\u{43b}\u{44e}ч1é\u{1f600}ß", "ключ4é\u{1f600}ß" }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A47 = m; set::<&'static str, _>(m) }
pub fn p48() -> Box<dyn MapObj<&'static str>> { fz_string_map!(let m: A48<&'static str, Tv>, { "": Tv::new(1), "w1": Tv::new(2), "w2": Tv::new(3), r#"w0"#: x(Tv::new(4)) });  let m: A48 = m; map::<&'static str, _>(m) }
pub fn p49() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let mut m: A49<&'static str>, { "w0", r#""#, "w1", r#"w2"# }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A49 = m; set::<&'static str, _>(m) }
pub fn p50() -> Box<dyn MapObj<&'static str>> { fz_string_map!(static M: A50<&'static str, Tv>, { "gecg": Tv::konst(1) }); let m: A50 = M.clone(); map::<&'static str, _>(m) }
pub fn p51() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let mut m: A51<&'static str>, { r#"hghhca"# }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A51 = m; set::<&'static str, _>(m) }
pub fn p52() -> Box<dyn MapObj<&'static str>> { fz_string_map!(static M: A52<&'static str, Tv>, { "eefbfhchef": Tv::konst(1), r#"bdfhcf"#: Tv::konst(2), "bggbfa": Tv::konst(3), "ddeg": Tv::konst(4), "dbaabceffhfh": Tv::konst(5), "ffcaecdgach": Tv::konst(6), "dabfaa": Tv::konst(7), "fhfabfdgdcb": Tv::konst(8), "cgaf": Tv::konst(9), "dchggbgde": Tv::konst(10), "dadgbb": Tv::konst(11), r#"beafe"#: Tv::konst(12), r#"hgbacechda"#: Tv::konst(13), "bdgcccggcb": Tv::konst(14), "efgedbfbbdge": Tv::konst(15), "bbaff": Tv::konst(16), "fdcb": Tv::konst(17), "gedfhfedhega": Tv::konst(18), r#"afdfh"#: Tv::konst(19), "effhhg": Tv::konst(20), "gbegh": Tv::konst(21), "dbehefaac": Tv::konst(22), "feheahgabfe": Tv::konst(23), "ehaeghaaae": Tv::konst(24), "fbfdceadgegb": Tv::konst(25), "ebafeefde": Tv::konst(26), "bbhadhddhgd": Tv::konst(27), r#"ehfae"#: Tv::konst(28), r#"bhdeaahbebbc"#: Tv::konst(29), "bh": Tv::konst(30), "cce": Tv::konst(31), "fed": Tv::konst(32), "bcgcagacbha": Tv::konst(33), "dfdc": Tv::konst(34), "ahfgchah": Tv::konst(35), "agecbb": Tv::konst(36), "gbe": Tv::konst(37), "cbceeahae": Tv::konst(38), "ggha": Tv::konst(39), "bgdffcbhgdg": Tv::konst(40), "aehhd": Tv::konst(41), "ahaeeggafdf": Tv::konst(42), "bbcebefcdfd": Tv::konst(43), r#"fddhach"#: Tv::konst(44), "dfecce": Tv::konst(45), "ge": Tv::konst(46), "ebcgba": Tv::konst(47), r#"haaefagdbhfd"#: Tv::konst(48), "hcfegahe": Tv::konst(49), "ccddhde": Tv::konst(50), "ffb": Tv::konst(51), "dcgf": Tv::konst(52), "caagb": Tv::konst(53), r#"dcaahghdbb"#: Tv::konst(54), "ahhfad": Tv::konst(55), "ebcchegch": Tv::konst(56), "efaeheeg": Tv::konst(57), r#"gfhgff"#: Tv::konst(58), "bcbfdcgbdd": Tv::konst(59), "effbeaahf": Tv::konst(60), "afdefhdb": Tv::konst(61), "cfegeeaadd": Tv::konst(62), "aegd": Tv::konst(63), "hdcefchh": Tv::konst(64), "eehgdc": Tv::konst(65), "agfabehdabec": Tv::konst(66), "ebdfacdahc": Tv::konst(67), "afccecfe": Tv::konst(68), r#"ehhdecgc"#: Tv::konst(69), "fgcddcdedhg": Tv::konst(70), "defdhcee": Tv::konst(71), "bcaedgdbf": Tv::konst(72), "dfgbbfg": Tv::konst(73), "dfddadcg": Tv::konst(74), "gadged": Tv::konst(75), "gecb": Tv::konst(76), r#"faddaagebgd"#: Tv::konst(77), r#"gfhebgbhgdh"#: Tv::konst(78), "heeghhbhgg": Tv::konst(79), "efeabcagac": Tv::konst(80), "ha": Tv::konst(81), "eefdehf": Tv::konst(82), "hgbgdfbf": Tv::konst(83), "gg": Tv::konst(84), "bafffgceh": Tv::konst(85), "gccbdc": Tv::konst(86), "dcgeeggee": Tv::konst(87), "bggg": Tv::konst(88), "cbhehcegace": Tv::konst(89), "ed": Tv::konst(90), "ccbbgeeh": Tv::konst(91), "ecgecegaffee": Tv::konst(92), "agaac": Tv::konst(93), "ghdbbgdddcbd": Tv::konst(94), "bbgfgdfhffbg": Tv::konst(95), "gdg": Tv::konst(96), "afahfeh": Tv::konst(97), "bcaab": Tv::konst(98), "acdfdbggff": Tv::konst(99), "fdeeedgg": Tv::konst(100), "bhdfbadghc": Tv::konst(101), "aee": Tv::konst(102), "bcgfabg": Tv::konst(103), "adah": Tv::konst(104), "fhd": Tv::konst(105), "hggfadahddgc": Tv::konst(106), "gddeda": Tv::konst(107), "hdgdafdf": Tv::konst(108), "ghggbgfh": Tv::konst(109), "baedabhb": Tv::konst(110), "begcb": Tv::konst(111), r#"bdfgc"#: Tv::konst(112), "be": Tv::konst(113), r#"ebdfhhchadhe"#: Tv::konst(114), "acbgd": Tv::konst(115), "bcghdfhdba": Tv::konst(116), "cdgbeb": Tv::konst(117), "agbfddddha": Tv::konst(118), "ceae": Tv::konst(119), "deg": Tv::konst(120), "ageaahead": Tv::konst(121), "edcedebdhac": Tv::konst(122), "cfeabhcdch": Tv::konst(123), "bb": Tv::konst(124), r#"dacgagaa"#: Tv::konst(125), "ehhehch": Tv::konst(126), "fgccdfba": Tv::konst(127), "gaaaac": Tv::konst(128), "geggcechea": Tv::konst(129), "aa": Tv::konst(130) }); let m: A52 = M.clone(); map::<&'static str, _>(m) }
pub fn p53() -> Box<dyn SetObj<&'static str>> { fz_string_set!(static M: A53<&'static str>, { "hdeeace", "chg", "cgdhafeehehb", "achhffggehc", "hfcfbfd", r#"abdbgfa"#, "eac", "afb", "de", "adbdeee", r#"abbbhh"#, "bchfeegcch", "addbhbgbgfd", "dfaec", "bcd", "dfbg", "bhde", "abacg", "hdcbggfbcf", "efbdabbccga", "fggceeefabg", "fcgf", "cefhbbfbfgh", "gghcbefagab", "bfhbhfgbed", r#"deegbadceeef"#, "eggb", "acbfacfhb", r#"hafedbhec"#, "acbcbdegca", "abhcgf", "ddchhc", "gb", "cbahgbcabf", "gfgaecaffdd", "gaheg", r#"dha"#, "efaagbdegag", "hfgabda", "hba", "ggda", r#"bdgdaegdadh"#, r#"bcdccahdgd"#, "fcafcebh", "fffbh", "bhfd", "hdgcfgggdag", "ghhcdaeehh", r#"hgddffageee"#, "babbabaf", "eggbc", "bcfhfha", "gbfbebahec", "ddhdafbb", r#"dgcgdggc"#, "egbheg", "dbh", "ececf", r#"dbabhd"#, r#"hh"#, "bacggbhc", "ce", "bdhfc", "hhedhed", "adfgfbfbfcga", "gedahacbebb", "haheadfaga", "ff", "cfgabag", "eddhcdebhf", "fcefadc", "bb", r#"cdcahe"#, "abfa", "bfhccbg", "faahgeebh", "dcheceafadee", "afacddggdhb", "cbfgeeh", "bgecga", "ggdcbahfef", "daahdfafdh", "ccbbhbabfbce", "cghdaadh", "gcdeehbdhgbg", "gbgdhdbdd", "dcbac", "gdcacdgec", "hedg", "gc", "bcbecccafchf", "fe", "afhhbffbc", "aedcgchebcd", "ddefd", "fcaeaahfbgaa", r#"fagfdgccdg"#, "dabfcefgbbfh", "cebfbac", "gagggbc", r#"ggg"#, r#"edaf"#, "caaeegdecdh", r#"db"#, "ghe", "cgfhbchg", "hfbhdeed", "eefhbfbh", r#"dfaeb"#, r#"hdee"#, "cgc", "ddcbbcaedfch", "ba", "dhdbce", "hhh", "ebeee", "hdchbhcghcah", "dgheahehadh", "hdadbceacaa", "efdebgafbhaf", "fbbhggf", "cah", "gddgdd", "dhbha", "gcfhfgfc", "ggh", "ec", "ebad", "adbchggg", "hfcahehchbf" }); let m: A53 = M.clone(); set::<&'static str, _>(m) }
pub fn p54() -> Box<dyn MapObj<&'static str>> { map::<&'static str, _>(fz_string_map!({ r#"pre0001post"#: Tv::new(1), "pre0013post": Tv::new(2), "pre0000post": Tv::new(3), "pre0015post": Tv::new(4), "pre0004post": Tv::new(5), "pre0003post": Tv::new(6), "pre0002post": Tv::new(7), "pre0008post": Tv::new(8), "pre0009post": Tv::new(9), "pre0016post": Tv::new(10), "pre0012post": Tv::new(11), "pre0006post": Tv::new(12), "pre0011post": Tv::new(13), "pre0010post": Tv::new(14), "pre0005post": x(Tv::new(15)), "pre0007post": Tv::new(16), r#"pre0014post"#: Tv::new(17) })) }
pub fn p55() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let mut m: A55<&'static str>, { "pre0001post", "pre0008post", "pre0016post", "pre0006post", "pre0002post", r#"pre0013post"#, "pre0012post", "pre0015post", "pre0004post", "pre0010post", "pre0005post", "pre0003post", "pre0000post", "pre0014post", r#"pre0011post"#, "pre0007post", r#"pre0009post"# }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A55 = m; set::<&'static str, _>(m) }
pub fn p56() -> Box<dyn MapObj<&'static str>> { fz_string_map!(static M: A56<&'static str, Tv>, { "0003zzz": Tv::konst(1), "0036": Tv::konst(2), r#"0031z"#: Tv::konst(3), "0012": Tv::konst(4), "0043z": Tv::konst(5), "0020zz": Tv::konst(6), r#"0026zz"#: Tv::konst(7), "0062zz": Tv::konst(8), r#"0035zzzzz"#: Tv::konst(9), "0044zz": Tv::konst(10), "0032zz": Tv::konst(11), "0027zzz": Tv::konst(12), "0022zzzz": Tv::konst(13), "0051zzz": Tv::konst(14), "0014zz": Tv::konst(15), "0023zzzzz": Tv::konst(16), "0054": Tv::konst(17), "0030": Tv::konst(18), "0018": Tv::konst(19), "0056zz": Tv::konst(20), "0001z": Tv::konst(21), "0017zzzzz": Tv::konst(22), "0015zzz": Tv::konst(23), "0055z": Tv::konst(24), "0024": Tv::konst(25), "0057zzz": Tv::konst(26), "0061z": Tv::konst(27), "0058zzzz": Tv::konst(28), "0006": Tv::konst(29), "0029zzzzz": Tv::konst(30), "0040zzzz": Tv::konst(31), "0037z": Tv::konst(32), "0047zzzzz": Tv::konst(33), "0045zzz": Tv::konst(34), "0038zz": Tv::konst(35), "0016zzzz": Tv::konst(36), "0034zzzz": Tv::konst(37), r#"0048"#: Tv::konst(38), "0025z": Tv::konst(39), "0053zzzzz": Tv::konst(40), "0008zz": Tv::konst(41), "0033zzz": Tv::konst(42), r#"0019z"#: Tv::konst(43), "0042": Tv::konst(44), "0049z": Tv::konst(45), "0052zzzz": Tv::konst(46), "0004zzzz": Tv::konst(47), "0039zzz": Tv::konst(48), r#"0000"#: Tv::konst(49), r#"0005zzzzz"#: Tv::konst(50), "0050zz": Tv::konst(51), "0059zzzzz": Tv::konst(52), "0021zzz": Tv::konst(53), "0011zzzzz": Tv::konst(54), "0013z": Tv::konst(55), r#"0010zzzz"#: Tv::konst(56), "0028zzzz": Tv::konst(57), "0063zzz": Tv::konst(58), r#"0060"#: Tv::konst(59), "0046zzzz": Tv::konst(60), "0007z": Tv::konst(61), r#"0009zzz"#: Tv::konst(62), "0041zzzzz": Tv::konst(63), r#"0002zz"#: Tv::konst(64) }); let m: A56 = M.clone(); map::<&'static str, _>(m) }
pub fn p57() -> Box<dyn SetObj<&'static str>> { fz_string_set!(let m: A57<&'static str>, { "0017zzzzz", "0020zz", r#"0052zzzz"#, r#"0039zzz"#, "0006", r#"0005zzzzz"#, "0045zzz", "0003zzz", "0056zz", "0023zzzzz", r#"0059zzzzz"#, "0053zzzzz", "0036", "0004zzzz", "0062zz", r#"0018"#, "0060", r#"0010zzzz"#, "0058zzzz", "0026zz", "0030", r#"0042"#, "0057zzz", "0046zzzz", "0014zz", "0034zzzz", "0027zzz", "0033zzz", r#"0021zzz"#, "0011zzzzz", "0035zzzzz", "0043z", "0031z", r#"0063zzz"#, "0055z", "0009zzz", "0016zzzz", "0019z", "0044zz", "0000", "0007z", "0051zzz", "0012", "0008zz", "0032zz", "0029zzzzz", "0048", "0022zzzz", "0038zz", r#"0001z"#, "0028zzzz", "0047zzzzz", "0025z", "0040zzzz", "0054", "0013z", "0061z", "0037z", "0049z", "0041zzzzz", "0024", "0002zz", "0015zzz", "0050zz" });  let m: A57 = m; set::<&'static str, _>(m) }
prog_fam!(Fref, &'static str, fz: FzHashMap::<&'static str, Tv>::new, fzs: FzHashSet::<&'static str>::new, maps: ["p36" => p36, "p38" => p38, "p40" => p40, "p42" => p42, "p44" => p44, "p46" => p46, "p48" => p48, "p50" => p50, "p52" => p52, "p54" => p54, "p56" => p56], sets: ["p37" => p37, "p39" => p39, "p41" => p41, "p43" => p43, "p45" => p45, "p47" => p47, "p49" => p49, "p51" => p51, "p53" => p53, "p55" => p55, "p57" => p57]);
fn main() { run::main(|p, out| match p["k"].as_str().unwrap() { "ref" => run::session::<&'static str>(&Fref, p, out), k => panic!("harness: key {k}") }); }
