// generated by bin/mkcore.py
#![allow(warnings)]
#[path = "../common/key.rs"]
mod key;
#[path = "../common/enums.rs"]
mod enums;
#[path = "../common/obj.rs"]
mod obj;
#[path = "../common/prelude.rs"]
mod prelude;
#[path = "../common/prog.rs"]
mod prog;
#[path = "../common/run.rs"]
mod run;
#[path = "../common/ser.rs"]
mod ser;
#[path = "../common/track.rs"]
mod track;
use enums::*;
use frozen_collections::{fz_hash_map, fz_hash_set, fz_ordered_map, fz_ordered_set, fz_scalar_map, fz_scalar_set, fz_string_map, fz_string_set};
use prog::*;
use std::num::*;

prog_scalar!(u64);
pub fn p14() -> Box<dyn MapObj<u64>> { fz_hash_map!(let m: A14<u64, Tv>, {  });  let m: A14 = m; map::<u64, _>(m) }
pub fn p15() -> Box<dyn SetObj<u64>> { fz_hash_set!(let m: A15<u64>, {  });  let m: A15 = m; set::<u64, _>(m) }
pub fn p16() -> Box<dyn MapObj<u64>> { map::<u64, _>(fz_hash_map!({ 2338777700815050936u64: Tv::new(1), 0x1626c2cba257b8dcu64: x(Tv::new(2)) })) }
pub fn p17() -> Box<dyn SetObj<u64>> { fz_hash_set!(let m: A17<u64>, { 7575203867886851799_u64, 0x48b182200413f464_u64, });  let m: A17 = m; set::<u64, _>(m) }
pub fn p18() -> Box<dyn MapObj<u64>> { map::<u64, _>(fz_hash_map!({ 134504832246923076_u64: Tv::new(1), 7_713_427_213_315_271_874u64: Tv::new(2), 0x6f82e3332291977c: x(Tv::new(3)), 8210164518076076441_u64: Tv::new(4), 0x11ed83bb9498eb72: Tv::new(5), 12009852145228164851_u64: Tv::new(6), 2482207545981418935: Tv::new(7), 0xfc54228f794b399cu64: x(Tv::new(8)), 13129594090175699592u64: x(Tv::new(9)) })) }
pub fn p19() -> Box<dyn SetObj<u64>> { fz_hash_set!(static M: A19<u64>, { 5793999200988036551_u64, 14094213915284091025, 6321389208293507564_u64, 6560542541354969637u64, 12100842985905656391u64, 11260136267276584009_u64, 804129185530424887_u64, 2712846446141158564, 0x78d71642caec9bd8u64, }); let m: A19 = M.clone(); set::<u64, _>(m) }
pub fn p20() -> Box<dyn MapObj<u64>> { map::<u64, _>(fz_hash_map!({ 11512753135087909964u64: Tv::new(1), 14214792651278305646_u64: Tv::new(2), 18116727580100237100: Tv::new(3), 0o1340651574275574153565_u64: Tv::new(4), 9129139006833786313_u64: Tv::new(5), 12_707_513_230_415_298_439: Tv::new(6), 10_082_993_092_992_460_541u64: Tv::new(7), 15828893625558031373: Tv::new(8), 0xc50854bd37b3ed23_u64: x(Tv::new(9)), 0x2a55a7cf0364a6e9_u64: Tv::new(10), 0x5ce853625666992c_u64: Tv::new(11), 1786883852539028299_u64: Tv::new(12), 0x97a9d4bd6b920ce9_u64: Tv::new(13), 12610774763862454267_u64: x(Tv::new(14)), 0x19bec454d26a4bcb_u64: Tv::new(15), 0o1407056072675064012114_u64: Tv::new(16), 2060912646388514159u64: Tv::new(17), 3753646926523093000_u64: Tv::new(18), 0b1011010010010101111110010010000110011000001101110010000011110011: Tv::new(19), 17447364684169208532u64: Tv::new(20), 1559617888930483325_u64: Tv::new(21), 0xcace795c2fe843cbu64: Tv::new(22), 8833227966751900526_u64: Tv::new(23), 17582538253560342691u64: Tv::new(24), 6086190972037084963: Tv::new(25), 0xbf0c4f23c67ef5de: Tv::new(26), 0o765712702257577524455_u64: Tv::new(27), 3262536776343396140: x(Tv::new(28)), 6948801774317329659: Tv::new(29), 921084122052296884u64: Tv::new(30), 6242210876740593100u64: Tv::new(31), 4_169_718_825_989_942_876: x(Tv::new(32)), 9971414802702822865: Tv::new(33), 12946503898545316272u64: x(Tv::new(34)), 4662483634423364541u64: Tv::new(35), 10958349485504417098u64: Tv::new(36), 11758672419598807299u64: Tv::new(37), 5218099075280205536: Tv::new(38), 16874465908132106668_u64: x(Tv::new(39)), 1643149397000394098u64: Tv::new(40), 6202047125230715921u64: Tv::new(41), 9_683_030_755_399_372_764u64: Tv::new(42), 0x5b142f8517d7141eu64: Tv::new(43), 1794988667113176217_u64: Tv::new(44), 366009073512025805u64: Tv::new(45), 0o1200353012363006341457: x(Tv::new(46)), 16_480_038_311_325_928_397_u64: Tv::new(47), 5_709_942_048_364_048_014u64: Tv::new(48), 7_848_762_070_428_365_400u64: Tv::new(49), 15464934702585006393u64: Tv::new(50), 6_987_920_137_485_804_299: Tv::new(51), 0x6be931c48220e589u64: Tv::new(52), 3398037353150461927: Tv::new(53), 13511673565856123152u64: Tv::new(54), 297194813348498799: Tv::new(55), 0x4b229c4bec290e30: Tv::new(56), 8_770_167_485_554_202_594u64: x(Tv::new(57)), 1728981236691345729u64: Tv::new(58), 8605874779044933045: Tv::new(59), 12_380_980_938_403_214_291: x(Tv::new(60)), 0b1101110010011110001000010111111011000110101110110000010100010000u64: Tv::new(61), 5701101225045835465_u64: Tv::new(62), 14562162729561448959_u64: Tv::new(63), 6662238279218033468: Tv::new(64), 0x7e8d45138a48b5eb_u64: Tv::new(65), 0x4d3470c128e3bb23_u64: Tv::new(66), 8823487642954342908_u64: Tv::new(67), 4_677_728_585_301_521_524: x(Tv::new(68)), 9535014471073932824_u64: Tv::new(69), 8665851111906195536u64: Tv::new(70), 10612205355968489075u64: Tv::new(71), 10269017407929445861u64: x(Tv::new(72)), 2950906226063366263u64: Tv::new(73), 13094646042268296687: Tv::new(74), 15_631_081_303_745_222_500: x(Tv::new(75)), 0b1010011101001010000001101011010110101000001011100011010110011001u64: Tv::new(76), 15245410481431683896_u64: x(Tv::new(77)), 1842154373281694431u64: x(Tv::new(78)), 8992048468154602363u64: Tv::new(79), 0x3aa5dae7f89431e6_u64: Tv::new(80), 10_329_802_226_419_042_356u64: Tv::new(81), 0xf30e7241b504e9aa_u64: Tv::new(82), 0x63c17561517dd08d: x(Tv::new(83)), 10_324_620_002_176_045_369: Tv::new(84), 16239325458372199676: Tv::new(85), 0x4b55581cfda1fb58: Tv::new(86), 0xdeb606aacdc48fa2: Tv::new(87), 16373120448144116184: Tv::new(88), 0b100010101100100111000001000111011010101111100110110000111101011_u64: Tv::new(89), 0x636c6933bf0a07dd: Tv::new(90), 16_939_251_521_165_458_609_u64: Tv::new(91), 7007578928626175126: Tv::new(92), 11_389_322_531_786_482_922_u64: Tv::new(93), 0xb21715602675b676: Tv::new(94), 10_566_381_211_649_979_474u64: Tv::new(95), 11536906560225223366: Tv::new(96), 18304967131719443187: Tv::new(97), 0o265163005413327525342: x(Tv::new(98)), 9_218_222_098_911_831_487_u64: Tv::new(99), 18090094585650330246: Tv::new(100), 0x9059ec171e0e4740: Tv::new(101), 9473939515715486846_u64: Tv::new(102), 16_436_784_175_284_956_733u64: Tv::new(103), 3332642137182809063_u64: Tv::new(104), 3360429857151122886_u64: Tv::new(105), 6052409767224705783: Tv::new(106), 0xcbc4205aaea9a045u64: x(Tv::new(107)), 5980047541959858710: Tv::new(108), 9133865214038505161u64: Tv::new(109), 3_958_943_492_282_661_232u64: Tv::new(110), 11_433_021_969_149_737_689_u64: Tv::new(111), 7317792082591619530: Tv::new(112), 13656947880868624160u64: Tv::new(113), 11_273_998_057_781_074_919: Tv::new(114), 9_413_607_999_235_382_227: Tv::new(115), 1182772848635315589: Tv::new(116), 17723861982012286291u64: Tv::new(117), 17885455355622531804: Tv::new(118), 14767190629405456065u64: Tv::new(119), 0b1101110111011100010010101010111001111101111110011100011101100110u64: Tv::new(120), 16018535044884869526u64: Tv::new(121), 0o1130661325301747703102_u64: Tv::new(122), 777692495764237265_u64: Tv::new(123), 2696469871251962656u64: Tv::new(124), 13_205_717_716_732_578_620u64: Tv::new(125), 0x787869e7572e8f0a: Tv::new(126), 5249077105323371163_u64: Tv::new(127), 16901121391851352236u64: Tv::new(128), 18_026_454_630_629_200_853: Tv::new(129), 507_341_178_537_446_016_u64: Tv::new(130) })) }
pub fn p21() -> Box<dyn SetObj<u64>> { set::<u64, _>(fz_hash_set!({ 0x83ca40a69df0a997u64, 7_964_493_696_573_903_742, 15024475992775346373u64, 11572882984925245913_u64, 15612631700855442084u64, 4678331454357510644, 10563713940780334016, 3030782294065988457u64, 8859438801475775527, 1_604_707_208_262_643_097, 16_423_592_245_788_760_952, 96628969776458477_u64, 10_638_285_433_928_922_977u64, 16_656_461_749_882_982_765_u64, 10102932924380690823_u64, 0xb7e1252f66287977u64, 1_488_438_751_640_110_354_u64, 9_477_058_742_714_348_370, 5_956_394_284_132_550_540, 0b1100110010001100011101100110101111100001100011000010100111111000, 16_704_106_600_202_952_237_u64, 17_586_898_525_792_596_810_u64, 4_217_141_221_028_327_527u64, 15_346_170_896_213_099_167, 0x52d7fb9893655d1fu64, 2253747497601115050_u64, 12673420859819737537, 0xf3c7a83230c24a15u64, 37_854_880_848_034_423, 0x71341ca6489a84cbu64, 14_629_662_345_954_932_216_u64, 15_598_962_637_898_546_530_u64, 8438196827936495451u64, 0b1110110111111111010111110110001111001110101000011101011110000000_u64, 4474881646568202750_u64, 6771051811731343445_u64, 4442818102021177003u64, 319409490187777794_u64, 17534018530043433893, 3794573791111015563u64, 3134897480953897024, 7363032475214488914_u64, 2_214_566_777_557_728_396, 12260509904243257300u64, 14029527519907275618, 759979497376480942_u64, 4612936065233748240, 0x83aac5fa425d8bab_u64, 5_886_971_287_136_646_449_u64, 0x2e25af774c6dcabd, 14377504089072025468_u64, 13774740904718328568u64, 0b1100000011010101011101011010111010010101000101010100101101000011_u64, 3535820829783144736, 17_975_789_194_585_948_399u64, 5418837207991923797u64, 3088658106697171311u64, 14450250590679807581_u64, 18058517608656815061u64, 4_296_426_119_464_463_348_u64, 15726415741877882019u64, 1300951513981598732_u64, 6863648075984265334u64, 0xa13052fb612d02a5u64, 5623329729434027239_u64, 2030024867926806710_u64, 885087585725171802_u64, 0o1000655161130272557031_u64, 11_275_434_961_689_523_888_u64, 1827652729128052138_u64, 0b111111110010000111010000101000100101100000010101101100100010000u64, 12286463940646113369_u64, 0b1110000101111101011100011111111111000100010110110010100010101000u64, 5634279608992891698_u64, 4804856164677563873_u64, 15791944875739279434u64, 13429848991278022438_u64, 8277694540907116130, 7276078344491199386u64, 8_819_973_033_531_496_608, 5_097_441_374_431_577_972, 5509648297678979569_u64, 13963204518657310654, 15_730_364_996_504_793u64, 13_443_253_074_466_209_219u64, 9854365628158133843_u64, 10788549384680157294, 17195947203005692185u64, 0b1001100101010011000000010111000101100010101101110010001100011101_u64, 7669726578080698491u64, 3_348_993_485_991_615_805u64, 0b11100111110111010001110001111100000111001010111001100001100110_u64, 0xc35e7f5dcd18ec3_u64, 7088582623561761065u64, 2377875708711959664u64, 13135170126689114972, 14_502_418_404_790_501_649_u64, 2193556788682209679_u64, 0b1101110000011101001100011110101111010111010110010011001100011001_u64, 0x53d32c347b1a2d66, 6147239256469063647, 9448348269214050530, 0x6d07a1a5230dfce1u64, 3966106683318040901_u64, 0b111111011001111000111100111010100000100111111111010010001001, 7475851579320176542_u64, 7690876779408274307, 0x5c8434d46d41adb4u64, 105_910_936_989_596_710u64, 0x773d1d835be415f5, 0o602617362727162502101_u64, 0x62e13a3b128b3372u64, 3692500437357420778, 3639225083632273681_u64, 1_469_884_875_205_874_868_u64, 0xf9f9f01f3de8fd7au64, 0xd2d879bb77c15367, 9230389982812057711, 17232012918411525237_u64, 16344999688585095336u64, 10404162065081595249, 8_402_302_265_631_926_626u64, 10212446139092088799, 12170914205517519666, 0x162c46f168906fefu64, 0o7750500527711004573u64, 13035983381572179091, 1776465402573269566_u64, 15793758518163908139_u64, 0b1010110101011111110110011000100010101100001110000011111010100100_u64 })) }
pub fn p22() -> Box<dyn MapObj<u64>> { fz_ordered_map!(let m: A22<u64, Tv>, { 13780291335469473634u64: Tv::new(1), 3558218827010459827_u64: x(Tv::new(2)), 4139692122687343422: Tv::new(3), });  let m: A22 = m; map::<u64, _>(m) }
pub fn p23() -> Box<dyn SetObj<u64>> { fz_ordered_set!(let m: A23<u64>, { 0x9c52c50c873765c0u64, 7798320833718253342u64, 18_237_241_014_988_336_208_u64 });  let m: A23 = m; set::<u64, _>(m) }
pub fn p24() -> Box<dyn MapObj<u64>> { fz_ordered_map!(let mut m: A24<u64, Tv>, { 12711096287741984440u64: Tv::new(1), 2086670952167881522: Tv::new(2), 8971541412226801020: Tv::new(3), 8_388_015_684_547_943_467_u64: Tv::new(4), 7424397734659563514u64: x(Tv::new(5)), 7_645_948_450_132_920_692u64: x(Tv::new(6)), 0xf2687ffffb989cb1_u64: Tv::new(7), 17442181709104244622u64: Tv::new(8), 8107121991096687258_u64: Tv::new(9), 18359996835837520909: x(Tv::new(10)), 354544935039725533_u64: Tv::new(11), 11686317053005575732_u64: Tv::new(12), 1787305489924624720: Tv::new(13), 7284677975556605613: Tv::new(14), 12795392185875766866u64: Tv::new(15), 12726810835141795787_u64: Tv::new(16), 13_814_871_281_399_814_562_u64: Tv::new(17), }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A24 = m; map::<u64, _>(m) }
pub fn p25() -> Box<dyn SetObj<u64>> { fz_ordered_set!(let mut m: A25<u64>, { 11394743460127903216, 722860112124559813u64, 949570103191461002_u64, 4839707158530485000u64, 0b1101011001011100001110011010000001100111011110001010011011010_u64, 7530185136571664056u64, 15303723842169638184_u64, 7_767_368_641_139_530_637u64, 0b111100101010001110011001100111110010011000101010001000001000111_u64, 18_278_757_894_325_793_399_u64, 16_361_306_432_254_489_345, 0b1001100101111110010110000101100000111000000111101100010011111001u64, 0o1372431223610163535614u64, 9727901499712659301, 0o1533051015256202406011, 8252063525550410884_u64, 4207242342377298733 }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A25 = m; set::<u64, _>(m) }
pub fn p26() -> Box<dyn MapObj<u64>> { fz_scalar_map!(static M: A26<u64, Tv>, { 18: Tv::konst(1), 124_u64: Tv::konst(2), 210: Tv::konst(3), 10u64: Tv::konst(4), 0x109: Tv::konst(5), 243u64: Tv::konst(6), 230u64: Tv::konst(7), 134: Tv::konst(8), 298_u64: Tv::konst(9), 282u64: Tv::konst(10), 285u64: Tv::konst(11), 120u64: Tv::konst(12), 133u64: Tv::konst(13), 151u64: Tv::konst(14), 130_u64: Tv::konst(15), 294_u64: Tv::konst(16), 37u64: Tv::konst(17), 0x111_u64: Tv::konst(18), 0o115_u64: Tv::konst(19), 0x13: Tv::konst(20), 125_u64: Tv::konst(21), 59_u64: Tv::konst(22), 275_u64: Tv::konst(23), 297_u64: Tv::konst(24), 142: Tv::konst(25), 35u64: Tv::konst(26), 136_u64: Tv::konst(27), 0o34_u64: Tv::konst(28), 206_u64: Tv::konst(29), 215: Tv::konst(30), 238_u64: Tv::konst(31), 0b1101100_u64: Tv::konst(32), 122u64: Tv::konst(33), 0x69u64: Tv::konst(34), 91_u64: Tv::konst(35), 4_u64: Tv::konst(36), 76: Tv::konst(37), 160_u64: Tv::konst(38), 60u64: Tv::konst(39), 144u64: Tv::konst(40), 0b110100: Tv::konst(41), 0b10010011u64: Tv::konst(42), 276: Tv::konst(43), 47_u64: Tv::konst(44), 0o334: Tv::konst(45), 173: Tv::konst(46), 0xd0_u64: Tv::konst(47), 0xaeu64: Tv::konst(48), 154: Tv::konst(49), 70u64: Tv::konst(50), 0o36_u64: Tv::konst(51), 85_u64: Tv::konst(52), 191: Tv::konst(53), 196: Tv::konst(54), 0o137: Tv::konst(55), 0x58_u64: Tv::konst(56), 279_u64: Tv::konst(57), 117: Tv::konst(58), 0x10f: Tv::konst(59), 214_u64: Tv::konst(60), 0x51u64: Tv::konst(61), 3: Tv::konst(62), 0xf7_u64: Tv::konst(63), 38u64: Tv::konst(64), 178: Tv::konst(65), 106: Tv::konst(66), 0x2d: Tv::konst(67), 203: Tv::konst(68), 237_u64: Tv::konst(69), 0o416u64: Tv::konst(70), 156_u64: Tv::konst(71), 83: Tv::konst(72), 0o450_u64: Tv::konst(73), 209u64: Tv::konst(74), 155u64: Tv::konst(75), 262: Tv::konst(76), 0x81u64: Tv::konst(77), 227u64: Tv::konst(78), 198: Tv::konst(79), 72u64: Tv::konst(80), 0xaf: Tv::konst(81), 0xbe: Tv::konst(82), 211u64: Tv::konst(83), 138u64: Tv::konst(84), 102u64: Tv::konst(85), 140u64: Tv::konst(86), 145: Tv::konst(87), 222: Tv::konst(88), 249_u64: Tv::konst(89), 293: Tv::konst(90), 266_u64: Tv::konst(91), 0x49: Tv::konst(92), 244u64: Tv::konst(93), 163: Tv::konst(94), 272u64: Tv::konst(95), 171_u64: Tv::konst(96), 0xa4_u64: Tv::konst(97), 0x87: Tv::konst(98), 98_u64: Tv::konst(99), 14: Tv::konst(100), 286: Tv::konst(101), 0o301: Tv::konst(102), 63u64: Tv::konst(103), 0o415_u64: Tv::konst(104), 32_u64: Tv::konst(105), 56: Tv::konst(106), 0x22_u64: Tv::konst(107), 0xe2_u64: Tv::konst(108), 1_u64: Tv::konst(109), 168u64: Tv::konst(110), 87: Tv::konst(111), 0xb9_u64: Tv::konst(112), 99: Tv::konst(113), 0b100100000u64: Tv::konst(114), 109_u64: Tv::konst(115), 225_u64: Tv::konst(116), 0xaa_u64: Tv::konst(117), 104: Tv::konst(118), 0xbdu64: Tv::konst(119), 26_u64: Tv::konst(120), 16: Tv::konst(121), 194_u64: Tv::konst(122), 24: Tv::konst(123), 182_u64: Tv::konst(124), 0o260_u64: Tv::konst(125), 69_u64: Tv::konst(126), 240u64: Tv::konst(127), 239_u64: Tv::konst(128), 27: Tv::konst(129), 161_u64: Tv::konst(130), 141_u64: Tv::konst(131), 0o62_u64: Tv::konst(132), 97_u64: Tv::konst(133), 292: Tv::konst(134), 179_u64: Tv::konst(135), 169: Tv::konst(136), 116: Tv::konst(137), 166_u64: Tv::konst(138), 281u64: Tv::konst(139), 67_u64: Tv::konst(140), 260: Tv::konst(141), 40u64: Tv::konst(142), 114_u64: Tv::konst(143), 274u64: Tv::konst(144), 231u64: Tv::konst(145), 157: Tv::konst(146), 80: Tv::konst(147), 0b11110010_u64: Tv::konst(148), 110_u64: Tv::konst(149), 29u64: Tv::konst(150), 216_u64: Tv::konst(151), 0x121_u64: Tv::konst(152), 131_u64: Tv::konst(153), 0xa7u64: Tv::konst(154), 254u64: Tv::konst(155), 195_u64: Tv::konst(156), 283_u64: Tv::konst(157), 0o345u64: Tv::konst(158), 267_u64: Tv::konst(159), 54_u64: Tv::konst(160), 255u64: Tv::konst(161), 82u64: Tv::konst(162), 183_u64: Tv::konst(163), 94: Tv::konst(164), 78_u64: Tv::konst(165), 119_u64: Tv::konst(166), 0x31u64: Tv::konst(167), 93_u64: Tv::konst(168), 0xda: Tv::konst(169), 261u64: Tv::konst(170), 112: Tv::konst(171), 200u64: Tv::konst(172), 0b1000100: Tv::konst(173), 57u64: Tv::konst(174), 205: Tv::konst(175), 0x7bu64: Tv::konst(176), 0x73: Tv::konst(177), 0o26_u64: Tv::konst(178), 158u64: Tv::konst(179), 20u64: Tv::konst(180), 126: Tv::konst(181), 127: Tv::konst(182), 21: Tv::konst(183), 0b100100111_u64: Tv::konst(184), 0o5: Tv::konst(185), 290: Tv::konst(186), 278: Tv::konst(187), 100u64: Tv::konst(188), 232: Tv::konst(189), 201: Tv::konst(190), 74_u64: Tv::konst(191), 241u64: Tv::konst(192), 184_u64: Tv::konst(193), 277: Tv::konst(194), 0xd5u64: Tv::konst(195), 165u64: Tv::konst(196), 41_u64: Tv::konst(197), 132u64: Tv::konst(198), 228u64: Tv::konst(199), 0x6fu64: Tv::konst(200), 263_u64: Tv::konst(201), 0x11f: Tv::konst(202), 71: Tv::konst(203), 92_u64: Tv::konst(204), 15_u64: Tv::konst(205), 137u64: Tv::konst(206), 180u64: Tv::konst(207), 0x56u64: Tv::konst(208), 291_u64: Tv::konst(209), 172u64: Tv::konst(210), 0b100001100u64: Tv::konst(211), 202: Tv::konst(212), 6u64: Tv::konst(213), 207: Tv::konst(214), 212_u64: Tv::konst(215), 0x41_u64: Tv::konst(216), 113_u64: Tv::konst(217), 280_u64: Tv::konst(218), 101u64: Tv::konst(219), 188u64: Tv::konst(220), 0b11111100_u64: Tv::konst(221), 186u64: Tv::konst(222), 139_u64: Tv::konst(223), 236u64: Tv::konst(224), 257: Tv::konst(225), 0x8: Tv::konst(226), 0x30_u64: Tv::konst(227), 0o366_u64: Tv::konst(228), 79u64: Tv::konst(229), 121_u64: Tv::konst(230), 0o21_u64: Tv::konst(231), 284: Tv::konst(232), 219_u64: Tv::konst(233), 61u64: Tv::konst(234), 248: Tv::konst(235), 62: Tv::konst(236), 0o0: Tv::konst(237), 23u64: Tv::konst(238), 264: Tv::konst(239), 221u64: Tv::konst(240), 0o453_u64: Tv::konst(241), 0xbu64: Tv::konst(242), 143: Tv::konst(243), 159: Tv::konst(244), 258_u64: Tv::konst(245), 118u64: Tv::konst(246), 199: Tv::konst(247), 0o300u64: Tv::konst(248), 0o65_u64: Tv::konst(249), 33u64: Tv::konst(250), 149_u64: Tv::konst(251), 148_u64: Tv::konst(252), 253u64: Tv::konst(253), 2: Tv::konst(254), 187_u64: Tv::konst(255), 75u64: Tv::konst(256), 0x2b: Tv::konst(257), 0x2eu64: Tv::konst(258), 233u64: Tv::konst(259), 256_u64: Tv::konst(260), 181: Tv::konst(261), 7: Tv::konst(262), 259u64: Tv::konst(263), 235u64: Tv::konst(264), 55: Tv::konst(265), 146_u64: Tv::konst(266), 162_u64: Tv::konst(267), 36: Tv::konst(268), 44u64: Tv::konst(269), 84_u64: Tv::konst(270), 0o63u64: Tv::konst(271), 0x42_u64: Tv::konst(272), 197_u64: Tv::konst(273), 204u64: Tv::konst(274), 31: Tv::konst(275), 89_u64: Tv::konst(276), 107u64: Tv::konst(277), 0x98_u64: Tv::konst(278), 96u64: Tv::konst(279), 58: Tv::konst(280), 250_u64: Tv::konst(281), 153u64: Tv::konst(282), 64u64: Tv::konst(283), 0o261: Tv::konst(284), 224u64: Tv::konst(285), 251u64: Tv::konst(286), 0b101010u64: Tv::konst(287), 223_u64: Tv::konst(288), 0xf5u64: Tv::konst(289), 25_u64: Tv::konst(290), 13u64: Tv::konst(291), 0o352_u64: Tv::konst(292), 0x27_u64: Tv::konst(293), 103: Tv::konst(294), 9: Tv::konst(295), 150: Tv::konst(296), 90: Tv::konst(297), 217_u64: Tv::konst(298), 0o200_u64: Tv::konst(299), 12u64: Tv::konst(300) }); let m: A26 = M.clone(); map::<u64, _>(m) }
pub fn p27() -> Box<dyn SetObj<u64>> { fz_scalar_set!(let mut m: A27<u64>, { 2, 179, 0b10101, 269, 69_u64, 0b11100111_u64, 37, 124_u64, 220u64, 0b1011010_u64, 132, 166u64, 292_u64, 155u64, 264_u64, 100_u64, 13u64, 60u64, 209_u64, 1, 174_u64, 0o217, 0o404_u64, 83_u64, 38u64, 35, 123u64, 0o431_u64, 230, 0x20u64, 91u64, 294, 126_u64, 141, 130, 0o302u64, 0x110, 149u64, 172_u64, 108u64, 50_u64, 186_u64, 0x118u64, 228u64, 0o240_u64, 138_u64, 33, 131u64, 75, 10_u64, 26, 151, 104_u64, 266, 0b101010_u64, 293, 207u64, 244u64, 239u64, 199_u64, 227, 184_u64, 30, 51u64, 187_u64, 212_u64, 213, 89, 18u64, 0b10011010u64, 259, 161_u64, 279u64, 14_u64, 299u64, 0o221, 246u64, 171_u64, 62_u64, 169, 0x88u64, 23, 0o35u64, 238_u64, 205, 208, 36u64, 22u64, 113u64, 140u64, 77, 222, 225u64, 45, 274, 119u64, 65, 53u64, 185u64, 120, 11_u64, 28_u64, 82u64, 4_u64, 178_u64, 79, 0o375_u64, 103u64, 223_u64, 49_u64, 0xa3u64, 271_u64, 64u64, 273_u64, 0o277, 111u64, 162_u64, 127_u64, 167_u64, 152_u64, 134_u64, 0b10010010_u64, 0x100u64, 97_u64, 267_u64, 63, 229, 196_u64, 7_u64, 147u64, 193u64, 243_u64, 0o373u64, 262, 195u64, 192u64, 0, 275, 67, 0x5e, 70, 237_u64, 0xe0u64, 88, 175, 0b10011u64, 250u64, 99_u64, 92_u64, 157u64, 189, 0b1101101_u64, 0x107u64, 0xccu64, 72, 3, 43_u64, 173_u64, 0o342, 0xddu64, 95_u64, 210u64, 0xea_u64, 96u64, 258, 73u64, 118_u64, 34, 296u64, 54, 158u64, 80u64, 247, 56, 286_u64, 31_u64, 211, 117, 121, 265, 114, 46_u64, 112u64, 298_u64, 66_u64, 39_u64, 27, 201_u64, 218, 0b11001011, 86_u64, 17u64, 290, 248, 102u64, 87, 6, 0xeb_u64, 197u64, 8_u64, 170_u64, 55u64, 148u64, 58_u64, 93_u64, 217u64, 107_u64, 78u64, 0x6au64, 242u64, 285_u64, 0o112, 5_u64, 206, 15_u64, 137, 289u64, 254u64, 150_u64, 105_u64, 268_u64, 0b1010101, 198, 153, 81, 122, 142u64, 200_u64, 0x54, 284, 98u64, 245, 61u64, 255u64, 0b100101001, 57, 9, 0b100011111_u64, 232_u64, 76u64, 0b100010110u64, 41, 0x19u64, 215, 0x7d_u64, 252u64, 40_u64, 165u64, 133, 115, 144_u64, 188u64, 240u64, 156_u64, 59u64, 116u64, 0b10110000u64, 0x87u64, 110u64, 0o351_u64, 241_u64, 276u64, 291, 177_u64, 44, 182_u64, 202_u64, 168_u64, 48, 261u64, 0x34, 128, 183u64, 236u64, 0o107, 12u64, 282u64, 0x127u64, 20u64, 181_u64, 288u64, 257u64, 283, 216, 101_u64, 180, 16u64, 164, 277, 0b101111_u64, 249u64, 139_u64, 68_u64, 0b10111110_u64, 129, 159_u64, 214, 0b11000u64, 270u64, 219u64 }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A27 = m; set::<u64, _>(m) }
pub fn p28() -> Box<dyn MapObj<u64>> { fz_scalar_map!(let m: A28<u64, Tv>, { 0x8u64: Tv::new(1), 243u64: Tv::new(2), 169u64: Tv::new(3), 184u64: Tv::new(4), 0x1b_u64: Tv::new(5), 142: Tv::new(6), 0b1110100: Tv::new(7), 127_u64: Tv::new(8), 143_u64: Tv::new(9), 138: Tv::new(10), 94_u64: x(Tv::new(11)), 87u64: Tv::new(12), 0x81u64: x(Tv::new(13)), 193: Tv::new(14), 0x67: Tv::new(15), 237u64: Tv::new(16), 109_u64: Tv::new(17), 170u64: Tv::new(18), 120: Tv::new(19), 17u64: Tv::new(20), 206u64: Tv::new(21), 0x100_u64: Tv::new(22), 92_u64: Tv::new(23), 242u64: Tv::new(24), 0o131_u64: Tv::new(25), 0_u64: Tv::new(26), 241_u64: Tv::new(27), 254u64: Tv::new(28), 0o27_u64: Tv::new(29), 0xd7: Tv::new(30), 152: Tv::new(31), 219u64: Tv::new(32), 180_u64: x(Tv::new(33)), 62: Tv::new(34), 16_u64: x(Tv::new(35)), 93u64: Tv::new(36), 176: Tv::new(37), 201: Tv::new(38), 0x54u64: Tv::new(39), 77u64: Tv::new(40), 139u64: Tv::new(41), 0xe9_u64: Tv::new(42), 111_u64: Tv::new(43), 43u64: Tv::new(44), 26u64: Tv::new(45), 212u64: Tv::new(46), 88_u64: Tv::new(47), 0x4b_u64: Tv::new(48), 104: Tv::new(49), 100: Tv::new(50), 0xe6_u64: Tv::new(51), 188u64: Tv::new(52), 0x28u64: Tv::new(53), 162u64: Tv::new(54), 98u64: Tv::new(55), 0xfd: x(Tv::new(56)), 0b100111_u64: Tv::new(57), 123_u64: x(Tv::new(58)), 0x16u64: Tv::new(59), 72: Tv::new(60), 136: Tv::new(61), 52u64: Tv::new(62), 83u64: Tv::new(63), 124u64: Tv::new(64) });  let m: A28 = m; map::<u64, _>(m) }
pub fn p29() -> Box<dyn SetObj<u64>> { fz_scalar_set!(let mut m: A29<u64>, { 18446744073709551466_u64, 18446744073709551544, 0b1111111111111111111111111111111111111111111111111111111101010001, 18446744073709551433, 18446744073709551456_u64, 18446744073709551608u64, 18446744073709551438, 18446744073709551417_u64, 18_446_744_073_709_551_556, 0xffffffffffffffee_u64, 0xffffffffffffff6eu64, 18446744073709551435u64, 0xffffffffffffff7f_u64, 18446744073709551467_u64, 18446744073709551506_u64, 18_446_744_073_709_551_611u64, 18446744073709551514, 18446744073709551557u64, 18446744073709551365_u64, 18446744073709551388, 18_446_744_073_709_551_615u64, 18446744073709551425, 18446744073709551554_u64, 18446744073709551492_u64, 18446744073709551360, 18446744073709551589, 18446744073709551531, 18_446_744_073_709_551_449_u64, 18446744073709551377u64, 18446744073709551520, 18446744073709551484, 0o1777777777777777777536, 18446744073709551495, 18_446_744_073_709_551_532u64, 18446744073709551500, 18_446_744_073_709_551_570, 18446744073709551573, 18_446_744_073_709_551_498_u64, 18446744073709551526u64, 18446744073709551505, 0b1111111111111111111111111111111111111111111111111111111100101110_u64, 18446744073709551400_u64, 18_446_744_073_709_551_538, 18446744073709551428_u64, 0o1777777777777777777706_u64, 18_446_744_073_709_551_379u64, 0b1111111111111111111111111111111111111111111111111111111111001011, 18_446_744_073_709_551_490_u64, 18446744073709551359, 18446744073709551412u64, 18446744073709551535_u64, 18446744073709551529u64, 18446744073709551552, 18446744073709551408, 18446744073709551571u64, 0xffffffffffffffb3u64, 18_446_744_073_709_551_464u64, 18446744073709551518_u64, 18446744073709551564_u64, 18_446_744_073_709_551_478_u64, 0xffffffffffffff32, 18446744073709551592u64, 18446744073709551537u64, 18446744073709551503u64 }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A29 = m; set::<u64, _>(m) }
pub fn p30() -> Box<dyn MapObj<u64>> { fz_scalar_map!(static M: A30<u64, Tv>, { 0o1777777777777777777735: Tv::konst(1), 18446744073709551365_u64: Tv::konst(2), 18446744073709551448u64: Tv::konst(3), 18446744073709551381: Tv::konst(4), 18446744073709551478_u64: Tv::konst(5), 18446744073709551408u64: Tv::konst(6), 18_446_744_073_709_551_589u64: Tv::konst(7), 18_446_744_073_709_551_538: Tv::konst(8), 18_446_744_073_709_551_549_u64: Tv::konst(9), 18446744073709551605: Tv::konst(10), 0o1777777777777777777471_u64: Tv::konst(11), 18446744073709551504u64: Tv::konst(12), 0xffffffffffffffb3u64: Tv::konst(13), 18_446_744_073_709_551_361u64: Tv::konst(14), 0xfffffffffffffffd: Tv::konst(15), 18_446_744_073_709_551_420_u64: Tv::konst(16), 0xffffffffffffff23_u64: Tv::konst(17), 0xffffffffffffff1au64: Tv::konst(18), 18446744073709551532: Tv::konst(19), 0o1777777777777777777615: Tv::konst(20), 18446744073709551461_u64: Tv::konst(21), 18446744073709551456_u64: Tv::konst(22), 18446744073709551487_u64: Tv::konst(23), 0xffffffffffffffa7: Tv::konst(24), 18446744073709551559: Tv::konst(25), 18_446_744_073_709_551_459_u64: Tv::konst(26), 18_446_744_073_709_551_373: Tv::konst(27), 0xffffffffffffffe7u64: Tv::konst(28), 18_446_744_073_709_551_423u64: Tv::konst(29), 18_446_744_073_709_551_483u64: Tv::konst(30), 0b1111111111111111111111111111111111111111111111111111111101110001_u64: Tv::konst(31), 18446744073709551397: Tv::konst(32), 18446744073709551548: Tv::konst(33), 0xfffffffffffffff4_u64: Tv::konst(34), 0xffffffffffffff8b_u64: Tv::konst(35), 18446744073709551452: Tv::konst(36), 18446744073709551584_u64: Tv::konst(37), 0xffffffffffffff43_u64: Tv::konst(38), 0xffffffffffffffed: Tv::konst(39), 18446744073709551546: Tv::konst(40), 0xffffffffffffff26_u64: Tv::konst(41), 0xffffffffffffffa9_u64: Tv::konst(42), 18_446_744_073_709_551_564: Tv::konst(43), 18_446_744_073_709_551_450_u64: Tv::konst(44), 18446744073709551440_u64: Tv::konst(45), 18446744073709551496_u64: Tv::konst(46), 18446744073709551535u64: Tv::konst(47), 18446744073709551414u64: Tv::konst(48), 18446744073709551431: Tv::konst(49), 0xffffffffffffff64u64: Tv::konst(50), 18446744073709551377u64: Tv::konst(51), 18446744073709551382u64: Tv::konst(52), 0xfffffffffffffff7: Tv::konst(53), 18446744073709551474_u64: Tv::konst(54), 18446744073709551615u64: Tv::konst(55), 18446744073709551610u64: Tv::konst(56), 0b1111111111111111111111111111111111111111111111111111111111111110u64: Tv::konst(57), 18446744073709551436: Tv::konst(58), 18446744073709551480u64: Tv::konst(59), 0o1777777777777777777436_u64: Tv::konst(60), 0xffffffffffffff80u64: Tv::konst(61), 18446744073709551403u64: Tv::konst(62), 18446744073709551592_u64: Tv::konst(63), 0xffffffffffffffd8u64: Tv::konst(64) }); let m: A30 = M.clone(); map::<u64, _>(m) }
pub fn p31() -> Box<dyn SetObj<u64>> { fz_scalar_set!(let mut m: A31<u64>, { 65u64, 179, 204_u64, 0b11101010u64, 0x39, 87, 0o374_u64, 0_u64, 249_u64, 85, 0b1100010, 131_u64, 0o174, 0x79u64, 238_u64, 0x74, 0b100011u64, 58, 203_u64, 0xbau64, 0x3b, 255, 88, 198, 0b10000u64, 0x64u64, 170, 105u64, 21u64, 250_u64, 0o332u64, 56u64, 94_u64, 78, 235_u64, 0xf0, 19, 0xc3u64, 43_u64, 0x96_u64, 143u64, 254_u64, 185_u64, 0x28u64, 52u64, 10, 13u64, 62_u64, 192_u64, 73u64, 92_u64, 144u64, 0b1101010, 55_u64, 0xaf_u64, 136_u64, 74, 34u64, 4, 71u64, 237u64, 0b10010101u64, 196_u64, 7u64, }); fn touch<T>(_: &mut T) {} touch(&mut m); let m: A31 = m; set::<u64, _>(m) }
pub fn p32() -> Box<dyn MapObj<u64>> { fz_scalar_map!(static M: A32<u64, Tv>, { 16431215126699456594_u64: Tv::konst(1), 2646563353083879659: Tv::konst(2), 5930383067260780687: Tv::konst(3), 7888251770097265058: Tv::konst(4), 8_754_713_408_310_658_413: Tv::konst(5), 12_780_097_816_403_856_961_u64: Tv::konst(6), 8368002627730104060: Tv::konst(7), 8393874540034126477: Tv::konst(8), 17465403441116986065_u64: Tv::konst(9), 8660528738171596166: Tv::konst(10), 0o731507605617672506450: Tv::konst(11), 17032989190087666314_u64: Tv::konst(12), 3340725801703315807: Tv::konst(13), 0x22ec2db380e9e801_u64: Tv::konst(14), 4925706841265562724_u64: Tv::konst(15), 8984811019136541470: Tv::konst(16), 4782171133540515548_u64: Tv::konst(17), 18073148838935116191_u64: Tv::konst(18), 6_260_396_691_946_794_739: Tv::konst(19), 14_277_405_767_146_856_105u64: Tv::konst(20), 17099028734710354147_u64: Tv::konst(21), 3469332559731870012: Tv::konst(22), 2085142840388054086_u64: Tv::konst(23), 15619781504204346512u64: Tv::konst(24), 18316944194189272792_u64: Tv::konst(25), 11_418_316_150_798_550_292: Tv::konst(26), 17053947825680126361: Tv::konst(27), 0xdc950ab98a3f4517u64: Tv::konst(28), 0xacfd64604c8403e6_u64: Tv::konst(29), 12_200_330_246_925_570_697_u64: Tv::konst(30), 9861382887491752709u64: Tv::konst(31), 9094253661446033258_u64: Tv::konst(32), 10_414_073_438_896_303_387: Tv::konst(33) }); let m: A32 = M.clone(); map::<u64, _>(m) }
pub fn p33() -> Box<dyn SetObj<u64>> { set::<u64, _>(fz_scalar_set!({ 0xe3e33fc9287ffeb7u64, 10373154340242084665_u64, 0b10011000001001010000111010010100000110011000000010101000100001u64, 16727965465290821334_u64, 12180443473464413924, 0o211541276170427674474u64, 0b11000011111100001110101010010101010100010001110110100011111_u64, 0b1010001000011010010111000111100010111000110110001010001011001110, 10093592050266993938u64, 0xb0034b4abc08f16fu64, 17_640_974_715_835_147_540u64, 9526563500080369451, 0xa8930ac499855d76u64, 14997267713958559936_u64, 2_696_758_360_728_034_332_u64, 453117184512820645_u64, 10_223_205_724_546_374_119_u64, 4912041860444376368u64, 10_937_865_248_672_216_920u64, 4_777_942_797_046_916_236u64, 8108213582471299187u64, 2_953_824_495_527_955_647u64, 17802407605560107355_u64, 943422589894447437u64, 14985117228285085347, 0b110111011000111010110100001000100110011101101011110100101011101_u64, 6_278_053_935_974_958_033_u64, 13605886988923452563_u64, 0b101011101000011001100101011010110101100000111000001001110000100_u64, 10900098360250191751_u64, 63114663478906472_u64, 17_840_255_978_978_257_674, 0xd9b1d921f7f778cf })) }
pub fn p34() -> Box<dyn MapObj<u64>> { fz_scalar_map!(let m: A34<u64, Tv>, { 549262079471025513_u64: x(Tv::new(1)), 11_589_404_655_042_130_218u64: Tv::new(2), 7525237898058143851: Tv::new(3), 9012706195344834364: Tv::new(4), 11487328170133500644u64: Tv::new(5), 9_144_940_145_299_594_777_u64: Tv::new(6), 15_947_327_489_780_124_362u64: Tv::new(7), 0b110011100100010100110101010000000010101011100100000111001111000_u64: x(Tv::new(8)), 11238163113631180820_u64: Tv::new(9), 6490972735642309081_u64: Tv::new(10), 0x13ab432dbd10392_u64: Tv::new(11), 739_047_382_307_661_425_u64: Tv::new(12), 0o205640003722041700004: x(Tv::new(13)), 17_522_815_092_193_236_858u64: Tv::new(14), 9_034_981_631_546_352_143u64: Tv::new(15), 3426987463591764599_u64: Tv::new(16), 14381968847366194438: x(Tv::new(17)), 2_631_593_683_383_411_211u64: Tv::new(18), 1007310585698236728_u64: Tv::new(19), 11575403727050587421: Tv::new(20), 5044095064809646574_u64: Tv::new(21), 13_131_755_224_358_518_411: Tv::new(22), 17848481837969350578_u64: x(Tv::new(23)), 533541094541619171: Tv::new(24), 0xaffc8d0008b1105fu64: Tv::new(25), 15342625983791629766_u64: Tv::new(26), 0x37ce895c4fe3194a_u64: Tv::new(27), 0b11011000000000110001000000000000011110000111101111010110011u64: Tv::new(28), 0o1023717600527414752115_u64: Tv::new(29), 1415929848743390272u64: Tv::new(30), 6837726979273687069_u64: Tv::new(31), 16577596325699879827u64: Tv::new(32), 0x3e8a1d4b37bd043c_u64: Tv::new(33), 14_045_741_333_731_245_477_u64: x(Tv::new(34)), 6_315_198_555_130_806_352_u64: Tv::new(35), 4835040088365229888_u64: Tv::new(36), 9_039_896_435_004_134_043: Tv::new(37), 4030764298693445451_u64: Tv::new(38), 3_462_273_806_336_286_880u64: Tv::new(39), 586567726735712768_u64: Tv::new(40), 0xe72e251b0c0b8f3b_u64: x(Tv::new(41)), 13503745828241969473u64: Tv::new(42), 898503250494686345u64: Tv::new(43), 11328961064626722850: Tv::new(44), 831_234_528_460_179_547_u64: Tv::new(45), 11425011115070669781: Tv::new(46), 0b1001100101011110100110110011110110101101010110001111000000000011: x(Tv::new(47)), 17399362541963906933_u64: x(Tv::new(48)), 16_941_222_080_514_749_210u64: Tv::new(49), 3339582832177989634u64: Tv::new(50), 6581751206599094221: Tv::new(51), 7152557929117832386u64: Tv::new(52), 0x85592e7329d89ddfu64: Tv::new(53), 1390976752227818508_u64: x(Tv::new(54)), 0xd5843db093946637_u64: x(Tv::new(55)), 9024211116937047054u64: Tv::new(56), 0xc726428603a4a14eu64: Tv::new(57), 3628442188877251692_u64: Tv::new(58), 8096150078123763888_u64: Tv::new(59), 15630064251941031816_u64: Tv::new(60), 2121881456396228965_u64: Tv::new(61), 0xf94e44e9ac09775d: Tv::new(62), 15923738643589692851_u64: Tv::new(63), 15_903_841_791_258_074_454u64: x(Tv::new(64)), 0o516040737746165201077u64: Tv::new(65), 3_057_560_134_022_166_805_u64: Tv::new(66), 0b1011001000000111011000000101111011100101101101001110010111101: Tv::new(67), 0xbc4695e1553addf1_u64: x(Tv::new(68)), 5_848_081_917_301_028_148u64: Tv::new(69), 11412401537689538568u64: Tv::new(70), 12022047587479522041u64: Tv::new(71), 0b1011100010000101001110110101001001000110100101101110100010111: Tv::new(72), 320960437337177558: Tv::new(73), 1_915_800_264_165_078_128: Tv::new(74), 7929120106652288918: Tv::new(75), 12_214_850_002_126_314_650_u64: Tv::new(76), 0x1fb54ef3fba825e1u64: Tv::new(77), 1_150_549_956_550_026_757: Tv::new(78), 1941493171239564747_u64: Tv::new(79), 12535836707167295141_u64: Tv::new(80), 11705502749526137752_u64: Tv::new(81), 0o63420551017710134600u64: Tv::new(82), 3962541905313540189_u64: Tv::new(83), 0x1167b13d8beb90e7: Tv::new(84), 15245003099115598357_u64: Tv::new(85), 0b1010010010011000111000010100010100110010001101011100010001100110_u64: Tv::new(86), 17268152224583796650_u64: Tv::new(87), 10736718660748803451_u64: Tv::new(88), 846554413276796169u64: Tv::new(89), 17_299_770_892_897_142_558_u64: Tv::new(90), 8208478189606690203_u64: Tv::new(91), 139_310_959_505_216_085_u64: Tv::new(92), 10195147592963380735_u64: Tv::new(93), 9477738438047559497u64: Tv::new(94), 0x9ea19df11e1a02fb_u64: Tv::new(95), 7602641796046410423_u64: Tv::new(96), 0b1100100000110111111101111110010100110101111100111111100111100000: Tv::new(97), 0x3909383c67b13e23_u64: Tv::new(98), 14115197953102650127u64: Tv::new(99), 12_597_845_970_311_760_346: Tv::new(100), 5106002347170316164u64: Tv::new(101), 1009316859999030476_u64: Tv::new(102), 1540522953173138945u64: Tv::new(103), 3468803388356374108_u64: Tv::new(104), 15668829834795144239: Tv::new(105), 663548051553472887_u64: Tv::new(106), 10727777950861830686_u64: Tv::new(107), 0x71305cd85ad938ba_u64: Tv::new(108), 12735346663245672057u64: Tv::new(109), 2832160069173644727_u64: Tv::new(110), 11038277560104146382_u64: Tv::new(111), 12522375438175167512u64: Tv::new(112), 16192722544937239863u64: Tv::new(113), 15950592549388869249u64: Tv::new(114), 17895573009026727720: x(Tv::new(115)), 0xe4bfb76d0268ef08_u64: Tv::new(116), 4828359101434660843u64: Tv::new(117), 2779880163395678912u64: Tv::new(118), 3444363923768462314_u64: Tv::new(119), 5478507685014200167_u64: Tv::new(120), 0o1521676677264454622012_u64: Tv::new(121), 12_006_914_382_167_553_736_u64: Tv::new(122), 8_237_193_627_928_502_767u64: Tv::new(123), 8496797886497967608u64: Tv::new(124), 0b1100000001110011111000110011001010101000011011000000000011000011_u64: Tv::new(125), 532207424541256458u64: x(Tv::new(126)), 852929375361769121: Tv::new(127), 13256216670958364734: x(Tv::new(128)), 0o71356601170501252065u64: Tv::new(129), 2085226973873224894: x(Tv::new(130)), 0xe0bf5504f3f2de6e_u64: Tv::new(131), 16_548_120_610_370_338_717: Tv::new(132), 7092218564324671172: Tv::new(133), 3161767795326917850u64: Tv::new(134), 0xc4fa0bbb346f04d7: Tv::new(135), 11618560167429386532: Tv::new(136), 368_590_001_687_082_923: Tv::new(137), 0o364325017015212067163: Tv::new(138), 7524546945635639083u64: Tv::new(139), 17682708915203480973_u64: Tv::new(140), 17074550496491880350u64: Tv::new(141), 1_740_257_947_673_152_336_u64: Tv::new(142), 16529148467631250286_u64: x(Tv::new(143)), 8_052_283_585_879_114_610u64: Tv::new(144), 3873586916570203184u64: Tv::new(145), 8_342_015_925_224_948_762: Tv::new(146), 12616816213194777577: Tv::new(147), 0xf51e7aa24ebba820: Tv::new(148), 0x93628a220d57cc7d_u64: Tv::new(149), 0b1001101101001100010111001100000100001001101001010101000010000110_u64: x(Tv::new(150)), 10_529_039_033_342_524_840: Tv::new(151), 12_976_525_613_756_587_160u64: Tv::new(152), 0xfb36ddd7543532cb_u64: Tv::new(153), 2820782095630536960_u64: x(Tv::new(154)), 7465255082703660384_u64: Tv::new(155), 173497098753900786_u64: Tv::new(156), 13464437832577170680u64: Tv::new(157), 0o1777044634654240100231: Tv::new(158), 0b110101110111010011011101100111000000011111100110111111000010000u64: x(Tv::new(159)), 12980402112980608081_u64: Tv::new(160), 0xdfe79681e651c7bb_u64: x(Tv::new(161)), 3_790_017_229_373_459_784_u64: Tv::new(162), 6276046266699566377_u64: Tv::new(163), 2840587923174085480: Tv::new(164), 4830855242697872522_u64: x(Tv::new(165)), 11455604308012713049u64: Tv::new(166), 13256032389908394592_u64: Tv::new(167), 5_482_123_569_602_650_195: Tv::new(168), 12_982_268_836_674_802_805u64: Tv::new(169), 512_124_808_620_600_621_u64: x(Tv::new(170)), 16558999362313678051_u64: Tv::new(171), 12762656149182650593: Tv::new(172), 1099856038993144737u64: Tv::new(173), 0b1101010100111011100110000010011101011011101110010001010111010000u64: Tv::new(174), 0o145526025512271055364u64: Tv::new(175), 16570234234184759767: Tv::new(176), 10221175293824664911u64: Tv::new(177), 6324832703381136887u64: Tv::new(178), 12306126815568534300_u64: x(Tv::new(179)), 15582792518073149160_u64: Tv::new(180), 0x67bdcd13ab535f44: x(Tv::new(181)), 0x80331d2cb57e448c_u64: Tv::new(182), 17027686528784950421u64: Tv::new(183), 11_505_918_794_892_393_048: Tv::new(184), 8507381961423997223: Tv::new(185), 0xc1575d7d6b011f99_u64: Tv::new(186), 15449301820970187766u64: Tv::new(187), 938312731947348214: Tv::new(188), 11306934063770126354: Tv::new(189), 14_177_163_352_037_712_288u64: Tv::new(190), 7674174853911089805: Tv::new(191), 535343238018947645u64: Tv::new(192), 16849412098392935646_u64: Tv::new(193), 11212732702663061810u64: Tv::new(194), 0xf69d99575e2c714: Tv::new(195), 11991496332325631167_u64: Tv::new(196), 0b101110101110011001100010000001011101101010100101110110100011111: Tv::new(197), 12_034_622_531_033_917_544u64: x(Tv::new(198)), 12107762185793075401: Tv::new(199), 3386180072455003714_u64: Tv::new(200), 15176842255574995282u64: Tv::new(201), 16243250189010477228_u64: Tv::new(202), 13698466683647071187_u64: Tv::new(203), 12434934748428716993: x(Tv::new(204)), 8632617261846734904_u64: x(Tv::new(205)), 13_249_909_011_229_470_649u64: x(Tv::new(206)), 9065695134904307731u64: Tv::new(207), 0o602372421435621742136: Tv::new(208), 5935420400340795207u64: Tv::new(209), 14284545877753474269: Tv::new(210), 2348366194324482807_u64: x(Tv::new(211)), 4463792896210581447_u64: Tv::new(212), 13407331741405039497_u64: Tv::new(213), 4_345_692_691_010_027_684_u64: Tv::new(214), 0x243fca41c6a2e926: Tv::new(215), 0xff4780256d7d5dfd: Tv::new(216), 6965202325085979484u64: x(Tv::new(217)), 18117119010929836383_u64: Tv::new(218), 8438232255452787079_u64: Tv::new(219), 9648966941005814099: x(Tv::new(220)), 0b1110101110011110000100000000000000101101011001001101110010010010: Tv::new(221), 0b1100000010101100110111101000101000001011011100010111100010100111_u64: Tv::new(222), 14376556848424614526: Tv::new(223), 8_503_667_857_849_098_700u64: Tv::new(224), 5028432111921902977: Tv::new(225), 10_500_826_950_847_171_231_u64: Tv::new(226), 2731120899595520017: Tv::new(227), 0x5485f74ee49df8cfu64: Tv::new(228), 0xa752ff490e727836u64: Tv::new(229), 0xcd8d3962293eaae0_u64: Tv::new(230), 12_817_104_295_171_465_229_u64: Tv::new(231), 3_171_589_203_903_170_024u64: Tv::new(232), 1_265_517_957_170_914_379_u64: Tv::new(233), 15846899010474033069: Tv::new(234), 1818678419970567783_u64: Tv::new(235), 3561960135354330163u64: Tv::new(236), 0b11000111010011001100100001101011011000110110110100101000000110u64: Tv::new(237), 3419380044879936942_u64: Tv::new(238), 513252375255399842u64: Tv::new(239), 0x5783fe3a31f7cb82u64: Tv::new(240), 0x6fb7d342df7ab971u64: Tv::new(241), 0x3e9705786231ccae: Tv::new(242), 0x23d8167654d66e44_u64: Tv::new(243), 0x7d8c2ad4795ffc82_u64: Tv::new(244), 0xbff2b9aaad97112f: Tv::new(245), 16834622099098904073: Tv::new(246), 5420614525641811626_u64: Tv::new(247), 14554129404347545206_u64: Tv::new(248), 7361387197789535103u64: x(Tv::new(249)), 15_502_313_965_116_789_009: Tv::new(250), 10_196_286_975_012_013_325: Tv::new(251), 6658319885429118906: Tv::new(252), 13319048955239212146: Tv::new(253), 5099112593961501838u64: Tv::new(254), 13036714469369666878: Tv::new(255), 14737056560992140502: Tv::new(256), 15968274788635357631_u64: Tv::new(257), 7826496938545448323_u64: Tv::new(258), 861_385_002_809_303_793_u64: Tv::new(259), 0o213534277017124550764_u64: Tv::new(260), 0o1734677601465275747246u64: x(Tv::new(261)), 12731509342565529982u64: Tv::new(262), 14_587_287_165_438_043_928_u64: Tv::new(263), 8_201_115_845_938_646_073: Tv::new(264), 0xbb192bfd1faf4902u64: Tv::new(265), 12336205730524386617: Tv::new(266), 13860741942124993543u64: Tv::new(267), 243870528696868115: Tv::new(268), 13500287065307678660_u64: Tv::new(269), 1_271_892_416_666_260_066_u64: x(Tv::new(270)), 15_889_338_981_893_635_047u64: Tv::new(271), 2253572840340513136u64: Tv::new(272), 0o1436570660172040223542u64: Tv::new(273), 0o501145351277722666546u64: Tv::new(274), 0x833fa78a7fce5ac1_u64: Tv::new(275), 4_510_689_836_392_577_350_u64: Tv::new(276), 9262718696075226970_u64: Tv::new(277), 5113308183172739958_u64: Tv::new(278), 6456228038980434048u64: Tv::new(279), 4862167278058480020_u64: x(Tv::new(280)), 0xdfa6534ec3838684_u64: Tv::new(281), 2_304_300_775_899_024_652u64: Tv::new(282), 13488880495932498677_u64: Tv::new(283), 0x1fa1b30046b71e3b_u64: Tv::new(284), 0x7026304bf91202d: Tv::new(285), 13870588029673255369_u64: Tv::new(286), 4144383482102227607u64: Tv::new(287), 11514591412882287825: Tv::new(288), 0o1345376535627751747050u64: Tv::new(289), 0x4108ad4fc4034db5_u64: Tv::new(290), 9869890265443923113: Tv::new(291), 0o1063134043221160301441_u64: Tv::new(292), 11131398173234761081_u64: Tv::new(293), 7732303162652848880u64: Tv::new(294), 10169917231821992557u64: x(Tv::new(295)), 0xf0d472ec3c7cd491u64: x(Tv::new(296)), 4948051087461590972u64: Tv::new(297), 10665301553508068079: Tv::new(298), 13374424469477584721: x(Tv::new(299)), 8673730740258682256_u64: Tv::new(300) });  let m: A34 = m; map::<u64, _>(m) }
pub fn p35() -> Box<dyn SetObj<u64>> { set::<u64, _>(fz_scalar_set!({ 17_917_674_140_506_327_331u64, 0x3e3fc8606eafcf4b_u64, 6512287265890136073u64, 16512917026862921781u64, 15_688_093_923_555_719_160, 0x91b96275d80d086d_u64, 12576464438568168387u64, 10_892_757_846_690_011_811, 2799772559388812820_u64, 6608032330228577261u64, 12070732986223044441, 13_053_007_882_016_236_385u64, 7_984_847_542_884_711_561_u64, 0x87cde5789a45d17fu64, 0xe80afa0ca55df678u64, 10375388274667772621_u64, 11285151091799916881u64, 8380976119834790118_u64, 1_012_360_775_571_716_279u64, 11481592272125522497_u64, 0b111010001110001001011101111001010110110011000001001001010101110_u64, 15_728_487_056_786_645_209, 17113304514835538555_u64, 4595807341181197073_u64, 0xb5c8d3107cfb7718u64, 8873344429049606609u64, 10490254477890603118_u64, 0o453361475616753651726_u64, 0b1011000110110100111001110111101100111011111111011100001101011100, 0o472122672557462526763, 10668652473972397918_u64, 15_066_412_930_829_407_623, 1058123036851334845_u64, 0xd9d9761dae68d875_u64, 1_892_986_057_838_142_488, 0b1000011011000001110101111001110110111101010001001101000110100001u64, 16242469175700686147, 0x52156d73876de64d_u64, 0x21b3b16b2a62a70e, 4_213_801_126_020_933_281u64, 2678410735632624626, 10766865378587999546, 0x3d38b3dfd636ee11_u64, 14285206942945359039u64, 3530022896016273727_u64, 5613166284157498767, 0x7fbf37f1993f7ec0_u64, 0x36af0b69a45715a6u64, 8330126654406756482_u64, 15_922_175_392_699_460_593_u64, 0xb251f65e37a1f541, 4_032_545_697_396_152_799_u64, 362632165200769073u64, 0b1011000100011100011001000001111011011100111110110000111000011, 0o1565041536557412053025, 0b11111010001011101001101111010110111001000110111111111011000110_u64, 0o1407351337312116750373u64, 14526402435333786954u64, 0x77fca2d75316178_u64, 11120078957595786200u64, 8718210658134048171_u64, 0x7750a3fe7bc953f9u64, 17803375137882398521_u64, 0xcb21235a396de60du64, 6882039843802036114, 12451573237883280952_u64, 0x4fcbcea5bd9fac39_u64, 1331864627175943431u64, 12_404_152_108_851_624_009_u64, 0xf164f719b287ca2e_u64, 0xdea3240a3de8dcd1_u64, 3345267578677584943, 2591585563469518913, 11_609_923_088_464_221_691_u64, 0x796282676871dd9fu64, 14619339253696650521_u64, 9_484_303_768_141_392_340_u64, 700028557018591958u64, 9176507335033800646_u64, 0x12a41586e96b3e56_u64, 15645037590497506582u64, 11182636606963545415u64, 0b111110111101010101011110000011001110110101101001100101101010011u64, 2_307_363_387_255_359_147_u64, 0x5808e5ef658989ebu64, 807666181823608838u64, 7493804278866310064, 11718410855785218816, 14245517100249345339u64, 4261923117606085871_u64, 7094058768120500240, 7230627971795669163, 0b1010000110001101010111010001010100001001101010000101110010011101, 6_463_182_472_894_154_198u64, 13466835700482236150u64, 4_086_469_678_954_376_907u64, 0x1c9501ebeaafb3cf_u64, 471033699896140457, 14_780_642_504_427_857_222u64, 16_265_684_741_367_498_315u64, 7689159714568715834_u64, 0xac4cd6a704fc5a18u64, 0o147447422520477642621, 0o40303447735551064206, 4715705262552059330u64, 0b1010101000110000011111010111000101111010111010101111110101011110_u64, 7818631139955672828_u64, 3727294648836274547u64, 4_236_611_729_623_348_909u64, 12465655764918563851u64, 13719703291126872973_u64, 16951985344066454397u64, 16286732667048038511u64, 10147100210526333972, 17_532_506_038_581_098_596, 0x2727d4dcea13810c_u64, 6276680575039424519u64, 10519394619899055919u64, 0x6ea2651ba887f8a4_u64, 11508109509528579530, 7239798007366563816_u64, 15765841164470729821u64, 3273476303133253495u64, 10429182755007303539_u64, 0x88c7250ad0a0799du64, 0b1110110110100100100010101010001101111100101010111000001011000010, 13051081190758101095u64, 5002140598629152690, 9_568_807_997_673_837_000u64, 0x593cd1a8b6ac96cfu64, 0o355315017567235540447u64, 17259596074529875375, 16700318707284288230_u64, 3542751872438610893u64, 11524462420632692820, 6_056_784_540_142_934_288u64, 10_791_701_345_042_166_388u64, 0o1626542365030012607353, 2501898739172133125, 0xb97e1a52de917d20u64, 0x2c1acbd2fe6cf7bu64, 0o356677343776100152102u64, 14_902_224_612_647_580_115_u64, 0x4364b34870f2a616_u64, 12_452_182_150_922_393_421_u64, 292620191058394556_u64, 17974442652184995512u64, 264119822331055010_u64, 5769729891110290610_u64, 1421287551655243934_u64, 0b11110001100000101101001001111111001111101010111101010101000101u64, 15766109288338307628, 5764951924644609845, 5229848912833577079u64, 3792796613710849432u64, 17386691128172958749u64, 0x19cd246b336b2d77u64, 0b100111101001111110110001111100011010010010111101001011000100110u64, 2895303212967052161, 7424491225697684457, 11946281169064850449_u64, 7552680723262909960, 1_202_919_023_153_492_974u64, 10190433737185190525_u64, 10145531342522821792, 0b101000110100001010110001001111101111111100111100101110110011001u64, 8060891525192383940u64, 16843043230199164488, 16826462037321719809, 3258477801670552015, 11600316515578179769, 13404608398738664145u64, 1618134221969827002u64, 5776477849146638119u64, 2403760744621244223, 5532339684262323805u64, 0b1001111101000111000100101101111010000100001010111100101010101000_u64, 14997491328425843665u64, 16982549104193571381_u64, 11855710183986194470_u64, 8_477_576_744_925_556_967_u64, 7_927_890_821_542_558_193, 14355914971265524043, 16_247_016_264_022_819_534u64, 5815717465000126361, 6353300229353600433_u64, 5_827_193_332_757_269_053_u64, 0xbe626c458fd77562_u64, 17164514634431761327u64, 0o347415205230675631746_u64, 17_925_270_552_214_489_162u64, 0b1001001000010111010000001001000001011110110011111010000011010111_u64, 522_019_767_603_313_708_u64, 3962262791061132218_u64, 8_675_460_528_757_403_141_u64, 13734831320326005622u64, 11871333378387188228u64, 6528512478563760160u64, 0o1724231524465043217012_u64, 0b111001100101111000011011111100000000011101010010110101101110_u64, 4870681545434213504, 10439740194569920811u64, 11_443_240_525_878_250_689_u64, 11660109988906256202u64, 16184377111198012263_u64, 0xa795ec52f3deb164, 13446079081129958732_u64, 0b1100111100001111111101101001001001110101111011111100000101011111u64, 17428007425575474234, 15_271_066_598_213_692_386u64, 9372551742114824357u64, 9634123754998447101_u64, 0o1766707341311634530550, 11978715016864259305, 0x9bd5662bbc764af1, 13623924333282803523, 6_316_023_867_477_536_636, 12_908_274_327_739_034_587_u64, 11_225_265_333_275_768_743_u64, 0o1737743605634332023766u64, 0xb9904b0d84e38357, 3_790_183_378_798_918_077, 0o1671537632720552700205u64, 9280196378448710032_u64, 0o1255134276275022414304_u64, 7_823_723_717_614_702_936, 4896367154807479926_u64, 0x250d1a0ecfdd4433u64, 13_901_367_842_115_836_093u64, 6_720_883_422_017_277_868_u64, 11_219_149_711_296_881_695_u64, 16830372670157482244_u64, 14_753_668_372_005_549_467u64, 10198164540230929431_u64, 17899085220866886974_u64, 17197185927931214188u64, 0b10001000100110110110010011011101101101100010110001011110100001u64, 13677495042980498979u64, 0o1232747421461150225475, 0xc7065d52d2a0acc2_u64, 789042900327771968u64, 0xced5f859607dc81au64, 8987889488727916873, 13593965921779275950, 987723639275047548, 0o1452450241673211051276u64, 3556982220298394360u64, 6428838675286884912u64, 6981351449564903254u64, 11266686367266371951u64, 0b100100101100000010010000100011110011110000110111011110000111100u64, 0o26016536762673016673, 13047176923422165764u64, 0o320601135746706426636u64, 12283860358478236821, 8289565779668761836u64, 4756398080276521390, 3829870604184424671, 11341466411891439560u64, 1728300043468135627u64, 10_148_913_948_943_508_387_u64, 8933369834705400894u64, 8386714457781966535_u64, 1324641693966468975, 8379292922683807860, 15764091014342534809_u64, 6134817273901639312_u64, 0x782e006eed68c30cu64, 12342135632695436562u64, 10269389813713011218_u64, 14772782159835789691u64, 15259069731765124653u64, 0x847e997c627e776a, 9726527802915440662, 44997191122559853_u64, 16105877410771488481_u64, 4_804_043_192_926_244_563, 5303564509625747602_u64, 5612316233043645639_u64, 12660143975626429409u64, 14369218729789435474, 9_486_221_875_975_940_512u64, 1787453441125543304, 0x5d757fc86f060af7u64, 0o652056412620213351247u64, 7_294_218_919_137_222_966u64, 0x816f405ad626dc36, 10403284245433391167u64, 9349323203733173326, 14107810023333171108_u64, 16967647356218867607_u64, 0o511217033573321605537_u64, 0b110111001101100111111100110101001011100010001111010011001100_u64, 17799115154394801774, 7769573857344224229_u64, 3359626751287468198u64, 0o224154476124107353027, 2_571_129_971_872_849_648, 0b101111000000010010001010000010010100101011110000001111100100101u64, 7501348209386635916u64 })) }
prog_fam!(Fu64, u64, fz: FzHashMap::<u64, Tv>::new, fzs: FzHashSet::<u64>::new, maps: ["p14" => p14, "p16" => p16, "p18" => p18, "p20" => p20, "p22" => p22, "p24" => p24, "p26" => p26, "p28" => p28, "p30" => p30, "p32" => p32, "p34" => p34], sets: ["p15" => p15, "p17" => p17, "p19" => p19, "p21" => p21, "p23" => p23, "p25" => p25, "p27" => p27, "p29" => p29, "p31" => p31, "p33" => p33, "p35" => p35], de: (FzHashMap::<u64, Tv>, FzHashSet::<u64>));
fn main() { run::main(|p, out| match p["k"].as_str().unwrap() { "u64" => run::session::<u64>(&Fu64, p, out), k => panic!("harness: key {k}") }); }
