// Frozen Unicode 10 data; see tools/freeze.py
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Gcb { CR, LF, Control, Extend, ZWJ, RI, Prepend, SM, L, V, T, LV, LVT, EB, EM, GAZ, EBG, Other }
use Gcb::*;
pub static TABLE: &[(u32, u32, Gcb)] = &[
(0x0,0x9,Control),
(0xa,0xa,LF),
(0xb,0xc,Control),
(0xd,0xd,CR),
(0xe,0x1f,Control),
(0x7f,0x9f,Control),
(0xad,0xad,Control),
(0x300,0x36f,Extend),
(0x483,0x489,Extend),
(0x591,0x5bd,Extend),
(0x5bf,0x5bf,Extend),
(0x5c1,0x5c2,Extend),
(0x5c4,0x5c5,Extend),
(0x5c7,0x5c7,Extend),
(0x600,0x605,Prepend),
(0x610,0x61a,Extend),
(0x61c,0x61c,Control),
(0x64b,0x65f,Extend),
(0x670,0x670,Extend),
(0x6d6,0x6dc,Extend),
(0x6dd,0x6dd,Prepend),
(0x6df,0x6e4,Extend),
(0x6e7,0x6e8,Extend),
(0x6ea,0x6ed,Extend),
(0x70f,0x70f,Prepend),
(0x711,0x711,Extend),
(0x730,0x74a,Extend),
(0x7a6,0x7b0,Extend),
(0x7eb,0x7f3,Extend),
(0x816,0x819,Extend),
(0x81b,0x823,Extend),
(0x825,0x827,Extend),
(0x829,0x82d,Extend),
(0x859,0x85b,Extend),
(0x8d4,0x8e1,Extend),
(0x8e2,0x8e2,Prepend),
(0x8e3,0x902,Extend),
(0x903,0x903,SM),
(0x93a,0x93a,Extend),
(0x93b,0x93b,SM),
(0x93c,0x93c,Extend),
(0x93e,0x940,SM),
(0x941,0x948,Extend),
(0x949,0x94c,SM),
(0x94d,0x94d,Extend),
(0x94e,0x94f,SM),
(0x951,0x957,Extend),
(0x962,0x963,Extend),
(0x981,0x981,Extend),
(0x982,0x983,SM),
(0x9bc,0x9bc,Extend),
(0x9be,0x9be,Extend),
(0x9bf,0x9c0,SM),
(0x9c1,0x9c4,Extend),
(0x9c7,0x9c8,SM),
(0x9cb,0x9cc,SM),
(0x9cd,0x9cd,Extend),
(0x9d7,0x9d7,Extend),
(0x9e2,0x9e3,Extend),
(0xa01,0xa02,Extend),
(0xa03,0xa03,SM),
(0xa3c,0xa3c,Extend),
(0xa3e,0xa40,SM),
(0xa41,0xa42,Extend),
(0xa47,0xa48,Extend),
(0xa4b,0xa4d,Extend),
(0xa51,0xa51,Extend),
(0xa70,0xa71,Extend),
(0xa75,0xa75,Extend),
(0xa81,0xa82,Extend),
(0xa83,0xa83,SM),
(0xabc,0xabc,Extend),
(0xabe,0xac0,SM),
(0xac1,0xac5,Extend),
(0xac7,0xac8,Extend),
(0xac9,0xac9,SM),
(0xacb,0xacc,SM),
(0xacd,0xacd,Extend),
(0xae2,0xae3,Extend),
(0xafa,0xaff,Extend),
(0xb01,0xb01,Extend),
(0xb02,0xb03,SM),
(0xb3c,0xb3c,Extend),
(0xb3e,0xb3f,Extend),
(0xb40,0xb40,SM),
(0xb41,0xb44,Extend),
(0xb47,0xb48,SM),
(0xb4b,0xb4c,SM),
(0xb4d,0xb4d,Extend),
(0xb56,0xb57,Extend),
(0xb62,0xb63,Extend),
(0xb82,0xb82,Extend),
(0xbbe,0xbbe,Extend),
(0xbbf,0xbbf,SM),
(0xbc0,0xbc0,Extend),
(0xbc1,0xbc2,SM),
(0xbc6,0xbc8,SM),
(0xbca,0xbcc,SM),
(0xbcd,0xbcd,Extend),
(0xbd7,0xbd7,Extend),
(0xc00,0xc00,Extend),
(0xc01,0xc03,SM),
(0xc3e,0xc40,Extend),
(0xc41,0xc44,SM),
(0xc46,0xc48,Extend),
(0xc4a,0xc4d,Extend),
(0xc55,0xc56,Extend),
(0xc62,0xc63,Extend),
(0xc81,0xc81,Extend),
(0xc82,0xc83,SM),
(0xcbc,0xcbc,Extend),
(0xcbe,0xcbe,SM),
(0xcbf,0xcbf,Extend),
(0xcc0,0xcc1,SM),
(0xcc2,0xcc2,Extend),
(0xcc3,0xcc4,SM),
(0xcc6,0xcc6,Extend),
(0xcc7,0xcc8,SM),
(0xcca,0xccb,SM),
(0xccc,0xccd,Extend),
(0xcd5,0xcd6,Extend),
(0xce2,0xce3,Extend),
(0xd00,0xd01,Extend),
(0xd02,0xd03,SM),
(0xd3b,0xd3c,Extend),
(0xd3e,0xd3e,Extend),
(0xd3f,0xd40,SM),
(0xd41,0xd44,Extend),
(0xd46,0xd48,SM),
(0xd4a,0xd4c,SM),
(0xd4d,0xd4d,Extend),
(0xd4e,0xd4e,Prepend),
(0xd57,0xd57,Extend),
(0xd62,0xd63,Extend),
(0xd82,0xd83,SM),
(0xdca,0xdca,Extend),
(0xdcf,0xdcf,Extend),
(0xdd0,0xdd1,SM),
(0xdd2,0xdd4,Extend),
(0xdd6,0xdd6,Extend),
(0xdd8,0xdde,SM),
(0xddf,0xddf,Extend),
(0xdf2,0xdf3,SM),
(0xe31,0xe31,Extend),
(0xe33,0xe33,SM),
(0xe34,0xe3a,Extend),
(0xe47,0xe4e,Extend),
(0xeb1,0xeb1,Extend),
(0xeb3,0xeb3,SM),
(0xeb4,0xeb9,Extend),
(0xebb,0xebc,Extend),
(0xec8,0xecd,Extend),
(0xf18,0xf19,Extend),
(0xf35,0xf35,Extend),
(0xf37,0xf37,Extend),
(0xf39,0xf39,Extend),
(0xf3e,0xf3f,SM),
(0xf71,0xf7e,Extend),
(0xf7f,0xf7f,SM),
(0xf80,0xf84,Extend),
(0xf86,0xf87,Extend),
(0xf8d,0xf97,Extend),
(0xf99,0xfbc,Extend),
(0xfc6,0xfc6,Extend),
(0x102d,0x1030,Extend),
(0x1031,0x1031,SM),
(0x1032,0x1037,Extend),
(0x1039,0x103a,Extend),
(0x103b,0x103c,SM),
(0x103d,0x103e,Extend),
(0x1056,0x1057,SM),
(0x1058,0x1059,Extend),
(0x105e,0x1060,Extend),
(0x1071,0x1074,Extend),
(0x1082,0x1082,Extend),
(0x1084,0x1084,SM),
(0x1085,0x1086,Extend),
(0x108d,0x108d,Extend),
(0x109d,0x109d,Extend),
(0x1100,0x115f,L),
(0x1160,0x11a7,V),
(0x11a8,0x11ff,T),
(0x135d,0x135f,Extend),
(0x1712,0x1714,Extend),
(0x1732,0x1734,Extend),
(0x1752,0x1753,Extend),
(0x1772,0x1773,Extend),
(0x17b4,0x17b5,Extend),
(0x17b6,0x17b6,SM),
(0x17b7,0x17bd,Extend),
(0x17be,0x17c5,SM),
(0x17c6,0x17c6,Extend),
(0x17c7,0x17c8,SM),
(0x17c9,0x17d3,Extend),
(0x17dd,0x17dd,Extend),
(0x180b,0x180d,Extend),
(0x180e,0x180e,Control),
(0x1885,0x1886,Extend),
(0x18a9,0x18a9,Extend),
(0x1920,0x1922,Extend),
(0x1923,0x1926,SM),
(0x1927,0x1928,Extend),
(0x1929,0x192b,SM),
(0x1930,0x1931,SM),
(0x1932,0x1932,Extend),
(0x1933,0x1938,SM),
(0x1939,0x193b,Extend),
(0x1a17,0x1a18,Extend),
(0x1a19,0x1a1a,SM),
(0x1a1b,0x1a1b,Extend),
(0x1a55,0x1a55,SM),
(0x1a56,0x1a56,Extend),
(0x1a57,0x1a57,SM),
(0x1a58,0x1a5e,Extend),
(0x1a60,0x1a60,Extend),
(0x1a62,0x1a62,Extend),
(0x1a65,0x1a6c,Extend),
(0x1a6d,0x1a72,SM),
(0x1a73,0x1a7c,Extend),
(0x1a7f,0x1a7f,Extend),
(0x1ab0,0x1abe,Extend),
(0x1b00,0x1b03,Extend),
(0x1b04,0x1b04,SM),
(0x1b34,0x1b34,Extend),
(0x1b35,0x1b35,SM),
(0x1b36,0x1b3a,Extend),
(0x1b3b,0x1b3b,SM),
(0x1b3c,0x1b3c,Extend),
(0x1b3d,0x1b41,SM),
(0x1b42,0x1b42,Extend),
(0x1b43,0x1b44,SM),
(0x1b6b,0x1b73,Extend),
(0x1b80,0x1b81,Extend),
(0x1b82,0x1b82,SM),
(0x1ba1,0x1ba1,SM),
(0x1ba2,0x1ba5,Extend),
(0x1ba6,0x1ba7,SM),
(0x1ba8,0x1ba9,Extend),
(0x1baa,0x1baa,SM),
(0x1bab,0x1bad,Extend),
(0x1be6,0x1be6,Extend),
(0x1be7,0x1be7,SM),
(0x1be8,0x1be9,Extend),
(0x1bea,0x1bec,SM),
(0x1bed,0x1bed,Extend),
(0x1bee,0x1bee,SM),
(0x1bef,0x1bf1,Extend),
(0x1bf2,0x1bf3,SM),
(0x1c24,0x1c2b,SM),
(0x1c2c,0x1c33,Extend),
(0x1c34,0x1c35,SM),
(0x1c36,0x1c37,Extend),
(0x1cd0,0x1cd2,Extend),
(0x1cd4,0x1ce0,Extend),
(0x1ce1,0x1ce1,SM),
(0x1ce2,0x1ce8,Extend),
(0x1ced,0x1ced,Extend),
(0x1cf2,0x1cf3,SM),
(0x1cf4,0x1cf4,Extend),
(0x1cf7,0x1cf7,SM),
(0x1cf8,0x1cf9,Extend),
(0x1dc0,0x1df9,Extend),
(0x1dfb,0x1dff,Extend),
(0x200b,0x200b,Control),
(0x200c,0x200c,Extend),
(0x200d,0x200d,ZWJ),
(0x200e,0x200f,Control),
(0x2028,0x202e,Control),
(0x2060,0x206f,Control),
(0x20d0,0x20f0,Extend),
(0x261d,0x261d,EB),
(0x2640,0x2640,GAZ),
(0x2642,0x2642,GAZ),
(0x2695,0x2696,GAZ),
(0x26f9,0x26f9,EB),
(0x2708,0x2708,GAZ),
(0x270a,0x270d,EB),
(0x2764,0x2764,GAZ),
(0x2cef,0x2cf1,Extend),
(0x2d7f,0x2d7f,Extend),
(0x2de0,0x2dff,Extend),
(0x302a,0x302f,Extend),
(0x3099,0x309a,Extend),
(0xa66f,0xa672,Extend),
(0xa674,0xa67d,Extend),
(0xa69e,0xa69f,Extend),
(0xa6f0,0xa6f1,Extend),
(0xa802,0xa802,Extend),
(0xa806,0xa806,Extend),
(0xa80b,0xa80b,Extend),
(0xa823,0xa824,SM),
(0xa825,0xa826,Extend),
(0xa827,0xa827,SM),
(0xa880,0xa881,SM),
(0xa8b4,0xa8c3,SM),
(0xa8c4,0xa8c5,Extend),
(0xa8e0,0xa8f1,Extend),
(0xa926,0xa92d,Extend),
(0xa947,0xa951,Extend),
(0xa952,0xa953,SM),
(0xa960,0xa97c,L),
(0xa980,0xa982,Extend),
(0xa983,0xa983,SM),
(0xa9b3,0xa9b3,Extend),
(0xa9b4,0xa9b5,SM),
(0xa9b6,0xa9b9,Extend),
(0xa9ba,0xa9bb,SM),
(0xa9bc,0xa9bc,Extend),
(0xa9bd,0xa9c0,SM),
(0xa9e5,0xa9e5,Extend),
(0xaa29,0xaa2e,Extend),
(0xaa2f,0xaa30,SM),
(0xaa31,0xaa32,Extend),
(0xaa33,0xaa34,SM),
(0xaa35,0xaa36,Extend),
(0xaa43,0xaa43,Extend),
(0xaa4c,0xaa4c,Extend),
(0xaa4d,0xaa4d,SM),
(0xaa7c,0xaa7c,Extend),
(0xaab0,0xaab0,Extend),
(0xaab2,0xaab4,Extend),
(0xaab7,0xaab8,Extend),
(0xaabe,0xaabf,Extend),
(0xaac1,0xaac1,Extend),
(0xaaeb,0xaaeb,SM),
(0xaaec,0xaaed,Extend),
(0xaaee,0xaaef,SM),
(0xaaf5,0xaaf5,SM),
(0xaaf6,0xaaf6,Extend),
(0xabe3,0xabe4,SM),
(0xabe5,0xabe5,Extend),
(0xabe6,0xabe7,SM),
(0xabe8,0xabe8,Extend),
(0xabe9,0xabea,SM),
(0xabec,0xabec,SM),
(0xabed,0xabed,Extend),
(0xac00,0xac00,LV),
(0xac01,0xac1b,LVT),
(0xac1c,0xac1c,LV),
(0xac1d,0xac37,LVT),
(0xac38,0xac38,LV),
(0xac39,0xac53,LVT),
(0xac54,0xac54,LV),
(0xac55,0xac6f,LVT),
(0xac70,0xac70,LV),
(0xac71,0xac8b,LVT),
(0xac8c,0xac8c,LV),
(0xac8d,0xaca7,LVT),
(0xaca8,0xaca8,LV),
(0xaca9,0xacc3,LVT),
(0xacc4,0xacc4,LV),
(0xacc5,0xacdf,LVT),
(0xace0,0xace0,LV),
(0xace1,0xacfb,LVT),
(0xacfc,0xacfc,LV),
(0xacfd,0xad17,LVT),
(0xad18,0xad18,LV),
(0xad19,0xad33,LVT),
(0xad34,0xad34,LV),
(0xad35,0xad4f,LVT),
(0xad50,0xad50,LV),
(0xad51,0xad6b,LVT),
(0xad6c,0xad6c,LV),
(0xad6d,0xad87,LVT),
(0xad88,0xad88,LV),
(0xad89,0xada3,LVT),
(0xada4,0xada4,LV),
(0xada5,0xadbf,LVT),
(0xadc0,0xadc0,LV),
(0xadc1,0xaddb,LVT),
(0xaddc,0xaddc,LV),
(0xaddd,0xadf7,LVT),
(0xadf8,0xadf8,LV),
(0xadf9,0xae13,LVT),
(0xae14,0xae14,LV),
(0xae15,0xae2f,LVT),
(0xae30,0xae30,LV),
(0xae31,0xae4b,LVT),
(0xae4c,0xae4c,LV),
(0xae4d,0xae67,LVT),
(0xae68,0xae68,LV),
(0xae69,0xae83,LVT),
(0xae84,0xae84,LV),
(0xae85,0xae9f,LVT),
(0xaea0,0xaea0,LV),
(0xaea1,0xaebb,LVT),
(0xaebc,0xaebc,LV),
(0xaebd,0xaed7,LVT),
(0xaed8,0xaed8,LV),
(0xaed9,0xaef3,LVT),
(0xaef4,0xaef4,LV),
(0xaef5,0xaf0f,LVT),
(0xaf10,0xaf10,LV),
(0xaf11,0xaf2b,LVT),
(0xaf2c,0xaf2c,LV),
(0xaf2d,0xaf47,LVT),
(0xaf48,0xaf48,LV),
(0xaf49,0xaf63,LVT),
(0xaf64,0xaf64,LV),
(0xaf65,0xaf7f,LVT),
(0xaf80,0xaf80,LV),
(0xaf81,0xaf9b,LVT),
(0xaf9c,0xaf9c,LV),
(0xaf9d,0xafb7,LVT),
(0xafb8,0xafb8,LV),
(0xafb9,0xafd3,LVT),
(0xafd4,0xafd4,LV),
(0xafd5,0xafef,LVT),
(0xaff0,0xaff0,LV),
(0xaff1,0xb00b,LVT),
(0xb00c,0xb00c,LV),
(0xb00d,0xb027,LVT),
(0xb028,0xb028,LV),
(0xb029,0xb043,LVT),
(0xb044,0xb044,LV),
(0xb045,0xb05f,LVT),
(0xb060,0xb060,LV),
(0xb061,0xb07b,LVT),
(0xb07c,0xb07c,LV),
(0xb07d,0xb097,LVT),
(0xb098,0xb098,LV),
(0xb099,0xb0b3,LVT),
(0xb0b4,0xb0b4,LV),
(0xb0b5,0xb0cf,LVT),
(0xb0d0,0xb0d0,LV),
(0xb0d1,0xb0eb,LVT),
(0xb0ec,0xb0ec,LV),
(0xb0ed,0xb107,LVT),
(0xb108,0xb108,LV),
(0xb109,0xb123,LVT),
(0xb124,0xb124,LV),
(0xb125,0xb13f,LVT),
(0xb140,0xb140,LV),
(0xb141,0xb15b,LVT),
(0xb15c,0xb15c,LV),
(0xb15d,0xb177,LVT),
(0xb178,0xb178,LV),
(0xb179,0xb193,LVT),
(0xb194,0xb194,LV),
(0xb195,0xb1af,LVT),
(0xb1b0,0xb1b0,LV),
(0xb1b1,0xb1cb,LVT),
(0xb1cc,0xb1cc,LV),
(0xb1cd,0xb1e7,LVT),
(0xb1e8,0xb1e8,LV),
(0xb1e9,0xb203,LVT),
(0xb204,0xb204,LV),
(0xb205,0xb21f,LVT),
(0xb220,0xb220,LV),
(0xb221,0xb23b,LVT),
(0xb23c,0xb23c,LV),
(0xb23d,0xb257,LVT),
(0xb258,0xb258,LV),
(0xb259,0xb273,LVT),
(0xb274,0xb274,LV),
(0xb275,0xb28f,LVT),
(0xb290,0xb290,LV),
(0xb291,0xb2ab,LVT),
(0xb2ac,0xb2ac,LV),
(0xb2ad,0xb2c7,LVT),
(0xb2c8,0xb2c8,LV),
(0xb2c9,0xb2e3,LVT),
(0xb2e4,0xb2e4,LV),
(0xb2e5,0xb2ff,LVT),
(0xb300,0xb300,LV),
(0xb301,0xb31b,LVT),
(0xb31c,0xb31c,LV),
(0xb31d,0xb337,LVT),
(0xb338,0xb338,LV),
(0xb339,0xb353,LVT),
(0xb354,0xb354,LV),
(0xb355,0xb36f,LVT),
(0xb370,0xb370,LV),
(0xb371,0xb38b,LVT),
(0xb38c,0xb38c,LV),
(0xb38d,0xb3a7,LVT),
(0xb3a8,0xb3a8,LV),
(0xb3a9,0xb3c3,LVT),
(0xb3c4,0xb3c4,LV),
(0xb3c5,0xb3df,LVT),
(0xb3e0,0xb3e0,LV),
(0xb3e1,0xb3fb,LVT),
(0xb3fc,0xb3fc,LV),
(0xb3fd,0xb417,LVT),
(0xb418,0xb418,LV),
(0xb419,0xb433,LVT),
(0xb434,0xb434,LV),
(0xb435,0xb44f,LVT),
(0xb450,0xb450,LV),
(0xb451,0xb46b,LVT),
(0xb46c,0xb46c,LV),
(0xb46d,0xb487,LVT),
(0xb488,0xb488,LV),
(0xb489,0xb4a3,LVT),
(0xb4a4,0xb4a4,LV),
(0xb4a5,0xb4bf,LVT),
(0xb4c0,0xb4c0,LV),
(0xb4c1,0xb4db,LVT),
(0xb4dc,0xb4dc,LV),
(0xb4dd,0xb4f7,LVT),
(0xb4f8,0xb4f8,LV),
(0xb4f9,0xb513,LVT),
(0xb514,0xb514,LV),
(0xb515,0xb52f,LVT),
(0xb530,0xb530,LV),
(0xb531,0xb54b,LVT),
(0xb54c,0xb54c,LV),
(0xb54d,0xb567,LVT),
(0xb568,0xb568,LV),
(0xb569,0xb583,LVT),
(0xb584,0xb584,LV),
(0xb585,0xb59f,LVT),
(0xb5a0,0xb5a0,LV),
(0xb5a1,0xb5bb,LVT),
(0xb5bc,0xb5bc,LV),
(0xb5bd,0xb5d7,LVT),
(0xb5d8,0xb5d8,LV),
(0xb5d9,0xb5f3,LVT),
(0xb5f4,0xb5f4,LV),
(0xb5f5,0xb60f,LVT),
(0xb610,0xb610,LV),
(0xb611,0xb62b,LVT),
(0xb62c,0xb62c,LV),
(0xb62d,0xb647,LVT),
(0xb648,0xb648,LV),
(0xb649,0xb663,LVT),
(0xb664,0xb664,LV),
(0xb665,0xb67f,LVT),
(0xb680,0xb680,LV),
(0xb681,0xb69b,LVT),
(0xb69c,0xb69c,LV),
(0xb69d,0xb6b7,LVT),
(0xb6b8,0xb6b8,LV),
(0xb6b9,0xb6d3,LVT),
(0xb6d4,0xb6d4,LV),
(0xb6d5,0xb6ef,LVT),
(0xb6f0,0xb6f0,LV),
(0xb6f1,0xb70b,LVT),
(0xb70c,0xb70c,LV),
(0xb70d,0xb727,LVT),
(0xb728,0xb728,LV),
(0xb729,0xb743,LVT),
(0xb744,0xb744,LV),
(0xb745,0xb75f,LVT),
(0xb760,0xb760,LV),
(0xb761,0xb77b,LVT),
(0xb77c,0xb77c,LV),
(0xb77d,0xb797,LVT),
(0xb798,0xb798,LV),
(0xb799,0xb7b3,LVT),
(0xb7b4,0xb7b4,LV),
(0xb7b5,0xb7cf,LVT),
(0xb7d0,0xb7d0,LV),
(0xb7d1,0xb7eb,LVT),
(0xb7ec,0xb7ec,LV),
(0xb7ed,0xb807,LVT),
(0xb808,0xb808,LV),
(0xb809,0xb823,LVT),
(0xb824,0xb824,LV),
(0xb825,0xb83f,LVT),
(0xb840,0xb840,LV),
(0xb841,0xb85b,LVT),
(0xb85c,0xb85c,LV),
(0xb85d,0xb877,LVT),
(0xb878,0xb878,LV),
(0xb879,0xb893,LVT),
(0xb894,0xb894,LV),
(0xb895,0xb8af,LVT),
(0xb8b0,0xb8b0,LV),
(0xb8b1,0xb8cb,LVT),
(0xb8cc,0xb8cc,LV),
(0xb8cd,0xb8e7,LVT),
(0xb8e8,0xb8e8,LV),
(0xb8e9,0xb903,LVT),
(0xb904,0xb904,LV),
(0xb905,0xb91f,LVT),
(0xb920,0xb920,LV),
(0xb921,0xb93b,LVT),
(0xb93c,0xb93c,LV),
(0xb93d,0xb957,LVT),
(0xb958,0xb958,LV),
(0xb959,0xb973,LVT),
(0xb974,0xb974,LV),
(0xb975,0xb98f,LVT),
(0xb990,0xb990,LV),
(0xb991,0xb9ab,LVT),
(0xb9ac,0xb9ac,LV),
(0xb9ad,0xb9c7,LVT),
(0xb9c8,0xb9c8,LV),
(0xb9c9,0xb9e3,LVT),
(0xb9e4,0xb9e4,LV),
(0xb9e5,0xb9ff,LVT),
(0xba00,0xba00,LV),
(0xba01,0xba1b,LVT),
(0xba1c,0xba1c,LV),
(0xba1d,0xba37,LVT),
(0xba38,0xba38,LV),
(0xba39,0xba53,LVT),
(0xba54,0xba54,LV),
(0xba55,0xba6f,LVT),
(0xba70,0xba70,LV),
(0xba71,0xba8b,LVT),
(0xba8c,0xba8c,LV),
(0xba8d,0xbaa7,LVT),
(0xbaa8,0xbaa8,LV),
(0xbaa9,0xbac3,LVT),
(0xbac4,0xbac4,LV),
(0xbac5,0xbadf,LVT),
(0xbae0,0xbae0,LV),
(0xbae1,0xbafb,LVT),
(0xbafc,0xbafc,LV),
(0xbafd,0xbb17,LVT),
(0xbb18,0xbb18,LV),
(0xbb19,0xbb33,LVT),
(0xbb34,0xbb34,LV),
(0xbb35,0xbb4f,LVT),
(0xbb50,0xbb50,LV),
(0xbb51,0xbb6b,LVT),
(0xbb6c,0xbb6c,LV),
(0xbb6d,0xbb87,LVT),
(0xbb88,0xbb88,LV),
(0xbb89,0xbba3,LVT),
(0xbba4,0xbba4,LV),
(0xbba5,0xbbbf,LVT),
(0xbbc0,0xbbc0,LV),
(0xbbc1,0xbbdb,LVT),
(0xbbdc,0xbbdc,LV),
(0xbbdd,0xbbf7,LVT),
(0xbbf8,0xbbf8,LV),
(0xbbf9,0xbc13,LVT),
(0xbc14,0xbc14,LV),
(0xbc15,0xbc2f,LVT),
(0xbc30,0xbc30,LV),
(0xbc31,0xbc4b,LVT),
(0xbc4c,0xbc4c,LV),
(0xbc4d,0xbc67,LVT),
(0xbc68,0xbc68,LV),
(0xbc69,0xbc83,LVT),
(0xbc84,0xbc84,LV),
(0xbc85,0xbc9f,LVT),
(0xbca0,0xbca0,LV),
(0xbca1,0xbcbb,LVT),
(0xbcbc,0xbcbc,LV),
(0xbcbd,0xbcd7,LVT),
(0xbcd8,0xbcd8,LV),
(0xbcd9,0xbcf3,LVT),
(0xbcf4,0xbcf4,LV),
(0xbcf5,0xbd0f,LVT),
(0xbd10,0xbd10,LV),
(0xbd11,0xbd2b,LVT),
(0xbd2c,0xbd2c,LV),
(0xbd2d,0xbd47,LVT),
(0xbd48,0xbd48,LV),
(0xbd49,0xbd63,LVT),
(0xbd64,0xbd64,LV),
(0xbd65,0xbd7f,LVT),
(0xbd80,0xbd80,LV),
(0xbd81,0xbd9b,LVT),
(0xbd9c,0xbd9c,LV),
(0xbd9d,0xbdb7,LVT),
(0xbdb8,0xbdb8,LV),
(0xbdb9,0xbdd3,LVT),
(0xbdd4,0xbdd4,LV),
(0xbdd5,0xbdef,LVT),
(0xbdf0,0xbdf0,LV),
(0xbdf1,0xbe0b,LVT),
(0xbe0c,0xbe0c,LV),
(0xbe0d,0xbe27,LVT),
(0xbe28,0xbe28,LV),
(0xbe29,0xbe43,LVT),
(0xbe44,0xbe44,LV),
(0xbe45,0xbe5f,LVT),
(0xbe60,0xbe60,LV),
(0xbe61,0xbe7b,LVT),
(0xbe7c,0xbe7c,LV),
(0xbe7d,0xbe97,LVT),
(0xbe98,0xbe98,LV),
(0xbe99,0xbeb3,LVT),
(0xbeb4,0xbeb4,LV),
(0xbeb5,0xbecf,LVT),
(0xbed0,0xbed0,LV),
(0xbed1,0xbeeb,LVT),
(0xbeec,0xbeec,LV),
(0xbeed,0xbf07,LVT),
(0xbf08,0xbf08,LV),
(0xbf09,0xbf23,LVT),
(0xbf24,0xbf24,LV),
(0xbf25,0xbf3f,LVT),
(0xbf40,0xbf40,LV),
(0xbf41,0xbf5b,LVT),
(0xbf5c,0xbf5c,LV),
(0xbf5d,0xbf77,LVT),
(0xbf78,0xbf78,LV),
(0xbf79,0xbf93,LVT),
(0xbf94,0xbf94,LV),
(0xbf95,0xbfaf,LVT),
(0xbfb0,0xbfb0,LV),
(0xbfb1,0xbfcb,LVT),
(0xbfcc,0xbfcc,LV),
(0xbfcd,0xbfe7,LVT),
(0xbfe8,0xbfe8,LV),
(0xbfe9,0xc003,LVT),
(0xc004,0xc004,LV),
(0xc005,0xc01f,LVT),
(0xc020,0xc020,LV),
(0xc021,0xc03b,LVT),
(0xc03c,0xc03c,LV),
(0xc03d,0xc057,LVT),
(0xc058,0xc058,LV),
(0xc059,0xc073,LVT),
(0xc074,0xc074,LV),
(0xc075,0xc08f,LVT),
(0xc090,0xc090,LV),
(0xc091,0xc0ab,LVT),
(0xc0ac,0xc0ac,LV),
(0xc0ad,0xc0c7,LVT),
(0xc0c8,0xc0c8,LV),
(0xc0c9,0xc0e3,LVT),
(0xc0e4,0xc0e4,LV),
(0xc0e5,0xc0ff,LVT),
(0xc100,0xc100,LV),
(0xc101,0xc11b,LVT),
(0xc11c,0xc11c,LV),
(0xc11d,0xc137,LVT),
(0xc138,0xc138,LV),
(0xc139,0xc153,LVT),
(0xc154,0xc154,LV),
(0xc155,0xc16f,LVT),
(0xc170,0xc170,LV),
(0xc171,0xc18b,LVT),
(0xc18c,0xc18c,LV),
(0xc18d,0xc1a7,LVT),
(0xc1a8,0xc1a8,LV),
(0xc1a9,0xc1c3,LVT),
(0xc1c4,0xc1c4,LV),
(0xc1c5,0xc1df,LVT),
(0xc1e0,0xc1e0,LV),
(0xc1e1,0xc1fb,LVT),
(0xc1fc,0xc1fc,LV),
(0xc1fd,0xc217,LVT),
(0xc218,0xc218,LV),
(0xc219,0xc233,LVT),
(0xc234,0xc234,LV),
(0xc235,0xc24f,LVT),
(0xc250,0xc250,LV),
(0xc251,0xc26b,LVT),
(0xc26c,0xc26c,LV),
(0xc26d,0xc287,LVT),
(0xc288,0xc288,LV),
(0xc289,0xc2a3,LVT),
(0xc2a4,0xc2a4,LV),
(0xc2a5,0xc2bf,LVT),
(0xc2c0,0xc2c0,LV),
(0xc2c1,0xc2db,LVT),
(0xc2dc,0xc2dc,LV),
(0xc2dd,0xc2f7,LVT),
(0xc2f8,0xc2f8,LV),
(0xc2f9,0xc313,LVT),
(0xc314,0xc314,LV),
(0xc315,0xc32f,LVT),
(0xc330,0xc330,LV),
(0xc331,0xc34b,LVT),
(0xc34c,0xc34c,LV),
(0xc34d,0xc367,LVT),
(0xc368,0xc368,LV),
(0xc369,0xc383,LVT),
(0xc384,0xc384,LV),
(0xc385,0xc39f,LVT),
(0xc3a0,0xc3a0,LV),
(0xc3a1,0xc3bb,LVT),
(0xc3bc,0xc3bc,LV),
(0xc3bd,0xc3d7,LVT),
(0xc3d8,0xc3d8,LV),
(0xc3d9,0xc3f3,LVT),
(0xc3f4,0xc3f4,LV),
(0xc3f5,0xc40f,LVT),
(0xc410,0xc410,LV),
(0xc411,0xc42b,LVT),
(0xc42c,0xc42c,LV),
(0xc42d,0xc447,LVT),
(0xc448,0xc448,LV),
(0xc449,0xc463,LVT),
(0xc464,0xc464,LV),
(0xc465,0xc47f,LVT),
(0xc480,0xc480,LV),
(0xc481,0xc49b,LVT),
(0xc49c,0xc49c,LV),
(0xc49d,0xc4b7,LVT),
(0xc4b8,0xc4b8,LV),
(0xc4b9,0xc4d3,LVT),
(0xc4d4,0xc4d4,LV),
(0xc4d5,0xc4ef,LVT),
(0xc4f0,0xc4f0,LV),
(0xc4f1,0xc50b,LVT),
(0xc50c,0xc50c,LV),
(0xc50d,0xc527,LVT),
(0xc528,0xc528,LV),
(0xc529,0xc543,LVT),
(0xc544,0xc544,LV),
(0xc545,0xc55f,LVT),
(0xc560,0xc560,LV),
(0xc561,0xc57b,LVT),
(0xc57c,0xc57c,LV),
(0xc57d,0xc597,LVT),
(0xc598,0xc598,LV),
(0xc599,0xc5b3,LVT),
(0xc5b4,0xc5b4,LV),
(0xc5b5,0xc5cf,LVT),
(0xc5d0,0xc5d0,LV),
(0xc5d1,0xc5eb,LVT),
(0xc5ec,0xc5ec,LV),
(0xc5ed,0xc607,LVT),
(0xc608,0xc608,LV),
(0xc609,0xc623,LVT),
(0xc624,0xc624,LV),
(0xc625,0xc63f,LVT),
(0xc640,0xc640,LV),
(0xc641,0xc65b,LVT),
(0xc65c,0xc65c,LV),
(0xc65d,0xc677,LVT),
(0xc678,0xc678,LV),
(0xc679,0xc693,LVT),
(0xc694,0xc694,LV),
(0xc695,0xc6af,LVT),
(0xc6b0,0xc6b0,LV),
(0xc6b1,0xc6cb,LVT),
(0xc6cc,0xc6cc,LV),
(0xc6cd,0xc6e7,LVT),
(0xc6e8,0xc6e8,LV),
(0xc6e9,0xc703,LVT),
(0xc704,0xc704,LV),
(0xc705,0xc71f,LVT),
(0xc720,0xc720,LV),
(0xc721,0xc73b,LVT),
(0xc73c,0xc73c,LV),
(0xc73d,0xc757,LVT),
(0xc758,0xc758,LV),
(0xc759,0xc773,LVT),
(0xc774,0xc774,LV),
(0xc775,0xc78f,LVT),
(0xc790,0xc790,LV),
(0xc791,0xc7ab,LVT),
(0xc7ac,0xc7ac,LV),
(0xc7ad,0xc7c7,LVT),
(0xc7c8,0xc7c8,LV),
(0xc7c9,0xc7e3,LVT),
(0xc7e4,0xc7e4,LV),
(0xc7e5,0xc7ff,LVT),
(0xc800,0xc800,LV),
(0xc801,0xc81b,LVT),
(0xc81c,0xc81c,LV),
(0xc81d,0xc837,LVT),
(0xc838,0xc838,LV),
(0xc839,0xc853,LVT),
(0xc854,0xc854,LV),
(0xc855,0xc86f,LVT),
(0xc870,0xc870,LV),
(0xc871,0xc88b,LVT),
(0xc88c,0xc88c,LV),
(0xc88d,0xc8a7,LVT),
(0xc8a8,0xc8a8,LV),
(0xc8a9,0xc8c3,LVT),
(0xc8c4,0xc8c4,LV),
(0xc8c5,0xc8df,LVT),
(0xc8e0,0xc8e0,LV),
(0xc8e1,0xc8fb,LVT),
(0xc8fc,0xc8fc,LV),
(0xc8fd,0xc917,LVT),
(0xc918,0xc918,LV),
(0xc919,0xc933,LVT),
(0xc934,0xc934,LV),
(0xc935,0xc94f,LVT),
(0xc950,0xc950,LV),
(0xc951,0xc96b,LVT),
(0xc96c,0xc96c,LV),
(0xc96d,0xc987,LVT),
(0xc988,0xc988,LV),
(0xc989,0xc9a3,LVT),
(0xc9a4,0xc9a4,LV),
(0xc9a5,0xc9bf,LVT),
(0xc9c0,0xc9c0,LV),
(0xc9c1,0xc9db,LVT),
(0xc9dc,0xc9dc,LV),
(0xc9dd,0xc9f7,LVT),
(0xc9f8,0xc9f8,LV),
(0xc9f9,0xca13,LVT),
(0xca14,0xca14,LV),
(0xca15,0xca2f,LVT),
(0xca30,0xca30,LV),
(0xca31,0xca4b,LVT),
(0xca4c,0xca4c,LV),
(0xca4d,0xca67,LVT),
(0xca68,0xca68,LV),
(0xca69,0xca83,LVT),
(0xca84,0xca84,LV),
(0xca85,0xca9f,LVT),
(0xcaa0,0xcaa0,LV),
(0xcaa1,0xcabb,LVT),
(0xcabc,0xcabc,LV),
(0xcabd,0xcad7,LVT),
(0xcad8,0xcad8,LV),
(0xcad9,0xcaf3,LVT),
(0xcaf4,0xcaf4,LV),
(0xcaf5,0xcb0f,LVT),
(0xcb10,0xcb10,LV),
(0xcb11,0xcb2b,LVT),
(0xcb2c,0xcb2c,LV),
(0xcb2d,0xcb47,LVT),
(0xcb48,0xcb48,LV),
(0xcb49,0xcb63,LVT),
(0xcb64,0xcb64,LV),
(0xcb65,0xcb7f,LVT),
(0xcb80,0xcb80,LV),
(0xcb81,0xcb9b,LVT),
(0xcb9c,0xcb9c,LV),
(0xcb9d,0xcbb7,LVT),
(0xcbb8,0xcbb8,LV),
(0xcbb9,0xcbd3,LVT),
(0xcbd4,0xcbd4,LV),
(0xcbd5,0xcbef,LVT),
(0xcbf0,0xcbf0,LV),
(0xcbf1,0xcc0b,LVT),
(0xcc0c,0xcc0c,LV),
(0xcc0d,0xcc27,LVT),
(0xcc28,0xcc28,LV),
(0xcc29,0xcc43,LVT),
(0xcc44,0xcc44,LV),
(0xcc45,0xcc5f,LVT),
(0xcc60,0xcc60,LV),
(0xcc61,0xcc7b,LVT),
(0xcc7c,0xcc7c,LV),
(0xcc7d,0xcc97,LVT),
(0xcc98,0xcc98,LV),
(0xcc99,0xccb3,LVT),
(0xccb4,0xccb4,LV),
(0xccb5,0xcccf,LVT),
(0xccd0,0xccd0,LV),
(0xccd1,0xcceb,LVT),
(0xccec,0xccec,LV),
(0xcced,0xcd07,LVT),
(0xcd08,0xcd08,LV),
(0xcd09,0xcd23,LVT),
(0xcd24,0xcd24,LV),
(0xcd25,0xcd3f,LVT),
(0xcd40,0xcd40,LV),
(0xcd41,0xcd5b,LVT),
(0xcd5c,0xcd5c,LV),
(0xcd5d,0xcd77,LVT),
(0xcd78,0xcd78,LV),
(0xcd79,0xcd93,LVT),
(0xcd94,0xcd94,LV),
(0xcd95,0xcdaf,LVT),
(0xcdb0,0xcdb0,LV),
(0xcdb1,0xcdcb,LVT),
(0xcdcc,0xcdcc,LV),
(0xcdcd,0xcde7,LVT),
(0xcde8,0xcde8,LV),
(0xcde9,0xce03,LVT),
(0xce04,0xce04,LV),
(0xce05,0xce1f,LVT),
(0xce20,0xce20,LV),
(0xce21,0xce3b,LVT),
(0xce3c,0xce3c,LV),
(0xce3d,0xce57,LVT),
(0xce58,0xce58,LV),
(0xce59,0xce73,LVT),
(0xce74,0xce74,LV),
(0xce75,0xce8f,LVT),
(0xce90,0xce90,LV),
(0xce91,0xceab,LVT),
(0xceac,0xceac,LV),
(0xcead,0xcec7,LVT),
(0xcec8,0xcec8,LV),
(0xcec9,0xcee3,LVT),
(0xcee4,0xcee4,LV),
(0xcee5,0xceff,LVT),
(0xcf00,0xcf00,LV),
(0xcf01,0xcf1b,LVT),
(0xcf1c,0xcf1c,LV),
(0xcf1d,0xcf37,LVT),
(0xcf38,0xcf38,LV),
(0xcf39,0xcf53,LVT),
(0xcf54,0xcf54,LV),
(0xcf55,0xcf6f,LVT),
(0xcf70,0xcf70,LV),
(0xcf71,0xcf8b,LVT),
(0xcf8c,0xcf8c,LV),
(0xcf8d,0xcfa7,LVT),
(0xcfa8,0xcfa8,LV),
(0xcfa9,0xcfc3,LVT),
(0xcfc4,0xcfc4,LV),
(0xcfc5,0xcfdf,LVT),
(0xcfe0,0xcfe0,LV),
(0xcfe1,0xcffb,LVT),
(0xcffc,0xcffc,LV),
(0xcffd,0xd017,LVT),
(0xd018,0xd018,LV),
(0xd019,0xd033,LVT),
(0xd034,0xd034,LV),
(0xd035,0xd04f,LVT),
(0xd050,0xd050,LV),
(0xd051,0xd06b,LVT),
(0xd06c,0xd06c,LV),
(0xd06d,0xd087,LVT),
(0xd088,0xd088,LV),
(0xd089,0xd0a3,LVT),
(0xd0a4,0xd0a4,LV),
(0xd0a5,0xd0bf,LVT),
(0xd0c0,0xd0c0,LV),
(0xd0c1,0xd0db,LVT),
(0xd0dc,0xd0dc,LV),
(0xd0dd,0xd0f7,LVT),
(0xd0f8,0xd0f8,LV),
(0xd0f9,0xd113,LVT),
(0xd114,0xd114,LV),
(0xd115,0xd12f,LVT),
(0xd130,0xd130,LV),
(0xd131,0xd14b,LVT),
(0xd14c,0xd14c,LV),
(0xd14d,0xd167,LVT),
(0xd168,0xd168,LV),
(0xd169,0xd183,LVT),
(0xd184,0xd184,LV),
(0xd185,0xd19f,LVT),
(0xd1a0,0xd1a0,LV),
(0xd1a1,0xd1bb,LVT),
(0xd1bc,0xd1bc,LV),
(0xd1bd,0xd1d7,LVT),
(0xd1d8,0xd1d8,LV),
(0xd1d9,0xd1f3,LVT),
(0xd1f4,0xd1f4,LV),
(0xd1f5,0xd20f,LVT),
(0xd210,0xd210,LV),
(0xd211,0xd22b,LVT),
(0xd22c,0xd22c,LV),
(0xd22d,0xd247,LVT),
(0xd248,0xd248,LV),
(0xd249,0xd263,LVT),
(0xd264,0xd264,LV),
(0xd265,0xd27f,LVT),
(0xd280,0xd280,LV),
(0xd281,0xd29b,LVT),
(0xd29c,0xd29c,LV),
(0xd29d,0xd2b7,LVT),
(0xd2b8,0xd2b8,LV),
(0xd2b9,0xd2d3,LVT),
(0xd2d4,0xd2d4,LV),
(0xd2d5,0xd2ef,LVT),
(0xd2f0,0xd2f0,LV),
(0xd2f1,0xd30b,LVT),
(0xd30c,0xd30c,LV),
(0xd30d,0xd327,LVT),
(0xd328,0xd328,LV),
(0xd329,0xd343,LVT),
(0xd344,0xd344,LV),
(0xd345,0xd35f,LVT),
(0xd360,0xd360,LV),
(0xd361,0xd37b,LVT),
(0xd37c,0xd37c,LV),
(0xd37d,0xd397,LVT),
(0xd398,0xd398,LV),
(0xd399,0xd3b3,LVT),
(0xd3b4,0xd3b4,LV),
(0xd3b5,0xd3cf,LVT),
(0xd3d0,0xd3d0,LV),
(0xd3d1,0xd3eb,LVT),
(0xd3ec,0xd3ec,LV),
(0xd3ed,0xd407,LVT),
(0xd408,0xd408,LV),
(0xd409,0xd423,LVT),
(0xd424,0xd424,LV),
(0xd425,0xd43f,LVT),
(0xd440,0xd440,LV),
(0xd441,0xd45b,LVT),
(0xd45c,0xd45c,LV),
(0xd45d,0xd477,LVT),
(0xd478,0xd478,LV),
(0xd479,0xd493,LVT),
(0xd494,0xd494,LV),
(0xd495,0xd4af,LVT),
(0xd4b0,0xd4b0,LV),
(0xd4b1,0xd4cb,LVT),
(0xd4cc,0xd4cc,LV),
(0xd4cd,0xd4e7,LVT),
(0xd4e8,0xd4e8,LV),
(0xd4e9,0xd503,LVT),
(0xd504,0xd504,LV),
(0xd505,0xd51f,LVT),
(0xd520,0xd520,LV),
(0xd521,0xd53b,LVT),
(0xd53c,0xd53c,LV),
(0xd53d,0xd557,LVT),
(0xd558,0xd558,LV),
(0xd559,0xd573,LVT),
(0xd574,0xd574,LV),
(0xd575,0xd58f,LVT),
(0xd590,0xd590,LV),
(0xd591,0xd5ab,LVT),
(0xd5ac,0xd5ac,LV),
(0xd5ad,0xd5c7,LVT),
(0xd5c8,0xd5c8,LV),
(0xd5c9,0xd5e3,LVT),
(0xd5e4,0xd5e4,LV),
(0xd5e5,0xd5ff,LVT),
(0xd600,0xd600,LV),
(0xd601,0xd61b,LVT),
(0xd61c,0xd61c,LV),
(0xd61d,0xd637,LVT),
(0xd638,0xd638,LV),
(0xd639,0xd653,LVT),
(0xd654,0xd654,LV),
(0xd655,0xd66f,LVT),
(0xd670,0xd670,LV),
(0xd671,0xd68b,LVT),
(0xd68c,0xd68c,LV),
(0xd68d,0xd6a7,LVT),
(0xd6a8,0xd6a8,LV),
(0xd6a9,0xd6c3,LVT),
(0xd6c4,0xd6c4,LV),
(0xd6c5,0xd6df,LVT),
(0xd6e0,0xd6e0,LV),
(0xd6e1,0xd6fb,LVT),
(0xd6fc,0xd6fc,LV),
(0xd6fd,0xd717,LVT),
(0xd718,0xd718,LV),
(0xd719,0xd733,LVT),
(0xd734,0xd734,LV),
(0xd735,0xd74f,LVT),
(0xd750,0xd750,LV),
(0xd751,0xd76b,LVT),
(0xd76c,0xd76c,LV),
(0xd76d,0xd787,LVT),
(0xd788,0xd788,LV),
(0xd789,0xd7a3,LVT),
(0xd7b0,0xd7c6,V),
(0xd7cb,0xd7fb,T),
(0xfb1e,0xfb1e,Extend),
(0xfe00,0xfe0f,Extend),
(0xfe20,0xfe2f,Extend),
(0xfeff,0xfeff,Control),
(0xff9e,0xff9f,Extend),
(0xfff0,0xfffb,Control),
(0x101fd,0x101fd,Extend),
(0x102e0,0x102e0,Extend),
(0x10376,0x1037a,Extend),
(0x10a01,0x10a03,Extend),
(0x10a05,0x10a06,Extend),
(0x10a0c,0x10a0f,Extend),
(0x10a38,0x10a3a,Extend),
(0x10a3f,0x10a3f,Extend),
(0x10ae5,0x10ae6,Extend),
(0x11000,0x11000,SM),
(0x11001,0x11001,Extend),
(0x11002,0x11002,SM),
(0x11038,0x11046,Extend),
(0x1107f,0x11081,Extend),
(0x11082,0x11082,SM),
(0x110b0,0x110b2,SM),
(0x110b3,0x110b6,Extend),
(0x110b7,0x110b8,SM),
(0x110b9,0x110ba,Extend),
(0x110bd,0x110bd,Prepend),
(0x11100,0x11102,Extend),
(0x11127,0x1112b,Extend),
(0x1112c,0x1112c,SM),
(0x1112d,0x11134,Extend),
(0x11173,0x11173,Extend),
(0x11180,0x11181,Extend),
(0x11182,0x11182,SM),
(0x111b3,0x111b5,SM),
(0x111b6,0x111be,Extend),
(0x111bf,0x111c0,SM),
(0x111c2,0x111c3,Prepend),
(0x111ca,0x111cc,Extend),
(0x1122c,0x1122e,SM),
(0x1122f,0x11231,Extend),
(0x11232,0x11233,SM),
(0x11234,0x11234,Extend),
(0x11235,0x11235,SM),
(0x11236,0x11237,Extend),
(0x1123e,0x1123e,Extend),
(0x112df,0x112df,Extend),
(0x112e0,0x112e2,SM),
(0x112e3,0x112ea,Extend),
(0x11300,0x11301,Extend),
(0x11302,0x11303,SM),
(0x1133c,0x1133c,Extend),
(0x1133e,0x1133e,Extend),
(0x1133f,0x1133f,SM),
(0x11340,0x11340,Extend),
(0x11341,0x11344,SM),
(0x11347,0x11348,SM),
(0x1134b,0x1134d,SM),
(0x11357,0x11357,Extend),
(0x11362,0x11363,SM),
(0x11366,0x1136c,Extend),
(0x11370,0x11374,Extend),
(0x11435,0x11437,SM),
(0x11438,0x1143f,Extend),
(0x11440,0x11441,SM),
(0x11442,0x11444,Extend),
(0x11445,0x11445,SM),
(0x11446,0x11446,Extend),
(0x114b0,0x114b0,Extend),
(0x114b1,0x114b2,SM),
(0x114b3,0x114b8,Extend),
(0x114b9,0x114b9,SM),
(0x114ba,0x114ba,Extend),
(0x114bb,0x114bc,SM),
(0x114bd,0x114bd,Extend),
(0x114be,0x114be,SM),
(0x114bf,0x114c0,Extend),
(0x114c1,0x114c1,SM),
(0x114c2,0x114c3,Extend),
(0x115af,0x115af,Extend),
(0x115b0,0x115b1,SM),
(0x115b2,0x115b5,Extend),
(0x115b8,0x115bb,SM),
(0x115bc,0x115bd,Extend),
(0x115be,0x115be,SM),
(0x115bf,0x115c0,Extend),
(0x115dc,0x115dd,Extend),
(0x11630,0x11632,SM),
(0x11633,0x1163a,Extend),
(0x1163b,0x1163c,SM),
(0x1163d,0x1163d,Extend),
(0x1163e,0x1163e,SM),
(0x1163f,0x11640,Extend),
(0x116ab,0x116ab,Extend),
(0x116ac,0x116ac,SM),
(0x116ad,0x116ad,Extend),
(0x116ae,0x116af,SM),
(0x116b0,0x116b5,Extend),
(0x116b6,0x116b6,SM),
(0x116b7,0x116b7,Extend),
(0x1171d,0x1171f,Extend),
(0x11720,0x11721,SM),
(0x11722,0x11725,Extend),
(0x11726,0x11726,SM),
(0x11727,0x1172b,Extend),
(0x11a01,0x11a06,Extend),
(0x11a07,0x11a08,SM),
(0x11a09,0x11a0a,Extend),
(0x11a33,0x11a38,Extend),
(0x11a39,0x11a39,SM),
(0x11a3a,0x11a3a,Prepend),
(0x11a3b,0x11a3e,Extend),
(0x11a47,0x11a47,Extend),
(0x11a51,0x11a56,Extend),
(0x11a57,0x11a58,SM),
(0x11a59,0x11a5b,Extend),
(0x11a86,0x11a89,Prepend),
(0x11a8a,0x11a96,Extend),
(0x11a97,0x11a97,SM),
(0x11a98,0x11a99,Extend),
(0x11c2f,0x11c2f,SM),
(0x11c30,0x11c36,Extend),
(0x11c38,0x11c3d,Extend),
(0x11c3e,0x11c3e,SM),
(0x11c3f,0x11c3f,Extend),
(0x11c92,0x11ca7,Extend),
(0x11ca9,0x11ca9,SM),
(0x11caa,0x11cb0,Extend),
(0x11cb1,0x11cb1,SM),
(0x11cb2,0x11cb3,Extend),
(0x11cb4,0x11cb4,SM),
(0x11cb5,0x11cb6,Extend),
(0x11d31,0x11d36,Extend),
(0x11d3a,0x11d3a,Extend),
(0x11d3c,0x11d3d,Extend),
(0x11d3f,0x11d45,Extend),
(0x11d46,0x11d46,Prepend),
(0x11d47,0x11d47,Extend),
(0x16af0,0x16af4,Extend),
(0x16b30,0x16b36,Extend),
(0x16f51,0x16f7e,SM),
(0x16f8f,0x16f92,Extend),
(0x1bc9d,0x1bc9e,Extend),
(0x1bca0,0x1bca3,Control),
(0x1d165,0x1d165,Extend),
(0x1d166,0x1d166,SM),
(0x1d167,0x1d169,Extend),
(0x1d16d,0x1d16d,SM),
(0x1d16e,0x1d172,Extend),
(0x1d173,0x1d17a,Control),
(0x1d17b,0x1d182,Extend),
(0x1d185,0x1d18b,Extend),
(0x1d1aa,0x1d1ad,Extend),
(0x1d242,0x1d244,Extend),
(0x1da00,0x1da36,Extend),
(0x1da3b,0x1da6c,Extend),
(0x1da75,0x1da75,Extend),
(0x1da84,0x1da84,Extend),
(0x1da9b,0x1da9f,Extend),
(0x1daa1,0x1daaf,Extend),
(0x1e000,0x1e006,Extend),
(0x1e008,0x1e018,Extend),
(0x1e01b,0x1e021,Extend),
(0x1e023,0x1e024,Extend),
(0x1e026,0x1e02a,Extend),
(0x1e8d0,0x1e8d6,Extend),
(0x1e944,0x1e94a,Extend),
(0x1f1e6,0x1f1ff,RI),
(0x1f308,0x1f308,GAZ),
(0x1f33e,0x1f33e,GAZ),
(0x1f373,0x1f373,GAZ),
(0x1f385,0x1f385,EB),
(0x1f393,0x1f393,GAZ),
(0x1f3a4,0x1f3a4,GAZ),
(0x1f3a8,0x1f3a8,GAZ),
(0x1f3c2,0x1f3c4,EB),
(0x1f3c7,0x1f3c7,EB),
(0x1f3ca,0x1f3cc,EB),
(0x1f3eb,0x1f3eb,GAZ),
(0x1f3ed,0x1f3ed,GAZ),
(0x1f3fb,0x1f3ff,EM),
(0x1f442,0x1f443,EB),
(0x1f446,0x1f450,EB),
(0x1f466,0x1f469,EBG),
(0x1f46e,0x1f46e,EB),
(0x1f470,0x1f478,EB),
(0x1f47c,0x1f47c,EB),
(0x1f481,0x1f483,EB),
(0x1f485,0x1f487,EB),
(0x1f48b,0x1f48b,GAZ),
(0x1f4aa,0x1f4aa,EB),
(0x1f4bb,0x1f4bc,GAZ),
(0x1f527,0x1f527,GAZ),
(0x1f52c,0x1f52c,GAZ),
(0x1f574,0x1f575,EB),
(0x1f57a,0x1f57a,EB),
(0x1f590,0x1f590,EB),
(0x1f595,0x1f596,EB),
(0x1f5e8,0x1f5e8,GAZ),
(0x1f645,0x1f647,EB),
(0x1f64b,0x1f64f,EB),
(0x1f680,0x1f680,GAZ),
(0x1f692,0x1f692,GAZ),
(0x1f6a3,0x1f6a3,EB),
(0x1f6b4,0x1f6b6,EB),
(0x1f6c0,0x1f6c0,EB),
(0x1f6cc,0x1f6cc,EB),
(0x1f918,0x1f91c,EB),
(0x1f91e,0x1f91f,EB),
(0x1f926,0x1f926,EB),
(0x1f930,0x1f939,EB),
(0x1f93d,0x1f93e,EB),
(0x1f9d1,0x1f9dd,EB),
(0xe0000,0xe001f,Control),
(0xe0020,0xe007f,Extend),
(0xe0080,0xe00ff,Control),
(0xe0100,0xe01ef,Extend),
(0xe01f0,0xe0fff,Control),
];
