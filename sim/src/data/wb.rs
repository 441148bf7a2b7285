// Frozen Unicode 10 data; see tools/freeze.py
#[allow(non_camel_case_types, clippy::upper_case_acronyms)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Wb { CR, LF, NL, Extend, ZWJ, RI, FO, KA, HL, LE, SQ, DQ, MB, ML, MN, NU, EX, EB, EM, GAZ, EBG, Other }
use Wb::*;
pub static TABLE: &[(u32, u32, Wb)] = &[
(0xa,0xa,LF),
(0xb,0xc,NL),
(0xd,0xd,CR),
(0x22,0x22,DQ),
(0x27,0x27,SQ),
(0x2c,0x2c,MN),
(0x2e,0x2e,MB),
(0x30,0x39,NU),
(0x3a,0x3a,ML),
(0x3b,0x3b,MN),
(0x41,0x5a,LE),
(0x5f,0x5f,EX),
(0x61,0x7a,LE),
(0x85,0x85,NL),
(0xaa,0xaa,LE),
(0xad,0xad,FO),
(0xb5,0xb5,LE),
(0xb7,0xb7,ML),
(0xba,0xba,LE),
(0xc0,0xd6,LE),
(0xd8,0xf6,LE),
(0xf8,0x2d7,LE),
(0x2de,0x2e4,LE),
(0x2ec,0x2ff,LE),
(0x300,0x36f,Extend),
(0x370,0x374,LE),
(0x376,0x377,LE),
(0x37a,0x37d,LE),
(0x37e,0x37e,MN),
(0x37f,0x37f,LE),
(0x386,0x386,LE),
(0x387,0x387,ML),
(0x388,0x38a,LE),
(0x38c,0x38c,LE),
(0x38e,0x3a1,LE),
(0x3a3,0x3f5,LE),
(0x3f7,0x481,LE),
(0x483,0x489,Extend),
(0x48a,0x52f,LE),
(0x531,0x556,LE),
(0x559,0x559,LE),
(0x561,0x587,LE),
(0x589,0x589,MN),
(0x591,0x5bd,Extend),
(0x5bf,0x5bf,Extend),
(0x5c1,0x5c2,Extend),
(0x5c4,0x5c5,Extend),
(0x5c7,0x5c7,Extend),
(0x5d0,0x5ea,HL),
(0x5f0,0x5f2,HL),
(0x5f3,0x5f3,LE),
(0x5f4,0x5f4,ML),
(0x600,0x605,FO),
(0x60c,0x60d,MN),
(0x610,0x61a,Extend),
(0x61c,0x61c,FO),
(0x620,0x64a,LE),
(0x64b,0x65f,Extend),
(0x660,0x669,NU),
(0x66b,0x66b,NU),
(0x66c,0x66c,MN),
(0x66e,0x66f,LE),
(0x670,0x670,Extend),
(0x671,0x6d3,LE),
(0x6d5,0x6d5,LE),
(0x6d6,0x6dc,Extend),
(0x6dd,0x6dd,FO),
(0x6df,0x6e4,Extend),
(0x6e5,0x6e6,LE),
(0x6e7,0x6e8,Extend),
(0x6ea,0x6ed,Extend),
(0x6ee,0x6ef,LE),
(0x6f0,0x6f9,NU),
(0x6fa,0x6fc,LE),
(0x6ff,0x6ff,LE),
(0x70f,0x70f,FO),
(0x710,0x710,LE),
(0x711,0x711,Extend),
(0x712,0x72f,LE),
(0x730,0x74a,Extend),
(0x74d,0x7a5,LE),
(0x7a6,0x7b0,Extend),
(0x7b1,0x7b1,LE),
(0x7c0,0x7c9,NU),
(0x7ca,0x7ea,LE),
(0x7eb,0x7f3,Extend),
(0x7f4,0x7f5,LE),
(0x7f8,0x7f8,MN),
(0x7fa,0x7fa,LE),
(0x800,0x815,LE),
(0x816,0x819,Extend),
(0x81a,0x81a,LE),
(0x81b,0x823,Extend),
(0x824,0x824,LE),
(0x825,0x827,Extend),
(0x828,0x828,LE),
(0x829,0x82d,Extend),
(0x840,0x858,LE),
(0x859,0x85b,Extend),
(0x860,0x86a,LE),
(0x8a0,0x8b4,LE),
(0x8b6,0x8bd,LE),
(0x8d4,0x8e1,Extend),
(0x8e2,0x8e2,FO),
(0x8e3,0x903,Extend),
(0x904,0x939,LE),
(0x93a,0x93c,Extend),
(0x93d,0x93d,LE),
(0x93e,0x94f,Extend),
(0x950,0x950,LE),
(0x951,0x957,Extend),
(0x958,0x961,LE),
(0x962,0x963,Extend),
(0x966,0x96f,NU),
(0x971,0x980,LE),
(0x981,0x983,Extend),
(0x985,0x98c,LE),
(0x98f,0x990,LE),
(0x993,0x9a8,LE),
(0x9aa,0x9b0,LE),
(0x9b2,0x9b2,LE),
(0x9b6,0x9b9,LE),
(0x9bc,0x9bc,Extend),
(0x9bd,0x9bd,LE),
(0x9be,0x9c4,Extend),
(0x9c7,0x9c8,Extend),
(0x9cb,0x9cd,Extend),
(0x9ce,0x9ce,LE),
(0x9d7,0x9d7,Extend),
(0x9dc,0x9dd,LE),
(0x9df,0x9e1,LE),
(0x9e2,0x9e3,Extend),
(0x9e6,0x9ef,NU),
(0x9f0,0x9f1,LE),
(0x9fc,0x9fc,LE),
(0xa01,0xa03,Extend),
(0xa05,0xa0a,LE),
(0xa0f,0xa10,LE),
(0xa13,0xa28,LE),
(0xa2a,0xa30,LE),
(0xa32,0xa33,LE),
(0xa35,0xa36,LE),
(0xa38,0xa39,LE),
(0xa3c,0xa3c,Extend),
(0xa3e,0xa42,Extend),
(0xa47,0xa48,Extend),
(0xa4b,0xa4d,Extend),
(0xa51,0xa51,Extend),
(0xa59,0xa5c,LE),
(0xa5e,0xa5e,LE),
(0xa66,0xa6f,NU),
(0xa70,0xa71,Extend),
(0xa72,0xa74,LE),
(0xa75,0xa75,Extend),
(0xa81,0xa83,Extend),
(0xa85,0xa8d,LE),
(0xa8f,0xa91,LE),
(0xa93,0xaa8,LE),
(0xaaa,0xab0,LE),
(0xab2,0xab3,LE),
(0xab5,0xab9,LE),
(0xabc,0xabc,Extend),
(0xabd,0xabd,LE),
(0xabe,0xac5,Extend),
(0xac7,0xac9,Extend),
(0xacb,0xacd,Extend),
(0xad0,0xad0,LE),
(0xae0,0xae1,LE),
(0xae2,0xae3,Extend),
(0xae6,0xaef,NU),
(0xaf9,0xaf9,LE),
(0xafa,0xaff,Extend),
(0xb01,0xb03,Extend),
(0xb05,0xb0c,LE),
(0xb0f,0xb10,LE),
(0xb13,0xb28,LE),
(0xb2a,0xb30,LE),
(0xb32,0xb33,LE),
(0xb35,0xb39,LE),
(0xb3c,0xb3c,Extend),
(0xb3d,0xb3d,LE),
(0xb3e,0xb44,Extend),
(0xb47,0xb48,Extend),
(0xb4b,0xb4d,Extend),
(0xb56,0xb57,Extend),
(0xb5c,0xb5d,LE),
(0xb5f,0xb61,LE),
(0xb62,0xb63,Extend),
(0xb66,0xb6f,NU),
(0xb71,0xb71,LE),
(0xb82,0xb82,Extend),
(0xb83,0xb83,LE),
(0xb85,0xb8a,LE),
(0xb8e,0xb90,LE),
(0xb92,0xb95,LE),
(0xb99,0xb9a,LE),
(0xb9c,0xb9c,LE),
(0xb9e,0xb9f,LE),
(0xba3,0xba4,LE),
(0xba8,0xbaa,LE),
(0xbae,0xbb9,LE),
(0xbbe,0xbc2,Extend),
(0xbc6,0xbc8,Extend),
(0xbca,0xbcd,Extend),
(0xbd0,0xbd0,LE),
(0xbd7,0xbd7,Extend),
(0xbe6,0xbef,NU),
(0xc00,0xc03,Extend),
(0xc05,0xc0c,LE),
(0xc0e,0xc10,LE),
(0xc12,0xc28,LE),
(0xc2a,0xc39,LE),
(0xc3d,0xc3d,LE),
(0xc3e,0xc44,Extend),
(0xc46,0xc48,Extend),
(0xc4a,0xc4d,Extend),
(0xc55,0xc56,Extend),
(0xc58,0xc5a,LE),
(0xc60,0xc61,LE),
(0xc62,0xc63,Extend),
(0xc66,0xc6f,NU),
(0xc80,0xc80,LE),
(0xc81,0xc83,Extend),
(0xc85,0xc8c,LE),
(0xc8e,0xc90,LE),
(0xc92,0xca8,LE),
(0xcaa,0xcb3,LE),
(0xcb5,0xcb9,LE),
(0xcbc,0xcbc,Extend),
(0xcbd,0xcbd,LE),
(0xcbe,0xcc4,Extend),
(0xcc6,0xcc8,Extend),
(0xcca,0xccd,Extend),
(0xcd5,0xcd6,Extend),
(0xcde,0xcde,LE),
(0xce0,0xce1,LE),
(0xce2,0xce3,Extend),
(0xce6,0xcef,NU),
(0xcf1,0xcf2,LE),
(0xd00,0xd03,Extend),
(0xd05,0xd0c,LE),
(0xd0e,0xd10,LE),
(0xd12,0xd3a,LE),
(0xd3b,0xd3c,Extend),
(0xd3d,0xd3d,LE),
(0xd3e,0xd44,Extend),
(0xd46,0xd48,Extend),
(0xd4a,0xd4d,Extend),
(0xd4e,0xd4e,LE),
(0xd54,0xd56,LE),
(0xd57,0xd57,Extend),
(0xd5f,0xd61,LE),
(0xd62,0xd63,Extend),
(0xd66,0xd6f,NU),
(0xd7a,0xd7f,LE),
(0xd82,0xd83,Extend),
(0xd85,0xd96,LE),
(0xd9a,0xdb1,LE),
(0xdb3,0xdbb,LE),
(0xdbd,0xdbd,LE),
(0xdc0,0xdc6,LE),
(0xdca,0xdca,Extend),
(0xdcf,0xdd4,Extend),
(0xdd6,0xdd6,Extend),
(0xdd8,0xddf,Extend),
(0xde6,0xdef,NU),
(0xdf2,0xdf3,Extend),
(0xe31,0xe31,Extend),
(0xe34,0xe3a,Extend),
(0xe47,0xe4e,Extend),
(0xe50,0xe59,NU),
(0xeb1,0xeb1,Extend),
(0xeb4,0xeb9,Extend),
(0xebb,0xebc,Extend),
(0xec8,0xecd,Extend),
(0xed0,0xed9,NU),
(0xf00,0xf00,LE),
(0xf18,0xf19,Extend),
(0xf20,0xf29,NU),
(0xf35,0xf35,Extend),
(0xf37,0xf37,Extend),
(0xf39,0xf39,Extend),
(0xf3e,0xf3f,Extend),
(0xf40,0xf47,LE),
(0xf49,0xf6c,LE),
(0xf71,0xf84,Extend),
(0xf86,0xf87,Extend),
(0xf88,0xf8c,LE),
(0xf8d,0xf97,Extend),
(0xf99,0xfbc,Extend),
(0xfc6,0xfc6,Extend),
(0x102b,0x103e,Extend),
(0x1040,0x1049,NU),
(0x1056,0x1059,Extend),
(0x105e,0x1060,Extend),
(0x1062,0x1064,Extend),
(0x1067,0x106d,Extend),
(0x1071,0x1074,Extend),
(0x1082,0x108d,Extend),
(0x108f,0x108f,Extend),
(0x1090,0x1099,NU),
(0x109a,0x109d,Extend),
(0x10a0,0x10c5,LE),
(0x10c7,0x10c7,LE),
(0x10cd,0x10cd,LE),
(0x10d0,0x10fa,LE),
(0x10fc,0x1248,LE),
(0x124a,0x124d,LE),
(0x1250,0x1256,LE),
(0x1258,0x1258,LE),
(0x125a,0x125d,LE),
(0x1260,0x1288,LE),
(0x128a,0x128d,LE),
(0x1290,0x12b0,LE),
(0x12b2,0x12b5,LE),
(0x12b8,0x12be,LE),
(0x12c0,0x12c0,LE),
(0x12c2,0x12c5,LE),
(0x12c8,0x12d6,LE),
(0x12d8,0x1310,LE),
(0x1312,0x1315,LE),
(0x1318,0x135a,LE),
(0x135d,0x135f,Extend),
(0x1380,0x138f,LE),
(0x13a0,0x13f5,LE),
(0x13f8,0x13fd,LE),
(0x1401,0x166c,LE),
(0x166f,0x167f,LE),
(0x1681,0x169a,LE),
(0x16a0,0x16ea,LE),
(0x16ee,0x16f8,LE),
(0x1700,0x170c,LE),
(0x170e,0x1711,LE),
(0x1712,0x1714,Extend),
(0x1720,0x1731,LE),
(0x1732,0x1734,Extend),
(0x1740,0x1751,LE),
(0x1752,0x1753,Extend),
(0x1760,0x176c,LE),
(0x176e,0x1770,LE),
(0x1772,0x1773,Extend),
(0x17b4,0x17d3,Extend),
(0x17dd,0x17dd,Extend),
(0x17e0,0x17e9,NU),
(0x180b,0x180d,Extend),
(0x180e,0x180e,FO),
(0x1810,0x1819,NU),
(0x1820,0x1877,LE),
(0x1880,0x1884,LE),
(0x1885,0x1886,Extend),
(0x1887,0x18a8,LE),
(0x18a9,0x18a9,Extend),
(0x18aa,0x18aa,LE),
(0x18b0,0x18f5,LE),
(0x1900,0x191e,LE),
(0x1920,0x192b,Extend),
(0x1930,0x193b,Extend),
(0x1946,0x194f,NU),
(0x19d0,0x19d9,NU),
(0x1a00,0x1a16,LE),
(0x1a17,0x1a1b,Extend),
(0x1a55,0x1a5e,Extend),
(0x1a60,0x1a7c,Extend),
(0x1a7f,0x1a7f,Extend),
(0x1a80,0x1a89,NU),
(0x1a90,0x1a99,NU),
(0x1ab0,0x1abe,Extend),
(0x1b00,0x1b04,Extend),
(0x1b05,0x1b33,LE),
(0x1b34,0x1b44,Extend),
(0x1b45,0x1b4b,LE),
(0x1b50,0x1b59,NU),
(0x1b6b,0x1b73,Extend),
(0x1b80,0x1b82,Extend),
(0x1b83,0x1ba0,LE),
(0x1ba1,0x1bad,Extend),
(0x1bae,0x1baf,LE),
(0x1bb0,0x1bb9,NU),
(0x1bba,0x1be5,LE),
(0x1be6,0x1bf3,Extend),
(0x1c00,0x1c23,LE),
(0x1c24,0x1c37,Extend),
(0x1c40,0x1c49,NU),
(0x1c4d,0x1c4f,LE),
(0x1c50,0x1c59,NU),
(0x1c5a,0x1c7d,LE),
(0x1c80,0x1c88,LE),
(0x1cd0,0x1cd2,Extend),
(0x1cd4,0x1ce8,Extend),
(0x1ce9,0x1cec,LE),
(0x1ced,0x1ced,Extend),
(0x1cee,0x1cf1,LE),
(0x1cf2,0x1cf4,Extend),
(0x1cf5,0x1cf6,LE),
(0x1cf7,0x1cf9,Extend),
(0x1d00,0x1dbf,LE),
(0x1dc0,0x1df9,Extend),
(0x1dfb,0x1dff,Extend),
(0x1e00,0x1f15,LE),
(0x1f18,0x1f1d,LE),
(0x1f20,0x1f45,LE),
(0x1f48,0x1f4d,LE),
(0x1f50,0x1f57,LE),
(0x1f59,0x1f59,LE),
(0x1f5b,0x1f5b,LE),
(0x1f5d,0x1f5d,LE),
(0x1f5f,0x1f7d,LE),
(0x1f80,0x1fb4,LE),
(0x1fb6,0x1fbc,LE),
(0x1fbe,0x1fbe,LE),
(0x1fc2,0x1fc4,LE),
(0x1fc6,0x1fcc,LE),
(0x1fd0,0x1fd3,LE),
(0x1fd6,0x1fdb,LE),
(0x1fe0,0x1fec,LE),
(0x1ff2,0x1ff4,LE),
(0x1ff6,0x1ffc,LE),
(0x200c,0x200c,Extend),
(0x200d,0x200d,ZWJ),
(0x200e,0x200f,FO),
(0x2018,0x2019,MB),
(0x2024,0x2024,MB),
(0x2027,0x2027,ML),
(0x2028,0x2029,NL),
(0x202a,0x202e,FO),
(0x202f,0x202f,EX),
(0x203f,0x2040,EX),
(0x2044,0x2044,MN),
(0x2054,0x2054,EX),
(0x2060,0x2064,FO),
(0x2066,0x206f,FO),
(0x2071,0x2071,LE),
(0x207f,0x207f,LE),
(0x2090,0x209c,LE),
(0x20d0,0x20f0,Extend),
(0x2102,0x2102,LE),
(0x2107,0x2107,LE),
(0x210a,0x2113,LE),
(0x2115,0x2115,LE),
(0x2119,0x211d,LE),
(0x2124,0x2124,LE),
(0x2126,0x2126,LE),
(0x2128,0x2128,LE),
(0x212a,0x212d,LE),
(0x212f,0x2139,LE),
(0x213c,0x213f,LE),
(0x2145,0x2149,LE),
(0x214e,0x214e,LE),
(0x2160,0x2188,LE),
(0x24b6,0x24e9,LE),
(0x261d,0x261d,EB),
(0x2640,0x2640,GAZ),
(0x2642,0x2642,GAZ),
(0x2695,0x2696,GAZ),
(0x26f9,0x26f9,EB),
(0x2708,0x2708,GAZ),
(0x270a,0x270d,EB),
(0x2764,0x2764,GAZ),
(0x2c00,0x2c2e,LE),
(0x2c30,0x2c5e,LE),
(0x2c60,0x2ce4,LE),
(0x2ceb,0x2cee,LE),
(0x2cef,0x2cf1,Extend),
(0x2cf2,0x2cf3,LE),
(0x2d00,0x2d25,LE),
(0x2d27,0x2d27,LE),
(0x2d2d,0x2d2d,LE),
(0x2d30,0x2d67,LE),
(0x2d6f,0x2d6f,LE),
(0x2d7f,0x2d7f,Extend),
(0x2d80,0x2d96,LE),
(0x2da0,0x2da6,LE),
(0x2da8,0x2dae,LE),
(0x2db0,0x2db6,LE),
(0x2db8,0x2dbe,LE),
(0x2dc0,0x2dc6,LE),
(0x2dc8,0x2dce,LE),
(0x2dd0,0x2dd6,LE),
(0x2dd8,0x2dde,LE),
(0x2de0,0x2dff,Extend),
(0x2e2f,0x2e2f,LE),
(0x3005,0x3005,LE),
(0x302a,0x302f,Extend),
(0x3031,0x3035,KA),
(0x303b,0x303c,LE),
(0x3099,0x309a,Extend),
(0x309b,0x309c,KA),
(0x30a0,0x30fa,KA),
(0x30fc,0x30ff,KA),
(0x3105,0x312e,LE),
(0x3131,0x318e,LE),
(0x31a0,0x31ba,LE),
(0x31f0,0x31ff,KA),
(0x32d0,0x32fe,KA),
(0x3300,0x3357,KA),
(0xa000,0xa48c,LE),
(0xa4d0,0xa4fd,LE),
(0xa500,0xa60c,LE),
(0xa610,0xa61f,LE),
(0xa620,0xa629,NU),
(0xa62a,0xa62b,LE),
(0xa640,0xa66e,LE),
(0xa66f,0xa672,Extend),
(0xa674,0xa67d,Extend),
(0xa67f,0xa69d,LE),
(0xa69e,0xa69f,Extend),
(0xa6a0,0xa6ef,LE),
(0xa6f0,0xa6f1,Extend),
(0xa717,0xa7ae,LE),
(0xa7b0,0xa7b7,LE),
(0xa7f7,0xa801,LE),
(0xa802,0xa802,Extend),
(0xa803,0xa805,LE),
(0xa806,0xa806,Extend),
(0xa807,0xa80a,LE),
(0xa80b,0xa80b,Extend),
(0xa80c,0xa822,LE),
(0xa823,0xa827,Extend),
(0xa840,0xa873,LE),
(0xa880,0xa881,Extend),
(0xa882,0xa8b3,LE),
(0xa8b4,0xa8c5,Extend),
(0xa8d0,0xa8d9,NU),
(0xa8e0,0xa8f1,Extend),
(0xa8f2,0xa8f7,LE),
(0xa8fb,0xa8fb,LE),
(0xa8fd,0xa8fd,LE),
(0xa900,0xa909,NU),
(0xa90a,0xa925,LE),
(0xa926,0xa92d,Extend),
(0xa930,0xa946,LE),
(0xa947,0xa953,Extend),
(0xa960,0xa97c,LE),
(0xa980,0xa983,Extend),
(0xa984,0xa9b2,LE),
(0xa9b3,0xa9c0,Extend),
(0xa9cf,0xa9cf,LE),
(0xa9d0,0xa9d9,NU),
(0xa9e5,0xa9e5,Extend),
(0xa9f0,0xa9f9,NU),
(0xaa00,0xaa28,LE),
(0xaa29,0xaa36,Extend),
(0xaa40,0xaa42,LE),
(0xaa43,0xaa43,Extend),
(0xaa44,0xaa4b,LE),
(0xaa4c,0xaa4d,Extend),
(0xaa50,0xaa59,NU),
(0xaa7b,0xaa7d,Extend),
(0xaab0,0xaab0,Extend),
(0xaab2,0xaab4,Extend),
(0xaab7,0xaab8,Extend),
(0xaabe,0xaabf,Extend),
(0xaac1,0xaac1,Extend),
(0xaae0,0xaaea,LE),
(0xaaeb,0xaaef,Extend),
(0xaaf2,0xaaf4,LE),
(0xaaf5,0xaaf6,Extend),
(0xab01,0xab06,LE),
(0xab09,0xab0e,LE),
(0xab11,0xab16,LE),
(0xab20,0xab26,LE),
(0xab28,0xab2e,LE),
(0xab30,0xab65,LE),
(0xab70,0xabe2,LE),
(0xabe3,0xabea,Extend),
(0xabec,0xabed,Extend),
(0xabf0,0xabf9,NU),
(0xac00,0xd7a3,LE),
(0xd7b0,0xd7c6,LE),
(0xd7cb,0xd7fb,LE),
(0xfb00,0xfb06,LE),
(0xfb13,0xfb17,LE),
(0xfb1d,0xfb1d,HL),
(0xfb1e,0xfb1e,Extend),
(0xfb1f,0xfb28,HL),
(0xfb2a,0xfb36,HL),
(0xfb38,0xfb3c,HL),
(0xfb3e,0xfb3e,HL),
(0xfb40,0xfb41,HL),
(0xfb43,0xfb44,HL),
(0xfb46,0xfb4f,HL),
(0xfb50,0xfbb1,LE),
(0xfbd3,0xfd3d,LE),
(0xfd50,0xfd8f,LE),
(0xfd92,0xfdc7,LE),
(0xfdf0,0xfdfb,LE),
(0xfe00,0xfe0f,Extend),
(0xfe10,0xfe10,MN),
(0xfe13,0xfe13,ML),
(0xfe14,0xfe14,MN),
(0xfe20,0xfe2f,Extend),
(0xfe33,0xfe34,EX),
(0xfe4d,0xfe4f,EX),
(0xfe50,0xfe50,MN),
(0xfe52,0xfe52,MB),
(0xfe54,0xfe54,MN),
(0xfe55,0xfe55,ML),
(0xfe70,0xfe74,LE),
(0xfe76,0xfefc,LE),
(0xfeff,0xfeff,FO),
(0xff07,0xff07,MB),
(0xff0c,0xff0c,MN),
(0xff0e,0xff0e,MB),
(0xff1a,0xff1a,ML),
(0xff1b,0xff1b,MN),
(0xff21,0xff3a,LE),
(0xff3f,0xff3f,EX),
(0xff41,0xff5a,LE),
(0xff66,0xff9d,KA),
(0xff9e,0xff9f,Extend),
(0xffa0,0xffbe,LE),
(0xffc2,0xffc7,LE),
(0xffca,0xffcf,LE),
(0xffd2,0xffd7,LE),
(0xffda,0xffdc,LE),
(0xfff9,0xfffb,FO),
(0x10000,0x1000b,LE),
(0x1000d,0x10026,LE),
(0x10028,0x1003a,LE),
(0x1003c,0x1003d,LE),
(0x1003f,0x1004d,LE),
(0x10050,0x1005d,LE),
(0x10080,0x100fa,LE),
(0x10140,0x10174,LE),
(0x101fd,0x101fd,Extend),
(0x10280,0x1029c,LE),
(0x102a0,0x102d0,LE),
(0x102e0,0x102e0,Extend),
(0x10300,0x1031f,LE),
(0x1032d,0x1034a,LE),
(0x10350,0x10375,LE),
(0x10376,0x1037a,Extend),
(0x10380,0x1039d,LE),
(0x103a0,0x103c3,LE),
(0x103c8,0x103cf,LE),
(0x103d1,0x103d5,LE),
(0x10400,0x1049d,LE),
(0x104a0,0x104a9,NU),
(0x104b0,0x104d3,LE),
(0x104d8,0x104fb,LE),
(0x10500,0x10527,LE),
(0x10530,0x10563,LE),
(0x10600,0x10736,LE),
(0x10740,0x10755,LE),
(0x10760,0x10767,LE),
(0x10800,0x10805,LE),
(0x10808,0x10808,LE),
(0x1080a,0x10835,LE),
(0x10837,0x10838,LE),
(0x1083c,0x1083c,LE),
(0x1083f,0x10855,LE),
(0x10860,0x10876,LE),
(0x10880,0x1089e,LE),
(0x108e0,0x108f2,LE),
(0x108f4,0x108f5,LE),
(0x10900,0x10915,LE),
(0x10920,0x10939,LE),
(0x10980,0x109b7,LE),
(0x109be,0x109bf,LE),
(0x10a00,0x10a00,LE),
(0x10a01,0x10a03,Extend),
(0x10a05,0x10a06,Extend),
(0x10a0c,0x10a0f,Extend),
(0x10a10,0x10a13,LE),
(0x10a15,0x10a17,LE),
(0x10a19,0x10a33,LE),
(0x10a38,0x10a3a,Extend),
(0x10a3f,0x10a3f,Extend),
(0x10a60,0x10a7c,LE),
(0x10a80,0x10a9c,LE),
(0x10ac0,0x10ac7,LE),
(0x10ac9,0x10ae4,LE),
(0x10ae5,0x10ae6,Extend),
(0x10b00,0x10b35,LE),
(0x10b40,0x10b55,LE),
(0x10b60,0x10b72,LE),
(0x10b80,0x10b91,LE),
(0x10c00,0x10c48,LE),
(0x10c80,0x10cb2,LE),
(0x10cc0,0x10cf2,LE),
(0x11000,0x11002,Extend),
(0x11003,0x11037,LE),
(0x11038,0x11046,Extend),
(0x11066,0x1106f,NU),
(0x1107f,0x11082,Extend),
(0x11083,0x110af,LE),
(0x110b0,0x110ba,Extend),
(0x110bd,0x110bd,FO),
(0x110d0,0x110e8,LE),
(0x110f0,0x110f9,NU),
(0x11100,0x11102,Extend),
(0x11103,0x11126,LE),
(0x11127,0x11134,Extend),
(0x11136,0x1113f,NU),
(0x11150,0x11172,LE),
(0x11173,0x11173,Extend),
(0x11176,0x11176,LE),
(0x11180,0x11182,Extend),
(0x11183,0x111b2,LE),
(0x111b3,0x111c0,Extend),
(0x111c1,0x111c4,LE),
(0x111ca,0x111cc,Extend),
(0x111d0,0x111d9,NU),
(0x111da,0x111da,LE),
(0x111dc,0x111dc,LE),
(0x11200,0x11211,LE),
(0x11213,0x1122b,LE),
(0x1122c,0x11237,Extend),
(0x1123e,0x1123e,Extend),
(0x11280,0x11286,LE),
(0x11288,0x11288,LE),
(0x1128a,0x1128d,LE),
(0x1128f,0x1129d,LE),
(0x1129f,0x112a8,LE),
(0x112b0,0x112de,LE),
(0x112df,0x112ea,Extend),
(0x112f0,0x112f9,NU),
(0x11300,0x11303,Extend),
(0x11305,0x1130c,LE),
(0x1130f,0x11310,LE),
(0x11313,0x11328,LE),
(0x1132a,0x11330,LE),
(0x11332,0x11333,LE),
(0x11335,0x11339,LE),
(0x1133c,0x1133c,Extend),
(0x1133d,0x1133d,LE),
(0x1133e,0x11344,Extend),
(0x11347,0x11348,Extend),
(0x1134b,0x1134d,Extend),
(0x11350,0x11350,LE),
(0x11357,0x11357,Extend),
(0x1135d,0x11361,LE),
(0x11362,0x11363,Extend),
(0x11366,0x1136c,Extend),
(0x11370,0x11374,Extend),
(0x11400,0x11434,LE),
(0x11435,0x11446,Extend),
(0x11447,0x1144a,LE),
(0x11450,0x11459,NU),
(0x11480,0x114af,LE),
(0x114b0,0x114c3,Extend),
(0x114c4,0x114c5,LE),
(0x114c7,0x114c7,LE),
(0x114d0,0x114d9,NU),
(0x11580,0x115ae,LE),
(0x115af,0x115b5,Extend),
(0x115b8,0x115c0,Extend),
(0x115d8,0x115db,LE),
(0x115dc,0x115dd,Extend),
(0x11600,0x1162f,LE),
(0x11630,0x11640,Extend),
(0x11644,0x11644,LE),
(0x11650,0x11659,NU),
(0x11680,0x116aa,LE),
(0x116ab,0x116b7,Extend),
(0x116c0,0x116c9,NU),
(0x1171d,0x1172b,Extend),
(0x11730,0x11739,NU),
(0x118a0,0x118df,LE),
(0x118e0,0x118e9,NU),
(0x118ff,0x118ff,LE),
(0x11a00,0x11a00,LE),
(0x11a01,0x11a0a,Extend),
(0x11a0b,0x11a32,LE),
(0x11a33,0x11a39,Extend),
(0x11a3a,0x11a3a,LE),
(0x11a3b,0x11a3e,Extend),
(0x11a47,0x11a47,Extend),
(0x11a50,0x11a50,LE),
(0x11a51,0x11a5b,Extend),
(0x11a5c,0x11a83,LE),
(0x11a86,0x11a89,LE),
(0x11a8a,0x11a99,Extend),
(0x11ac0,0x11af8,LE),
(0x11c00,0x11c08,LE),
(0x11c0a,0x11c2e,LE),
(0x11c2f,0x11c36,Extend),
(0x11c38,0x11c3f,Extend),
(0x11c40,0x11c40,LE),
(0x11c50,0x11c59,NU),
(0x11c72,0x11c8f,LE),
(0x11c92,0x11ca7,Extend),
(0x11ca9,0x11cb6,Extend),
(0x11d00,0x11d06,LE),
(0x11d08,0x11d09,LE),
(0x11d0b,0x11d30,LE),
(0x11d31,0x11d36,Extend),
(0x11d3a,0x11d3a,Extend),
(0x11d3c,0x11d3d,Extend),
(0x11d3f,0x11d45,Extend),
(0x11d46,0x11d46,LE),
(0x11d47,0x11d47,Extend),
(0x11d50,0x11d59,NU),
(0x12000,0x12399,LE),
(0x12400,0x1246e,LE),
(0x12480,0x12543,LE),
(0x13000,0x1342e,LE),
(0x14400,0x14646,LE),
(0x16800,0x16a38,LE),
(0x16a40,0x16a5e,LE),
(0x16a60,0x16a69,NU),
(0x16ad0,0x16aed,LE),
(0x16af0,0x16af4,Extend),
(0x16b00,0x16b2f,LE),
(0x16b30,0x16b36,Extend),
(0x16b40,0x16b43,LE),
(0x16b50,0x16b59,NU),
(0x16b63,0x16b77,LE),
(0x16b7d,0x16b8f,LE),
(0x16f00,0x16f44,LE),
(0x16f50,0x16f50,LE),
(0x16f51,0x16f7e,Extend),
(0x16f8f,0x16f92,Extend),
(0x16f93,0x16f9f,LE),
(0x16fe0,0x16fe1,LE),
(0x1b000,0x1b000,KA),
(0x1bc00,0x1bc6a,LE),
(0x1bc70,0x1bc7c,LE),
(0x1bc80,0x1bc88,LE),
(0x1bc90,0x1bc99,LE),
(0x1bc9d,0x1bc9e,Extend),
(0x1bca0,0x1bca3,FO),
(0x1d165,0x1d169,Extend),
(0x1d16d,0x1d172,Extend),
(0x1d173,0x1d17a,FO),
(0x1d17b,0x1d182,Extend),
(0x1d185,0x1d18b,Extend),
(0x1d1aa,0x1d1ad,Extend),
(0x1d242,0x1d244,Extend),
(0x1d400,0x1d454,LE),
(0x1d456,0x1d49c,LE),
(0x1d49e,0x1d49f,LE),
(0x1d4a2,0x1d4a2,LE),
(0x1d4a5,0x1d4a6,LE),
(0x1d4a9,0x1d4ac,LE),
(0x1d4ae,0x1d4b9,LE),
(0x1d4bb,0x1d4bb,LE),
(0x1d4bd,0x1d4c3,LE),
(0x1d4c5,0x1d505,LE),
(0x1d507,0x1d50a,LE),
(0x1d50d,0x1d514,LE),
(0x1d516,0x1d51c,LE),
(0x1d51e,0x1d539,LE),
(0x1d53b,0x1d53e,LE),
(0x1d540,0x1d544,LE),
(0x1d546,0x1d546,LE),
(0x1d54a,0x1d550,LE),
(0x1d552,0x1d6a5,LE),
(0x1d6a8,0x1d6c0,LE),
(0x1d6c2,0x1d6da,LE),
(0x1d6dc,0x1d6fa,LE),
(0x1d6fc,0x1d714,LE),
(0x1d716,0x1d734,LE),
(0x1d736,0x1d74e,LE),
(0x1d750,0x1d76e,LE),
(0x1d770,0x1d788,LE),
(0x1d78a,0x1d7a8,LE),
(0x1d7aa,0x1d7c2,LE),
(0x1d7c4,0x1d7cb,LE),
(0x1d7ce,0x1d7ff,NU),
(0x1da00,0x1da36,Extend),
(0x1da3b,0x1da6c,Extend),
(0x1da75,0x1da75,Extend),
(0x1da84,0x1da84,Extend),
(0x1da9b,0x1da9f,Extend),
(0x1daa1,0x1daaf,Extend),
(0x1e000,0x1e006,Extend),
(0x1e008,0x1e018,Extend),
(0x1e01b,0x1e021,Extend),
(0x1e023,0x1e024,Extend),
(0x1e026,0x1e02a,Extend),
(0x1e800,0x1e8c4,LE),
(0x1e8d0,0x1e8d6,Extend),
(0x1e900,0x1e943,LE),
(0x1e944,0x1e94a,Extend),
(0x1e950,0x1e959,NU),
(0x1ee00,0x1ee03,LE),
(0x1ee05,0x1ee1f,LE),
(0x1ee21,0x1ee22,LE),
(0x1ee24,0x1ee24,LE),
(0x1ee27,0x1ee27,LE),
(0x1ee29,0x1ee32,LE),
(0x1ee34,0x1ee37,LE),
(0x1ee39,0x1ee39,LE),
(0x1ee3b,0x1ee3b,LE),
(0x1ee42,0x1ee42,LE),
(0x1ee47,0x1ee47,LE),
(0x1ee49,0x1ee49,LE),
(0x1ee4b,0x1ee4b,LE),
(0x1ee4d,0x1ee4f,LE),
(0x1ee51,0x1ee52,LE),
(0x1ee54,0x1ee54,LE),
(0x1ee57,0x1ee57,LE),
(0x1ee59,0x1ee59,LE),
(0x1ee5b,0x1ee5b,LE),
(0x1ee5d,0x1ee5d,LE),
(0x1ee5f,0x1ee5f,LE),
(0x1ee61,0x1ee62,LE),
(0x1ee64,0x1ee64,LE),
(0x1ee67,0x1ee6a,LE),
(0x1ee6c,0x1ee72,LE),
(0x1ee74,0x1ee77,LE),
(0x1ee79,0x1ee7c,LE),
(0x1ee7e,0x1ee7e,LE),
(0x1ee80,0x1ee89,LE),
(0x1ee8b,0x1ee9b,LE),
(0x1eea1,0x1eea3,LE),
(0x1eea5,0x1eea9,LE),
(0x1eeab,0x1eebb,LE),
(0x1f130,0x1f149,LE),
(0x1f150,0x1f169,LE),
(0x1f170,0x1f189,LE),
(0x1f1e6,0x1f1ff,RI),
(0x1f308,0x1f308,GAZ),
(0x1f33e,0x1f33e,GAZ),
(0x1f373,0x1f373,GAZ),
(0x1f385,0x1f385,EB),
(0x1f393,0x1f393,GAZ),
(0x1f3a4,0x1f3a4,GAZ),
(0x1f3a8,0x1f3a8,GAZ),
(0x1f3c2,0x1f3c4,EB),
(0x1f3c7,0x1f3c7,EB),
(0x1f3ca,0x1f3cc,EB),
(0x1f3eb,0x1f3eb,GAZ),
(0x1f3ed,0x1f3ed,GAZ),
(0x1f3fb,0x1f3ff,EM),
(0x1f442,0x1f443,EB),
(0x1f446,0x1f450,EB),
(0x1f466,0x1f469,EBG),
(0x1f46e,0x1f46e,EB),
(0x1f470,0x1f478,EB),
(0x1f47c,0x1f47c,EB),
(0x1f481,0x1f483,EB),
(0x1f485,0x1f487,EB),
(0x1f48b,0x1f48b,GAZ),
(0x1f4aa,0x1f4aa,EB),
(0x1f4bb,0x1f4bc,GAZ),
(0x1f527,0x1f527,GAZ),
(0x1f52c,0x1f52c,GAZ),
(0x1f574,0x1f575,EB),
(0x1f57a,0x1f57a,EB),
(0x1f590,0x1f590,EB),
(0x1f595,0x1f596,EB),
(0x1f5e8,0x1f5e8,GAZ),
(0x1f645,0x1f647,EB),
(0x1f64b,0x1f64f,EB),
(0x1f680,0x1f680,GAZ),
(0x1f692,0x1f692,GAZ),
(0x1f6a3,0x1f6a3,EB),
(0x1f6b4,0x1f6b6,EB),
(0x1f6c0,0x1f6c0,EB),
(0x1f6cc,0x1f6cc,EB),
(0x1f918,0x1f91c,EB),
(0x1f91e,0x1f91f,EB),
(0x1f926,0x1f926,EB),
(0x1f930,0x1f939,EB),
(0x1f93d,0x1f93e,EB),
(0x1f9d1,0x1f9dd,EB),
(0xe0001,0xe0001,FO),
(0xe0020,0xe007f,Extend),
(0xe0100,0xe01ef,Extend),
];
