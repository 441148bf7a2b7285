// Frozen Unicode 10 data; see tools/freeze_idna.py
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bc { L, BN, S, B, WS, ON, ET, ES, CS, EN, NSM, R, AN, AL, LRE, RLE, PDF, LRO, RLO, LRI, RLI, FSI, PDI }
use Bc::*;
pub static TABLE: &[(u32, u32, Bc)] = &[
(0x0,0x8,BN),
(0x9,0x9,S),
(0xa,0xa,B),
(0xb,0xb,S),
(0xc,0xc,WS),
(0xd,0xd,B),
(0xe,0x1b,BN),
(0x1c,0x1e,B),
(0x1f,0x1f,S),
(0x20,0x20,WS),
(0x21,0x22,ON),
(0x23,0x25,ET),
(0x26,0x2a,ON),
(0x2b,0x2b,ES),
(0x2c,0x2c,CS),
(0x2d,0x2d,ES),
(0x2e,0x2f,CS),
(0x30,0x39,EN),
(0x3a,0x3a,CS),
(0x3b,0x40,ON),
(0x41,0x5a,L),
(0x5b,0x60,ON),
(0x61,0x7a,L),
(0x7b,0x7e,ON),
(0x7f,0x84,BN),
(0x85,0x85,B),
(0x86,0x9f,BN),
(0xa0,0xa0,CS),
(0xa1,0xa1,ON),
(0xa2,0xa5,ET),
(0xa6,0xa9,ON),
(0xaa,0xaa,L),
(0xab,0xac,ON),
(0xad,0xad,BN),
(0xae,0xaf,ON),
(0xb0,0xb1,ET),
(0xb2,0xb3,EN),
(0xb4,0xb4,ON),
(0xb5,0xb5,L),
(0xb6,0xb8,ON),
(0xb9,0xb9,EN),
(0xba,0xba,L),
(0xbb,0xbf,ON),
(0xc0,0xd6,L),
(0xd7,0xd7,ON),
(0xd8,0xf6,L),
(0xf7,0xf7,ON),
(0xf8,0x2b8,L),
(0x2b9,0x2ba,ON),
(0x2bb,0x2c1,L),
(0x2c2,0x2cf,ON),
(0x2d0,0x2d1,L),
(0x2d2,0x2df,ON),
(0x2e0,0x2e4,L),
(0x2e5,0x2ed,ON),
(0x2ee,0x2ee,L),
(0x2ef,0x2ff,ON),
(0x300,0x36f,NSM),
(0x370,0x373,L),
(0x374,0x375,ON),
(0x376,0x377,L),
(0x37a,0x37d,L),
(0x37e,0x37e,ON),
(0x37f,0x37f,L),
(0x384,0x385,ON),
(0x386,0x386,L),
(0x387,0x387,ON),
(0x388,0x38a,L),
(0x38c,0x38c,L),
(0x38e,0x3a1,L),
(0x3a3,0x3f5,L),
(0x3f6,0x3f6,ON),
(0x3f7,0x482,L),
(0x483,0x489,NSM),
(0x48a,0x52f,L),
(0x531,0x556,L),
(0x559,0x55f,L),
(0x561,0x587,L),
(0x589,0x589,L),
(0x58a,0x58a,ON),
(0x58d,0x58e,ON),
(0x58f,0x58f,ET),
(0x590,0x590,R),
(0x591,0x5bd,NSM),
(0x5be,0x5be,R),
(0x5bf,0x5bf,NSM),
(0x5c0,0x5c0,R),
(0x5c1,0x5c2,NSM),
(0x5c3,0x5c3,R),
(0x5c4,0x5c5,NSM),
(0x5c6,0x5c6,R),
(0x5c7,0x5c7,NSM),
(0x5c8,0x5ff,R),
(0x600,0x605,AN),
(0x606,0x607,ON),
(0x608,0x608,AL),
(0x609,0x60a,ET),
(0x60b,0x60b,AL),
(0x60c,0x60c,CS),
(0x60d,0x60d,AL),
(0x60e,0x60f,ON),
(0x610,0x61a,NSM),
(0x61b,0x64a,AL),
(0x64b,0x65f,NSM),
(0x660,0x669,AN),
(0x66a,0x66a,ET),
(0x66b,0x66c,AN),
(0x66d,0x66f,AL),
(0x670,0x670,NSM),
(0x671,0x6d5,AL),
(0x6d6,0x6dc,NSM),
(0x6dd,0x6dd,AN),
(0x6de,0x6de,ON),
(0x6df,0x6e4,NSM),
(0x6e5,0x6e6,AL),
(0x6e7,0x6e8,NSM),
(0x6e9,0x6e9,ON),
(0x6ea,0x6ed,NSM),
(0x6ee,0x6ef,AL),
(0x6f0,0x6f9,EN),
(0x6fa,0x710,AL),
(0x711,0x711,NSM),
(0x712,0x72f,AL),
(0x730,0x74a,NSM),
(0x74b,0x7a5,AL),
(0x7a6,0x7b0,NSM),
(0x7b1,0x7bf,AL),
(0x7c0,0x7ea,R),
(0x7eb,0x7f3,NSM),
(0x7f4,0x7f5,R),
(0x7f6,0x7f9,ON),
(0x7fa,0x815,R),
(0x816,0x819,NSM),
(0x81a,0x81a,R),
(0x81b,0x823,NSM),
(0x824,0x824,R),
(0x825,0x827,NSM),
(0x828,0x828,R),
(0x829,0x82d,NSM),
(0x82e,0x858,R),
(0x859,0x85b,NSM),
(0x85c,0x85f,R),
(0x860,0x86a,AL),
(0x86b,0x89f,R),
(0x8a0,0x8d3,AL),
(0x8d4,0x8e1,NSM),
(0x8e2,0x8e2,AN),
(0x8e3,0x902,NSM),
(0x903,0x939,L),
(0x93a,0x93a,NSM),
(0x93b,0x93b,L),
(0x93c,0x93c,NSM),
(0x93d,0x940,L),
(0x941,0x948,NSM),
(0x949,0x94c,L),
(0x94d,0x94d,NSM),
(0x94e,0x950,L),
(0x951,0x957,NSM),
(0x958,0x961,L),
(0x962,0x963,NSM),
(0x964,0x980,L),
(0x981,0x981,NSM),
(0x982,0x983,L),
(0x985,0x98c,L),
(0x98f,0x990,L),
(0x993,0x9a8,L),
(0x9aa,0x9b0,L),
(0x9b2,0x9b2,L),
(0x9b6,0x9b9,L),
(0x9bc,0x9bc,NSM),
(0x9bd,0x9c0,L),
(0x9c1,0x9c4,NSM),
(0x9c7,0x9c8,L),
(0x9cb,0x9cc,L),
(0x9cd,0x9cd,NSM),
(0x9ce,0x9ce,L),
(0x9d7,0x9d7,L),
(0x9dc,0x9dd,L),
(0x9df,0x9e1,L),
(0x9e2,0x9e3,NSM),
(0x9e6,0x9f1,L),
(0x9f2,0x9f3,ET),
(0x9f4,0x9fa,L),
(0x9fb,0x9fb,ET),
(0x9fc,0x9fd,L),
(0xa01,0xa02,NSM),
(0xa03,0xa03,L),
(0xa05,0xa0a,L),
(0xa0f,0xa10,L),
(0xa13,0xa28,L),
(0xa2a,0xa30,L),
(0xa32,0xa33,L),
(0xa35,0xa36,L),
(0xa38,0xa39,L),
(0xa3c,0xa3c,NSM),
(0xa3e,0xa40,L),
(0xa41,0xa42,NSM),
(0xa47,0xa48,NSM),
(0xa4b,0xa4d,NSM),
(0xa51,0xa51,NSM),
(0xa59,0xa5c,L),
(0xa5e,0xa5e,L),
(0xa66,0xa6f,L),
(0xa70,0xa71,NSM),
(0xa72,0xa74,L),
(0xa75,0xa75,NSM),
(0xa81,0xa82,NSM),
(0xa83,0xa83,L),
(0xa85,0xa8d,L),
(0xa8f,0xa91,L),
(0xa93,0xaa8,L),
(0xaaa,0xab0,L),
(0xab2,0xab3,L),
(0xab5,0xab9,L),
(0xabc,0xabc,NSM),
(0xabd,0xac0,L),
(0xac1,0xac5,NSM),
(0xac7,0xac8,NSM),
(0xac9,0xac9,L),
(0xacb,0xacc,L),
(0xacd,0xacd,NSM),
(0xad0,0xad0,L),
(0xae0,0xae1,L),
(0xae2,0xae3,NSM),
(0xae6,0xaf0,L),
(0xaf1,0xaf1,ET),
(0xaf9,0xaf9,L),
(0xafa,0xaff,NSM),
(0xb01,0xb01,NSM),
(0xb02,0xb03,L),
(0xb05,0xb0c,L),
(0xb0f,0xb10,L),
(0xb13,0xb28,L),
(0xb2a,0xb30,L),
(0xb32,0xb33,L),
(0xb35,0xb39,L),
(0xb3c,0xb3c,NSM),
(0xb3d,0xb3e,L),
(0xb3f,0xb3f,NSM),
(0xb40,0xb40,L),
(0xb41,0xb44,NSM),
(0xb47,0xb48,L),
(0xb4b,0xb4c,L),
(0xb4d,0xb4d,NSM),
(0xb56,0xb56,NSM),
(0xb57,0xb57,L),
(0xb5c,0xb5d,L),
(0xb5f,0xb61,L),
(0xb62,0xb63,NSM),
(0xb66,0xb77,L),
(0xb82,0xb82,NSM),
(0xb83,0xb83,L),
(0xb85,0xb8a,L),
(0xb8e,0xb90,L),
(0xb92,0xb95,L),
(0xb99,0xb9a,L),
(0xb9c,0xb9c,L),
(0xb9e,0xb9f,L),
(0xba3,0xba4,L),
(0xba8,0xbaa,L),
(0xbae,0xbb9,L),
(0xbbe,0xbbf,L),
(0xbc0,0xbc0,NSM),
(0xbc1,0xbc2,L),
(0xbc6,0xbc8,L),
(0xbca,0xbcc,L),
(0xbcd,0xbcd,NSM),
(0xbd0,0xbd0,L),
(0xbd7,0xbd7,L),
(0xbe6,0xbf2,L),
(0xbf3,0xbf8,ON),
(0xbf9,0xbf9,ET),
(0xbfa,0xbfa,ON),
(0xc00,0xc00,NSM),
(0xc01,0xc03,L),
(0xc05,0xc0c,L),
(0xc0e,0xc10,L),
(0xc12,0xc28,L),
(0xc2a,0xc39,L),
(0xc3d,0xc3d,L),
(0xc3e,0xc40,NSM),
(0xc41,0xc44,L),
(0xc46,0xc48,NSM),
(0xc4a,0xc4d,NSM),
(0xc55,0xc56,NSM),
(0xc58,0xc5a,L),
(0xc60,0xc61,L),
(0xc62,0xc63,NSM),
(0xc66,0xc6f,L),
(0xc78,0xc7e,ON),
(0xc7f,0xc80,L),
(0xc81,0xc81,NSM),
(0xc82,0xc83,L),
(0xc85,0xc8c,L),
(0xc8e,0xc90,L),
(0xc92,0xca8,L),
(0xcaa,0xcb3,L),
(0xcb5,0xcb9,L),
(0xcbc,0xcbc,NSM),
(0xcbd,0xcc4,L),
(0xcc6,0xcc8,L),
(0xcca,0xccb,L),
(0xccc,0xccd,NSM),
(0xcd5,0xcd6,L),
(0xcde,0xcde,L),
(0xce0,0xce1,L),
(0xce2,0xce3,NSM),
(0xce6,0xcef,L),
(0xcf1,0xcf2,L),
(0xd00,0xd01,NSM),
(0xd02,0xd03,L),
(0xd05,0xd0c,L),
(0xd0e,0xd10,L),
(0xd12,0xd3a,L),
(0xd3b,0xd3c,NSM),
(0xd3d,0xd40,L),
(0xd41,0xd44,NSM),
(0xd46,0xd48,L),
(0xd4a,0xd4c,L),
(0xd4d,0xd4d,NSM),
(0xd4e,0xd4f,L),
(0xd54,0xd61,L),
(0xd62,0xd63,NSM),
(0xd66,0xd7f,L),
(0xd82,0xd83,L),
(0xd85,0xd96,L),
(0xd9a,0xdb1,L),
(0xdb3,0xdbb,L),
(0xdbd,0xdbd,L),
(0xdc0,0xdc6,L),
(0xdca,0xdca,NSM),
(0xdcf,0xdd1,L),
(0xdd2,0xdd4,NSM),
(0xdd6,0xdd6,NSM),
(0xdd8,0xddf,L),
(0xde6,0xdef,L),
(0xdf2,0xdf4,L),
(0xe01,0xe30,L),
(0xe31,0xe31,NSM),
(0xe32,0xe33,L),
(0xe34,0xe3a,NSM),
(0xe3f,0xe3f,ET),
(0xe40,0xe46,L),
(0xe47,0xe4e,NSM),
(0xe4f,0xe5b,L),
(0xe81,0xe82,L),
(0xe84,0xe84,L),
(0xe87,0xe88,L),
(0xe8a,0xe8a,L),
(0xe8d,0xe8d,L),
(0xe94,0xe97,L),
(0xe99,0xe9f,L),
(0xea1,0xea3,L),
(0xea5,0xea5,L),
(0xea7,0xea7,L),
(0xeaa,0xeab,L),
(0xead,0xeb0,L),
(0xeb1,0xeb1,NSM),
(0xeb2,0xeb3,L),
(0xeb4,0xeb9,NSM),
(0xebb,0xebc,NSM),
(0xebd,0xebd,L),
(0xec0,0xec4,L),
(0xec6,0xec6,L),
(0xec8,0xecd,NSM),
(0xed0,0xed9,L),
(0xedc,0xedf,L),
(0xf00,0xf17,L),
(0xf18,0xf19,NSM),
(0xf1a,0xf34,L),
(0xf35,0xf35,NSM),
(0xf36,0xf36,L),
(0xf37,0xf37,NSM),
(0xf38,0xf38,L),
(0xf39,0xf39,NSM),
(0xf3a,0xf3d,ON),
(0xf3e,0xf47,L),
(0xf49,0xf6c,L),
(0xf71,0xf7e,NSM),
(0xf7f,0xf7f,L),
(0xf80,0xf84,NSM),
(0xf85,0xf85,L),
(0xf86,0xf87,NSM),
(0xf88,0xf8c,L),
(0xf8d,0xf97,NSM),
(0xf99,0xfbc,NSM),
(0xfbe,0xfc5,L),
(0xfc6,0xfc6,NSM),
(0xfc7,0xfcc,L),
(0xfce,0xfda,L),
(0x1000,0x102c,L),
(0x102d,0x1030,NSM),
(0x1031,0x1031,L),
(0x1032,0x1037,NSM),
(0x1038,0x1038,L),
(0x1039,0x103a,NSM),
(0x103b,0x103c,L),
(0x103d,0x103e,NSM),
(0x103f,0x1057,L),
(0x1058,0x1059,NSM),
(0x105a,0x105d,L),
(0x105e,0x1060,NSM),
(0x1061,0x1070,L),
(0x1071,0x1074,NSM),
(0x1075,0x1081,L),
(0x1082,0x1082,NSM),
(0x1083,0x1084,L),
(0x1085,0x1086,NSM),
(0x1087,0x108c,L),
(0x108d,0x108d,NSM),
(0x108e,0x109c,L),
(0x109d,0x109d,NSM),
(0x109e,0x10c5,L),
(0x10c7,0x10c7,L),
(0x10cd,0x10cd,L),
(0x10d0,0x1248,L),
(0x124a,0x124d,L),
(0x1250,0x1256,L),
(0x1258,0x1258,L),
(0x125a,0x125d,L),
(0x1260,0x1288,L),
(0x128a,0x128d,L),
(0x1290,0x12b0,L),
(0x12b2,0x12b5,L),
(0x12b8,0x12be,L),
(0x12c0,0x12c0,L),
(0x12c2,0x12c5,L),
(0x12c8,0x12d6,L),
(0x12d8,0x1310,L),
(0x1312,0x1315,L),
(0x1318,0x135a,L),
(0x135d,0x135f,NSM),
(0x1360,0x137c,L),
(0x1380,0x138f,L),
(0x1390,0x1399,ON),
(0x13a0,0x13f5,L),
(0x13f8,0x13fd,L),
(0x1400,0x1400,ON),
(0x1401,0x167f,L),
(0x1680,0x1680,WS),
(0x1681,0x169a,L),
(0x169b,0x169c,ON),
(0x16a0,0x16f8,L),
(0x1700,0x170c,L),
(0x170e,0x1711,L),
(0x1712,0x1714,NSM),
(0x1720,0x1731,L),
(0x1732,0x1734,NSM),
(0x1735,0x1736,L),
(0x1740,0x1751,L),
(0x1752,0x1753,NSM),
(0x1760,0x176c,L),
(0x176e,0x1770,L),
(0x1772,0x1773,NSM),
(0x1780,0x17b3,L),
(0x17b4,0x17b5,NSM),
(0x17b6,0x17b6,L),
(0x17b7,0x17bd,NSM),
(0x17be,0x17c5,L),
(0x17c6,0x17c6,NSM),
(0x17c7,0x17c8,L),
(0x17c9,0x17d3,NSM),
(0x17d4,0x17da,L),
(0x17db,0x17db,ET),
(0x17dc,0x17dc,L),
(0x17dd,0x17dd,NSM),
(0x17e0,0x17e9,L),
(0x17f0,0x17f9,ON),
(0x1800,0x180a,ON),
(0x180b,0x180d,NSM),
(0x180e,0x180e,BN),
(0x1810,0x1819,L),
(0x1820,0x1877,L),
(0x1880,0x1884,L),
(0x1885,0x1886,NSM),
(0x1887,0x18a8,L),
(0x18a9,0x18a9,NSM),
(0x18aa,0x18aa,L),
(0x18b0,0x18f5,L),
(0x1900,0x191e,L),
(0x1920,0x1922,NSM),
(0x1923,0x1926,L),
(0x1927,0x1928,NSM),
(0x1929,0x192b,L),
(0x1930,0x1931,L),
(0x1932,0x1932,NSM),
(0x1933,0x1938,L),
(0x1939,0x193b,NSM),
(0x1940,0x1940,ON),
(0x1944,0x1945,ON),
(0x1946,0x196d,L),
(0x1970,0x1974,L),
(0x1980,0x19ab,L),
(0x19b0,0x19c9,L),
(0x19d0,0x19da,L),
(0x19de,0x19ff,ON),
(0x1a00,0x1a16,L),
(0x1a17,0x1a18,NSM),
(0x1a19,0x1a1a,L),
(0x1a1b,0x1a1b,NSM),
(0x1a1e,0x1a55,L),
(0x1a56,0x1a56,NSM),
(0x1a57,0x1a57,L),
(0x1a58,0x1a5e,NSM),
(0x1a60,0x1a60,NSM),
(0x1a61,0x1a61,L),
(0x1a62,0x1a62,NSM),
(0x1a63,0x1a64,L),
(0x1a65,0x1a6c,NSM),
(0x1a6d,0x1a72,L),
(0x1a73,0x1a7c,NSM),
(0x1a7f,0x1a7f,NSM),
(0x1a80,0x1a89,L),
(0x1a90,0x1a99,L),
(0x1aa0,0x1aad,L),
(0x1ab0,0x1abe,NSM),
(0x1b00,0x1b03,NSM),
(0x1b04,0x1b33,L),
(0x1b34,0x1b34,NSM),
(0x1b35,0x1b35,L),
(0x1b36,0x1b3a,NSM),
(0x1b3b,0x1b3b,L),
(0x1b3c,0x1b3c,NSM),
(0x1b3d,0x1b41,L),
(0x1b42,0x1b42,NSM),
(0x1b43,0x1b4b,L),
(0x1b50,0x1b6a,L),
(0x1b6b,0x1b73,NSM),
(0x1b74,0x1b7c,L),
(0x1b80,0x1b81,NSM),
(0x1b82,0x1ba1,L),
(0x1ba2,0x1ba5,NSM),
(0x1ba6,0x1ba7,L),
(0x1ba8,0x1ba9,NSM),
(0x1baa,0x1baa,L),
(0x1bab,0x1bad,NSM),
(0x1bae,0x1be5,L),
(0x1be6,0x1be6,NSM),
(0x1be7,0x1be7,L),
(0x1be8,0x1be9,NSM),
(0x1bea,0x1bec,L),
(0x1bed,0x1bed,NSM),
(0x1bee,0x1bee,L),
(0x1bef,0x1bf1,NSM),
(0x1bf2,0x1bf3,L),
(0x1bfc,0x1c2b,L),
(0x1c2c,0x1c33,NSM),
(0x1c34,0x1c35,L),
(0x1c36,0x1c37,NSM),
(0x1c3b,0x1c49,L),
(0x1c4d,0x1c88,L),
(0x1cc0,0x1cc7,L),
(0x1cd0,0x1cd2,NSM),
(0x1cd3,0x1cd3,L),
(0x1cd4,0x1ce0,NSM),
(0x1ce1,0x1ce1,L),
(0x1ce2,0x1ce8,NSM),
(0x1ce9,0x1cec,L),
(0x1ced,0x1ced,NSM),
(0x1cee,0x1cf3,L),
(0x1cf4,0x1cf4,NSM),
(0x1cf5,0x1cf7,L),
(0x1cf8,0x1cf9,NSM),
(0x1d00,0x1dbf,L),
(0x1dc0,0x1df9,NSM),
(0x1dfb,0x1dff,NSM),
(0x1e00,0x1f15,L),
(0x1f18,0x1f1d,L),
(0x1f20,0x1f45,L),
(0x1f48,0x1f4d,L),
(0x1f50,0x1f57,L),
(0x1f59,0x1f59,L),
(0x1f5b,0x1f5b,L),
(0x1f5d,0x1f5d,L),
(0x1f5f,0x1f7d,L),
(0x1f80,0x1fb4,L),
(0x1fb6,0x1fbc,L),
(0x1fbd,0x1fbd,ON),
(0x1fbe,0x1fbe,L),
(0x1fbf,0x1fc1,ON),
(0x1fc2,0x1fc4,L),
(0x1fc6,0x1fcc,L),
(0x1fcd,0x1fcf,ON),
(0x1fd0,0x1fd3,L),
(0x1fd6,0x1fdb,L),
(0x1fdd,0x1fdf,ON),
(0x1fe0,0x1fec,L),
(0x1fed,0x1fef,ON),
(0x1ff2,0x1ff4,L),
(0x1ff6,0x1ffc,L),
(0x1ffd,0x1ffe,ON),
(0x2000,0x200a,WS),
(0x200b,0x200d,BN),
(0x200e,0x200e,L),
(0x200f,0x200f,R),
(0x2010,0x2027,ON),
(0x2028,0x2028,WS),
(0x2029,0x2029,B),
(0x202a,0x202a,LRE),
(0x202b,0x202b,RLE),
(0x202c,0x202c,PDF),
(0x202d,0x202d,LRO),
(0x202e,0x202e,RLO),
(0x202f,0x202f,CS),
(0x2030,0x2034,ET),
(0x2035,0x2043,ON),
(0x2044,0x2044,CS),
(0x2045,0x205e,ON),
(0x205f,0x205f,WS),
(0x2060,0x2064,BN),
(0x2066,0x2066,LRI),
(0x2067,0x2067,RLI),
(0x2068,0x2068,FSI),
(0x2069,0x2069,PDI),
(0x206a,0x206f,BN),
(0x2070,0x2070,EN),
(0x2071,0x2071,L),
(0x2074,0x2079,EN),
(0x207a,0x207b,ES),
(0x207c,0x207e,ON),
(0x207f,0x207f,L),
(0x2080,0x2089,EN),
(0x208a,0x208b,ES),
(0x208c,0x208e,ON),
(0x2090,0x209c,L),
(0x20a0,0x20cf,ET),
(0x20d0,0x20f0,NSM),
(0x2100,0x2101,ON),
(0x2102,0x2102,L),
(0x2103,0x2106,ON),
(0x2107,0x2107,L),
(0x2108,0x2109,ON),
(0x210a,0x2113,L),
(0x2114,0x2114,ON),
(0x2115,0x2115,L),
(0x2116,0x2118,ON),
(0x2119,0x211d,L),
(0x211e,0x2123,ON),
(0x2124,0x2124,L),
(0x2125,0x2125,ON),
(0x2126,0x2126,L),
(0x2127,0x2127,ON),
(0x2128,0x2128,L),
(0x2129,0x2129,ON),
(0x212a,0x212d,L),
(0x212e,0x212e,ET),
(0x212f,0x2139,L),
(0x213a,0x213b,ON),
(0x213c,0x213f,L),
(0x2140,0x2144,ON),
(0x2145,0x2149,L),
(0x214a,0x214d,ON),
(0x214e,0x214f,L),
(0x2150,0x215f,ON),
(0x2160,0x2188,L),
(0x2189,0x218b,ON),
(0x2190,0x2211,ON),
(0x2212,0x2212,ES),
(0x2213,0x2213,ET),
(0x2214,0x2335,ON),
(0x2336,0x237a,L),
(0x237b,0x2394,ON),
(0x2395,0x2395,L),
(0x2396,0x2426,ON),
(0x2440,0x244a,ON),
(0x2460,0x2487,ON),
(0x2488,0x249b,EN),
(0x249c,0x24e9,L),
(0x24ea,0x26ab,ON),
(0x26ac,0x26ac,L),
(0x26ad,0x27ff,ON),
(0x2800,0x28ff,L),
(0x2900,0x2b73,ON),
(0x2b76,0x2b95,ON),
(0x2b98,0x2bb9,ON),
(0x2bbd,0x2bc8,ON),
(0x2bca,0x2bd2,ON),
(0x2bec,0x2bef,ON),
(0x2c00,0x2c2e,L),
(0x2c30,0x2c5e,L),
(0x2c60,0x2ce4,L),
(0x2ce5,0x2cea,ON),
(0x2ceb,0x2cee,L),
(0x2cef,0x2cf1,NSM),
(0x2cf2,0x2cf3,L),
(0x2cf9,0x2cff,ON),
(0x2d00,0x2d25,L),
(0x2d27,0x2d27,L),
(0x2d2d,0x2d2d,L),
(0x2d30,0x2d67,L),
(0x2d6f,0x2d70,L),
(0x2d7f,0x2d7f,NSM),
(0x2d80,0x2d96,L),
(0x2da0,0x2da6,L),
(0x2da8,0x2dae,L),
(0x2db0,0x2db6,L),
(0x2db8,0x2dbe,L),
(0x2dc0,0x2dc6,L),
(0x2dc8,0x2dce,L),
(0x2dd0,0x2dd6,L),
(0x2dd8,0x2dde,L),
(0x2de0,0x2dff,NSM),
(0x2e00,0x2e49,ON),
(0x2e80,0x2e99,ON),
(0x2e9b,0x2ef3,ON),
(0x2f00,0x2fd5,ON),
(0x2ff0,0x2ffb,ON),
(0x3000,0x3000,WS),
(0x3001,0x3004,ON),
(0x3005,0x3007,L),
(0x3008,0x3020,ON),
(0x3021,0x3029,L),
(0x302a,0x302d,NSM),
(0x302e,0x302f,L),
(0x3030,0x3030,ON),
(0x3031,0x3035,L),
(0x3036,0x3037,ON),
(0x3038,0x303c,L),
(0x303d,0x303f,ON),
(0x3041,0x3096,L),
(0x3099,0x309a,NSM),
(0x309b,0x309c,ON),
(0x309d,0x309f,L),
(0x30a0,0x30a0,ON),
(0x30a1,0x30fa,L),
(0x30fb,0x30fb,ON),
(0x30fc,0x30ff,L),
(0x3105,0x312e,L),
(0x3131,0x318e,L),
(0x3190,0x31ba,L),
(0x31c0,0x31e3,ON),
(0x31f0,0x321c,L),
(0x321d,0x321e,ON),
(0x3220,0x324f,L),
(0x3250,0x325f,ON),
(0x3260,0x327b,L),
(0x327c,0x327e,ON),
(0x327f,0x32b0,L),
(0x32b1,0x32bf,ON),
(0x32c0,0x32cb,L),
(0x32cc,0x32cf,ON),
(0x32d0,0x32fe,L),
(0x3300,0x3376,L),
(0x3377,0x337a,ON),
(0x337b,0x33dd,L),
(0x33de,0x33df,ON),
(0x33e0,0x33fe,L),
(0x33ff,0x33ff,ON),
(0x3400,0x4db5,L),
(0x4dc0,0x4dff,ON),
(0x4e00,0x9fea,L),
(0xa000,0xa48c,L),
(0xa490,0xa4c6,ON),
(0xa4d0,0xa60c,L),
(0xa60d,0xa60f,ON),
(0xa610,0xa62b,L),
(0xa640,0xa66e,L),
(0xa66f,0xa672,NSM),
(0xa673,0xa673,ON),
(0xa674,0xa67d,NSM),
(0xa67e,0xa67f,ON),
(0xa680,0xa69d,L),
(0xa69e,0xa69f,NSM),
(0xa6a0,0xa6ef,L),
(0xa6f0,0xa6f1,NSM),
(0xa6f2,0xa6f7,L),
(0xa700,0xa721,ON),
(0xa722,0xa787,L),
(0xa788,0xa788,ON),
(0xa789,0xa7ae,L),
(0xa7b0,0xa7b7,L),
(0xa7f7,0xa801,L),
(0xa802,0xa802,NSM),
(0xa803,0xa805,L),
(0xa806,0xa806,NSM),
(0xa807,0xa80a,L),
(0xa80b,0xa80b,NSM),
(0xa80c,0xa824,L),
(0xa825,0xa826,NSM),
(0xa827,0xa827,L),
(0xa828,0xa82b,ON),
(0xa830,0xa837,L),
(0xa838,0xa839,ET),
(0xa840,0xa873,L),
(0xa874,0xa877,ON),
(0xa880,0xa8c3,L),
(0xa8c4,0xa8c5,NSM),
(0xa8ce,0xa8d9,L),
(0xa8e0,0xa8f1,NSM),
(0xa8f2,0xa8fd,L),
(0xa900,0xa925,L),
(0xa926,0xa92d,NSM),
(0xa92e,0xa946,L),
(0xa947,0xa951,NSM),
(0xa952,0xa953,L),
(0xa95f,0xa97c,L),
(0xa980,0xa982,NSM),
(0xa983,0xa9b2,L),
(0xa9b3,0xa9b3,NSM),
(0xa9b4,0xa9b5,L),
(0xa9b6,0xa9b9,NSM),
(0xa9ba,0xa9bb,L),
(0xa9bc,0xa9bc,NSM),
(0xa9bd,0xa9cd,L),
(0xa9cf,0xa9d9,L),
(0xa9de,0xa9e4,L),
(0xa9e5,0xa9e5,NSM),
(0xa9e6,0xa9fe,L),
(0xaa00,0xaa28,L),
(0xaa29,0xaa2e,NSM),
(0xaa2f,0xaa30,L),
(0xaa31,0xaa32,NSM),
(0xaa33,0xaa34,L),
(0xaa35,0xaa36,NSM),
(0xaa40,0xaa42,L),
(0xaa43,0xaa43,NSM),
(0xaa44,0xaa4b,L),
(0xaa4c,0xaa4c,NSM),
(0xaa4d,0xaa4d,L),
(0xaa50,0xaa59,L),
(0xaa5c,0xaa7b,L),
(0xaa7c,0xaa7c,NSM),
(0xaa7d,0xaaaf,L),
(0xaab0,0xaab0,NSM),
(0xaab1,0xaab1,L),
(0xaab2,0xaab4,NSM),
(0xaab5,0xaab6,L),
(0xaab7,0xaab8,NSM),
(0xaab9,0xaabd,L),
(0xaabe,0xaabf,NSM),
(0xaac0,0xaac0,L),
(0xaac1,0xaac1,NSM),
(0xaac2,0xaac2,L),
(0xaadb,0xaaeb,L),
(0xaaec,0xaaed,NSM),
(0xaaee,0xaaf5,L),
(0xaaf6,0xaaf6,NSM),
(0xab01,0xab06,L),
(0xab09,0xab0e,L),
(0xab11,0xab16,L),
(0xab20,0xab26,L),
(0xab28,0xab2e,L),
(0xab30,0xab65,L),
(0xab70,0xabe4,L),
(0xabe5,0xabe5,NSM),
(0xabe6,0xabe7,L),
(0xabe8,0xabe8,NSM),
(0xabe9,0xabec,L),
(0xabed,0xabed,NSM),
(0xabf0,0xabf9,L),
(0xac00,0xd7a3,L),
(0xd7b0,0xd7c6,L),
(0xd7cb,0xd7fb,L),
(0xe000,0xfa6d,L),
(0xfa70,0xfad9,L),
(0xfb00,0xfb06,L),
(0xfb13,0xfb17,L),
(0xfb1d,0xfb1d,R),
(0xfb1e,0xfb1e,NSM),
(0xfb1f,0xfb28,R),
(0xfb29,0xfb29,ES),
(0xfb2a,0xfb4f,R),
(0xfb50,0xfd3d,AL),
(0xfd3e,0xfd3f,ON),
(0xfd40,0xfdcf,AL),
(0xfdf0,0xfdfc,AL),
(0xfdfd,0xfdfd,ON),
(0xfdfe,0xfdff,AL),
(0xfe00,0xfe0f,NSM),
(0xfe10,0xfe19,ON),
(0xfe20,0xfe2f,NSM),
(0xfe30,0xfe4f,ON),
(0xfe50,0xfe50,CS),
(0xfe51,0xfe51,ON),
(0xfe52,0xfe52,CS),
(0xfe54,0xfe54,ON),
(0xfe55,0xfe55,CS),
(0xfe56,0xfe5e,ON),
(0xfe5f,0xfe5f,ET),
(0xfe60,0xfe61,ON),
(0xfe62,0xfe63,ES),
(0xfe64,0xfe66,ON),
(0xfe68,0xfe68,ON),
(0xfe69,0xfe6a,ET),
(0xfe6b,0xfe6b,ON),
(0xfe70,0xfefe,AL),
(0xfeff,0xfeff,BN),
(0xff01,0xff02,ON),
(0xff03,0xff05,ET),
(0xff06,0xff0a,ON),
(0xff0b,0xff0b,ES),
(0xff0c,0xff0c,CS),
(0xff0d,0xff0d,ES),
(0xff0e,0xff0f,CS),
(0xff10,0xff19,EN),
(0xff1a,0xff1a,CS),
(0xff1b,0xff20,ON),
(0xff21,0xff3a,L),
(0xff3b,0xff40,ON),
(0xff41,0xff5a,L),
(0xff5b,0xff65,ON),
(0xff66,0xffbe,L),
(0xffc2,0xffc7,L),
(0xffca,0xffcf,L),
(0xffd2,0xffd7,L),
(0xffda,0xffdc,L),
(0xffe0,0xffe1,ET),
(0xffe2,0xffe4,ON),
(0xffe5,0xffe6,ET),
(0xffe8,0xffee,ON),
(0xfff9,0xfffd,ON),
(0x10000,0x1000b,L),
(0x1000d,0x10026,L),
(0x10028,0x1003a,L),
(0x1003c,0x1003d,L),
(0x1003f,0x1004d,L),
(0x10050,0x1005d,L),
(0x10080,0x100fa,L),
(0x10100,0x10100,L),
(0x10101,0x10101,ON),
(0x10102,0x10102,L),
(0x10107,0x10133,L),
(0x10137,0x1013f,L),
(0x10140,0x1018c,ON),
(0x1018d,0x1018e,L),
(0x10190,0x1019b,ON),
(0x101a0,0x101a0,ON),
(0x101d0,0x101fc,L),
(0x101fd,0x101fd,NSM),
(0x10280,0x1029c,L),
(0x102a0,0x102d0,L),
(0x102e0,0x102e0,NSM),
(0x102e1,0x102fb,EN),
(0x10300,0x10323,L),
(0x1032d,0x1034a,L),
(0x10350,0x10375,L),
(0x10376,0x1037a,NSM),
(0x10380,0x1039d,L),
(0x1039f,0x103c3,L),
(0x103c8,0x103d5,L),
(0x10400,0x1049d,L),
(0x104a0,0x104a9,L),
(0x104b0,0x104d3,L),
(0x104d8,0x104fb,L),
(0x10500,0x10527,L),
(0x10530,0x10563,L),
(0x1056f,0x1056f,L),
(0x10600,0x10736,L),
(0x10740,0x10755,L),
(0x10760,0x10767,L),
(0x10800,0x1091e,R),
(0x1091f,0x1091f,ON),
(0x10920,0x10a00,R),
(0x10a01,0x10a03,NSM),
(0x10a04,0x10a04,R),
(0x10a05,0x10a06,NSM),
(0x10a07,0x10a0b,R),
(0x10a0c,0x10a0f,NSM),
(0x10a10,0x10a37,R),
(0x10a38,0x10a3a,NSM),
(0x10a3b,0x10a3e,R),
(0x10a3f,0x10a3f,NSM),
(0x10a40,0x10ae4,R),
(0x10ae5,0x10ae6,NSM),
(0x10ae7,0x10b38,R),
(0x10b39,0x10b3f,ON),
(0x10b40,0x10e5f,R),
(0x10e60,0x10e7e,AN),
(0x10e7f,0x10fff,R),
(0x11000,0x11000,L),
(0x11001,0x11001,NSM),
(0x11002,0x11037,L),
(0x11038,0x11046,NSM),
(0x11047,0x1104d,L),
(0x11052,0x11065,ON),
(0x11066,0x1106f,L),
(0x1107f,0x11081,NSM),
(0x11082,0x110b2,L),
(0x110b3,0x110b6,NSM),
(0x110b7,0x110b8,L),
(0x110b9,0x110ba,NSM),
(0x110bb,0x110c1,L),
(0x110d0,0x110e8,L),
(0x110f0,0x110f9,L),
(0x11100,0x11102,NSM),
(0x11103,0x11126,L),
(0x11127,0x1112b,NSM),
(0x1112c,0x1112c,L),
(0x1112d,0x11134,NSM),
(0x11136,0x11143,L),
(0x11150,0x11172,L),
(0x11173,0x11173,NSM),
(0x11174,0x11176,L),
(0x11180,0x11181,NSM),
(0x11182,0x111b5,L),
(0x111b6,0x111be,NSM),
(0x111bf,0x111c9,L),
(0x111ca,0x111cc,NSM),
(0x111cd,0x111cd,L),
(0x111d0,0x111df,L),
(0x111e1,0x111f4,L),
(0x11200,0x11211,L),
(0x11213,0x1122e,L),
(0x1122f,0x11231,NSM),
(0x11232,0x11233,L),
(0x11234,0x11234,NSM),
(0x11235,0x11235,L),
(0x11236,0x11237,NSM),
(0x11238,0x1123d,L),
(0x1123e,0x1123e,NSM),
(0x11280,0x11286,L),
(0x11288,0x11288,L),
(0x1128a,0x1128d,L),
(0x1128f,0x1129d,L),
(0x1129f,0x112a9,L),
(0x112b0,0x112de,L),
(0x112df,0x112df,NSM),
(0x112e0,0x112e2,L),
(0x112e3,0x112ea,NSM),
(0x112f0,0x112f9,L),
(0x11300,0x11301,NSM),
(0x11302,0x11303,L),
(0x11305,0x1130c,L),
(0x1130f,0x11310,L),
(0x11313,0x11328,L),
(0x1132a,0x11330,L),
(0x11332,0x11333,L),
(0x11335,0x11339,L),
(0x1133c,0x1133c,NSM),
(0x1133d,0x1133f,L),
(0x11340,0x11340,NSM),
(0x11341,0x11344,L),
(0x11347,0x11348,L),
(0x1134b,0x1134d,L),
(0x11350,0x11350,L),
(0x11357,0x11357,L),
(0x1135d,0x11363,L),
(0x11366,0x1136c,NSM),
(0x11370,0x11374,NSM),
(0x11400,0x11437,L),
(0x11438,0x1143f,NSM),
(0x11440,0x11441,L),
(0x11442,0x11444,NSM),
(0x11445,0x11445,L),
(0x11446,0x11446,NSM),
(0x11447,0x11459,L),
(0x1145b,0x1145b,L),
(0x1145d,0x1145d,L),
(0x11480,0x114b2,L),
(0x114b3,0x114b8,NSM),
(0x114b9,0x114b9,L),
(0x114ba,0x114ba,NSM),
(0x114bb,0x114be,L),
(0x114bf,0x114c0,NSM),
(0x114c1,0x114c1,L),
(0x114c2,0x114c3,NSM),
(0x114c4,0x114c7,L),
(0x114d0,0x114d9,L),
(0x11580,0x115b1,L),
(0x115b2,0x115b5,NSM),
(0x115b8,0x115bb,L),
(0x115bc,0x115bd,NSM),
(0x115be,0x115be,L),
(0x115bf,0x115c0,NSM),
(0x115c1,0x115db,L),
(0x115dc,0x115dd,NSM),
(0x11600,0x11632,L),
(0x11633,0x1163a,NSM),
(0x1163b,0x1163c,L),
(0x1163d,0x1163d,NSM),
(0x1163e,0x1163e,L),
(0x1163f,0x11640,NSM),
(0x11641,0x11644,L),
(0x11650,0x11659,L),
(0x11660,0x1166c,ON),
(0x11680,0x116aa,L),
(0x116ab,0x116ab,NSM),
(0x116ac,0x116ac,L),
(0x116ad,0x116ad,NSM),
(0x116ae,0x116af,L),
(0x116b0,0x116b5,NSM),
(0x116b6,0x116b6,L),
(0x116b7,0x116b7,NSM),
(0x116c0,0x116c9,L),
(0x11700,0x11719,L),
(0x1171d,0x1171f,NSM),
(0x11720,0x11721,L),
(0x11722,0x11725,NSM),
(0x11726,0x11726,L),
(0x11727,0x1172b,NSM),
(0x11730,0x1173f,L),
(0x118a0,0x118f2,L),
(0x118ff,0x118ff,L),
(0x11a00,0x11a00,L),
(0x11a01,0x11a06,NSM),
(0x11a07,0x11a08,L),
(0x11a09,0x11a0a,NSM),
(0x11a0b,0x11a32,L),
(0x11a33,0x11a38,NSM),
(0x11a39,0x11a3a,L),
(0x11a3b,0x11a3e,NSM),
(0x11a3f,0x11a46,L),
(0x11a47,0x11a47,NSM),
(0x11a50,0x11a50,L),
(0x11a51,0x11a56,NSM),
(0x11a57,0x11a58,L),
(0x11a59,0x11a5b,NSM),
(0x11a5c,0x11a83,L),
(0x11a86,0x11a89,L),
(0x11a8a,0x11a96,NSM),
(0x11a97,0x11a97,L),
(0x11a98,0x11a99,NSM),
(0x11a9a,0x11a9c,L),
(0x11a9e,0x11aa2,L),
(0x11ac0,0x11af8,L),
(0x11c00,0x11c08,L),
(0x11c0a,0x11c2f,L),
(0x11c30,0x11c36,NSM),
(0x11c38,0x11c3d,NSM),
(0x11c3e,0x11c45,L),
(0x11c50,0x11c6c,L),
(0x11c70,0x11c8f,L),
(0x11c92,0x11ca7,NSM),
(0x11ca9,0x11ca9,L),
(0x11caa,0x11cb0,NSM),
(0x11cb1,0x11cb1,L),
(0x11cb2,0x11cb3,NSM),
(0x11cb4,0x11cb4,L),
(0x11cb5,0x11cb6,NSM),
(0x11d00,0x11d06,L),
(0x11d08,0x11d09,L),
(0x11d0b,0x11d30,L),
(0x11d31,0x11d36,NSM),
(0x11d3a,0x11d3a,NSM),
(0x11d3c,0x11d3d,NSM),
(0x11d3f,0x11d45,NSM),
(0x11d46,0x11d46,L),
(0x11d47,0x11d47,NSM),
(0x11d50,0x11d59,L),
(0x12000,0x12399,L),
(0x12400,0x1246e,L),
(0x12470,0x12474,L),
(0x12480,0x12543,L),
(0x13000,0x1342e,L),
(0x14400,0x14646,L),
(0x16800,0x16a38,L),
(0x16a40,0x16a5e,L),
(0x16a60,0x16a69,L),
(0x16a6e,0x16a6f,L),
(0x16ad0,0x16aed,L),
(0x16af0,0x16af4,NSM),
(0x16af5,0x16af5,L),
(0x16b00,0x16b2f,L),
(0x16b30,0x16b36,NSM),
(0x16b37,0x16b45,L),
(0x16b50,0x16b59,L),
(0x16b5b,0x16b61,L),
(0x16b63,0x16b77,L),
(0x16b7d,0x16b8f,L),
(0x16f00,0x16f44,L),
(0x16f50,0x16f7e,L),
(0x16f8f,0x16f92,NSM),
(0x16f93,0x16f9f,L),
(0x16fe0,0x16fe1,L),
(0x17000,0x187ec,L),
(0x18800,0x18af2,L),
(0x1b000,0x1b11e,L),
(0x1b170,0x1b2fb,L),
(0x1bc00,0x1bc6a,L),
(0x1bc70,0x1bc7c,L),
(0x1bc80,0x1bc88,L),
(0x1bc90,0x1bc99,L),
(0x1bc9c,0x1bc9c,L),
(0x1bc9d,0x1bc9e,NSM),
(0x1bc9f,0x1bc9f,L),
(0x1bca0,0x1bca3,BN),
(0x1d000,0x1d0f5,L),
(0x1d100,0x1d126,L),
(0x1d129,0x1d166,L),
(0x1d167,0x1d169,NSM),
(0x1d16a,0x1d172,L),
(0x1d173,0x1d17a,BN),
(0x1d17b,0x1d182,NSM),
(0x1d183,0x1d184,L),
(0x1d185,0x1d18b,NSM),
(0x1d18c,0x1d1a9,L),
(0x1d1aa,0x1d1ad,NSM),
(0x1d1ae,0x1d1e8,L),
(0x1d200,0x1d241,ON),
(0x1d242,0x1d244,NSM),
(0x1d245,0x1d245,ON),
(0x1d300,0x1d356,ON),
(0x1d360,0x1d371,L),
(0x1d400,0x1d454,L),
(0x1d456,0x1d49c,L),
(0x1d49e,0x1d49f,L),
(0x1d4a2,0x1d4a2,L),
(0x1d4a5,0x1d4a6,L),
(0x1d4a9,0x1d4ac,L),
(0x1d4ae,0x1d4b9,L),
(0x1d4bb,0x1d4bb,L),
(0x1d4bd,0x1d4c3,L),
(0x1d4c5,0x1d505,L),
(0x1d507,0x1d50a,L),
(0x1d50d,0x1d514,L),
(0x1d516,0x1d51c,L),
(0x1d51e,0x1d539,L),
(0x1d53b,0x1d53e,L),
(0x1d540,0x1d544,L),
(0x1d546,0x1d546,L),
(0x1d54a,0x1d550,L),
(0x1d552,0x1d6a5,L),
(0x1d6a8,0x1d6da,L),
(0x1d6db,0x1d6db,ON),
(0x1d6dc,0x1d714,L),
(0x1d715,0x1d715,ON),
(0x1d716,0x1d74e,L),
(0x1d74f,0x1d74f,ON),
(0x1d750,0x1d788,L),
(0x1d789,0x1d789,ON),
(0x1d78a,0x1d7c2,L),
(0x1d7c3,0x1d7c3,ON),
(0x1d7c4,0x1d7cb,L),
(0x1d7ce,0x1d7ff,EN),
(0x1d800,0x1d9ff,L),
(0x1da00,0x1da36,NSM),
(0x1da37,0x1da3a,L),
(0x1da3b,0x1da6c,NSM),
(0x1da6d,0x1da74,L),
(0x1da75,0x1da75,NSM),
(0x1da76,0x1da83,L),
(0x1da84,0x1da84,NSM),
(0x1da85,0x1da8b,L),
(0x1da9b,0x1da9f,NSM),
(0x1daa1,0x1daaf,NSM),
(0x1e000,0x1e006,NSM),
(0x1e008,0x1e018,NSM),
(0x1e01b,0x1e021,NSM),
(0x1e023,0x1e024,NSM),
(0x1e026,0x1e02a,NSM),
(0x1e800,0x1e8cf,R),
(0x1e8d0,0x1e8d6,NSM),
(0x1e8d7,0x1e943,R),
(0x1e944,0x1e94a,NSM),
(0x1e94b,0x1edff,R),
(0x1ee00,0x1eeef,AL),
(0x1eef0,0x1eef1,ON),
(0x1eef2,0x1eeff,AL),
(0x1ef00,0x1efff,R),
(0x1f000,0x1f02b,ON),
(0x1f030,0x1f093,ON),
(0x1f0a0,0x1f0ae,ON),
(0x1f0b1,0x1f0bf,ON),
(0x1f0c1,0x1f0cf,ON),
(0x1f0d1,0x1f0f5,ON),
(0x1f100,0x1f10a,EN),
(0x1f10b,0x1f10c,ON),
(0x1f110,0x1f12e,L),
(0x1f130,0x1f169,L),
(0x1f16a,0x1f16b,ON),
(0x1f170,0x1f1ac,L),
(0x1f1e6,0x1f202,L),
(0x1f210,0x1f23b,L),
(0x1f240,0x1f248,L),
(0x1f250,0x1f251,L),
(0x1f260,0x1f265,ON),
(0x1f300,0x1f6d4,ON),
(0x1f6e0,0x1f6ec,ON),
(0x1f6f0,0x1f6f8,ON),
(0x1f700,0x1f773,ON),
(0x1f780,0x1f7d4,ON),
(0x1f800,0x1f80b,ON),
(0x1f810,0x1f847,ON),
(0x1f850,0x1f859,ON),
(0x1f860,0x1f887,ON),
(0x1f890,0x1f8ad,ON),
(0x1f900,0x1f90b,ON),
(0x1f910,0x1f93e,ON),
(0x1f940,0x1f94c,ON),
(0x1f950,0x1f96b,ON),
(0x1f980,0x1f997,ON),
(0x1f9c0,0x1f9c0,ON),
(0x1f9d0,0x1f9e6,ON),
(0x20000,0x2a6d6,L),
(0x2a700,0x2b734,L),
(0x2b740,0x2b81d,L),
(0x2b820,0x2cea1,L),
(0x2ceb0,0x2ebe0,L),
(0x2f800,0x2fa1d,L),
(0xe0001,0xe0001,BN),
(0xe0020,0xe007f,BN),
(0xe0100,0xe01ef,NSM),
(0xf0000,0xffffd,L),
(0x100000,0x10fffd,L),
];
