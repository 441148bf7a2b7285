// Characters of the general categories Ps and Pe (Python's unicodedata): all that can be bidi paired brackets, and more
pub static TABLE: &[(u32, u32)] = &[
(0x28,0x29),
(0x5b,0x5b),
(0x5d,0x5d),
(0x7b,0x7b),
(0x7d,0x7d),
(0xf3a,0xf3d),
(0x169b,0x169c),
(0x201a,0x201a),
(0x201e,0x201e),
(0x2045,0x2046),
(0x207d,0x207e),
(0x208d,0x208e),
(0x2308,0x230b),
(0x2329,0x232a),
(0x2768,0x2775),
(0x27c5,0x27c6),
(0x27e6,0x27ef),
(0x2983,0x2998),
(0x29d8,0x29db),
(0x29fc,0x29fd),
(0x2e22,0x2e29),
(0x2e42,0x2e42),
(0x2e55,0x2e5c),
(0x3008,0x3011),
(0x3014,0x301b),
(0x301d,0x301f),
(0xfd3e,0xfd3f),
(0xfe17,0xfe18),
(0xfe35,0xfe44),
(0xfe47,0xfe48),
(0xfe59,0xfe5e),
(0xff08,0xff09),
(0xff3b,0xff3b),
(0xff3d,0xff3d),
(0xff5b,0xff5b),
(0xff5d,0xff5d),
(0xff5f,0xff60),
(0xff62,0xff63),
];
