//! Names of Unicode 10: the algorithmic ones by their rules, the listed ones as frozen hashes (tools/freeze_names.py).
use std::collections::HashMap;
use std::sync::OnceLock;

static LISTED: &[u8] = include_bytes!("../data/names.bin");
const PREFIX: &[(&str, &[(u32, u32)])] = &[
    ("CJK UNIFIED IDEOGRAPH-", &[(0x3400, 0x4DB5), (0x4E00, 0x9FEA), (0x20000, 0x2A6D6), (0x2A700, 0x2B734), (0x2B740, 0x2B81D), (0x2B820, 0x2CEA1), (0x2CEB0, 0x2EBE0)]),
    ("CJK COMPATIBILITY IDEOGRAPH-", &[(0xF900, 0xFA6D), (0xFA70, 0xFAD9), (0x2F800, 0x2FA1D)]),
    ("TANGUT IDEOGRAPH-", &[(0x17000, 0x187EC)]),
    ("NUSHU CHARACTER-", &[(0x1B170, 0x1B2FB)]),
];
const INITIAL: [&str; 19] = ["G", "GG", "N", "D", "DD", "R", "M", "B", "BB", "S", "SS", "", "J", "JJ", "C", "K", "T", "P", "H"];
const VOWEL: [&str; 21] = ["A", "AE", "YA", "YAE", "EO", "E", "YEO", "YE", "O", "WA", "WAE", "OE", "YO", "U", "WEO", "WE", "WI", "YU", "EU", "YI", "I"];
const FINAL: [&str; 28] = ["", "G", "GG", "GS", "N", "NJ", "NH", "D", "L", "LG", "LM", "LB", "LS", "LT", "LP", "LH", "M", "B", "BS", "S", "SS", "NG", "J", "C", "K", "T", "P", "H"];

fn word(i: usize) -> u32 {
    u32::from_le_bytes([LISTED[i], LISTED[i + 1], LISTED[i + 2], LISTED[i + 3]])
}

/// Characters whose names are listed.
pub fn listed() -> &'static [u32] {
    static X: OnceLock<Vec<u32>> = OnceLock::new();
    X.get_or_init(|| (0..LISTED.len()).step_by(8).map(word).collect())
}

/// Ranges of characters whose names follow a rule.
pub fn ranges() -> impl Iterator<Item = (u32, u32)> {
    PREFIX.iter().flat_map(|p| p.1.iter().copied()).chain(Some((0xAC00, 0xD7A3)))
}

/// Is this the name of the character (or none that it has none)?
pub fn is_name(c: u32, name: Option<&str>) -> bool {
    if let Some(p) = PREFIX.iter().find(|p| p.1.iter().any(|r| r.0 <= c && c <= r.1)) {
        return name == Some(&format!("{}{:X}", p.0, c));
    }
    if (0xAC00..=0xD7A3).contains(&c) {
        let s = (c - 0xAC00) as usize;
        return name == Some(&format!("HANGUL SYLLABLE {}{}{}", INITIAL[s / 588], VOWEL[s / 28 % 21], FINAL[s % 28]));
    }
    static X: OnceLock<HashMap<u32, u32>> = OnceLock::new();
    let x = X.get_or_init(|| (0..LISTED.len()).step_by(8).map(|i| (word(i), word(i + 4))).collect());
    name.map(|n| n.bytes().fold(0x811c9dc5u32, |h, b| (h ^ b as u32).wrapping_mul(0x01000193))) == x.get(&c).copied()
}
