//! Workload generation: texts over a per-run subset of character classes.

use crate::core::Run;
use crate::data::gcb::{self, Gcb};
use crate::data::wb::{self, Wb};

/// A few fixed members of each class come first so that minimised runs are readable.
pub const GCB_FIRST: &[(Gcb, &str)] = &[
    (Gcb::Other, "ax1é☃𝒳漢"),
    (Gcb::RI, "\u{1F1E6}\u{1F1FA}\u{1F1F8}\u{1F1FF}"),
    (Gcb::Extend, "\u{300}\u{200C}\u{323}\u{FE0F}\u{1D165}\u{E0100}\u{9BE}"),
    (Gcb::Prepend, "\u{600}\u{110BD}\u{D4E}"),
    (Gcb::CR, "\r"),
    (Gcb::LF, "\n"),
    (Gcb::Control, "\u{1}\u{200B}\u{AD}\u{2028}\u{E0001}"),
    (Gcb::EM, "\u{1F3FB}\u{1F3FF}"),
    (Gcb::EB, "\u{270C}\u{1F385}\u{1F9D0}\u{261D}"),
    (Gcb::EBG, "\u{1F466}\u{1F469}"),
    (Gcb::GAZ, "\u{2764}\u{1F48B}\u{1F5E8}\u{2640}"),
    (Gcb::ZWJ, "\u{200D}"),
    (Gcb::SM, "\u{903}\u{E33}\u{11182}"),
    (Gcb::L, "\u{1100}\u{A960}"),
    (Gcb::V, "\u{1160}\u{D7B0}"),
    (Gcb::T, "\u{11A8}\u{D7CB}"),
    (Gcb::LV, "\u{AC00}\u{AC1C}"),
    (Gcb::LVT, "\u{AC01}\u{D7A3}"),
];

pub const WB_FIRST: &[(Wb, &str)] = &[
    (Wb::Other, " -☃\u{4E00}"),
    (Wb::LE, "aZé\u{1100}\u{10400}"),
    (Wb::HL, "\u{5D0}\u{FB1D}"),
    (Wb::SQ, "'"),
    (Wb::DQ, "\""),
    (Wb::MB, ".\u{2019}\u{FE52}"),
    (Wb::ML, ":\u{B7}\u{2027}"),
    (Wb::MN, ",;\u{37E}"),
    (Wb::NU, "19\u{660}\u{1D7CE}"),
    (Wb::KA, "\u{30A2}\u{3031}"),
    (Wb::EX, "_\u{203F}\u{202F}"),
    (Wb::Extend, "\u{300}\u{200C}\u{903}\u{E0100}"),
    (Wb::FO, "\u{AD}\u{2060}\u{E0001}"),
    (Wb::ZWJ, "\u{200D}"),
    (Wb::RI, "\u{1F1E6}\u{1F1FA}\u{1F1FF}"),
    (Wb::EB, "\u{270C}\u{1F385}\u{261D}"),
    (Wb::EM, "\u{1F3FB}\u{1F3FF}"),
    (Wb::EBG, "\u{1F466}\u{1F469}"),
    (Wb::GAZ, "\u{2764}\u{1F48B}\u{2640}"),
    (Wb::CR, "\r"),
    (Wb::LF, "\n"),
    (Wb::NL, "\u{B}\u{85}\u{2028}"),
];

fn member<T: Copy + PartialEq>(run: &mut Run, cls: T, first: &str, table: &[(u32, u32, T)], other: T) -> char {
    let cs: Vec<char> = first.chars().collect();
    let fixed = run.src.below(cs.len() + 2);
    if fixed < cs.len() {
        return cs[fixed];
    }
    // any member of the class
    if cls == other {
        loop {
            let c = *run.src.pick(&[0x20u32, 0x400, 0x3400, 0x4E00, 0x10000, 0x1D400, 0x20000, 0x10FFF0])
                + run.src.below(16) as u32;
            let i = table.partition_point(|e| e.1 < c);
            if !table.get(i).map_or(false, |e| e.0 <= c) {
                return char::from_u32(c).unwrap();
            }
            if run.src.rec.len() > 1_000_000 {
                return 'a';
            }
            if c == 0x20 {
                return ' ';
            }
        }
    }
    let rs: Vec<&(u32, u32, T)> = table.iter().filter(|e| e.2 == cls).collect();
    let r = rs[run.src.below(rs.len())];
    let span = (r.1 - r.0 + 1) as usize;
    // range ends are the interesting places
    let c = match run.src.below(3) {
        0 => r.0,
        1 => r.1,
        _ => r.0 + run.src.below(span) as u32,
    };
    char::from_u32(c).unwrap_or('a')
}

/// Classes of what begins, goes on and ends a long stretch (places in the lists above).
const GCB_ACROSS: &[(usize, usize, usize)] =
    &[(8, 2, 7), (9, 2, 7), (0, 2, 7), (9, 2, 11), (1, 1, 1), (0, 1, 1), (3, 3, 0), (3, 3, 6), (13, 13, 14), (14, 14, 15), (17, 15, 15), (11, 2, 9), (0, 12, 12)];
const WB_ACROSS: &[(usize, usize, usize)] =
    &[(1, 11, 6), (1, 12, 1), (8, 11, 7), (8, 12, 8), (2, 11, 4), (15, 11, 16), (17, 12, 16), (14, 11, 14), (14, 14, 14), (13, 12, 18), (9, 12, 9), (10, 11, 1), (1, 1, 5), (6, 11, 1), (5, 12, 8)];

fn gen<T: Copy + PartialEq>(
    run: &mut Run, firsts: &[(T, &str)], table: &[(u32, u32, T)], other: T, max: usize, across: &[(usize, usize, usize)],
) -> String {
    // swarm: this run's alphabet
    let n = run.src.range(1, 6.min(firsts.len()));
    let classes: Vec<usize> = (0..n).map(|_| run.src.below(firsts.len())).collect();
    let len = match run.src.below(8) {
        0..=5 => run.src.range(0, 8.min(max)),
        6 => run.src.range(0, 20.min(max)),
        _ => run.src.range(0, max),
    };
    let mut s = String::new();
    let mut i = 0;
    while i < len {
        let k = if run.src.chance(1, 12) { run.src.below(firsts.len()) } else { *run.src.pick(&classes) };
        let (cls, first) = firsts[k];
        let c = member(run, cls, first, table, other);
        // runs of one class matter (regional indicators, extenders)
        let rep = if run.src.chance(1, 6) {
            // seldom very long ones: counters wrap
            if max > 20 && run.src.chance(1, 256) { run.src.range(2, 600) } else { run.src.range(2, 6) }
        } else {
            1
        };
        for _ in 0..rep {
            s.push(c);
            i += 1;
        }
        // seldom something long between two that belong together across it: counts and limits
        if max > 20 && run.src.chance(1, 300) {
            let &(a, b, c) = run.src.pick(across);
            let n = *run.src.pick(&[7usize, 15, 30, 31, 60, 126, 254]) + run.src.below(6);
            for (k, n) in [(a, 1), (b, n), (c, 1)] {
                let (cls, first) = firsts[k];
                let ch = member(run, cls, first, table, other);
                for _ in 0..n {
                    s.push(ch);
                    i += 1;
                }
            }
            run.probe("long sandwich");
        }
        // very seldom a lot of text in between: offsets and lengths of chunks and pieces outgrow a byte, a page, 16 bits
        if max > 20 && run.src.chance(1, 8192) {
            s.push_str(&bulk(run));
        }
    }
    s
}

pub fn bulk(run: &mut Run) -> String {
    let n = *run.src.pick(&[255usize, 255, 255, 255, 1023, 1023, 1023, 4095, 4095, 32767, 65535]) + run.src.below(4);
    let c = *run.src.pick(&['a', ' ', 'a', 'é', '漢', '𝒳']);
    run.probe("bulk text");
    let n = if run.src.chance(1, 3) { n / c.len_utf8() } else { n };
    std::iter::repeat(c).take(n).collect()
}

pub fn grapheme_text(run: &mut Run, max: usize) -> String {
    gen(run, GCB_FIRST, gcb::TABLE, Gcb::Other, max, GCB_ACROSS)
}

pub fn word_text(run: &mut Run, max: usize) -> String {
    gen(run, WB_FIRST, wb::TABLE, Wb::Other, max, WB_ACROSS)
}

/// Byte offsets of the character boundaries.
pub fn offsets(s: &str) -> Vec<usize> {
    s.char_indices().map(|x| x.0).chain(Some(s.len())).collect()
}

pub fn esc(s: &str) -> String {
    s.chars().map(|c| if c.is_ascii_graphic() { c.to_string() } else { format!("\\u{{{:X}}}", c as u32) }).collect()
}
