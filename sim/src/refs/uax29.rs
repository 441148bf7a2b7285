//! UAX #29, Unicode 10 (revision 31): whole-text reference segmentation, written from the rules.

use crate::data::gcb::{self, Gcb};
use crate::data::wb::{self, Wb};

fn lookup<T: Copy>(t: &[(u32, u32, T)], c: char) -> Option<T> {
    let c = c as u32;
    let i = t.partition_point(|e| e.1 < c);
    match t.get(i) {
        Some(e) if e.0 <= c => Some(e.2),
        _ => None,
    }
}

pub fn gcb_of(c: char) -> Gcb {
    lookup(gcb::TABLE, c).unwrap_or(Gcb::Other)
}

pub fn wb_of(c: char) -> Wb {
    lookup(wb::TABLE, c).unwrap_or(Wb::Other)
}

/// Is there a grapheme cluster boundary before position `i` of `cs` (0 <= i <= len)?
pub fn grapheme_boundary(cs: &[Gcb], i: usize, extended: bool) -> bool {
    use Gcb::*;
    if i == 0 || i == cs.len() {
        return true; // GB1, GB2
    }
    let (a, b) = (cs[i - 1], cs[i]);
    if a == CR && b == LF {
        return false; // GB3
    }
    if matches!(a, Control | CR | LF) || matches!(b, Control | CR | LF) {
        return true; // GB4, GB5
    }
    match (a, b) {
        (L, L) | (L, V) | (L, LV) | (L, LVT) => return false, // GB6
        (LV, V) | (LV, T) | (V, V) | (V, T) => return false,  // GB7
        (LVT, T) | (T, T) => return false,                    // GB8
        _ => {}
    }
    if matches!(b, Extend | ZWJ) {
        return false; // GB9
    }
    if extended && (b == SM || a == Prepend) {
        return false; // GB9a, GB9b
    }
    if b == EM {
        // GB10: (E_Base | EBG) Extend* x E_Modifier
        let mut j = i;
        while j > 0 && cs[j - 1] == Extend {
            j -= 1;
        }
        if j > 0 && matches!(cs[j - 1], EB | EBG) {
            return false;
        }
    }
    if a == ZWJ && matches!(b, GAZ | EBG) {
        return false; // GB11
    }
    if a == RI && b == RI {
        // GB12, GB13
        let n = cs[..i].iter().rev().take_while(|&&c| c == RI).count();
        return n % 2 == 0;
    }
    true // GB999
}

/// Byte offsets of all grapheme boundaries (including 0 and len; just {0} for the empty text).
pub fn grapheme_boundaries(s: &str, extended: bool) -> Vec<usize> {
    let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain(Some(s.len())).collect();
    let cs: Vec<Gcb> = s.chars().map(gcb_of).collect();
    (0..=cs.len()).filter(|&i| grapheme_boundary(&cs, i, extended)).map(|i| idx[i]).collect()
}

fn ignorable(c: Wb) -> bool {
    matches!(c, Wb::Extend | Wb::FO | Wb::ZWJ)
}

fn newline(c: Wb) -> bool {
    matches!(c, Wb::CR | Wb::LF | Wb::NL)
}

/// WB4: the character that position `i - 1` belongs to (index), skipping Extend/Format/ZWJ that follow
/// a base; ignorables at the start of text or after a newline stand for themselves.
fn base_before(cs: &[Wb], i: usize) -> Option<usize> {
    let mut j = i;
    while j > 0 {
        if !ignorable(cs[j - 1]) {
            if newline(cs[j - 1]) && j < i {
                return Some(j); // first ignorable after a newline
            }
            return Some(j - 1);
        }
        j -= 1;
    }
    if i > 0 {
        Some(0)
    } else {
        None
    }
}

fn base_after(cs: &[Wb], i: usize) -> Option<usize> {
    let mut j = i + 1;
    while j < cs.len() && ignorable(cs[j]) {
        j += 1;
    }
    if j < cs.len() {
        Some(j)
    } else {
        None
    }
}

pub fn word_boundary(cs: &[Wb], i: usize) -> bool {
    use Wb::*;
    if cs.is_empty() || i == 0 || i == cs.len() {
        return true; // WB1, WB2
    }
    let (l, r) = (cs[i - 1], cs[i]);
    if l == CR && r == LF {
        return false; // WB3
    }
    if newline(l) || newline(r) {
        return true; // WB3a, WB3b
    }
    if l == ZWJ && matches!(r, GAZ | EBG) {
        return false; // WB3c
    }
    if ignorable(r) {
        return false; // WB4
    }
    let ai = base_before(cs, i).unwrap();
    let a = cs[ai];
    let b = r;
    let a2 = if ai > 0 && !ignorable(a) { base_before(cs, ai).map(|k| cs[k]) } else { None };
    let b2 = base_after(cs, i).map(|k| cs[k]);
    let ahl = |c: Wb| matches!(c, LE | HL);
    let mnlq = |c: Wb| matches!(c, MB | SQ);
    if ahl(a) && ahl(b) {
        return false; // WB5
    }
    if ahl(a) && (b == ML || mnlq(b)) && b2.map_or(false, ahl) {
        return false; // WB6
    }
    if a2.map_or(false, ahl) && (a == ML || mnlq(a)) && ahl(b) {
        return false; // WB7
    }
    if a == HL && b == SQ {
        return false; // WB7a
    }
    if a == HL && b == DQ && b2 == Some(HL) {
        return false; // WB7b
    }
    if a2 == Some(HL) && a == DQ && b == HL {
        return false; // WB7c
    }
    if a == NU && b == NU {
        return false; // WB8
    }
    if ahl(a) && b == NU {
        return false; // WB9
    }
    if a == NU && ahl(b) {
        return false; // WB10
    }
    if a2 == Some(NU) && (a == MN || mnlq(a)) && b == NU {
        return false; // WB11
    }
    if a == NU && (b == MN || mnlq(b)) && b2 == Some(NU) {
        return false; // WB12
    }
    if a == KA && b == KA {
        return false; // WB13
    }
    if (ahl(a) || matches!(a, NU | KA | EX)) && b == EX {
        return false; // WB13a
    }
    if a == EX && (ahl(b) || matches!(b, NU | KA)) {
        return false; // WB13b
    }
    if matches!(a, EB | EBG) && b == EM {
        return false; // WB14
    }
    if a == RI && b == RI {
        // WB15, WB16: count RIs ending at `ai`, skipping ignorables
        let mut n = 0;
        let mut k = Some(ai);
        while let Some(x) = k {
            if cs[x] != RI {
                break;
            }
            n += 1;
            k = if x > 0 { base_before(cs, x) } else { None };
        }
        return n % 2 == 0;
    }
    true // WB999
}

pub fn word_boundaries(s: &str) -> Vec<usize> {
    let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain(Some(s.len())).collect();
    let cs: Vec<Wb> = s.chars().map(wb_of).collect();
    (0..=cs.len()).filter(|&i| word_boundary(&cs, i)).map(|i| idx[i]).collect()
}
