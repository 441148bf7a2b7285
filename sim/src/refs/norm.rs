//! UAX #15 reference normalization over whole texts.
use crate::data::norm as d;
use std::collections::HashMap;
use std::sync::OnceLock;

struct T {
    canon: HashMap<u32, &'static [u32]>,
    compat: HashMap<u32, &'static [u32]>,
    comp: HashMap<(u32, u32), u32>,
}
fn t() -> &'static T {
    static X: OnceLock<T> = OnceLock::new();
    X.get_or_init(|| T {
        canon: d::CANON.iter().copied().collect(),
        compat: d::COMPAT.iter().copied().collect(),
        comp: d::COMP.iter().map(|&(a, b, c)| ((a, b), c)).collect(),
    })
}

pub fn ccc(c: u32) -> u8 {
    static X: OnceLock<Vec<u8>> = OnceLock::new();
    X.get_or_init(|| {
        let mut v = vec![0; 0x110000];
        for e in d::CCC {
            for c in e.0..=e.1 {
                v[c as usize] = e.2;
            }
        }
        v
    })[c as usize]
}

fn dec1(c: u32, k: bool, out: &mut Vec<u32>) {
    if (0xAC00..=0xD7A3).contains(&c) {
        let s = c - 0xAC00;
        out.push(0x1100 + s / 588);
        out.push(0x1161 + s % 588 / 28);
        if s % 28 != 0 {
            out.push(0x11A7 + s % 28);
        }
        return;
    }
    if let Some(m) = t().canon.get(&c) {
        for &x in *m {
            dec1(x, k, out);
        }
        return;
    }
    if k {
        if let Some(m) = t().compat.get(&c) {
            for &x in *m {
                dec1(x, k, out);
            }
            return;
        }
    }
    out.push(c);
}

/// The full decomposition of one character, as it comes.
pub fn decompose1(c: u32, k: bool) -> Vec<u32> {
    let mut v = vec![];
    dec1(c, k, &mut v);
    v
}

/// May this character be the second of a composition?
pub fn composes_backward(c: u32) -> bool {
    static X: OnceLock<std::collections::HashSet<u32>> = OnceLock::new();
    X.get_or_init(|| d::COMP.iter().map(|e| e.1).chain(0x1161..0x1176).chain(0x11A8..0x11C3).collect()).contains(&c)
}

/// Full decomposition with canonical ordering.
pub fn decompose(s: &[u32], k: bool) -> Vec<u32> {
    let mut v = vec![];
    for &c in s {
        dec1(c, k, &mut v);
    }
    reorder(&mut v);
    v
}

fn reorder(v: &mut [u32]) {
    let mut i = 0;
    while i < v.len() {
        if ccc(v[i]) == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && ccc(v[j]) != 0 {
            j += 1;
        }
        v[i..j].sort_by_key(|&c| ccc(c)); // stable
        i = j;
    }
}

pub fn compose2(a: u32, b: u32) -> Option<u32> {
    if (0x1100..0x1113).contains(&a) && (0x1161..0x1176).contains(&b) {
        return Some(0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28);
    }
    if (0xAC00..=0xD7A3).contains(&a) && (a - 0xAC00) % 28 == 0 && (0x11A8..0x11C3).contains(&b) {
        return Some(a + (b - 0x11A7));
    }
    t().comp.get(&(a, b)).copied()
}

/// Canonical composition of a canonically ordered decomposed sequence; also returns the index in the
/// output of the last starter that composition could still change (None if there is none).
pub fn compose(v: &[u32]) -> (Vec<u32>, Option<usize>) {
    let mut out: Vec<u32> = vec![];
    let mut starter: Option<usize> = None;
    let mut last_ccc: i32 = -1; // ccc of the previous output character after the starter, -1 if none
    for &c in v {
        let cc = ccc(c);
        if let Some(s) = starter {
            // c is blocked from the starter iff something between has ccc 0 or ccc >= that of c
            let adjacent = out.len() - 1 == s;
            let blocked = !adjacent && (last_ccc == 0 || last_ccc >= cc as i32);
            if !blocked {
                if let Some(p) = compose2(out[s], c) {
                    out[s] = p;
                    continue;
                }
            }
        }
        out.push(c);
        if cc == 0 {
            starter = Some(out.len() - 1);
            last_ccc = -1;
        } else {
            last_ccc = cc as i32;
        }
    }
    (out, starter)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Nfd,
    Nfkd,
    Nfc,
    Nfkc,
}

pub fn normalize(s: &[u32], f: Form) -> Vec<u32> {
    match f {
        Form::Nfd => decompose(s, false),
        Form::Nfkd => decompose(s, true),
        Form::Nfc => compose(&decompose(s, false)).0,
        Form::Nfkc => compose(&decompose(s, true)).0,
    }
}

/// How many characters of the output are settled once exactly the characters `s` have been read and
/// more may follow: later characters cannot change them or insert before them.
pub fn settled(s: &[u32], f: Form) -> usize {
    let k = matches!(f, Form::Nfkd | Form::Nfkc);
    let d = decompose(s, k);
    // everything up to and including the last decomposed starter is in its final place
    let p = match d.iter().rposition(|&c| ccc(c) == 0) {
        None => return 0,
        Some(p) => p + 1,
    };
    match f {
        Form::Nfd | Form::Nfkd => p,
        _ => {
            let (out, st) = compose(&d[..p]);
            // the last starter may still compose with what follows
            match st {
                Some(x) => x,
                None => out.len(),
            }
        }
    }
}
