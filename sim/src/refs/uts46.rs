//! The other implementation of UTS #46 (Unicode 10) and RFC 3492 on the network, written from the standards.
//! Like the library it does not check hyphens in the third and fourth place nor joiners; an encoded label must not
//! encode another encoded label (as later versions of the standard say where those hyphens are not checked).
use crate::data::bidi::Bc;
use crate::data::idna::{Status, MARK, TABLE};
use crate::refs::bidi::bc;
use crate::refs::norm;
use std::collections::HashMap;
use std::sync::OnceLock;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Rules {
    pub std3: bool,
    pub transitional: bool,
    pub dns: bool,
}

pub fn status(c: u32) -> (Status, &'static [u32]) {
    static X: OnceLock<Vec<u16>> = OnceLock::new();
    let at = X.get_or_init(|| {
        let mut v = vec![0; 0x110000];
        for (k, e) in TABLE.iter().enumerate() {
            for c in e.0..=e.1 {
                v[c as usize] = k as u16;
            }
        }
        v
    })[c as usize];
    (TABLE[at as usize].2, TABLE[at as usize].3)
}

/// What is mapped to a single character, by that character.
pub fn equivalents(c: u32) -> &'static [u32] {
    static X: OnceLock<HashMap<u32, Vec<u32>>> = OnceLock::new();
    X.get_or_init(|| {
        let mut m: HashMap<u32, Vec<u32>> = HashMap::new();
        for e in TABLE {
            if e.2 == Status::Mapped && e.3.len() == 1 {
                m.entry(e.3[0]).or_default().extend(e.0..=e.1);
            }
        }
        m
    })
    .get(&c)
    .map_or(&[], |v| v)
}

pub fn is_mark(c: u32) -> bool {
    MARK.binary_search_by(|e| if e.1 < c { std::cmp::Ordering::Less } else if e.0 > c { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }).is_ok()
}

fn threshold(k: u64, bias: u64) -> u64 {
    if k <= bias + 1 {
        1
    } else if k >= bias + 26 {
        26
    } else {
        k - bias
    }
}

fn adapt(delta: u64, points: u64, first: bool) -> u64 {
    let mut d = if first { delta / 700 } else { delta / 2 };
    d += d / points;
    let mut k = 0;
    while d > 35 * 26 / 2 {
        d /= 35;
        k += 36;
    }
    k + 36 * d / (d + 38)
}

/// RFC 3492, 6.3
pub fn encode(s: &[u32]) -> String {
    let mut out: String = s.iter().filter(|c| **c < 0x80).map(|c| *c as u8 as char).collect();
    let basic = out.len() as u64;
    if basic > 0 {
        out.push('-');
    }
    let (mut done, mut bias, mut delta) = (basic, 72, 0u64);
    let mut larger: Vec<u32> = s.iter().copied().filter(|c| *c >= 0x80).collect();
    larger.sort();
    larger.dedup();
    let mut n = 0x80u64;
    for m in larger {
        delta += (m as u64 - n) * (done + 1);
        for &c in s {
            if c < m {
                delta += 1;
            } else if c == m {
                let mut q = delta;
                let mut k = 36;
                loop {
                    let t = threshold(k, bias);
                    let digit = if q < t { q } else { t + (q - t) % (36 - t) };
                    out.push(b"abcdefghijklmnopqrstuvwxyz0123456789"[digit as usize] as char);
                    if q < t {
                        break;
                    }
                    q = (q - t) / (36 - t);
                    k += 36;
                }
                bias = adapt(delta, done + 1, done == basic);
                delta = 0;
                done += 1;
            }
        }
        delta += 1;
        n = m as u64 + 1;
    }
    out
}

/// RFC 3492, 6.2; numbers are not limited
pub fn decode(s: &str) -> Option<Vec<u32>> {
    if !s.is_ascii() {
        return None;
    }
    let (basic, rest) = match s.rfind('-') {
        Some(p) if p > 0 => (&s[..p], &s[p + 1..]),
        _ => ("", s),
    };
    let mut out: Vec<u32> = basic.bytes().map(|b| b as u32).collect();
    let (mut n, mut i, mut bias) = (0x80u64, 0u64, 72);
    let mut digits = rest.bytes().peekable();
    while digits.peek().is_some() {
        let before = i;
        let (mut w, mut k) = (1u64, 36);
        loop {
            let d = match digits.next()? {
                b @ b'a'..=b'z' => b - b'a',
                b @ b'A'..=b'Z' => b - b'A',
                b @ b'0'..=b'9' => b - b'0' + 26,
                _ => return None,
            } as u64;
            i = i.checked_add(d.checked_mul(w)?)?;
            let t = threshold(k, bias);
            if d < t {
                break;
            }
            w = w.saturating_mul(36 - t);
            k += 36;
        }
        let len = out.len() as u64 + 1;
        bias = adapt(i - before, len, before == 0);
        n += i / len;
        i %= len;
        if n > 0x10ffff || (0xd800..0xe000).contains(&n) {
            return None;
        }
        out.insert(i as usize, n as u32);
        i += 1;
    }
    Some(out)
}

/// RFC 5893, 2
fn bidi_rule(label: &[u32]) -> bool {
    use Bc::*;
    let Some(first) = label.first() else { return true };
    let any = |x: Bc| label.iter().any(|c| bc(*c) == x);
    let only = |l: &[Bc]| label.iter().all(|c| l.contains(&bc(*c)));
    let last = label.iter().map(|c| bc(*c)).filter(|x| *x != NSM).last();
    match bc(*first) {
        L => only(&[L, EN, ES, CS, ET, ON, BN, NSM]) && matches!(last, Some(L | EN)),
        R | AL => only(&[R, AL, AN, EN, ES, CS, ET, ON, BN, NSM]) && matches!(last, Some(R | AL | EN | AN)) && !(any(EN) && any(AN)),
        _ => false,
    }
}

/// A name as processed.
struct Processed {
    labels: Vec<Vec<u32>>,
    ok: bool,
    /// the standard leaves open what is shown, or the library goes beyond it
    open: bool,
}

/// UTS #46, 4
fn process(name: &str, r: Rules) -> Processed {
    let (mut ok, mut open) = (true, false);
    let mut v: Vec<u32> = vec![];
    for c in name.chars().map(|c| c as u32) {
        let (s, to) = status(c);
        match s {
            Status::Valid => v.push(c),
            Status::Ignored => {}
            Status::Mapped => v.extend(to),
            Status::Deviation if r.transitional => v.extend(to),
            Status::Deviation => v.push(c),
            Status::DisallowedStd3Valid if !r.std3 => v.push(c),
            Status::DisallowedStd3Mapped if !r.std3 => v.extend(to),
            s => {
                open |= s == Status::DisallowedStd3Mapped;
                ok = false;
                v.push(c);
            }
        }
    }
    let v = norm::normalize(&v, norm::Form::Nfc);
    let mut labels = vec![];
    for l in v.split(|c| *c == '.' as u32) {
        let prefix: Vec<u32> = "xn--".chars().map(|c| c as u32).collect();
        let (label, encoded) = if l.starts_with(&prefix) {
            let s: String = l[4..].iter().map(|c| char::from_u32(*c).unwrap()).collect();
            let Some(d) = decode(&s) else {
                // stays as it is
                ok = false;
                labels.push(l.to_vec());
                continue;
            };
            ok &= !d.starts_with(&prefix);
            (d, true)
        } else {
            (l.to_vec(), false)
        };
        if let (Some(a), Some(z)) = (label.first(), label.last()) {
            let allowed = |c: u32| match status(c).0 {
                Status::Valid => true,
                Status::Deviation => encoded || !r.transitional,
                Status::DisallowedStd3Valid => !r.std3,
                _ => false,
            };
            ok &= *a != '-' as u32 && *z != '-' as u32 && !is_mark(*a) && label.iter().all(|c| allowed(*c)) && norm::normalize(&label, norm::Form::Nfc) == label;
        }
        labels.push(label);
    }
    if labels.iter().flatten().any(|c| matches!(bc(*c), Bc::R | Bc::AL | Bc::AN)) {
        ok &= labels.iter().all(|l| bidi_rule(l));
    }
    Processed { labels, ok, open }
}

pub fn to_ascii(name: &str, r: Rules) -> Option<String> {
    let p = process(name, r);
    if !p.ok {
        return None;
    }
    let l: Vec<String> = p
        .labels
        .iter()
        .map(|l| if l.iter().all(|c| *c < 0x80) { l.iter().map(|c| *c as u8 as char).collect() } else { format!("xn--{}", encode(l)) })
        .collect();
    let s = l.join(".");
    if r.dns {
        let d = s.strip_suffix('.').unwrap_or(&s);
        if d.is_empty() || d.len() > 253 || d.split('.').any(|l| l.is_empty() || l.len() > 63) {
            return None;
        }
    }
    Some(s)
}

/// What is shown, if that is settled, and whether the name is accepted.
pub fn shown(name: &str, r: Rules) -> (Option<String>, bool) {
    let p = process(name, Rules { transitional: false, ..r });
    let l: Vec<String> = p.labels.iter().map(|l| l.iter().map(|c| char::from_u32(*c).unwrap()).collect()).collect();
    (if p.open { None } else { Some(l.join(".")) }, p.ok)
}

pub fn to_unicode(name: &str, r: Rules) -> Option<String> {
    let (text, ok) = shown(name, r);
    text.filter(|_| ok)
}
