//! Bidi classes from the frozen table, and the rules of UAX #9 up to the resolved levels.
use crate::data::bidi::{Bc, TABLE};
use std::sync::OnceLock;
use unic::bidi::BidiClass;

pub fn bc(c: u32) -> Bc {
    static X: OnceLock<Vec<Bc>> = OnceLock::new();
    X.get_or_init(|| {
        let mut v = vec![Bc::L; 0x110000];
        for e in TABLE {
            for c in e.0..=e.1 {
                v[c as usize] = e.2;
            }
        }
        v
    })[c as usize]
}

/// The same in the library's terms.
pub fn class(c: char) -> BidiClass {
    use unic::bidi::BidiClass::*;
    match bc(c as u32) {
        Bc::L => LeftToRight,
        Bc::BN => BoundaryNeutral,
        Bc::S => SegmentSeparator,
        Bc::B => ParagraphSeparator,
        Bc::WS => WhiteSpace,
        Bc::ON => OtherNeutral,
        Bc::ET => EuropeanTerminator,
        Bc::ES => EuropeanSeparator,
        Bc::CS => CommonSeparator,
        Bc::EN => EuropeanNumber,
        Bc::NSM => NonspacingMark,
        Bc::R => RightToLeft,
        Bc::AN => ArabicNumber,
        Bc::AL => ArabicLetter,
        Bc::LRE => LeftToRightEmbedding,
        Bc::RLE => RightToLeftEmbedding,
        Bc::PDF => PopDirectionalFormat,
        Bc::LRO => LeftToRightOverride,
        Bc::RLO => RightToLeftOverride,
        Bc::LRI => LeftToRightIsolate,
        Bc::RLI => RightToLeftIsolate,
        Bc::FSI => FirstStrongIsolate,
        Bc::PDI => PopDirectionalIsolate,
    }
}

/// Rules X1 to X8 for one paragraph: the embedding level of each character and the direction forced on it, if any.
/// Characters that rule X9 removes have none.  An FSI must have been resolved (X5c), else it stands for an LRI.
pub fn explicit(classes: &[Bc], base: u8) -> Vec<Option<(u8, Option<Bc>)>> {
    use Bc::*;
    const MAX: u8 = 125;
    struct Entry {
        level: u8,
        forced: Option<Bc>,
        isolate: bool,
    }
    let mut stack = vec![Entry { level: base, forced: None, isolate: false }];
    let (mut too_many_isolates, mut too_many_embeddings, mut isolates) = (0u32, 0u32, 0u32);
    let mut out = vec![];
    for c in classes {
        let top = stack.last().unwrap();
        let here = Some((top.level, top.forced));
        match *c {
            RLE | LRE | RLO | LRO => {
                let odd = matches!(*c, RLE | RLO);
                let next = top.level + if (top.level % 2 == 1) == odd { 2 } else { 1 };
                if next <= MAX && too_many_isolates == 0 && too_many_embeddings == 0 {
                    let forced = match *c {
                        RLO => Some(R),
                        LRO => Some(L),
                        _ => None,
                    };
                    stack.push(Entry { level: next, forced, isolate: false });
                } else if too_many_isolates == 0 {
                    too_many_embeddings += 1;
                }
                out.push(None);
            }
            RLI | LRI | FSI => {
                out.push(here);
                let next = top.level + if (top.level % 2 == 1) == (*c == RLI) { 2 } else { 1 };
                if next <= MAX && too_many_isolates == 0 && too_many_embeddings == 0 {
                    isolates += 1;
                    stack.push(Entry { level: next, forced: None, isolate: true });
                } else {
                    too_many_isolates += 1;
                }
            }
            PDI => {
                if too_many_isolates > 0 {
                    too_many_isolates -= 1;
                } else if isolates > 0 {
                    too_many_embeddings = 0;
                    while !stack.pop().unwrap().isolate {}
                    isolates -= 1;
                }
                let top = stack.last().unwrap();
                out.push(Some((top.level, top.forced)));
            }
            PDF => {
                if too_many_isolates > 0 {
                } else if too_many_embeddings > 0 {
                    too_many_embeddings -= 1;
                } else if !top.isolate && stack.len() > 1 {
                    stack.pop();
                }
                out.push(None);
            }
            BN => out.push(None),
            B => out.push(Some((base, None))),
            _ => out.push(here),
        }
    }
    out
}

/// Rules X9 to N2, I1 and I2 after `explicit`, except N0 (bracket pairs): the resolved level of each character that X9
/// leaves.  None also where the code is known to differ (`known`: kinds of known findings).
pub fn resolve(text: &[char], classes: &[Bc], base: u8, known: &[String]) -> Vec<Option<u8>> {
    use Bc::*;
    let known = |k: &str| known.iter().any(|x| x == k);
    let ex = explicit(classes, base);
    let kept: Vec<usize> = (0..classes.len()).filter(|&i| ex[i].is_some()).collect();
    let level = |i: usize| ex[i].unwrap().0;
    let mut class: Vec<Bc> = (0..classes.len()).map(|i| ex[i].and_then(|e| e.1).unwrap_or(classes[i])).collect();
    let opens = |i: usize| matches!(classes[i], LRI | RLI | FSI);
    // BD9: the end of each isolate
    let mut matching = vec![None; classes.len()];
    let mut open = vec![];
    for &i in &kept {
        if opens(i) {
            open.push(i);
        } else if classes[i] == PDI {
            if let Some(o) = open.pop() {
                matching[o] = Some(i);
                matching[i] = Some(o);
            }
        }
    }
    // BD13: isolating run sequences, each a list of characters
    let mut of = vec![usize::MAX; classes.len()];
    let mut seqs: Vec<Vec<usize>> = vec![];
    for (k, &i) in kept.iter().enumerate() {
        // a level run goes on; or a sequence goes on after an isolate, which is not there where isolates overflow
        let joined = if k > 0 && level(kept[k - 1]) == level(i) {
            Some(of[kept[k - 1]])
        } else if classes[i] == PDI && matching[i].is_some() {
            Some(of[matching[i].unwrap()])
        } else {
            None
        };
        let s = joined.unwrap_or_else(|| {
            seqs.push(vec![]);
            seqs.len() - 1
        });
        of[i] = s;
        seqs[s].push(i);
    }
    let neutral = |c: Bc| matches!(c, B | S | WS | ON | FSI | LRI | RLI | PDI);
    let side = |l: u8| if l % 2 == 1 { R } else { L };
    let mut out = vec![None; classes.len()];
    let removed = |i: usize| ex[i].is_none();
    let brackets = text.iter().filter(|&&c| crate::data::brackets::TABLE.iter().any(|r| r.0 <= c as u32 && c as u32 <= r.1)).count();
    if brackets > 1 {
        return out;
    }
    if known("removed-then-neutral") && (1..classes.len()).any(|i| removed(i) && opens(i - 1)) {
        return out;
    }
    for s in &seqs {
        let has = |c: Bc| s.iter().any(|&i| class[i] == c);
        if known("arabic-then-number") && has(AL) && (has(ES) || has(CS) || has(ET))
            || known("terminator-then-mark") && has(ET) && has(NSM)
            || known("terminator-then-separator") && has(ET) && (has(ES) || has(CS))
            || known("terminator-at-end") && class[*s.last().unwrap()] == ET
            || known("long-separator") && s.iter().any(|&i| matches!(class[i], ES | CS) && !text[i].is_ascii())
            || known("removed-then-neutral")
                && s.iter().any(|&i| {
                    let before = kept[..kept.iter().position(|&k| k == i).unwrap()].last();
                    (neutral(class[i]) || matches!(class[i], ES | CS | ET | NSM)) && i > 0 && removed(i - 1) && before.map_or(true, |&k| level(k) == level(i))
                })
        {
            continue;
        }
        let e = level(s[0]);
        let before = kept[..kept.iter().position(|&i| i == s[0]).unwrap()].last().map_or(base, |&i| level(i));
        let last = *s.last().unwrap();
        let after = if opens(last) {
            base
        } else {
            kept.get(kept.iter().position(|&i| i == last).unwrap() + 1).map_or(base, |&i| level(i))
        };
        let (sos, eos) = (side(e.max(before)), side(e.max(after)));
        // W1
        let mut prev = sos;
        for &i in s {
            if class[i] == NSM {
                class[i] = if matches!(prev, LRI | RLI | FSI | PDI) { ON } else { prev };
            }
            prev = class[i];
        }
        // W2
        let mut strong = sos;
        for &i in s {
            match class[i] {
                L | R | AL => strong = class[i],
                EN if strong == AL => class[i] = AN,
                _ => {}
            }
        }
        // W3
        for &i in s {
            if class[i] == AL {
                class[i] = R;
            }
        }
        // W4
        for w in s.windows(3) {
            let (a, b, c) = (class[w[0]], class[w[1]], class[w[2]]);
            if a == c && (a == EN && matches!(b, ES | CS) || a == AN && b == CS) {
                class[w[1]] = a;
            }
        }
        // W5
        let mut k = 0;
        while k < s.len() {
            let mut j = k;
            while j < s.len() && class[s[j]] == ET {
                j += 1;
            }
            if j > k && (k > 0 && class[s[k - 1]] == EN || j < s.len() && class[s[j]] == EN) {
                s[k..j].iter().for_each(|&i| class[i] = EN);
            }
            k = j + 1;
        }
        // W6
        for &i in s {
            if matches!(class[i], ET | ES | CS) {
                class[i] = ON;
            }
        }
        // W7
        let mut strong = sos;
        for &i in s {
            match class[i] {
                L | R => strong = class[i],
                EN if strong == L => class[i] = L,
                _ => {}
            }
        }
        // N1, N2
        let dir = |c: Bc| if c == L { L } else { R };
        let mut k = 0;
        while k < s.len() {
            let mut j = k;
            while j < s.len() && neutral(class[s[j]]) {
                j += 1;
            }
            if j > k {
                let a = if k > 0 { dir(class[s[k - 1]]) } else { sos };
                let b = if j < s.len() { dir(class[s[j]]) } else { eos };
                let c = if a == b { a } else { side(e) };
                s[k..j].iter().for_each(|&i| class[i] = c);
            }
            k = j + 1;
        }
        for &i in s {
            let odd = e % 2 == 1;
            out[i] = Some(match class[i] {
                L => e + odd as u8,
                R => e + 1 - odd as u8,
                _ => e + if odd { 1 } else { 2 },
            });
        }
    }
    out
}
