//! L03: an editor that keeps bidi information per paragraph and, after each edit, analyses only the paragraphs
//! the edit touched; what it then holds must be what analysing the whole text gives.
//!
//! The editor (simulated) inserts, deletes, replaces, moves, undoes, loses what it has computed and goes on.
//! The library (real) analyses texts.  Oracle: P1 of UAX #9 (each paragraph is analysed on its own), and
//! rules P2 and P3 for the paragraph level, written apart from the library.

use crate::check;
use crate::core::*;
use crate::refs::bidi::class;
use crate::scen::layout::text;
use crate::scen::text::*;
use std::ops::Range;
use unic::bidi::{BidiClass, BidiInfo, Level};

/// What the editor remembers of one paragraph.
#[derive(Clone, Debug, PartialEq)]
struct Para {
    text: String,
    level: u8,
    classes: Vec<BidiClass>,
    levels: Vec<u8>,
}

fn numbers(v: &[Level]) -> Vec<u8> {
    v.iter().map(|l| l.number()).collect()
}

/// P1: a paragraph ends after a paragraph separator.
pub fn paragraphs(t: &str) -> Vec<Range<usize>> {
    let mut v = vec![];
    let mut at = 0;
    for (i, c) in t.char_indices() {
        if class(c) == BidiClass::ParagraphSeparator {
            v.push(at..i + c.len_utf8());
            at = i + c.len_utf8();
        }
    }
    if at < t.len() {
        v.push(at..t.len());
    }
    v
}

/// P2 and P3: the first strong character that is in no isolate, and where every isolate initiator without a
/// partner runs to the end of the paragraph.
pub fn base_level(t: &str, given: Option<Level>) -> u8 {
    use unic::bidi::BidiClass::*;
    if let Some(l) = given {
        return l.number();
    }
    let mut depth = 0;
    for c in t.chars() {
        match class(c) {
            LeftToRightIsolate | RightToLeftIsolate | FirstStrongIsolate => depth += 1,
            PopDirectionalIsolate if depth > 0 => depth -= 1,
            LeftToRight if depth == 0 => return 0,
            RightToLeft | ArabicLetter if depth == 0 => return 1,
            _ => {}
        }
    }
    0
}

/// The classes of a paragraph's characters, where rule X5c says what an FSI stands for.
pub fn class_of(t: &str, at: usize, c: char) -> Vec<BidiClass> {
    use unic::bidi::BidiClass::*;
    let own = class(c);
    if own != FirstStrongIsolate {
        return vec![own];
    }
    let mut depth = 1;
    for d in t[at + c.len_utf8()..].chars() {
        match class(d) {
            LeftToRightIsolate | RightToLeftIsolate | FirstStrongIsolate => depth += 1,
            PopDirectionalIsolate if depth == 1 => break,
            PopDirectionalIsolate => depth -= 1,
            LeftToRight if depth == 1 => return vec![LeftToRightIsolate],
            RightToLeft | ArabicLetter if depth == 1 => return vec![RightToLeftIsolate],
            _ => {}
        }
    }
    vec![FirstStrongIsolate, LeftToRightIsolate]
}

fn analyse(t: &str, given: Option<Level>) -> Result<Para, Violation> {
    let b = BidiInfo::new(t, given);
    check!(b.paragraphs.len() == 1 && b.paragraphs[0].range == (0..t.len()), "paragraphs",
        "\"{}\" is one paragraph, reported as {:?}", esc(t), b.paragraphs);
    Ok(Para { text: t.into(), level: b.paragraphs[0].level.number(), levels: numbers(&b.levels), classes: b.original_classes })
}

fn boundary(run: &mut Run, t: &str) -> usize {
    let o = offsets(t);
    // often at a paragraph edge
    if run.src.chance(1, 4) {
        let p = paragraphs(t);
        if !p.is_empty() {
            let q = run.src.pick(&p).clone();
            return if run.src.chance(1, 2) { q.start } else { q.end };
        }
    }
    *run.src.pick(&o)
}

/// Replaces text[r] by s and analyses again only the paragraphs touched.
fn edit(doc: &mut Vec<Para>, r: Range<usize>, s: &str, given: Option<Level>) -> Result<usize, Violation> {
    // first paragraph that contains r.start or, at a paragraph's very end without separator, ends there
    let mut at = 0;
    let mut first = 0;
    while first < doc.len() && at + doc[first].text.len() <= r.start {
        // the last paragraph may be open: text put after it belongs to it
        let open = !doc[first].text.chars().last().map_or(true, |c| class(c) == BidiClass::ParagraphSeparator);
        if open && at + doc[first].text.len() == r.start {
            break;
        }
        at += doc[first].text.len();
        first += 1;
    }
    let begin = at;
    let mut old = String::new();
    let mut last = first;
    while last < doc.len() && begin + old.len() <= r.end {
        old.push_str(&doc[last].text);
        last += 1;
    }
    let mut new = old[..r.start - begin].to_string();
    new.push_str(s);
    new.push_str(&old[r.end - begin..]);
    let mut v = vec![];
    for p in paragraphs(&new) {
        v.push(analyse(&new[p], given)?);
    }
    let n = v.len();
    doc.splice(first..last, v);
    Ok(n)
}

fn compare(run: &mut Run, doc: &[Para], given: Option<Level>) -> Res {
    let whole: String = doc.iter().map(|p| p.text.as_str()).collect();
    let b = BidiInfo::new(&whole, given);
    let (paras, classes, levels) = (b.paragraphs, b.original_classes, numbers(&b.levels));
    run.state(hash_str(&whole));
    check!(paras.len() == doc.len(), "paragraphs", "\"{}\" has {} paragraphs, reported as {:?}", esc(&whole), doc.len(), paras);
    let mut at = 0;
    for (p, q) in doc.iter().zip(&paras) {
        let r = at..at + p.text.len();
        at = r.end;
        check!(q.range == r, "paragraphs", "\"{}\": paragraph {:?} is reported as {:?}", esc(&whole), r, q.range);
        let want = base_level(&p.text, given);
        check!(p.level == want, "paragraph-level", "paragraph \"{}\" alone, base level {:?}: level {}, P2 and P3 say {}", esc(&p.text), given, p.level, want);
        check!(q.level.number() == want, "paragraph-level", "\"{}\", paragraph {:?}, base level {:?}: level {}, P2 and P3 say {}", esc(&whole), r, given, q.level, want);
        check!(classes[r.clone()] == p.classes[..], "classes", "\"{}\", paragraph {:?}: classes {:?} within the text, {:?} alone", esc(&whole), r, &classes[r.clone()], p.classes);
        check!(levels[r.clone()] == p.levels[..], "levels", "\"{}\", paragraph {:?}, base level {:?}: levels {:?} within the text, {:?} alone",
            esc(&whole), r, given, &levels[r.clone()], p.levels);
        for (i, c) in p.text.char_indices() {
            let want = class_of(&p.text, i, c);
            let have = &p.classes[i..i + c.len_utf8()];
            check!(want.iter().any(|w| have.iter().all(|h| h == w)), "classes", "\"{}\": the bytes of the character at {} have the classes {:?}, not {:?}", esc(&p.text), i, have, want);
            let own = &p.levels[i..i + c.len_utf8()];
            check!(own.iter().all(|x| *x == own[0] && *x <= Level::max_implicit_depth()), "levels", "\"{}\": the bytes of the character at {} have levels {:?}", esc(&p.text), i, own);
        }
    }
    check!(classes.len() == whole.len() && levels.len() == whole.len(), "classes", "{} classes and {} levels for {} bytes", classes.len(), levels.len(), whole.len());
    Ok(())
}

pub fn editor(run: &mut Run) -> Res {
    let given = [None, None, Some(Level::ltr()), Some(Level::rtl())][run.src.below(4)];
    let mut doc: Vec<Para> = vec![];
    let mut history: Vec<Vec<Para>> = vec![];
    let first = text(run);
    run.note(|| format!("base level {:?}, first text \"{}\"", given, esc(&first)));
    run.il(hash_str(&first));
    edit(&mut doc, 0..0, &first, given)?;
    compare(run, &doc, given)?;
    for _ in 0..run.src.range(0, 10) {
        let whole: String = doc.iter().map(|p| p.text.as_str()).collect();
        match run.src.below(8) {
            6 if !history.is_empty() => {
                doc = history.pop().unwrap();
                run.fault("undo");
                run.ev("undo", history.len() as u64, 0);
            }
            7 => {
                // what was computed is lost; the text is there
                doc.clear();
                edit(&mut doc, 0..0, &whole, given)?;
                run.fault("recomputed");
                run.ev("recompute", whole.len() as u64, 0);
            }
            k => {
                let a = boundary(run, &whole);
                let b = if k < 3 { a } else { boundary(run, &whole) };
                let r = a.min(b)..a.max(b);
                let mut s = match run.src.below(4) {
                    0 => String::new(),
                    1 => text(run),
                    _ => text(run).chars().take(2).collect(),
                };
                if whole.len() > 400 {
                    s.clear();
                }
                run.note(|| format!("replace {:?} by \"{}\"", r, esc(&s)));
                run.ev("edit", r.start as u64, r.end as u64);
                run.il(mix(hash_str(&s), (r.start as u64) << 20 | r.end as u64));
                history.push(doc.clone());
                let n = edit(&mut doc, r, &s, given)?;
                if n > 1 {
                    run.probe("paragraph split");
                }
                if doc.len() < history.last().unwrap().len() {
                    run.probe("paragraphs joined");
                }
            }
        }
        compare(run, &doc, given)?;
    }
    Ok(())
}
