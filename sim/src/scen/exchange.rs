//! N04: nodes re-encode copies of documents and hand them to each other.
//!
//! Simulated: the nodes with their habits (whole forms, piece by piece, character by character, pair by pair) and the
//! network that delivers equivalent spellings, tears and damages.  Real: normalization and the functions for characters
//! and Hangul syllables.  Model: what identifies a document is the reference's canonical (or compatibility) decomposition.

use crate::check;
use crate::core::*;
use crate::refs::norm::{self as r, Form};
use crate::scen::norm::norm_text;
use crate::scen::text::esc;
use unic::normal::StrNormalForm;
use unic::ucd::{hangul, normal};

struct Document {
    /// canonical and compatibility identity
    canon: Vec<u32>,
    compat: Vec<u32>,
}

#[derive(Clone)]
struct Copy {
    doc: usize,
    /// whether it has lost what only compatibility mappings lose
    folded: bool,
    text: Vec<char>,
}

fn u(v: &[char]) -> Vec<u32> {
    v.iter().map(|&c| c as u32).collect()
}
fn sh(v: &[char]) -> String {
    esc(&v.iter().collect::<String>())
}
fn document(v: &[char]) -> Document {
    Document { canon: r::decompose(&u(v), false), compat: r::decompose(&u(v), true) }
}
const FORMS: [Form; 4] = [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc];
fn folds(f: Form) -> bool {
    matches!(f, Form::Nfkd | Form::Nfkc)
}

/// The real normalization, of a text or of characters.
fn normalize(v: &[char], f: Form, text: bool) -> Vec<char> {
    let s: String = v.iter().collect();
    match (f, text) {
        (Form::Nfd, true) => s.nfd().collect(),
        (Form::Nfkd, true) => s.nfkd().collect(),
        (Form::Nfc, true) => s.nfc().collect(),
        (Form::Nfkc, true) => s.nfkc().collect(),
        (Form::Nfd, false) => v.iter().copied().nfd().collect(),
        (Form::Nfkd, false) => v.iter().copied().nfkd().collect(),
        (Form::Nfc, false) => v.iter().copied().nfc().collect(),
        (Form::Nfkc, false) => v.iter().copied().nfkc().collect(),
    }
}

/// Is nothing before this character changed by it, and it by nothing before?
fn boundary(c: char) -> bool {
    let d = r::decompose(&[c as u32], true);
    r::ccc(d[0]) == 0 && !r::composes_backward(d[0]) && r::ccc(r::decompose(&[c as u32], false)[0]) == 0 && !r::composes_backward(r::decompose(&[c as u32], false)[0])
}

pub fn exchange(run: &mut Run) -> Res {
    let mut docs: Vec<Document> = vec![];
    let mut copies: Vec<Copy> = vec![];
    for _ in 0..run.src.range(2, 24) {
        let what = if copies.is_empty() { 0 } else { run.src.weighted(&[2, 6, 4, 6, 6, 3, 4, 4, 1, 2, 2]) };
        run.il(what as u64);
        run.stats.steps += 1;
        if what == 0 {
            let text = norm_text(run, 24);
            run.note(|| format!("a new document \"{}\"", sh(&text)));
            run.ev("document", docs.len() as u64, text.len() as u64);
            docs.push(document(&text));
            copies.push(Copy { doc: docs.len() - 1, folded: false, text });
            continue;
        }
        // a node works on a copy and sends the result on
        let at = run.src.below(copies.len());
        let mut c = copies[at].clone();
        let n = c.text.len();
        match what {
            1 => {
                let f = *run.src.pick(&FORMS);
                let text = run.src.chance(1, 2);
                let got = normalize(&c.text, f, text);
                run.note(|| format!("copy {} \"{}\" in {:?}: \"{}\"", at, sh(&c.text), f, sh(&got)));
                let d = &docs[c.doc];
                // the same as of the document as it was first written
                let want = match (f, c.folded || folds(f)) {
                    (Form::Nfd | Form::Nfkd, k) => if k { d.compat.clone() } else { d.canon.clone() },
                    (_, k) => r::compose(if k { &d.compat } else { &d.canon }).0,
                };
                check!(u(&got) == want, "form", "{:?} of \"{}\" is \"{}\", but that of the same document was {:X?}", f, sh(&c.text), sh(&got), want);
                let again = normalize(&got, f, !text);
                check!(again == got, "idempotence", "{:?} of \"{}\" is \"{}\", and that of this \"{}\"", f, sh(&c.text), sh(&got), sh(&again));
                c.text = got;
                c.folded |= folds(f);
            }
            2 => {
                // piece by piece, each in its own form
                let mut out = vec![];
                let mut from = 0;
                let mut forms = vec![];
                for i in 1..=n {
                    if i == n || boundary(c.text[i]) && run.src.chance(1, 2) {
                        let f = *run.src.pick(&FORMS);
                        // compatibility forms would fold a part of the document
                        let f = match f { Form::Nfkd if !c.folded => Form::Nfd, Form::Nfkc if !c.folded => Form::Nfc, f => f };
                        out.extend(normalize(&c.text[from..i], f, run.src.chance(1, 2)));
                        forms.push(f);
                        from = i;
                    }
                }
                run.note(|| format!("copy {} \"{}\" in pieces {:?}: \"{}\"", at, sh(&c.text), forms, sh(&out)));
                if forms.iter().all(|f| *f == forms[0]) && n > 0 {
                    let whole = normalize(&c.text, forms[0], true);
                    check!(whole == out, "pieces", "{:?} of \"{}\" is \"{}\", of its pieces \"{}\"", forms[0], sh(&c.text), sh(&whole), sh(&out));
                }
                c.text = out;
            }
            3 => {
                // one character by its decomposition
                if n == 0 {
                    continue;
                }
                let i = run.src.below(n);
                let ch = c.text[i];
                let k = c.folded && run.src.chance(1, 2);
                let mut parts = vec![];
                if k { normal::decompose_compatible(ch, |x| parts.push(x)) } else { normal::decompose_canonical(ch, |x| parts.push(x)) }
                run.note(|| format!("copy {}: \"{}\" becomes \"{}\"", at, sh(&[ch]), sh(&parts)));
                let want = r::decompose1(ch as u32, k);
                check!(u(&parts) == want, "character", "the {} decomposition of \"{}\" is \"{}\", expected {:X?}", if k { "compatibility" } else { "canonical" }, sh(&[ch]), sh(&parts), want);
                c.text.splice(i..i + 1, parts);
            }
            4 => {
                // neighbours that compose
                let mut i = 0;
                let some = run.src.chance(1, 2);
                while i + 1 < c.text.len() {
                    let (a, b) = (c.text[i], c.text[i + 1]);
                    let got = normal::compose(a, b);
                    let want = r::compose2(a as u32, b as u32);
                    check!(got.map(|x| x as u32) == want, "pair", "\"{}\" and \"{}\" compose to {:X?}, expected {:X?}", sh(&[a]), sh(&[b]), got.map(|x| x as u32), want);
                    match got {
                        Some(x) if some || run.src.chance(1, 2) => {
                            run.note(|| format!("copy {}: \"{}\" becomes \"{}\"", at, sh(&[a, b]), sh(&[x])));
                            c.text.splice(i..i + 2, Some(x));
                        }
                        _ => i += 1,
                    }
                }
            }
            5 => {
                // what is a Hangul syllable by letters, and letters by syllables
                let mut out: Vec<char> = vec![];
                let apart = run.src.chance(1, 2);
                for &ch in &c.text {
                    let is = hangul::is_syllable(ch);
                    check!(is == (0xAC00..=0xD7A3).contains(&(ch as u32)), "syllable", "is_syllable of \"{}\" says {}", sh(&[ch]), is);
                    if apart {
                        let mut parts = vec![];
                        hangul::decompose_syllable(ch, &mut |x| parts.push(x));
                        let want = if is { r::decompose1(ch as u32, false) } else { vec![ch as u32] };
                        let got: Vec<u32> = parts.iter().map(|&x| x as u32).collect();
                        check!(got == want, "syllable", "the letters of \"{}\" are {:X?}, expected {:X?}", sh(&[ch]), got, want);
                        out.extend(parts);
                    } else {
                        let with = out.last().and_then(|&l| hangul::compose_syllable(l, ch));
                        let want = out.last().and_then(|&l| r::compose2(l as u32, ch as u32)).filter(|x| (0xAC00..=0xD7A3).contains(x));
                        check!(with.map(|x| x as u32) == want, "syllable", "\"{}\" and \"{}\" make {:X?}, expected {:X?}", sh(&out), sh(&[ch]), with.map(|x| x as u32), want);
                        match with {
                            Some(x) => *out.last_mut().unwrap() = x,
                            None => out.push(ch),
                        }
                    }
                }
                run.note(|| format!("copy {}: \"{}\" becomes \"{}\"", at, sh(&c.text), sh(&out)));
                c.text = out;
            }
            6 => {
                // the network delivers an equivalent spelling: marks of different classes in another order
                let mut swapped = false;
                for i in 1..n {
                    let (a, b) = (r::ccc(c.text[i - 1] as u32), r::ccc(c.text[i] as u32));
                    let whole = |x: char| r::decompose1(x as u32, false).len() == 1;
                    if a != 0 && b != 0 && a != b && whole(c.text[i - 1]) && whole(c.text[i]) && run.src.chance(1, 2) {
                        c.text.swap(i - 1, i);
                        swapped = true;
                    }
                }
                if !swapped {
                    continue;
                }
                run.fault("marks reordered");
                run.note(|| format!("copy {}: \"{}\" becomes \"{}\"", at, sh(&copies[at].text), sh(&c.text)));
            }
            7 => {
                // are two copies the same document?
                let other = copies[run.src.below(copies.len())].clone();
                let k = c.folded || other.folded;
                let f = if k { if run.src.chance(1, 2) { Form::Nfkd } else { Form::Nfkc } } else { *run.src.pick(&FORMS) };
                let got = normalize(&c.text, f, true) == normalize(&other.text, f, false);
                let (a, b) = (&docs[c.doc], &docs[other.doc]);
                let want = if folds(f) { a.compat == b.compat } else { a.canon == b.canon };
                run.note(|| format!("copy {} \"{}\" compared with \"{}\" in {:?}: {}", at, sh(&c.text), sh(&other.text), f, got));
                check!(got == want, "equivalence", "\"{}\" and \"{}\" compared in {:?}: {}, expected {}", sh(&c.text), sh(&other.text), f, got, want);
                continue;
            }
            8 => {
                // torn or damaged: another document from now on
                if n == 0 {
                    continue;
                }
                let i = run.src.below(n);
                if run.src.chance(1, 2) {
                    c.text.truncate(i);
                    run.fault("copy torn");
                } else {
                    c.text[i] = char::from_u32(c.text[i] as u32 ^ 1 << run.src.below(16)).unwrap_or('?');
                    run.fault("copy damaged");
                }
                run.note(|| format!("copy {} is now \"{}\"", at, sh(&c.text)));
                docs.push(document(&c.text));
                c.doc = docs.len() - 1;
                c.folded = false;
            }
            9 => {
                // two copies joined
                let other = copies[run.src.below(copies.len())].clone();
                if c.folded != other.folded || n + other.text.len() > 120 {
                    continue;
                }
                c.text.extend(&other.text);
                run.note(|| format!("copy {} joined with \"{}\"", at, sh(&other.text)));
                let (a, b) = (&docs[c.doc], &docs[other.doc]);
                let join = |a: &[u32], b: &[u32], k: bool| r::decompose(&[a, b].concat(), k);
                let d = Document { canon: if c.folded { vec![] } else { join(&a.canon, &b.canon, false) }, compat: join(&a.compat, &b.compat, true) };
                docs.push(d);
                c.doc = docs.len() - 1;
            }
            _ => {
                run.fault("copy repeated");
            }
        }
        run.ev("copy", what as u64, c.text.len() as u64);
        run.state(c.text.iter().fold(what as u64, |h, &x| mix(h, x as u64)));
        if copies.len() < 6 {
            copies.push(c);
        } else {
            let i = run.src.below(copies.len());
            copies[i] = c;
        }
    }
    Ok(())
}
