//! R04: nodes report property values to each other through a log; each node spells them in its own way.
//!
//! Simulated: the nodes and the log, which changes letter case, tears, damages, repeats and delays records.
//! Real: the property types, their names, lookup, printing and parsing.  Model: a frozen table of names; for three
//! properties a frozen table of values.

use crate::check;
use crate::core::*;
use crate::data::values::{BINARY, ENUMERATED};
use crate::scen::text::esc;
use std::fmt::Display;
use std::str::FromStr;
use unic::char::property::{BinaryCharProperty, EnumeratedCharProperty, PartialCharProperty};

/// What a value says of itself: abbreviated, long and human name, and printed.
type Said = [String; 4];

struct Kind {
    type_name: &'static str,
    names: fn() -> [&'static str; 3],
    parse: fn(&str) -> Option<Said>,
    of: fn(char) -> Option<Said>,
    all: fn() -> Vec<Said>,
    /// of a binary property: the shorthand question, the value as a number of truth, and converted
    truth: Option<fn(char) -> [bool; 3]>,
    binary: bool,
}

fn said_e<T: EnumeratedCharProperty + Display>(v: &T) -> Said {
    [v.abbr_name().into(), v.long_name().into(), v.human_name().into(), v.to_string()]
}
fn said_b<T: BinaryCharProperty + Display>(v: &T) -> Said {
    [v.abbr_name().into(), v.long_name().into(), v.human_name().into(), v.to_string()]
}

macro_rules! enumerated {
    ($n:expr, $t:ty) => {
        Kind {
            type_name: $n,
            names: || [<$t as unic::char::property::CharProperty>::prop_abbr_name(), <$t as unic::char::property::CharProperty>::prop_long_name(), <$t as unic::char::property::CharProperty>::prop_human_name()],
            parse: |s| <$t>::from_str(s).ok().map(|v| said_e(&v)),
            of: |c| <$t as PartialCharProperty>::of(c).map(|v| said_e(&v)),
            all: || <$t>::all_values().iter().map(said_e).collect(),
            truth: None,
            binary: false,
        }
    };
}
macro_rules! binary {
    ($n:expr, $t:ty, $is:path) => {
        Kind {
            type_name: $n,
            names: || [<$t as unic::char::property::CharProperty>::prop_abbr_name(), <$t as unic::char::property::CharProperty>::prop_long_name(), <$t as unic::char::property::CharProperty>::prop_human_name()],
            parse: |s| <$t>::from_str(s).ok().map(|v| said_b(&v)),
            of: |c| <$t as PartialCharProperty>::of(c).map(|v| said_b(&v)),
            all: || vec![],
            truth: Some(|c| [$is(c), <$t>::of(c).as_bool(), bool::from(<$t>::of(c))]),
            binary: true,
        }
    };
}

use unic::{emoji::char as em, ucd};
static KINDS: &[Kind] = &[
    enumerated!("BidiClass", ucd::BidiClass),
    enumerated!("GeneralCategory", ucd::GeneralCategory),
    enumerated!("DecompositionType", ucd::normal::DecompositionType),
    enumerated!("GraphemeClusterBreak", ucd::GraphemeClusterBreak),
    enumerated!("SentenceBreak", ucd::SentenceBreak),
    enumerated!("WordBreak", ucd::WordBreak),
    binary!("Emoji", em::Emoji, em::is_emoji),
    binary!("EmojiComponent", em::EmojiComponent, em::is_emoji_component),
    binary!("EmojiModifier", em::EmojiModifier, em::is_emoji_modifier),
    binary!("EmojiModifierBase", em::EmojiModifierBase, em::is_emoji_modifier_base),
    binary!("EmojiPresentation", em::EmojiPresentation, em::is_emoji_presentation),
    binary!("BidiControl", ucd::bidi::BidiControl, ucd::bidi::is_bidi_control),
    binary!("BidiMirrored", ucd::bidi::BidiMirrored, ucd::bidi::is_bidi_mirrored),
    binary!("CaseIgnorable", ucd::case::CaseIgnorable, ucd::case::is_case_ignorable),
    binary!("Cased", ucd::case::Cased, ucd::case::is_cased),
    binary!("ChangesWhenCasefolded", ucd::case::ChangesWhenCasefolded, ucd::case::changes_when_casefolded),
    binary!("ChangesWhenCasemapped", ucd::case::ChangesWhenCasemapped, ucd::case::changes_when_casemapped),
    binary!("ChangesWhenLowercased", ucd::case::ChangesWhenLowercased, ucd::case::changes_when_lowercased),
    binary!("ChangesWhenTitlecased", ucd::case::ChangesWhenTitlecased, ucd::case::changes_when_titlecased),
    binary!("ChangesWhenUppercased", ucd::case::ChangesWhenUppercased, ucd::case::changes_when_uppercased),
    binary!("Lowercase", ucd::case::Lowercase, ucd::case::is_lowercase),
    binary!("Uppercase", ucd::case::Uppercase, ucd::case::is_uppercase),
    binary!("Alphabetic", ucd::common::Alphabetic, ucd::common::is_alphabetic),
    binary!("Alphanumeric", ucd::common::alphanumeric::Alphanumeric, ucd::common::is_alphanumeric),
    binary!("Control", ucd::common::control::Control, ucd::common::is_control),
    binary!("Numeric", ucd::common::numeric::Numeric, ucd::common::is_numeric),
    binary!("WhiteSpace", ucd::common::WhiteSpace, ucd::common::is_white_space),
    binary!("IdStart", unic_ucd_ident::IdStart, unic_ucd_ident::is_id_start),
    binary!("IdContinue", unic_ucd_ident::IdContinue, unic_ucd_ident::is_id_continue),
    binary!("PatternSyntax", unic_ucd_ident::PatternSyntax, unic_ucd_ident::is_pattern_syntax),
    binary!("PatternWhitespace", unic_ucd_ident::PatternWhitespace, unic_ucd_ident::is_pattern_whitespace),
    binary!("XidStart", unic_ucd_ident::XidStart, unic_ucd_ident::is_xid_start),
    binary!("XidContinue", unic_ucd_ident::XidContinue, unic_ucd_ident::is_xid_continue),
];

/// The values of a kind in the frozen table, with what else they are read from.
struct Model {
    names: [&'static str; 3],
    values: Vec<([&'static str; 3], &'static [&'static str])>,
}

fn model(k: usize) -> &'static Model {
    static M: std::sync::OnceLock<Vec<Model>> = std::sync::OnceLock::new();
    &M.get_or_init(|| {
        KINDS
            .iter()
            .map(|k| {
                if k.binary {
                    let names = BINARY.iter().find(|b| b.0 == k.type_name).unwrap().1;
                    Model { names, values: vec![(["Y", "Yes", "Yes"], &["t", "true"]), (["N", "No", "No"], &["f", "false"])] }
                } else {
                    let e = ENUMERATED.iter().find(|b| b.0 == k.type_name).unwrap();
                    Model { names: e.1, values: e.2.iter().map(|v| (*v, &[][..])).collect() }
                }
            })
            .collect()
    })[k]
}

/// What is known of a character from the frozen values: general category and bidi class, abbreviated.
fn known(c: char) -> (&'static str, &'static str) {
    let of = |kind: usize| model(kind).values[value_of(kind, c).unwrap()].0[0];
    (of(1), of(0))
}

fn ltr(b: &str) -> bool {
    ["L", "LRE", "LRO", "LRI"].contains(&b)
}
fn rtl(b: &str) -> bool {
    ["R", "AL", "RLE", "RLO", "RLI"].contains(&b)
}
fn explicit(b: &str) -> bool {
    ["LRE", "LRO", "RLE", "RLO", "PDF", "LRI", "RLI", "FSI", "PDI"].contains(&b)
}

/// The questions that a character and its values answer.
fn questions(c: char) -> Res {
    use unic::char::basics::{is_noncharacter, is_private_use};
    use ucd::bidi::{BidiClassCategory as Cat, CharBidiClass};
    let (gc, bc) = known(c);
    let u = c as u32;
    let g = ucd::GeneralCategory::of(c);
    let b = ucd::BidiClass::of(c);
    let cat = if ["L", "R", "AL"].contains(&bc) { Cat::Strong } else if explicit(bc) { Cat::ExplicitFormatting } else if ["B", "S", "WS", "ON"].contains(&bc) { Cat::Neutral } else { Cat::Weak };
    let group = |x: &str| gc.starts_with(x);
    for (what, got, want) in [
        ("is_cased_letter", g.is_cased_letter(), ["Lu", "Ll", "Lt"].contains(&gc)),
        ("is_letter", g.is_letter(), group("L")),
        ("is_mark", g.is_mark(), group("M")),
        ("is_number", g.is_number(), group("N")),
        ("is_punctuation", g.is_punctuation(), group("P")),
        ("is_symbol", g.is_symbol(), group("S")),
        ("is_separator", g.is_separator(), group("Z")),
        ("is_other", g.is_other(), group("C")),
        ("is_combining_mark", ucd::normal::is_combining_mark(c), group("M")),
        ("is_private_use", is_private_use(c), gc == "Co"),
        ("is_noncharacter", is_noncharacter(c), u & 0xFFFE == 0xFFFE || (0xFDD0..=0xFDEF).contains(&u)),
        ("BidiClass::is_ltr", b.is_ltr(), ltr(bc)),
        ("BidiClass::is_rtl", b.is_rtl(), rtl(bc)),
        ("is_ltr", c.is_ltr(), ltr(bc)),
        ("is_rtl", c.is_rtl(), rtl(bc)),
        ("bidi_class", c.bidi_class() == b, true),
        ("category of its bidi class", b.category() == cat, true),
    ] {
        check!(got == want, "question", "{} of U+{:04X} ({} {}) says {}", what, u, gc, bc, got);
    }
    Ok(())
}

/// What a text has is what any of its pieces has.
fn summary(text: &str) -> Res {
    use ucd::bidi::StrBidiClass;
    let any = |f: fn(&str) -> bool| text.chars().any(|c| f(known(c).1));
    for (what, got, want) in [
        ("has_ltr", text.has_ltr(), any(ltr)),
        ("has_rtl", text.has_rtl(), any(rtl)),
        ("has_bidi_explicit", text.has_bidi_explicit(), any(explicit)),
    ] {
        check!(got == want, "summary", "{} of \"{}\" says {}", what, esc(text), got);
    }
    Ok(())
}

fn is(said: &Said, v: &[&'static str; 3]) -> bool {
    said[0] == v[0] && said[1] == v[1] && said[2] == v[2] && said[3] == v[2]
}

/// Which value a text stands for.
fn reads(m: &Model, s: &str) -> Option<usize> {
    let same = |a: &str| a.len() == s.len() && a.bytes().zip(s.bytes()).all(|(a, b)| a == b || a.is_ascii_alphabetic() && a ^ 32 == b);
    m.values.iter().position(|v| same(v.0[0]) || same(v.0[1]) || v.1.iter().any(|x| same(x)))
}

#[derive(Clone)]
struct Record {
    kind: usize,
    /// what was first reported, as long as nobody has damaged it
    value: Option<usize>,
    text: String,
}

fn character(run: &mut Run, kind: usize) -> char {
    let c = match run.src.below(6) {
        0 => run.src.below(0x110000) as u32,
        1 => run.src.below(0x3000) as u32,
        k => {
            // where a value begins or ends, or in between
            let (a, b) = entries(kind);
            let e = entry(run.src.range(a, b - 1));
            match k {
                2 => e.1 + run.src.below((e.2 - e.1 + 1) as usize) as u32,
                3 => e.1 - (e.1 > 0 && run.src.chance(1, 2)) as u32,
                _ => e.2 + run.src.below(2) as u32,
            }
        }
    };
    char::from_u32(c).unwrap_or('a')
}

pub fn reports(run: &mut Run) -> Res {
    let mut log: Vec<Record> = vec![];
    // each node spells in its own way: abbreviated, long, or whatever else is read
    let nodes: Vec<usize> = (0..run.src.range(1, 4)).map(|_| run.src.below(3)).collect();
    let write = |run: &mut Run, kind: usize, value: usize, habit: usize| -> String {
        let v = &model(kind).values[value];
        match habit {
            0 => v.0[0].to_string(),
            1 => v.0[1].to_string(),
            _ if !v.1.is_empty() => run.src.pick(v.1).to_string(),
            _ => v.0[run.src.below(2)].to_string(),
        }
    };
    // the characters reported since, which nodes summarise
    let mut text = String::new();
    for _ in 0..run.src.range(1, 40) {
        let node = run.src.below(nodes.len());
        let what = if log.is_empty() { 0 } else { run.src.weighted(&[4, 8, 3, 2, 2, 2, 1, 1]) };
        run.il(mix(node as u64, what as u64));
        let k = if log.is_empty() { 0 } else { run.src.below(log.len()) };
        match what {
            0 => {
                // a new report about a character, or of a value as such
                let kind = run.src.below(KINDS.len());
                let (kd, m) = (&KINDS[kind], model(kind));
                let names = (kd.names)();
                check!(names == m.names, "property-names", "{} is called {:?}, expected {:?}", kd.type_name, names, m.names);
                let value = if run.src.chance(1, 2) {
                    let c = character(run, kind);
                    let Some(v) = (kd.of)(c) else {
                        check!(value_of(kind, c).is_none(), "value", "{} of U+{:04X} is none", kd.type_name, c as u32);
                        continue;
                    };
                    let Some(i) = m.values.iter().position(|x| is(&v, &x.0)) else {
                        return fail("value", format!("{} of {:?} calls itself {:?}, which is no value of it", kd.type_name, c, v));
                    };
                    let w = value_of(kind, c);
                    questions(c)?;
                    if let Some(truth) = kd.truth {
                        let t = truth(c);
                        check!(t == [i == 0; 3], "question", "{} of U+{:04X} is {:?}, asked in three ways {:?}", kd.type_name, c as u32, v, t);
                    }
                    text.push(c);
                    check!(w == Some(i), "value", "{} of U+{:04X} is {:?}, expected {:?}", kd.type_name, c as u32, v, w.map(|w| m.values[w].0));
                    i
                } else {
                    if !kd.binary {
                        let all = (kd.all)();
                        check!(all.len() == m.values.len() && m.values.iter().all(|x| all.iter().any(|v| is(v, &x.0))), "all-values", "the values of {} are {:?}", kd.type_name, all);
                    }
                    run.src.below(m.values.len())
                };
                let spelt = write(run, kind, value, nodes[node]);
                run.note(|| format!("node {} reports {} {}", node, kd.type_name, spelt));
                run.ev("report", kind as u64, value as u64);
                log.push(Record { kind, value: Some(value), text: spelt });
            }
            1 => {
                // a node reads a record
                let r = log[k].clone();
                let m = model(r.kind);
                let got = (KINDS[r.kind].parse)(&r.text);
                let want = reads(m, &r.text);
                run.ev("read", k as u64, want.map_or(u64::MAX, |x| x as u64));
                run.state(mix(hash_str(&r.text), r.kind as u64));
                let shown = want.map(|i| m.values[i].0);
                check!(got.is_some() == want.is_some(), "read", "{} \"{}\" is read as {:?}, expected {:?}", KINDS[r.kind].type_name, esc(&r.text), got, shown);
                if let (Some(g), Some(w)) = (&got, shown) {
                    check!(is(g, &w), "read", "{} \"{}\" is read as {:?}, expected {:?}", KINDS[r.kind].type_name, esc(&r.text), g, w);
                }
                if let Some(v) = r.value {
                    check!(want == Some(v), "lost", "{} \"{}\" does not say {:?} any more", KINDS[r.kind].type_name, esc(&r.text), m.values[v].0);
                }
                // and passes it on in its own spelling
                if let (Some(i), true) = (want, run.src.chance(1, 2)) {
                    let text = write(run, r.kind, i, nodes[node]);
                    run.note(|| format!("node {} passes on \"{}\" as {}", node, esc(&r.text), text));
                    log.push(Record { text, ..r });
                }
            }
            2 => {
                let upper = run.src.below(3);
                let s: String = log[k].text.chars().map(|c| match upper {
                    0 => c.to_ascii_uppercase(),
                    1 => c.to_ascii_lowercase(),
                    _ => if run.src.chance(1, 2) { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() },
                }).collect();
                log[k].text = s;
                run.fault("letter case changed");
            }
            3 => {
                let n = log[k].text.chars().count();
                let cut = run.src.range(0, n);
                log[k].text = log[k].text.chars().take(cut).collect();
                log[k].value = None;
                run.fault("record torn");
            }
            4 => {
                let mut v: Vec<char> = log[k].text.chars().collect();
                let at = run.src.below(v.len() + 1);
                match run.src.below(4) {
                    // letters that look or fold alike
                    0 => v.iter_mut().for_each(|c| {
                        *c = match *c { 'k' | 'K' => '\u{212A}', 's' | 'S' => '\u{17F}', 'i' | 'I' => '\u{131}', 'a' => '\u{430}', c => c }
                    }),
                    1 if at < v.len() => {
                        let b = run.src.below(0x80) as u8;
                        v[at] = b as char;
                    }
                    2 if at < v.len() => v[at] = char::from_u32(v[at] as u32 ^ 1 << run.src.below(7)).unwrap_or('x'),
                    _ => v.insert(at, *run.src.pick(&[' ', '_', '-', '\0', '\u{FEFF}', '\n', 'e', 'E'])),
                }
                log[k].text = v.into_iter().collect();
                log[k].value = None;
                run.fault("record damaged");
            }
            5 => {
                let r = log[k].clone();
                log.push(r);
                run.fault("record repeated");
            }
            6 => {
                // read by a node that takes it for another property's, or by its human name
                let i = run.src.below(KINDS.len());
                if run.src.chance(1, 2) {
                    log[k].kind = i;
                } else if let Some(v) = log[k].value {
                    log[k].text = model(log[k].kind).values[v].0[2].to_string();
                }
                log[k].value = None;
                run.fault("record mistaken for another kind");
            }
            _ => {
                // the characters reported, as one text: all, from some point on, or another text begins
                run.note(|| format!("node {} summarises \"{}\"", node, esc(&text)));
                summary(&text)?;
                let from: Vec<usize> = text.char_indices().map(|(i, _)| i).chain(Some(text.len())).collect();
                summary(&text[*run.src.pick(&from)..])?;
                if run.src.chance(1, 2) {
                    text.clear();
                }
            }
        }
    }
    Ok(())
}

/// The frozen values of all characters: kind, first, last (three bytes each), value.
static VALUES: &[u8] = include_bytes!("../data/values.bin");

fn entry(i: usize) -> (usize, u32, u32, usize) {
    let b = &VALUES[8 * i..8 * i + 8];
    (b[0] as usize, u32::from_le_bytes([b[1], b[2], b[3], 0]), u32::from_le_bytes([b[4], b[5], b[6], 0]), b[7] as usize)
}

/// Where the entries of a kind begin and end.
fn entries(kind: usize) -> (usize, usize) {
    static X: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    X.get_or_init(|| {
        (0..KINDS.len())
            .map(|k| {
                let of = |i: &usize| entry(*i).0 == k;
                ((0..VALUES.len() / 8).find(of).unwrap(), (0..VALUES.len() / 8).rev().find(of).unwrap() + 1)
            })
            .collect()
    })[kind]
}

fn value_of(kind: usize, c: char) -> Option<usize> {
    let (mut lo, mut hi) = (0, VALUES.len() / 8);
    while lo < hi {
        let mid = (lo + hi) / 2;
        let e = entry(mid);
        if (e.0, e.2) < (kind, c as u32) {
            lo = mid + 1;
        } else {
            hi = mid;
        }
    }
    if 8 * lo == VALUES.len() {
        return None;
    }
    let e = entry(lo);
    if e.0 == kind && e.1 <= c as u32 { Some(e.3) } else { None }
}

/// Writes the values that the library gives (see tools/freeze_values.py).
pub fn freeze(path: &str) {
    let mut out = vec![];
    for (k, kind) in KINDS.iter().enumerate() {
        let m = model(k);
        let mut last: Option<(u32, u32, usize)> = None;
        let mut put = |e: (u32, u32, usize)| {
            out.push(k as u8);
            out.extend(&e.0.to_le_bytes()[..3]);
            out.extend(&e.1.to_le_bytes()[..3]);
            out.push(e.2 as u8);
        };
        for c in (0..0x110000).filter_map(char::from_u32) {
            let Some(v) = (kind.of)(c) else { continue };
            let v = m.values.iter().position(|x| is(&v, &x.0)).unwrap();
            match &mut last {
                Some(l) if l.2 == v && (l.1 + 1 == c as u32 || l.1 == 0xD7FF && c == '\u{E000}') => l.1 = c as u32,
                l => {
                    l.map(&mut put);
                    *l = Some((c as u32, c as u32, v));
                }
            }
        }
        last.map(&mut put);
    }
    std::fs::write(path, out).unwrap();
}
