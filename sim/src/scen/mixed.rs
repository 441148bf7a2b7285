//! I01: many operations in progress at once, interleaved step by step, re-entered from callbacks,
//! abandoned and failing in callbacks.  Each must give what it gives alone.

use crate::check;
use crate::core::*;
use crate::refs::uax29;
use crate::scen::norm::norm_text;
use crate::scen::text::*;
use std::cell::Cell;
use std::fmt::{self, Write as _};
use std::io;
use unic::bidi::{BidiInfo, Level, ParagraphInfo};
use unic::char::basics::{is_noncharacter, is_private_use, unicode_notation};
use unic::char::property::EnumeratedCharProperty;
use unic::char::range::CharRange;
use unic::emoji::char as emoji;
use unic::idna::{self, Flags};
use unic::normal::{Decompositions, Recompositions, StrNormalForm};
use unic::segment::{GraphemeCursor, GraphemeIncomplete, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds, Words};
use unic::ucd::*;
use unic_cli::{parsers, writers};
use unic_idna_mapping::Mapping;

// ---------------------------------------------------------------- what the callbacks do

struct World<'a> {
    src: *mut Src,
    tasks: Vec<Option<Box<dyn Task + 'a>>>,
    out: Vec<Vec<String>>,
    state: Vec<State>,
    depth: usize,
    budget: usize,
    log: Vec<(u8, usize)>,
    reentered: u64,
    panicked: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Running,
    Finished,
    Abandoned,
    Failed,
}

thread_local! {
    /// With no world: the callback that fails, counted down.
    pub static FAIL_IN: Cell<u64> = const { Cell::new(0) };
    static WORLD: Cell<*mut World<'static>> = const { Cell::new(std::ptr::null_mut()) };
}

fn world<'a>() -> *mut World<'a> {
    WORLD.with(|w| w.get() as *mut World<'a>)
}

/// Called by every source, sink, predicate and range consumer the library calls back into.
fn callback() {
    let w = world();
    if w.is_null() {
        FAIL_IN.with(|f| {
            let k = f.get();
            if k > 0 {
                f.set(k - 1);
                if k == 1 {
                    inject_panic();
                }
            }
        });
        return;
    }
    // one thread; the world's fields are only touched in between library calls
    unsafe {
        if (*w).depth > 4 || (*w).budget == 0 {
            return;
        }
        match (*(*w).src).below(16) {
            13 | 14 => {
                (*w).reentered += 1;
                let n = (*w).tasks.len();
                let i = (*(*w).src).below(n);
                step(w, i);
            }
            15 => {
                if (*(*w).src).chance(1, 3) {
                    (*w).panicked += 1;
                    inject_panic();
                }
            }
            _ => {}
        }
    }
}

/// Lets task `i` take one step, unless it is in the middle of one.
unsafe fn step(w: *mut World<'_>, i: usize) {
    (*w).budget = (*w).budget.saturating_sub(1);
    let Some(mut t) = (&mut (*w).tasks)[i].take() else { return };
    (*w).depth += 1;
    (*w).log.push((b's', i));
    let r = catch(|| t.step());
    (*w).depth -= 1;
    match r {
        Ok(Some(s)) => {
            (&mut (*w).out)[i].push(s);
            (&mut (*w).tasks)[i] = Some(t);
        }
        Ok(None) => (&mut (*w).state)[i] = State::Finished,
        Err(()) => (&mut (*w).state)[i] = State::Failed,
    }
}

/// Injected failures become Err; a panic of the library itself is one of its outcomes.
pub fn catch(f: impl FnOnce() -> Option<String>) -> Result<Option<String>, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) if p.is::<Injected>() => Err(()),
        Err(_) => Ok(Some("panicked".into())),
    }
}

pub trait Task {
    /// One step of the operation; None when it is over.
    fn step(&mut self) -> Option<String>;
}

impl<F: FnMut() -> Option<String>> Task for F {
    fn step(&mut self) -> Option<String> {
        self()
    }
}

#[derive(Clone)]
struct Source<'a>(std::str::Chars<'a>);
impl<'a> Iterator for Source<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        callback();
        self.0.next()
    }
}

struct Sink(String);
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        callback();
        self.0.push_str(s);
        Ok(())
    }
}
struct Out(Vec<u8>);
impl io::Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        callback();
        let n = b.len().min(3);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn wordy(s: &&str) -> bool {
    callback();
    s.chars().any(|c| c.is_alphanumeric())
}

// ---------------------------------------------------------------- the operations

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub enum Spec {
    Graphemes(String, bool, bool, u64),
    Words(String, bool, u64),
    Filtered(String),
    Cursor(String, bool, bool, usize),
    Normal(String, usize),
    NormalText(String, usize),
    Checks(String, usize),
    Bidi(String, Option<u8>),
    Idna(String, u8, bool),
    Puny(String, usize),
    Names(String),
    Properties(String, usize),
    Range(char, char, u64),
    Blocks(usize, usize),
    Cli(String, usize),
    Parse(String, usize),
    Values(usize, u64),
    Compare(char, char, u64),
    Misuse(String, usize),
}

fn dot(run: &mut Run, s: String) -> String {
    let mut d = String::new();
    for c in s.chars() {
        d.push(if c == ' ' { '.' } else { c });
        if run.src.chance(1, 8) {
            d.push('.');
        }
    }
    if run.src.chance(1, 4) {
        d = format!("xn--{}", d);
    }
    d
}

fn bidi_text(run: &mut Run) -> String {
    const C: &str = "ab1 +,.(\u{5D0}\u{5D1}\u{627}\u{661}\u{300}\u{202A}\u{202B}\u{202C}\u{202D}\u{202E}\u{2066}\u{2067}\u{2068}\u{2069}\u{2029}\n\t\u{200F}";
    let v: Vec<char> = C.chars().collect();
    let n = run.src.geo(24);
    (0..n).map(|_| *run.src.pick(&v)).collect()
}

/// A text much like `t`, which something that remembers the last one could take for it.
pub fn relative(run: &mut Run, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    if v.is_empty() {
        return "a".into();
    }
    let i = run.src.below(v.len());
    match run.src.below(8) {
        0 => v[i] = run.src.pick(&['a', '\u{301}', '\u{5D0}', '\u{AC01}', '\u{1F1E6}']).clone(),
        1 | 2 => {
            // the same low bits
            let x = *run.src.pick(&[0x10000, 0x100, 0x1000, 0x20000, 0x80]);
            for c in v.iter_mut() {
                *c = char::from_u32(*c as u32 ^ x).unwrap_or(*c);
            }
        }
        3 => v[i] = char::from_u32(v[i] as u32 ^ 0x10000).unwrap_or('a'),
        4 => v[i] = char::from_u32(v[i] as u32 + 1).unwrap_or('a'),
        5 => {
            let j = run.src.below(v.len());
            v.swap(i, j);
        }
        6 => {
            v.pop();
        }
        _ => v.push('a'),
    }
    v.into_iter().collect()
}

pub fn text(run: &mut Run) -> String {
    match run.src.below(5) {
        0 => norm_text(run, 10).into_iter().collect(),
        1 => grapheme_text(run, 10),
        2 => word_text(run, 12),
        3 => bidi_text(run),
        _ => {
            let n = run.src.range(0, 6);
            (0..n).map(|_| char::from_u32(run.src.below(0x110000) as u32).unwrap_or('x')).collect()
        }
    }
}

pub fn spec(run: &mut Run, pool: &[String]) -> Spec {
    let kind = run.src.below(KINDS);
    spec_of(run, pool, kind)
}

pub const KINDS: usize = 19;

/// An operation of a given family.
pub fn spec_of(run: &mut Run, pool: &[String], kind: usize) -> Spec {
    let t = run.src.pick(pool).clone();
    let bits = (run.src.below(1 << 16) as u64) << 16 | run.src.below(1 << 16) as u64;
    match kind {
        18 => Spec::Misuse(t, bits as usize % 5),
        16 => Spec::Values(bits as usize % 6, bits >> 3),
        17 => {
            let c = t.chars().next().unwrap_or('\u{D7FE}') as u32;
            let d = c.saturating_add(bits as u32 % 2000);
            Spec::Compare(char::from_u32(c).unwrap(), char::from_u32(d).unwrap_or('\u{E001}'), bits)
        }
        0 => Spec::Graphemes(t, bits & 1 > 0, bits & 2 > 0, bits >> 2),
        1 => Spec::Words(t, bits & 1 > 0, bits >> 1),
        2 => Spec::Filtered(t),
        3 => Spec::Cursor(t, bits & 1 > 0, bits & 2 > 0, (bits >> 4) as usize % 5),
        4 | 5 => Spec::Normal(t, bits as usize % 4),
        6 => Spec::NormalText(t, bits as usize % 4),
        7 => Spec::Checks(t, bits as usize % 7),
        8 => Spec::Bidi(t, [None, Some(0), Some(1)][bits as usize % 3]),
        9 => Spec::Idna(t, bits as u8 % 8, bits & 8 > 0),
        10 => Spec::Puny(t, bits as usize % 3),
        11 => Spec::Names(t),
        12 => Spec::Properties(t, bits as usize % (GROUPS + 1)),
        13 => {
            let c = t.chars().next().unwrap_or('\u{D7FE}') as u32;
            let d = c.saturating_add(bits as u32 % 8);
            Spec::Range(char::from_u32(c).unwrap(), char::from_u32(d).unwrap_or('\u{E001}'), bits >> 3)
        }
        14 => if bits & 1 > 0 { Spec::Blocks(bits as usize / 2 % 280, 6) } else { Spec::Parse(t, bits as usize / 2 % 3) },
        _ => Spec::Cli(t, bits as usize % 6),
    }
}

fn next_bit(bits: &mut u64) -> bool {
    let b = *bits & 1 > 0;
    *bits = *bits >> 1 | (*bits & 1) << 29;
    b
}

const GROUPS: usize = 27;

/// What one small part of the library says of a character.
fn property(c: char, group: usize) -> String {
    let mut s = String::new();
    macro_rules! bits {
        ($($e:expr),* $(,)?) => {{ $(s.push(if $e { '1' } else { '0' });)* }};
    }
    macro_rules! show {
        ($($e:expr),* $(,)?) => {{ $(let _ = write!(s, "{:?} ", $e);)* }};
    }
    match group {
        0 => show!(GeneralCategory::of(c)),
        1 => show!(Age::of(c), Age::of(c).map(|a| a.actual())),
        2 => show!(BidiClass::of(c), BidiClass::of(c).category(), BidiClass::of(c).is_rtl(), BidiClass::of(c).is_ltr()),
        3 => show!(CanonicalCombiningClass::of(c), CanonicalCombiningClass::of(c).number(), CanonicalCombiningClass::of(c).is_reordered()),
        4 => show!(GraphemeClusterBreak::of(c)),
        5 => show!(WordBreak::of(c)),
        6 => show!(SentenceBreak::of(c)),
        7 => show!(Block::of(c).map(|b| (b.name, b.range.low, b.range.high))),
        8 => {
            show!(NameAliasType::of(c));
            for t in NameAliasType::of(c).unwrap_or(&[]) {
                show!(name_aliases_of(c, *t));
            }
        }
        9 => show!(name_aliases_of(c, NameAliasType::NameAbbreviations)),
        10 => bits!(is_bidi_mirrored(c), bidi::is_bidi_control(c)),
        11 => bits!(is_alphabetic(c), is_white_space(c), common::is_alphanumeric(c), common::is_control(c), common::is_numeric(c)),
        12 => bits!(is_cased(c), is_case_ignorable(c), is_lowercase(c), is_uppercase(c)),
        13 => bits!(changes_when_casefolded(c), changes_when_casemapped(c)),
        14 => bits!(changes_when_lowercased(c), changes_when_titlecased(c), changes_when_uppercased(c)),
        15 => bits!(ident::is_xid_start(c), ident::is_xid_continue(c)),
        16 => bits!(ident::is_id_start(c), ident::is_id_continue(c)),
        17 => bits!(ident::is_pattern_syntax(c), ident::is_pattern_whitespace(c)),
        18 => bits!(
            emoji::is_emoji(c), emoji::is_emoji_component(c), emoji::is_emoji_modifier(c),
            emoji::is_emoji_modifier_base(c), emoji::is_emoji_presentation(c)
        ),
        19 => {
            bits!(is_noncharacter(c), is_private_use(c));
            show!(unicode_notation(c).to_string());
        }
        20 => bits!(normal::is_combining_mark(c), hangul::is_syllable(c)),
        21 => show!(normal::DecompositionType::of(c)),
        22 => show!(normal::canonical_decomposition(c), normal::compatibility_decomposition(c)),
        23 => show!(normal::canonical_composition(c).map(|t| t.iter().map(|(r, v)| (r.low, v)).collect::<Vec<_>>())),
        24 => show!(Mapping::of(c)),
        25 => {
            let g = GeneralCategory::of(c);
            bits!(g.is_cased_letter(), g.is_letter(), g.is_mark(), g.is_number(), g.is_punctuation(), g.is_symbol(), g.is_separator(), g.is_other());
        }
        _ => {
            if hangul::is_syllable(c) {
                let mut parts = vec![];
                hangul::decompose_syllable(c, &mut |d| {
                    callback();
                    parts.push(d);
                });
                let whole = parts[1..].iter().try_fold(parts[0], |a, b| hangul::compose_syllable(a, *b));
                show!(parts, whole);
            }
            // these call back with every part
            normal::decompose_canonical(c, |d| {
                callback();
                s.push(d);
            });
            normal::decompose_compatible(c, |d| {
                callback();
                s.push(d);
            });
        }
    }
    s
}

pub fn start<'a>(sp: &'a Spec) -> Box<dyn Task + 'a> {
    fn join(a: usize, s: &str) -> String {
        format!("{}:{}", a, s)
    }
    macro_rules! ends {
        ($it:expr, $bits:expr, $show:expr) => {{
            let mut it = $it;
            let mut bits: u64 = *$bits;
            let mut after = 0;
            Box::new(move || {
                let x = if next_bit(&mut bits) { it.next_back() } else { it.next() };
                match x {
                    Some(x) => Some($show(x)),
                    None if after == 0 => {
                        after = 1;
                        Some("end".into())
                    }
                    None => None,
                }
            })
        }};
    }
    match sp {
        Spec::Graphemes(t, legacy, indices, bits) => match (indices, legacy) {
            (true, true) => ends!(GraphemeIndices::new_legacy(t), bits, |(i, s): (usize, &str)| join(i, s)),
            (true, false) => ends!(GraphemeIndices::new(t), bits, |(i, s): (usize, &str)| join(i, s)),
            (false, true) => ends!(Graphemes::new_legacy(t), bits, |s: &str| s.to_string()),
            (false, false) => ends!(Graphemes::new(t), bits, |s: &str| s.to_string()),
        },
        Spec::Words(t, true, bits) => ends!(WordBoundIndices::new(t), bits, |(i, s): (usize, &str)| join(i, s)),
        Spec::Words(t, false, bits) => ends!(WordBounds::new(t), bits, |s: &str| s.to_string()),
        Spec::Filtered(t) => {
            let mut it = Words::new(t, wordy);
            Box::new(move || it.next().map(|s| s.to_string()))
        }
        Spec::Cursor(t, back, legacy, cut) => {
            // two chunks and all the context asked for
            let cut = *offsets(t).get(*cut).unwrap_or(&t.len());
            let start = if *back { t.len() } else { 0 };
            let mut c = if *legacy { GraphemeCursor::new_legacy(start, t.len()) } else { GraphemeCursor::new(start, t.len()) };
            let mut second = if *back { cut < t.len() } else { cut == 0 };
            let back = *back;
            let mut n = 0;
            Box::new(move || {
                n += 1;
                if n > 200 {
                    return None;
                }
                let (ch, at) = if second { (&t[cut..], cut) } else { (&t[..cut], 0) };
                let r = if back { c.prev_boundary(ch, at) } else { c.next_boundary(ch, at) };
                match r {
                    Ok(None) => {
                        n = 1000;
                        Some("end".into())
                    }
                    Ok(Some(b)) => Some(format!("{}", b)),
                    Err(GraphemeIncomplete::PrevChunk) => {
                        second = false;
                        Some("prev".into())
                    }
                    Err(GraphemeIncomplete::NextChunk) => {
                        second = true;
                        Some("next".into())
                    }
                    Err(GraphemeIncomplete::PreContext(k)) => {
                        c.provide_context(&t[..k], 0);
                        Some(format!("context {}", k))
                    }
                    Err(e) => {
                        n = 1000;
                        Some(format!("{:?}", e))
                    }
                }
            })
        }
        Spec::Normal(t, form) => {
            let src = Source(t.chars());
            let it: Box<dyn Iterator<Item = char> + 'a> = match form {
                0 => Box::new(StrNormalForm::nfd(src)) as Box<dyn Iterator<Item = char>>,
                1 => Box::new(StrNormalForm::nfc(src)),
                2 => Box::new(StrNormalForm::nfkd(src)),
                _ => Box::new(StrNormalForm::nfkc(src)),
            };
            let mut it = it;
            Box::new(move || it.next().map(|c| format!("{:?}", c)))
        }
        Spec::NormalText(t, form) => {
            enum E<'a> {
                D(Decompositions<std::str::Chars<'a>>),
                R(Recompositions<std::str::Chars<'a>>),
            }
            let mut it = match form {
                0 => E::D(t.nfd()),
                1 => E::R(t.nfc()),
                2 => E::D(t.nfkd()),
                _ => E::R(t.nfkc()),
            };
            Box::new(move || {
                // prints the rest, then goes on
                let mut s = Sink(String::new());
                let (r, c) = match &mut it {
                    E::D(i) => (write!(s, "{}", i), i.next()),
                    E::R(i) => (write!(s, "{}", i), i.next()),
                };
                c.map(|c| format!("{:?} {} {:?}", r, s.0, c))
            })
        }
        Spec::Checks(t, which) => {
            let mut n = *which;
            Box::new(move || {
                n += 1;
                // the last two go on to the next one
                let m = match n { 6 | 7 => n - 2, 8 => 5, _ if n == *which + 1 => n, _ => 9 };
                match m {
                    1 => Some(t.nfc().eq(Source(t.chars())).to_string()),
                    2 => Some(Recompositions::eq(StrNormalForm::nfkc(Source(t.chars())), t.nfc()).to_string()),
                    3 => Some(t.chars().map(|c| normal::is_combining_mark(c) as u8).sum::<u8>().to_string()),
                    4 => Some(format!("{:?}", t.chars().zip(t.chars().skip(1)).map(|(a, b)| normal::compose(a, b)).collect::<Vec<_>>())),
                    5 => Some(format!("{:?}", bidi::StrBidiClass::has_bidi_explicit(&**t))),
                    _ => None,
                }
            })
        }
        Spec::Bidi(t, level) => {
            let mut info: Option<BidiInfo<'a>> = None;
            let mut n = 0;
            Box::new(move || {
                let Some(i) = info.as_ref() else {
                    let i = BidiInfo::new(t, level.map(|l| Level::new(l).unwrap()));
                    let s = format!("{:?} {:?}", i.levels.iter().map(|l| l.number()).collect::<Vec<_>>(), i.paragraphs);
                    info = Some(i);
                    return Some(s);
                };
                let p = i.paragraphs.get(n)?;
                n += 1;
                let mut s = Sink(String::new());
                let r = write!(s, "{}", i);
                let lv = |v: Vec<Level>| v.iter().map(|l| l.number()).collect::<Vec<_>>();
                Some(format!(
                    "{:?} {} {:?} {:?} {:?} {:?} {}",
                    r, s.0,
                    i.reorder_line(p, p.range.clone()),
                    i.visual_runs(p, p.range.clone()).1,
                    lv(i.reordered_levels(p, p.range.clone())),
                    lv(i.reordered_levels_per_char(p, p.range.clone())),
                    i.has_rtl()
                ))
            })
        }
        Spec::Idna(t, f, unicode) => {
            let fl = move |f: u8| Flags {
                use_std3_ascii_rules: f & 1 > 0,
                transitional_processing: f & 2 > 0,
                verify_dns_length: f & 4 > 0,
            };
            let mut n = 0;
            let f = *f;
            Box::new(move || {
                n += 1;
                match (n, *unicode) {
                    (1, false) => Some(format!("{:?}", idna::to_ascii(t, fl(f)).map_err(|_| "error"))),
                    (1, true) => {
                        let (s, r) = idna::to_unicode(t, fl(f));
                        Some(format!("{:?} {:?}", s, r.is_ok()))
                    }
                    _ => None,
                }
            })
        }
        Spec::Puny(t, which) => {
            let mut n = 0;
            Box::new(move || {
                n += 1;
                if n > 1 {
                    return None;
                }
                Some(match which {
                    0 => format!("{:?}", unic_idna_punycode::encode_str(t)),
                    1 => format!("{:?}", unic_idna_punycode::decode_to_string(t)),
                    _ => format!("{:?}", unic_idna_punycode::decode(t)),
                })
            })
        }
        Spec::Names(t) => {
            let mut cs = t.chars();
            let mut last: Option<Name> = None;
            Box::new(move || {
                let c = cs.next()?;
                let n = Name::of(c);
                let mut s = Sink(String::new());
                let r = n.as_ref().map(|n| write!(s, "{}", n));
                let o = match (&n, &last) {
                    (Some(a), Some(b)) => Some(a.cmp(b)),
                    _ => None,
                };
                let l = n.as_ref().map(|n| n.len());
                last = n;
                Some(format!("{:?} {} {:?} {:?}", r, s.0, o, l))
            })
        }
        Spec::Properties(t, group) => {
            let mut cs = t.chars();
            Box::new(move || {
                let c = cs.next()?;
                Some(match *group {
                    GROUPS => (0..GROUPS).map(|g| property(c, g)).collect(),
                    g => property(c, g),
                })
            })
        }
        Spec::Range(a, b, bits) => {
            let mut it = CharRange::closed(*a, *b).iter();
            let mut bits = *bits;
            Box::new(move || {
                if next_bit(&mut bits) {
                    let v: Vec<char> = it.clone().map(|c| { callback(); c }).collect();
                    return it.next_back().map(|c| format!("{:?} of {:?}", c, v));
                }
                it.next().map(|c| format!("{:?} {:?}", c, it.len()))
            })
        }
        Spec::Blocks(skip, n) => {
            let mut it = BlockIter::new().skip(*skip);
            let mut n = *n;
            Box::new(move || {
                n = usize::checked_sub(n, 1)?;
                it.next().map(|b| format!("{} {:?}", b.name, b.range))
            })
        }
        Spec::Values(kind, bits) => {
            let (kind, mut bits) = (*kind, *bits);
            let mut n = 0;
            macro_rules! value {
                ($t:ty) => {{
                    let all = <$t>::all_values();
                    let v = all[(bits % 1009) as usize % all.len()];
                    let name = match n % 3 {
                        0 => v.abbr_name().to_string(),
                        1 => v.long_name().to_ascii_uppercase(),
                        _ => v.long_name().to_ascii_lowercase(),
                    };
                    format!("{:?} {} {} {:?}", v, v.human_name(), v, name.parse::<$t>().ok())
                }};
            }
            Box::new(move || {
                n += 1;
                if n > 4 {
                    return None;
                }
                let r = match kind {
                    0 => value!(GraphemeClusterBreak),
                    1 => value!(WordBreak),
                    2 => value!(SentenceBreak),
                    3 => value!(GeneralCategory),
                    4 => value!(BidiClass),
                    _ => value!(normal::DecompositionType),
                };
                bits = bits / 7 + n * 131;
                Some(r)
            })
        }
        Spec::Misuse(t, which) => {
            // what the documentation forbids: refused by a panic, which is the caller's own affair
            let mut n = 0;
            Box::new(move || {
                n += 1;
                if n > 2 {
                    return None;
                }
                let r = std::panic::catch_unwind(|| {
                    let para = |r: std::ops::Range<usize>| ParagraphInfo { range: r, level: Level::ltr() };
                    let past = t.len() + 1;
                    match *which {
                        0 => BidiInfo::new(t, None).visual_runs(&para(0..past), 0..past).1.len(),
                        1 => BidiInfo::new(t, None).reorder_line(&para(0..past), past..past).len(),
                        2 => BidiInfo::new(t, None).reordered_levels_per_char(&para(0..past), 0..past).len(),
                        3 => Level::from(127 + t.len() as u8 % 128).number() as usize,
                        _ => Level::vec(&[0, 126, 127]).len(),
                    }
                });
                Some(format!("{:?}", r.ok()))
            })
        }
        Spec::Compare(a, b, bits) => {
            let mut bits = *bits;
            let mut n = 0;
            Box::new(move || {
                n += 1;
                let r = match n {
                    1 => CharRange::closed(*a, *b),
                    2 => CharRange::open(*a, *b),
                    3 => CharRange::open_left(*a, *b),
                    4 => CharRange::open_right(*a, *b),
                    5 => CharRange::all(),
                    6 => CharRange::assigned_normal_planes(),
                    _ => return None,
                };
                bits = bits / 3 + 77;
                let c = char::from_u32(*a as u32 ^ (bits & 15) as u32).unwrap_or('y');
                Some(format!("{} {} {:?} {} {:?}", r.len(), r.is_empty(), r.cmp_char(c), r.contains(c), r))
            })
        }
        Spec::Cli(t, f) => {
            let mut done = false;
            let f = *f;
            Box::new(move || {
                if done {
                    return None;
                }
                done = true;
                let mut o = Out(vec![]);
                let r = match f {
                    0 => writers::write_as_codepoints(&mut o, t.chars()),
                    1 => writers::write_as_utf8_hex(&mut o, t.chars()),
                    2 => writers::write_as_utf16_hex(&mut o, t.chars()),
                    3 => writers::write_with_control_n_unicode_braces_escape(&mut o, t.chars()),
                    4 => writers::write_with_control_braces_escape(&mut o, t.chars()),
                    _ => writers::write_with_all_braces_escape(&mut o, t.chars()),
                };
                Some(format!("{:?} {}", r, String::from_utf8_lossy(&o.0)))
            })
        }
        Spec::Parse(t, f) => {
            let mut done = false;
            let f = *f;
            let mut o = vec![];
            let _ = match f {
                0 => writers::write_as_codepoints(&mut o, t.chars()),
                1 => writers::write_as_utf8_hex(&mut o, t.chars()),
                _ => writers::write_as_utf16_hex(&mut o, t.chars()),
            };
            let s = String::from_utf8(o).unwrap();
            Box::new(move || {
                if done {
                    return None;
                }
                done = true;
                Some(match f {
                    0 => parsers::codepoints(&s),
                    1 => parsers::utf8_hex(&s),
                    _ => parsers::utf16_hex(&s),
                })
            })
        }
    }
}

/// The operation on its own.
pub fn alone(sp: &Spec) -> Vec<String> {
    let mut t = start(sp);
    let mut v = vec![];
    while let Ok(Some(s)) = catch(|| t.step()) {
        v.push(s);
        if v.len() > 2000 {
            break;
        }
    }
    v
}

// ---------------------------------------------------------------- in a process that has done nothing else

/// A copy of this process from before any operation; it answers each question from a fresh copy of itself.
struct Pristine {
    to: std::fs::File,
    from: std::fs::File,
}

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn alarm(s: u32) -> u32;
}

fn read_block(f: &mut std::fs::File) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut n = [0; 4];
    f.read_exact(&mut n).ok()?;
    let mut b = vec![0; u32::from_le_bytes(n) as usize];
    f.read_exact(&mut b).ok()?;
    Some(b)
}
fn write_block(f: &mut std::fs::File, b: &[u8]) {
    use std::io::Write;
    let mut v = (b.len() as u32).to_le_bytes().to_vec();
    v.extend_from_slice(b);
    let _ = f.write_all(&v);
}

impl Pristine {
    fn start() -> Pristine {
        use std::os::fd::FromRawFd;
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert!(pipe(a.as_mut_ptr()) == 0 && pipe(b.as_mut_ptr()) == 0, "simulator: pipe");
            let p = fork();
            assert!(p >= 0, "simulator: fork");
            let f = |fd| std::fs::File::from_raw_fd(fd);
            if p > 0 {
                drop((f(a[0]), f(b[1])));
                return Pristine { to: f(a[1]), from: f(b[0]) };
            }
            drop((f(a[1]), f(b[0])));
            let (mut from, mut to) = (f(a[0]), f(b[1]));
            while let Some(q) = read_block(&mut from) {
                let p = fork();
                if p == 0 {
                    alarm(100);
                    let specs: Vec<Spec> = serde_json::from_slice(&q).expect("simulator: request");
                    let v: Vec<Vec<String>> = specs.iter().map(alone).collect();
                    write_block(&mut to, &serde_json::to_vec(&v).unwrap());
                    _exit(0);
                }
                let mut st = 0;
                waitpid(p, &mut st, 0);
                if st != 0 {
                    write_block(&mut to, b"null");
                }
            }
            _exit(0)
        }
    }
    fn ask(&mut self, specs: &[Spec]) -> Option<Vec<Vec<String>>> {
        write_block(&mut self.to, &serde_json::to_vec(specs).unwrap());
        serde_json::from_slice(&read_block(&mut self.from).expect("simulator: no answer from the pristine process")).unwrap()
    }
}

thread_local! {
    static PRISTINE: std::cell::RefCell<Option<Pristine>> = const { std::cell::RefCell::new(None) };
}

pub fn mixed(run: &mut Run) -> Res {
    PRISTINE.with(|p| {
        p.borrow_mut().get_or_insert_with(Pristine::start);
    });
    // few texts, so that operations meet the same characters
    let k = run.src.range(1, 3);
    let mut pool: Vec<String> = (0..k).map(|_| text(run)).collect();
    if run.src.chance(1, 2) {
        // a text of an earlier run of this batch would break repeatability; reuse this run's
        let t: String = pool[0].chars().rev().collect();
        pool.push(t);
    }
    if run.src.chance(1, 3) {
        let t = run.src.pick(&pool).clone();
        let d = dot(run, t);
        pool.push(d);
    }
    if run.src.chance(1, 3) {
        let t = run.src.pick(&pool).clone();
        let d = relative(run, &t);
        pool.push(d);
    }
    let n = run.src.range(1, 6);
    let family = if run.src.chance(1, 3) { Some(run.src.below(KINDS)) } else { None };
    let specs: Vec<Spec> = (0..n)
        .map(|_| match family {
            Some(f) => spec_of(run, &pool, f),
            None => spec(run, &pool),
        })
        .collect();
    let solo: Vec<Vec<String>> = specs.iter().map(alone).collect();
    if run.src.chance(1, 24) {
        run.probe("compared with a fresh process");
        match PRISTINE.with(|p| p.borrow_mut().as_mut().unwrap().ask(&specs)) {
            None => return fail("dies", format!("{:?} die in a fresh process", specs)),
            Some(v) => {
                for (i, v) in v.iter().enumerate() {
                    check!(*v == solo[i], "influenced", "{:?} gives {:?} in a fresh process, and {:?} after other operations", specs[i], v, solo[i]);
                }
            }
        }
    }
    for sp in &specs {
        run.il(hash_str(&format!("{:?}", sp)));
        run.note(|| format!("operation {:?}", sp));
    }
    let mut w = World {
        src: &mut run.src,
        tasks: specs.iter().map(|s| Some(start(s))).collect(),
        out: vec![vec![]; n],
        state: vec![State::Running; n],
        depth: 0,
        budget: 4000,
        log: vec![],
        reentered: 0,
        panicked: 0,
    };
    let wp: *mut World = &mut w;
    let mut abandoned = 0;
    let mut restarted = 0;
    let mut lost = vec![];
    let mut steps = 0;
    WORLD.with(|c| c.set(wp as *mut World<'static>));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe {
        while (&(*wp).tasks).iter().any(|t| t.is_some()) && steps < 3000 {
            steps += 1;
            let i = (*(*wp).src).below(n);
            match (*(*wp).src).below(40) {
                39 => {
                    if (&mut (*wp).tasks)[i].take().is_some() {
                        (&mut (*wp).state)[i] = State::Abandoned;
                        (*wp).log.push((b'a', i));
                        abandoned += 1;
                    }
                }
                38 => {
                    // abandoned and started over
                    if (&mut (*wp).tasks)[i].take().is_some() {
                        let o = std::mem::take(&mut (&mut (*wp).out)[i]);
                        lost.push((i, o));
                        (&mut (*wp).tasks)[i] = Some(start(&specs[i]));
                        (*wp).log.push((b'r', i));
                        restarted += 1;
                    }
                }
                _ => step(wp, i),
            }
        }
    }));
    WORLD.with(|c| c.set(std::ptr::null_mut()));
    let World { out, state, log, reentered, panicked, tasks, .. } = w;
    drop(tasks);
    if let Err(p) = r {
        std::panic::resume_unwind(p);
    }
    for (k, i) in log {
        run.ev(match k { b's' => "step", b'a' => "abandon", _ => "restart" }, i as u64, 0);
        run.il((k as u64) << 8 | i as u64);
    }
    for _ in 0..reentered {
        run.fault("reentered_from_callback");
    }
    for _ in 0..panicked {
        run.fault("callback_panicked");
    }
    for _ in 0..abandoned {
        run.fault("abandoned");
    }
    for _ in 0..restarted {
        run.fault("restarted");
    }
    if n > 1 {
        run.nontrivial = true;
    }
    for i in 0..n {
        run.note(|| format!("{}: {:?} {:?}", i, state[i], out[i]));
        let want = &solo[i];
        run.state(hash_str(&out[i].concat()));
        let same = match state[i] {
            State::Finished => out[i] == *want,
            _ => want.starts_with(&out[i]),
        };
        check!(same, "influenced", "{:?} ({:?}) gave {:?}; alone it gives {:?}", specs[i], state[i], out[i], want);
    }
    for (i, o) in lost {
        check!(solo[i].starts_with(&o), "influenced", "{:?} (abandoned) gave {:?}; alone it gives {:?}", specs[i], o, solo[i]);
    }
    // and nothing is left behind
    for (i, sp) in specs.iter().enumerate() {
        let again = alone(sp);
        check!(again == solo[i], "left-behind", "{:?} gave {:?} before and {:?} after the other operations", sp, solo[i], again);
        reference(sp, &again)?;
    }
    Ok(())
}

/// What can be known without the library.
pub fn reference(sp: &Spec, got: &[String]) -> Res {
    match sp {
        Spec::Graphemes(t, legacy, false, _) => {
            let b = uax29::grapheme_boundaries(t, !*legacy);
            let mut w: Vec<String> = b.windows(2).map(|p| t[p[0]..p[1]].to_string()).collect();
            let mut g: Vec<String> = got[..got.len() - 1].to_vec();
            w.sort();
            g.sort();
            check!(w == g, "reference", "{:?} gave {:?}", sp, got);
        }
        Spec::Puny(t, 0) => {
            if let Some(e) = unic_idna_punycode::encode_str(t) {
                let d = unic_idna_punycode::decode_to_string(&e);
                check!(d.as_ref() == Some(t), "reference", "punycode of {:?} is {:?}, which decodes to {:?}", t, e, d);
            }
        }
        _ => {}
    }
    Ok(())
}
