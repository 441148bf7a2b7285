//! N01-N03: streaming normalization over simulated character sources.

use crate::check;
use crate::core::*;
use crate::data::norm as d;
use crate::refs::norm::{self as r, Form};
use crate::scen::text::esc;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use unic::normal::{Decompositions, Recompositions, StrNormalForm};

// ------------------------------------------------------------------ workload

const STARTERS: &str = "aeoAEO xqK1<=>\u{3B1}\u{3A9}\u{5D0}\u{627}\u{915}\u{4E00}\u{10400}\u{1D400}";
const MARKS: &str = "\u{300}\u{301}\u{302}\u{303}\u{304}\u{307}\u{308}\u{30A}\u{30C}\u{323}\u{327}\u{328}\u{331}\u{338}\u{31B}\u{345}\u{315}\u{5AE}\u{5B0}\u{5C1}\u{3099}\u{93C}\u{94D}\u{653}\u{1D165}\u{1D16D}\u{1DCE}\u{E38}\u{F71}\u{F72}\u{F74}\u{1939}";
const DECOMPOSING_MARKS: &str = "\u{340}\u{341}\u{343}\u{344}\u{F73}\u{F75}\u{F81}";
const BACKWARD_STARTERS: &str =
    "\u{1161}\u{1175}\u{11A8}\u{11C2}\u{11A7}\u{11C3}\u{9BE}\u{9D7}\u{B3E}\u{B56}\u{B57}\u{BBE}\u{CC2}\u{CD5}\u{D3E}\u{DCF}\u{DDF}\u{102E}\u{1B35}\u{11127}\u{1133E}\u{114B0}\u{115AF}";
const FORWARD_STARTERS: &str =
    "\u{1100}\u{1112}\u{1113}\u{AC00}\u{AC1C}\u{D788}\u{9C7}\u{B47}\u{BC6}\u{CC6}\u{CBF}\u{D46}\u{DD9}\u{DDC}\u{1025}\u{1B05}\u{11131}\u{11347}\u{114B9}\u{115B8}";
const PRECOMPOSED: &str =
    "\u{C5}\u{E9}\u{1E0B}\u{1E0D}\u{1E69}\u{1D6}\u{1FA7}\u{1F82}\u{AC01}\u{D7A3}\u{AC00}\u{9CB}\u{DDD}\u{439}\u{30AC}\u{623}\u{1026}\u{1112E}\u{CCB}";
const SPECIAL: &str =
    "\u{2126}\u{212B}\u{958}\u{FB1D}\u{2ADC}\u{1D15E}\u{1D160}\u{F900}\u{2F800}\u{1FEF}\u{2000}\u{FB4B}\u{374}\u{37E}\u{F43}\u{FB2C}";
const COMPAT: &str =
    "\u{2026}\u{1C4}\u{FB01}\u{FDFA}\u{B2}\u{2460}\u{3300}\u{FE70}\u{FC5E}\u{B4}\u{A8}\u{37A}\u{384}\u{3131}\u{FFA1}\u{1E9B}\u{3D3}\u{FF76}\u{FF9E}\u{1F100}\u{2A76}\u{E33}\u{149}";

fn any_of(run: &mut Run, s: &str) -> char {
    let v: Vec<char> = s.chars().collect();
    *run.src.pick(&v)
}

fn letter(run: &mut Run, k: usize) -> char {
    match k {
        0 => any_of(run, STARTERS),
        1 => any_of(run, MARKS),
        2 => any_of(run, PRECOMPOSED),
        3 => any_of(run, FORWARD_STARTERS),
        4 => any_of(run, BACKWARD_STARTERS),
        5 => any_of(run, DECOMPOSING_MARKS),
        6 => any_of(run, SPECIAL),
        7 => any_of(run, COMPAT),
        8 => {
            // any mark of any class
            let e = run.src.pick(d::CCC);
            let c = e.0 + run.src.below((e.1 - e.0 + 1) as usize) as u32;
            char::from_u32(c).unwrap_or('a')
        }
        9 => char::from_u32(run.src.pick(d::CANON).0).unwrap_or('a'),
        10 => char::from_u32(run.src.pick(d::COMPAT).0).unwrap_or('a'),
        11 => {
            // the parts of a composition, as they come
            let e = run.src.pick(d::COMP);
            let c = if run.src.chance(1, 2) { e.0 } else { e.1 };
            char::from_u32(c).unwrap_or('a')
        }
        12 => char::from_u32(0xAC00 + run.src.below(11172) as u32).unwrap_or('a'),
        13 => char::from_u32(0x1100 + run.src.below(256) as u32).unwrap_or('a'),
        14 => {
            // what lies next to the characters that take part
            let c = match run.src.below(5) {
                0 => run.src.pick(d::CCC).0 - 1,
                1 => run.src.pick(d::CCC).1 + 1,
                2 => run.src.pick(d::CANON).0 - 1 + 2 * run.src.below(2) as u32,
                3 => run.src.pick(d::COMPAT).0 - 1 + 2 * run.src.below(2) as u32,
                _ => *run.src.pick(&[0xABFF, 0xAC00, 0xD7A3, 0xD7A4, 0x10FF, 0x1113, 0x1160, 0x1176, 0x11A7, 0x11C3]),
            };
            char::from_u32(c).unwrap_or('a')
        }
        _ => char::from_u32(run.src.below(0x110000) as u32).unwrap_or('a'),
    }
}
const KINDS: usize = 16;

pub fn norm_text(run: &mut Run, max: usize) -> Vec<char> {
    let n = run.src.range(1, 5);
    let kinds: Vec<usize> = (0..n).map(|_| run.src.below(KINDS)).collect();
    let len = match run.src.below(8) {
        0..=5 => run.src.range(0, 8.min(max)),
        6 => run.src.range(0, 20.min(max)),
        _ => run.src.range(0, max),
    };
    let mut v = vec![];
    while v.len() < len {
        match run.src.below(16) {
            15 => {
                // a composition pair, possibly with a mark in between
                let e = *run.src.pick(d::COMP);
                v.push(char::from_u32(e.0).unwrap_or('a'));
                if run.src.chance(1, 3) {
                    v.push(letter(run, 1));
                }
                v.push(char::from_u32(e.1).unwrap_or('a'));
            }
            14 => {
                // a long run of marks
                let n = match run.src.below(8) {
                    7 if max > 20 && run.src.chance(1, 512) => {
                        if run.src.chance(1, 8) { run.src.range(700, 2600) } else { run.src.range(1, 700) }
                    }
                    7 => run.src.range(1, 80),
                    _ => run.src.range(1, 8),
                };
                for _ in 0..n {
                    let k = if run.src.chance(1, 8) { 8 } else { 1 };
                    let c = letter(run, k);
                    v.push(c);
                }
            }
            12 | 13 => {
                let k = run.src.below(KINDS);
                v.push(letter(run, k));
            }
            _ => {
                let k = *run.src.pick(&kinds);
                v.push(letter(run, k));
            }
        }
    }
    v
}

fn u(v: &[char]) -> Vec<u32> {
    v.iter().map(|&c| c as u32).collect()
}
fn sh(v: &[char]) -> String {
    esc(&v.iter().collect::<String>())
}
fn hash_chars(v: &[char]) -> u64 {
    v.iter().fold(7, |h, &c| mix(h, c as u64))
}

// ------------------------------------------------------------------ simulated source

/// What all copies of a source share: the harness's view of what is being read.
#[derive(Default)]
struct Shared {
    /// reads (polls) since the harness last looked
    polls: usize,
    /// polls allowed before the simulator stops an unbounded reader
    limit: usize,
    /// position -> how many more times the read there fails
    failures: BTreeMap<usize, usize>,
    failed: usize,
    /// give exact size hints
    hints: bool,
}

#[derive(Clone)]
struct Source {
    text: Rc<Vec<char>>,
    pos: usize,
    endless: bool,
    sh: Rc<RefCell<Shared>>,
}

impl Iterator for Source {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        let mut s = self.sh.borrow_mut();
        s.polls += 1;
        if s.polls > s.limit {
            drop(s);
            inject_panic();
        }
        if let Some(n) = s.failures.get_mut(&self.pos) {
            if *n > 0 {
                *n -= 1;
                s.failed += 1;
                drop(s);
                inject_panic();
            }
        }
        let c = if self.endless { Some(self.text[self.pos % self.text.len()]) } else { self.text.get(self.pos).copied() };
        if c.is_some() {
            self.pos += 1;
        }
        c
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.endless {
            (usize::max_value(), None)
        } else if self.sh.borrow().hints {
            let n = self.text.len() - self.pos;
            (n, Some(n))
        } else {
            (0, None)
        }
    }
}

#[derive(Clone)]
enum Ad<'a> {
    D(Decompositions<Source>),
    R(Recompositions<Source>),
    DS(Decompositions<std::str::Chars<'a>>),
    RS(Recompositions<std::str::Chars<'a>>),
    // chains of two adapters
    DD(Decompositions<Decompositions<Source>>),
    DR(Decompositions<Recompositions<Source>>),
    RD(Recompositions<Decompositions<Source>>),
    RR(Recompositions<Recompositions<Source>>),
}

macro_rules! each {
    ($s:expr, $i:ident => $e:expr) => {
        match $s {
            Ad::D($i) => $e,
            Ad::R($i) => $e,
            Ad::DS($i) => $e,
            Ad::RS($i) => $e,
            Ad::DD($i) => $e,
            Ad::DR($i) => $e,
            Ad::RD($i) => $e,
            Ad::RR($i) => $e,
        }
    };
}

fn adapt<'a>(src: Source, form: Form) -> Ad<'a> {
    match form {
        Form::Nfd => Ad::D(src.nfd()),
        Form::Nfkd => Ad::D(src.nfkd()),
        Form::Nfc => Ad::R(src.nfc()),
        Form::Nfkc => Ad::R(src.nfkc()),
    }
}
/// The output of one adapter through another one.
fn chain<'a>(src: Source, first: Form, form: Form) -> Ad<'a> {
    match (adapt(src, first), form) {
        (Ad::D(a), Form::Nfd) => Ad::DD(a.nfd()),
        (Ad::D(a), Form::Nfkd) => Ad::DD(a.nfkd()),
        (Ad::D(a), Form::Nfc) => Ad::RD(a.nfc()),
        (Ad::D(a), Form::Nfkc) => Ad::RD(a.nfkc()),
        (Ad::R(a), Form::Nfd) => Ad::DR(a.nfd()),
        (Ad::R(a), Form::Nfkd) => Ad::DR(a.nfkd()),
        (Ad::R(a), Form::Nfc) => Ad::RR(a.nfc()),
        (Ad::R(a), Form::Nfkc) => Ad::RR(a.nfkc()),
        _ => unreachable!(),
    }
}
fn adapt_str(s: &str, form: Form) -> Ad<'_> {
    match form {
        Form::Nfd => Ad::DS(s.nfd()),
        Form::Nfkd => Ad::DS(s.nfkd()),
        Form::Nfc => Ad::RS(s.nfc()),
        Form::Nfkc => Ad::RS(s.nfkc()),
    }
}

const FORMS: [Form; 4] = [Form::Nfd, Form::Nfc, Form::Nfkd, Form::Nfkc];

fn to_chars(v: &[u32]) -> Vec<char> {
    v.iter().map(|&c| char::from_u32(c).unwrap()).collect()
}

// ------------------------------------------------------------------ N01

struct Task<'a> {
    ad: Ad<'a>,
    want: Rc<Vec<char>>,
    at: usize,
    saved: Vec<(Ad<'a>, usize)>,
    form: Form,
    input: Rc<Vec<char>>,
    done: bool,
}

pub fn stream(run: &mut Run) -> Res {
    let n = 1 + run.src.geo(3).min(2);
    let mut texts: Vec<Rc<Vec<char>>> = vec![];
    for i in 0..n {
        let t = if i > 0 && run.src.chance(1, 3) { texts[0].clone() } else { Rc::new(norm_text(run, 60)) };
        run.il(hash_chars(&t));
        texts.push(t);
    }
    let strings: Vec<String> = texts.iter().map(|t| t.iter().collect()).collect();
    let mut tasks: Vec<Task> = vec![];
    for i in 0..n {
        let form = *run.src.pick(&FORMS);
        run.il(form as u64);
        let mut want = Rc::new(to_chars(&r::normalize(&u(&texts[i]), form)));
        let ad = if run.src.chance(1, 3) {
            adapt_str(&strings[i], form)
        } else if run.src.chance(1, 4) {
            let first = *run.src.pick(&FORMS);
            run.il(first as u64);
            run.probe("chain of adapters");
            run.note(|| format!("task {} reads from {:?}", i, first));
            want = Rc::new(to_chars(&r::normalize(&r::normalize(&u(&texts[i]), first), form)));
            let s = Shared { limit: usize::max_value(), ..Shared::default() };
            chain(Source { text: texts[i].clone(), pos: 0, endless: false, sh: Rc::new(RefCell::new(s)) }, first, form)
        } else {
            let hints = run.src.chance(1, 2);
            let s = Shared { limit: usize::max_value(), hints, ..Shared::default() };
            adapt(Source { text: texts[i].clone(), pos: 0, endless: false, sh: Rc::new(RefCell::new(s)) }, form)
        };
        run.note(|| format!("task {}: {:?} of {} ", i, form, sh(&texts[i])));
        tasks.push(Task { ad, want, at: 0, saved: vec![], form, input: texts[i].clone(), done: false });
    }
    let total: usize = tasks.iter().map(|t| t.want.len()).sum();
    let mut steps = 0;
    let mut last = usize::max_value();
    while tasks.iter().any(|t| !t.done) {
        steps += 1;
        let live: Vec<usize> = (0..n).filter(|&i| !tasks[i].done).collect();
        let i = *run.src.pick(&live);
        if last != i && last != usize::max_value() {
            run.nontrivial = true;
            run.il(i as u64);
        }
        last = i;
        let t = &mut tasks[i];
        let ctx = |t: &Task| format!("{:?} of {} (at output {})", t.form, sh(&t.input), t.at);
        // late in a run only pulls remain, so that every task ends
        let op = if steps > 4 * total + 100 { 0 } else { run.src.weighted(&[12, 2, 2, 2, 1, 1, 1]) };
        run.il(0x100 + op as u64);
        match op {
            0 => {
                let got = each!(&mut t.ad, a => a.next());
                run.ev("pull", i as u64, got.map_or(u64::MAX, |c| c as u64));
                let want = t.want.get(t.at).copied();
                check!(got == want, "stream", "{}: produced {:?}, expected {:?}", ctx(t), got, want);
                if got.is_none() {
                    for _ in 0..2 {
                        let again = each!(&mut t.ad, a => a.next());
                        check!(again.is_none(), "stream", "{}: produced {:?} after its end", ctx(t), again);
                    }
                    t.done = true;
                }
                t.at += 1;
            }
            1 => {
                // a burst, through an adaptor of the standard library
                let k = run.src.range(0, 6);
                let got: Vec<char> = match run.src.below(2) {
                    0 => each!(&mut t.ad, a => a.by_ref().take(k).collect()),
                    _ => {
                        let k = if run.src.chance(1, 40) { super::chars::far(run) } else { k };
                        let c = each!(&mut t.ad, a => a.nth(k));
                        let want = t.want.get(t.at.saturating_add(k)).copied();
                        check!(c == want, "stream", "{}: nth({}) gave {:?}, expected {:?}", ctx(t), k, c, want);
                        t.at = t.at.saturating_add(k).saturating_add(1).min(t.want.len());
                        run.ev("nth", i as u64, k as u64);
                        continue;
                    }
                };
                run.ev("burst", i as u64, got.len() as u64);
                let end = (t.at + k).min(t.want.len());
                let want = &t.want[t.at.min(end)..end];
                check!(got == want, "stream", "{}: burst of {} gave {}, expected {}", ctx(t), k, sh(&got), sh(want));
                t.at = end;
            }
            2 => {
                t.saved.push((t.ad.clone(), t.at));
                run.ev("checkpoint", i as u64, t.at as u64);
            }
            3 => {
                if !t.saved.is_empty() {
                    let k = run.src.below(t.saved.len());
                    let s = t.saved[k].clone();
                    run.ev("restore", i as u64, s.1 as u64);
                    run.fault("restore_checkpoint");
                    t.ad = s.0;
                    t.at = s.1;
                }
            }
            4 => {
                // print what remains; printing consumes nothing
                let got = each!(&t.ad, a => a.to_string());
                let want: String = t.want[t.at.min(t.want.len())..].iter().collect();
                run.ev("display", i as u64, got.len() as u64);
                run.probe("displayed_mid_stream");
                check!(got == want, "display", "{}: printed {}, expected {}", ctx(t), esc(&got), esc(&want));
            }
            5 => {
                let (lo, hi) = each!(&t.ad, a => a.size_hint());
                let left = t.want.len() - t.at.min(t.want.len());
                check!(
                    hi.map_or(true, |h| h >= left) && (lo <= left || matches!(t.form, Form::Nfc | Form::Nfkc) && lo == 0),
                    "size-hint", "{}: size hint {:?} with {} left", ctx(t), (lo, hi), left
                );
            }
            _ => {
                // a copy runs ahead on its own, through internal iteration
                let mut got = vec![];
                match run.src.below(3) {
                    0 => each!(t.ad.clone(), a => a.for_each(|c| got.push(c))),
                    1 => got = each!(t.ad.clone(), a => a.fold(vec![], |mut v, c| { v.push(c); v })),
                    _ => {
                        let (cnt, last) = (each!(t.ad.clone(), a => a.count()), each!(t.ad.clone(), a => a.last()));
                        let want = &t.want[t.at.min(t.want.len())..];
                        check!(cnt == want.len() && last == want.last().copied(), "stream",
                            "{}: count {} last {:?}, expected {} {:?}", ctx(t), cnt, last, want.len(), want.last());
                        got = want.to_vec();
                    }
                }
                run.ev("copy-to-end", i as u64, got.len() as u64);
                let want = &t.want[t.at.min(t.want.len())..];
                check!(got == want, "stream", "{}: a copy produced {}, expected {}", ctx(t), sh(&got), sh(want));
            }
        }
        let t = &tasks[i];
        run.state(mix(hash_chars(&t.input), mix(t.form as u64, t.at as u64)));
    }
    Ok(())
}

// ------------------------------------------------------------------ N02

pub fn lookahead(run: &mut Run) -> Res {
    let form = *run.src.pick(&FORMS);
    let endless = run.src.chance(1, 2);
    let mut text = norm_text(run, 40);
    if endless {
        // at least one starter per round, so that runs of marks are bounded
        let c = any_of(run, STARTERS);
        text.push(c);
        run.fault("endless_source");
    }
    let hints = run.src.chance(1, 2);
    let text = Rc::new(text);
    run.il(mix(hash_chars(&text), form as u64 * 2 + endless as u64));
    run.note(|| format!("{:?} of {}{}", form, sh(&text), if endless { " repeated for ever" } else { "" }));
    let shared = Rc::new(RefCell::new(Shared { limit: 4000, hints, ..Shared::default() }));
    let src = Source { text: text.clone(), pos: 0, endless, sh: shared.clone() };
    let mut ad = adapt(src, form);
    // the prefix the reference may see
    let horizon = if endless { text.len() * 4 + 200 } else { text.len() };
    let prefix: Vec<u32> = (0..horizon).map(|i| text[i % text.len().max(1)] as u32).collect();
    let whole = r::normalize(&prefix, form);
    let pulls = if endless { run.src.range(1, 2 * text.len() + 20) } else { whole.len() + 2 };
    let idle = |run: &mut Run, ad: &Ad| -> Res {
        match run.src.below(4) {
            0 => return Ok(()),
            1 => drop(ad.clone()),
            2 => drop(each!(ad, a => a.size_hint())),
            _ => {
                drop(each!(ad, a => a.size_hint()));
                drop(ad.clone());
            }
        }
        check!(shared.borrow().polls == 0, "eager", "{:?} of {}: read its source without being pulled", form, sh(&text));
        Ok(())
    };
    check!(shared.borrow().polls == 0, "eager", "{:?} of {}: read its source when created", form, sh(&text));
    let mut reads = 0usize; // characters delivered so far
    let mut need = 0usize; // shortest prefix that settles output i
    let mut saved: Option<(Ad, usize, usize)> = None;
    let mut i = 0;
    let mut steps = 0;
    while i < pulls {
        steps += 1;
        idle(run, &ad)?;
        if steps < 400 && run.src.chance(1, 10) {
            match saved.take() {
                None => saved = Some((ad.clone(), i, reads)),
                Some((a, k, n)) => {
                    ad = a;
                    i = k;
                    reads = n;
                    need = 0;
                    run.fault("restore_checkpoint");
                    run.il(i as u64);
                }
            }
        }
        // how much may have been read when output i appears
        while need < prefix.len() && r::settled(&prefix[..need], form) <= i {
            need += 1;
        }
        let settled = r::settled(&prefix[..need], form) > i;
        if endless && !settled {
            break; // beyond the reference's horizon
        }
        let got = match catch_injected(|| each!(&mut ad, a => a.next())) {
            Ok(g) => g,
            Err(()) => {
                return fail("unbounded-read", format!("{:?} of {} repeated for ever: output {} needs {} characters, {} were read without an answer", form, sh(&text), i, need, shared.borrow().limit));
            }
        };
        let pos = match &ad {
            Ad::D(_) | Ad::R(_) => {
                let p = shared.borrow().polls;
                shared.borrow_mut().polls = 0;
                p
            }
            _ => 0,
        };
        reads += pos;
        run.ev("pull", got.map_or(u64::MAX, |c| c as u64), pos as u64);
        run.state(mix(hash_chars(&text), (i as u64) << 8 | form as u64));
        let want = if endless || i < whole.len() { Some(char::from_u32(whole[i]).unwrap()) } else { None };
        check!(got == want, "stream", "{:?} of {}: output {} is {:?}, expected {:?}", form, sh(&text), i, got, want);
        if pos > 1 {
            run.probe("look_ahead_over_several_characters");
        }
        if settled && got.is_some() {
            check!(reads <= need, "look-ahead", "{:?} of {}: {} characters were read to produce output {} ({:?}), {} settle it", form, sh(&text), reads, i, got, need);
        }
        run.nontrivial = true;
        i += 1;
    }
    Ok(())
}

// ------------------------------------------------------------------ N03

pub fn failing(run: &mut Run) -> Res {
    let form = *run.src.pick(&FORMS);
    let text = Rc::new(norm_text(run, 40));
    run.il(mix(hash_chars(&text), form as u64));
    let mut failures = BTreeMap::new();
    let n = 1 + run.src.geo(6);
    for _ in 0..n {
        let at = run.src.range(0, text.len());
        let times = 1 + run.src.geo(3);
        failures.insert(at, times);
        run.il(mix(at as u64, times as u64));
    }
    run.note(|| format!("{:?} of {}, the source fails at {:?}", form, sh(&text), failures));
    let planned: usize = failures.values().sum();
    let shared = Rc::new(RefCell::new(Shared { limit: usize::max_value(), failures, ..Shared::default() }));
    let src = Source { text: text.clone(), pos: 0, endless: false, sh: shared.clone() };
    let mut want = r::normalize(&u(&text), form);
    let mut ad = if run.src.chance(1, 6) {
        // the failure passes through two adapters
        let first = *run.src.pick(&FORMS);
        run.il(first as u64);
        run.probe("chain of adapters");
        run.note(|| format!("which reads from {:?}", first));
        want = r::normalize(&r::normalize(&u(&text), first), form);
        chain(src, first, form)
    } else {
        adapt(src, form)
    };
    let want = to_chars(&want);
    let mut got: Vec<char> = vec![];
    let mut caught = 0;
    let mut steps = 0;
    loop {
        steps += 1;
        check!(steps < 100 * (text.len() + 20) + 40 * planned, "endless", "{:?} of {}: no end after {} pulls", form, sh(&text), steps);
        if run.src.chance(1, 10) {
            // print a copy; it may fail, the original must not notice
            let before = shared.borrow().failed;
            let out = catch_injected(|| each!(&ad, a => a.to_string()));
            run.il(out.is_ok() as u64 + 2);
            match out {
                Ok(s) => {
                    let rest: String = want[got.len().min(want.len())..].iter().collect();
                    check!(s == rest, "display", "{:?} of {}: printed {} after {}, expected {}", form, sh(&text), esc(&s), sh(&got), esc(&rest));
                }
                Err(()) => {
                    check!(shared.borrow().failed > before, "harness", "no failure injected");
                    run.fault("source_failure_while_printing");
                }
            }
            run.ev("display", 0, 0);
        }
        if run.src.chance(1, 12) {
            ad = ad.clone();
            run.ev("copy", 0, 0);
        }
        match catch_injected(|| each!(&mut ad, a => a.next())) {
            Err(()) => {
                caught += 1;
                run.fault("source_failure");
                run.ev("failure", got.len() as u64, caught);
                run.il(got.len() as u64);
            }
            Ok(None) => {
                run.ev("end", got.len() as u64, 0);
                if shared.borrow().failures.get(&text.len()).map_or(false, |&n| n > 0) {
                    // a stream that ended without asking cannot have ended truthfully
                    check!(got == want, "lost", "{:?} of {}: produced {}, expected {}", form, sh(&text), sh(&got), sh(&want));
                }
                break;
            }
            Ok(Some(c)) => {
                run.ev("pull", c as u64, 0);
                got.push(c);
                let k = got.len();
                check!(k <= want.len() && c == want[k - 1], "lost-or-reordered", "{:?} of {}: after {} failures produced {}, expected {}", form, sh(&text), caught, sh(&got), sh(&want));
            }
        }
        run.state(mix(hash_chars(&text), mix(got.len() as u64, caught)));
    }
    check!(got == want, "lost", "{:?} of {}: after {} failures produced {}, expected {}", form, sh(&text), caught, sh(&got), sh(&want));
    Ok(())
}
