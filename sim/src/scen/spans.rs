//! L04: an author opens and closes directional spans, too many of them, in any order, deletes and undoes.
//!
//! Simulated: the author.  Real: BidiInfo.  Oracle: the stack machine of rules X1 to X8 and rules W1 to I2; where
//! brackets or known findings are in play, what rules I1 and I2 leave possible for strong and overridden characters and others.

use crate::check;
use crate::core::*;
use crate::data::bidi::Bc;
use crate::refs::bidi::{bc, explicit, resolve};
use crate::scen::edit::{base_level, class_of, paragraphs};
use crate::scen::text::esc;
use std::sync::OnceLock;
use unic::bidi::{BidiClass, BidiInfo, Level};

const OPEN: [char; 7] = ['\u{202A}', '\u{202B}', '\u{202D}', '\u{202E}', '\u{2066}', '\u{2067}', '\u{2068}'];
const PLAIN: [char; 20] = ['a', 'é', '\u{5D0}', '\u{627}', '𐨀', '1', '\u{661}', '+', ',', '$', '\u{300}', ' ', '!', '\u{200F}', '\u{61C}', '\u{200E}', '\u{AD}', '\u{1F}', '中', '😀'];

/// The findings of known-findings.json that say where the resolved levels are not those of UAX #9.
fn findings() -> &'static [(String, String, u8, String)] {
    static F: OnceLock<Vec<(String, String, u8, String)>> = OnceLock::new();
    F.get_or_init(|| {
        let d = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
        let s = std::fs::read_to_string(d + "/known-findings.json").unwrap_or_else(|_| "{}".into());
        let v: serde_json::Value = serde_json::from_str(&s).expect("known-findings.json");
        let all = v["findings"].as_array().cloned().unwrap_or_default();
        let text = |x: &serde_json::Value| x.as_str().unwrap_or("").to_string();
        let mine = all.iter().filter(|e| e["property"] == "L04");
        mine.map(|e| (text(&e["kind"]), text(&e["text"]), e["base"].as_u64().unwrap_or(0) as u8, text(&e["what"]))).collect()
    })
}

fn known() -> &'static [String] {
    static K: OnceLock<Vec<String>> = OnceLock::new();
    K.get_or_init(|| findings().iter().map(|f| f.0.clone()).collect())
}

/// Says which of the findings are still there.
pub fn report() {
    for (_, t, base, what) in findings() {
        let b = BidiInfo::new(t, Some(Level::new(*base).unwrap()));
        let chars: Vec<char> = t.chars().collect();
        let classes: Vec<Bc> = chars.iter().map(|&c| bc(c as u32)).collect();
        let want = resolve(&chars, &classes, *base, &[]);
        if t.char_indices().zip(&want).any(|((i, _), w)| w.map_or(false, |w| b.levels[i].number() != w)) {
            println!("KNOWN-FINDING: property=L04 {}", what);
        }
    }
}

fn typed(run: &mut Run) -> char {
    match run.src.below(12) {
        0 => {
            let e = run.src.pick(crate::data::bidi::TABLE);
            let c = if run.src.chance(1, 2) { e.0 } else { e.1 };
            char::from_u32(c).unwrap_or('a')
        }
        _ => *run.src.pick(&PLAIN),
    }
}

fn look(run: &mut Run, t: &str, given: Option<Level>) -> Res {
    let b = BidiInfo::new(t, given);
    let ps = paragraphs(t);
    check!(ps.len() == b.paragraphs.len(), "paragraphs", "\"{}\" has {} paragraphs, reported as {:?}", esc(t), ps.len(), b.paragraphs);
    for p in ps {
        let s = &t[p.clone()];
        let base = base_level(s, given);
        let classes: Vec<Bc> = s
            .char_indices()
            .map(|(i, c)| match bc(c as u32) {
                Bc::FSI if class_of(s, i, c)[0] == BidiClass::RightToLeftIsolate => Bc::RLI,
                Bc::FSI => Bc::LRI,
                x => x,
            })
            .collect();
        let want = explicit(&classes, base);
        let (mut deepest, mut exact) = (0, 0);
        let chars: Vec<char> = s.chars().collect();
        let full = resolve(&chars, &classes, base, known());
        for ((((i, c), k), e), full) in s.char_indices().zip(&classes).zip(&want).zip(&full) {
            let Some((e, forced)) = *e else { continue };
            deepest = deepest.max(e);
            let odd = e % 2;
            // the lowest and the highest level that the remaining rules leave
            let (lo, hi) = match forced.unwrap_or(*k) {
                Bc::L => (e + odd, e + odd),
                Bc::R | Bc::AL => (e + 1 - odd, e + 1 - odd),
                Bc::AN => (e + 2 - odd, e + 2 - odd),
                Bc::B => (base, base),
                Bc::EN | Bc::ES | Bc::ET | Bc::CS | Bc::NSM => (e, e + 2 - odd),
                _ => (e, e + 1),
            };
            let (lo, hi) = match *full {
                Some(l) if *k != Bc::B => {
                    exact += 1;
                    (l, l)
                }
                _ => (lo, hi),
            };
            let at = p.start + i;
            for j in at..at + c.len_utf8() {
                let have = b.levels[j].number();
                check!(lo <= have && have <= hi, "level", "\"{}\", base level {:?}: the character U+{:04X} at {} has level {}; the spans around it have level {}, so it must be {}", esc(t), given, c as u32, at, have, e, if lo == hi { format!("{}", lo) } else { format!("{} to {}", lo, hi) });
            }
        }
        run.state(hash_str(s));
        run.probe(if exact > 0 { "levels compared exactly" } else { "levels compared with bounds" });
        match deepest {
            0..=4 => {}
            5..=60 => run.probe("nested deeply"),
            61..=123 => run.probe("nested very deeply"),
            _ => run.probe("nested as deeply as possible"),
        }
    }
    Ok(())
}

pub fn spans(run: &mut Run) -> Res {
    let given = [None, None, Some(Level::ltr()), Some(Level::rtl())][run.src.below(4)];
    let mut t: Vec<char> = vec![];
    let mut old: Vec<Vec<char>> = vec![];
    let end = run.src.chance(1, 2);
    for _ in 0..run.src.range(1, 14) {
        let at = if end { t.len() } else { run.src.below(t.len() + 1) };
        old.push(t.clone());
        let what = run.src.weighted(&[6, 4, 4, 1, 1, 1, 1, 1]);
        let mut new: Vec<char> = vec![];
        match what {
            0 => (0..run.src.range(1, 4)).for_each(|_| new.push(typed(run))),
            1 => new.push(*run.src.pick(&OPEN)),
            2 => new.push(if run.src.chance(1, 2) { '\u{202C}' } else { '\u{2069}' }),
            3 => {
                // many spans, up to the limit and beyond
                let n = match run.src.below(4) {
                    0 => run.src.range(2, 20),
                    1 => run.src.range(55, 70),
                    _ => run.src.range(118, 135),
                };
                let (a, b) = (*run.src.pick(&OPEN), *run.src.pick(&OPEN));
                let wild = run.src.chance(1, 4);
                let text = run.src.chance(1, 4);
                for i in 0..n {
                    new.push(if wild { *run.src.pick(&OPEN) } else if i % 2 == 0 { a } else { b });
                    if text && run.src.chance(1, 4) {
                        new.push(typed(run));
                    }
                }
                run.fault("more spans than levels");
            }
            4 => {
                let n = if run.src.chance(1, 2) { run.src.range(1, 10) } else { run.src.range(1, 140) };
                let c = *run.src.pick(&['\u{202C}', '\u{2069}', 'x']);
                for _ in 0..n {
                    new.push(if c == 'x' { *run.src.pick(&['\u{202C}', '\u{2069}']) } else { c });
                    if run.src.chance(1, 8) {
                        new.push(typed(run));
                    }
                }
                run.fault("spans closed that were not open");
            }
            5 => new.push(*run.src.pick(&['\u{2029}', '\n', '\r', '\u{85}'])),
            6 => {
                let b = run.src.range(at, t.len());
                t.drain(at..b);
                run.fault("ends of spans deleted");
            }
            _ => {
                let k = run.src.below(old.len());
                t = old[k].clone();
                run.fault("undo");
            }
        }
        if t.len() > 500 {
            new.clear();
        }
        let at = at.min(t.len());
        let s: String = new.iter().collect();
        t.splice(at..at, new);
        run.ev("edit", (what as u64) << 32 | at as u64, hash_str(&s));
        run.il(mix(hash_str(&s), (what as u64) << 32 | at as u64));
        let all: String = t.iter().collect();
        run.note(|| format!("now \"{}\"", esc(&all)));
        look(run, &all, given)?;
    }
    Ok(())
}
