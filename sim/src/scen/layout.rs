//! L02: a layout client that breaks paragraphs into lines, again and again at other widths, and shows the
//! lines in any order; each line's display order must be that of the line alone.
//!
//! The client (simulated) decides widths, breaks and the order of requests; the library (real) is asked for
//! one line at a time.  Oracle: rules L1 and L2 of UAX #9 applied to the resolved levels of the line.

use crate::check;
use crate::core::*;
use crate::refs::bidi::class;
use crate::scen::text::*;
use std::ops::Range;
use unic::bidi::{BidiClass, BidiInfo, Level, ParagraphInfo};

const STRONG: &str = "ab\u{5D0}\u{5D1}\u{627}\u{628}𝐀\u{10A00}";
const WEAK: &str = "12\u{661}\u{662}+,.$\u{300}\u{5B0}%/";
const SPACE: &str = "  \t \u{3000}\u{1F}\u{85}";
const OTHER: &str = "!&(\u{200B}\u{AD}\u{200F}\u{61C}[)]";
const FORMAT: &str = "\u{202A}\u{202B}\u{202C}\u{202D}\u{202E}\u{2066}\u{2067}\u{2068}\u{2069}";

fn any_of(run: &mut Run, s: &str) -> char {
    let v: Vec<char> = s.chars().collect();
    *run.src.pick(&v)
}

pub fn text(run: &mut Run) -> String {
    let mut s = String::new();
    if run.src.chance(1, 24) {
        // deep nesting
        let n = run.src.range(1, 130);
        let k = run.src.below(3);
        for i in 0..n {
            s.push(match (k, i % 2) {
                (0, 0) => '\u{202B}',
                (0, _) => '\u{202A}',
                (1, 0) => '\u{2067}',
                (1, _) => '\u{2066}',
                _ => any_of(run, FORMAT),
            });
        }
    }
    let kinds: Vec<usize> = (0..run.src.range(1, 4)).map(|_| run.src.below(5)).collect();
    if run.src.chance(1, 6) {
        let e = run.src.pick(crate::data::bidi::TABLE);
        let (lo, hi) = (e.0, e.1);
        let c = match run.src.below(3) {
            0 => lo,
            1 => hi,
            _ => lo + run.src.below((hi - lo + 1) as usize) as u32,
        };
        s.push(char::from_u32(c).unwrap_or('a'));
    }
    let n = match run.src.below(8) {
        0..=5 => run.src.range(0, 10),
        6 => run.src.range(0, 30),
        _ => run.src.range(0, 90),
    };
    for _ in 0..n {
        let k = if run.src.chance(1, 8) { run.src.below(6) } else { *run.src.pick(&kinds) };
        let c = match k {
            0 => any_of(run, STRONG),
            1 => any_of(run, SPACE),
            2 => any_of(run, WEAK),
            3 => any_of(run, FORMAT),
            4 => any_of(run, OTHER),
            _ => any_of(run, "\u{2029}\n\r\u{1C}"),
        };
        s.push(c);
    }
    s
}

/// Rule X9: these take no part in the display.
fn removed(c: BidiClass) -> bool {
    use unic::bidi::BidiClass::*;
    match c {
        RightToLeftEmbedding | LeftToRightEmbedding | RightToLeftOverride | LeftToRightOverride | PopDirectionalFormat
        | BoundaryNeutral => true,
        _ => false,
    }
}

fn space(c: BidiClass) -> bool {
    use unic::bidi::BidiClass::*;
    match c {
        WhiteSpace | FirstStrongIsolate | LeftToRightIsolate | RightToLeftIsolate | PopDirectionalIsolate => true,
        _ => false,
    }
}

fn separator(c: BidiClass) -> bool {
    c == BidiClass::ParagraphSeparator || c == BidiClass::SegmentSeparator
}

/// The line's displayed characters by offset with their levels after L1, and their display order after L2.
fn reference(info: &BidiInfo, para: &ParagraphInfo, line: &Range<usize>) -> (Vec<(usize, u8)>, Vec<usize>) {
    let mut v: Vec<(usize, BidiClass, u8)> = info.text[line.clone()]
        .char_indices()
        .map(|(i, _)| line.start + i)
        .map(|i| (i, info.original_classes[i], info.levels[i].number()))
        .filter(|x| !removed(x.1))
        .collect();
    // L1, from the end of the line
    let mut trailing = true;
    for x in v.iter_mut().rev() {
        if separator(x.1) {
            trailing = true;
        } else if !space(x.1) {
            trailing = false;
        }
        if trailing {
            x.2 = para.level.number();
        }
    }
    // L2
    let mut order: Vec<usize> = (0..v.len()).collect();
    let max = v.iter().map(|x| x.2).max().unwrap_or(0);
    for l in (1..=max).rev() {
        if !v.iter().any(|x| x.2 % 2 == 1 && x.2 <= l) {
            break; // the lowest odd level has been dealt with
        }
        let mut i = 0;
        while i < order.len() {
            let mut j = i;
            while j < order.len() && v[order[j]].2 >= l {
                j += 1;
            }
            if j > i {
                order[i..j].reverse();
                i = j;
            } else {
                i += 1;
            }
        }
    }
    let order = order.into_iter().map(|k| v[k].0).collect();
    (v.into_iter().map(|x| (x.0, x.2)).collect(), order)
}

fn show(info: &BidiInfo, para: &ParagraphInfo, line: &Range<usize>) -> String {
    format!(
        "line {:?} of paragraph {:?} (level {}) of \"{}\" (levels {})",
        line,
        para.range,
        para.level,
        esc(info.text),
        info.levels.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(",")
    )
}

/// The display order, by offsets, that a list of runs stands for.
fn flatten(info: &BidiInfo, levels: &[Level], runs: &[Range<usize>]) -> Vec<usize> {
    let mut v = vec![];
    for r in runs {
        let mut o: Vec<usize> = info.text[r.clone()].char_indices().map(|(i, _)| r.start + i).collect();
        // the level of a run is that of its displayed characters
        let level = o.iter().find(|&&i| !removed(info.original_classes[i])).map_or(levels[r.start], |&i| levels[i]);
        if level.is_rtl() {
            o.reverse();
        }
        v.extend(o);
    }
    v
}

fn ask(run: &mut Run, info: &BidiInfo, para: &ParagraphInfo, line: &Range<usize>) -> Res {
    let (levels, order) = reference(info, para, line);
    run.state(hash_str(&format!("{:?}{:?}", levels, order)));
    if order.windows(2).any(|p| p[0] > p[1]) {
        run.probe("line reordered");
    }
    let shown = |i: &usize| !removed(info.original_classes[*i]);
    let level_check = |what: &str, got: &dyn Fn(usize) -> Option<u8>| -> Res {
        for &(i, l) in &levels {
            let g = got(i);
            check!(g == Some(l), "level", "{}: {} gives the character at {} level {:?}, rule L1 says {}", show(info, para, line), what, i, g, l);
        }
        Ok(())
    };
    let kind = run.src.below(4);
    run.ev("ask", (kind as u64) << 40 | line.start as u64, line.end as u64);
    run.il((kind as u64) << 40 | (line.start as u64) << 20 | line.end as u64);
    match kind {
        0 => {
            let (lv, runs) = info.visual_runs(para, line.clone());
            level_check("visual_runs", &|i| lv.get(i).map(|l| l.number()))?;
            let mut sorted = runs.clone();
            sorted.sort_by_key(|r| r.start);
            let mut at = line.start;
            for r in &sorted {
                check!(r.start == at && (r.end > r.start || line.is_empty()), "partition", "{}: the runs {:?} do not make up the line", show(info, para, line), runs);
                at = r.end;
                check!(info.text.is_char_boundary(r.end), "partition", "{}: run {:?} cuts a character", show(info, para, line), r);
                let mut of: Vec<u8> = (r.start..r.end)
                    .filter(|&i| info.text.is_char_boundary(i) && shown(&i))
                    .map(|i| lv[i].number())
                    .collect();
                of.dedup();
                check!(of.len() <= 1, "uniform", "{}: run {:?} has levels {:?}", show(info, para, line), r, of);
            }
            check!(at == line.end, "partition", "{}: the runs {:?} do not make up the line", show(info, para, line), runs);
            let got: Vec<usize> = flatten(info, &lv, &runs).into_iter().filter(shown).collect();
            check!(got == order, "order", "{}: the runs {:?} show {:?}, rule L2 says {:?}", show(info, para, line), runs, got, order);
        }
        1 => {
            let got = info.reorder_line(para, line.clone());
            let mut a: Vec<char> = got.chars().collect();
            let mut b: Vec<char> = info.text[line.clone()].chars().collect();
            let shown_text = |c: &char| !removed(class(*c));
            let got_shown: String = a.iter().copied().filter(shown_text).collect();
            let want: String = order.iter().map(|&i| info.text[i..].chars().next().unwrap()).collect();
            check!(got_shown == want, "order", "{}: reordered to \"{}\", rules L1 and L2 say \"{}\"", show(info, para, line), esc(&got_shown), esc(&want));
            a.sort();
            b.sort();
            check!(a == b, "conserved", "{}: reordered to \"{}\"", show(info, para, line), esc(&got));
        }
        2 => {
            let lv = info.reordered_levels(para, line.clone());
            level_check("reordered_levels", &|i| lv.get(i).map(|l| l.number()))?;
        }
        _ => {
            let lv = info.reordered_levels_per_char(para, line.clone());
            let nth = |i: usize| info.text[..i].chars().count();
            level_check("reordered_levels_per_char", &|i| lv.get(nth(i)).map(|l| l.number()))?;
        }
    }
    Ok(())
}

/// Breaks a paragraph into lines of at most so many characters, or at random.
fn breaks(run: &mut Run, t: &str, r: &Range<usize>) -> Vec<Range<usize>> {
    let offs: Vec<usize> = offsets(&t[r.clone()]).into_iter().map(|o| o + r.start).collect();
    let n = offs.len() - 1;
    let mut v = vec![];
    let mut at = 0;
    let width = match run.src.below(4) {
        0 => n.max(1),
        1 => 1,
        _ => run.src.range(1, n.clamp(1, 20)),
    };
    let ragged = run.src.chance(1, 2);
    while at < n {
        let k = if ragged { run.src.range(1, width) } else { width };
        let to = (at + k).min(n);
        if ragged && run.src.chance(1, 12) {
            v.push(offs[at]..offs[at]);
        }
        v.push(offs[at]..offs[to]);
        at = to;
    }
    // a client that breaks after everything has an empty line at the end
    if run.src.chance(1, 12) {
        v.push(offs[n]..offs[n]);
        run.probe("empty line");
    }
    v
}

struct Doc<'a> {
    info: BidiInfo<'a>,
    level: Option<Level>,
    /// the lines of every paragraph, as laid out last
    lines: Vec<Vec<Range<usize>>>,
}

pub fn layout(run: &mut Run) -> Res {
    let n = run.src.range(1, 2);
    let texts: Vec<String> = (0..n).map(|_| text(run)).collect();
    let mut docs: Vec<Doc> = vec![];
    for t in &texts {
        let level = [None, Some(Level::ltr()), Some(Level::rtl())][run.src.below(3)];
        run.il(hash_str(t));
        run.note(|| format!("text \"{}\", base level {:?}", esc(t), level));
        let info = BidiInfo::new(t, level);
        let lines = info.paragraphs.iter().map(|p| vec![p.range.clone()]).collect();
        docs.push(Doc { info, level, lines });
    }
    let steps = run.src.range(1, 20);
    for _ in 0..steps {
        let d = run.src.below(n);
        let doc = &mut docs[d];
        if doc.info.paragraphs.is_empty() {
            continue;
        }
        let p = run.src.below(doc.info.paragraphs.len());
        match run.src.below(8) {
            0 | 1 => {
                // the width changes
                doc.lines[p] = breaks(run, doc.info.text, &doc.info.paragraphs[p].range);
                run.fault("relayout");
                run.ev("relayout", p as u64, doc.lines[p].len() as u64);
            }
            2 => {
                // everything computed is lost; the text and the breaks are kept
                let t = doc.info.text;
                doc.info = BidiInfo::new(t, doc.level);
                run.fault("recomputed");
                run.ev("recompute", d as u64, 0);
            }
            3 => {
                // all lines of the paragraph in order
                for k in 0..doc.lines[p].len() {
                    ask(run, &doc.info, &doc.info.paragraphs[p], &doc.lines[p][k])?;
                }
            }
            _ => {
                let k = run.src.below(doc.lines[p].len());
                let para = doc.info.paragraphs[p].clone();
                ask(run, &doc.info, &para, &doc.lines[p][k])?;
            }
        }
    }
    Ok(())
}
