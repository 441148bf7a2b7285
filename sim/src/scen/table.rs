//! R03: character tables shared by several readers: iterators at different places and lookups, interleaved.
//!
//! Simulated: the tables' contents (sorted, as the generator writes them), the readers and their schedule.
//! Real: CharDataTable, its iterator and lookups; Block and BlockIter with the real table.  Model: a sorted list (of
//! blocks: a frozen copy of the Unicode 10 ones).

use crate::check;
use crate::core::*;
use crate::scen::chars::{compact, end, expand, COUNT};
use std::cell::RefCell;
use unic::char::property::tables::{CharDataTable, CharDataTableIter};
use unic::char::range::CharRange;
use unic::ucd::block::{Block, BlockIter};

type Entry = (i64, i64, u32); // first, last, value

/// A sorted table without overlaps.
fn entries(run: &mut Run, single: bool) -> Vec<Entry> {
    let n = match run.src.below(6) {
        0 => run.src.range(0, 2),
        5 => run.src.range(0, 120),
        _ => run.src.range(1, 12),
    };
    let mut cuts: Vec<i64> = vec![];
    let dense = run.src.chance(1, 2);
    let base = compact(end(run));
    for _ in 0..2 * n {
        cuts.push(if dense { (base + run.src.below(4 * n) as i64).min(COUNT - 1) } else { compact(end(run)) });
    }
    cuts.sort();
    if single {
        cuts.dedup();
        return cuts.into_iter().take(n).enumerate().map(|(k, c)| (c, c, k as u32 + 1)).collect();
    }
    let mut v: Vec<Entry> = vec![];
    for p in cuts.chunks(2) {
        let lo = v.last().map_or(p[0], |l| p[0].max(l.1 + 1));
        if lo <= p[1] {
            v.push((lo, p[1], v.len() as u32 + 1));
        }
    }
    v
}

struct Arena {
    direct: Vec<Box<[(char, u32)]>>,
    ranges: Vec<Box<[(CharRange, u32)]>>,
}

thread_local!(static ARENA: RefCell<Arena> = const { RefCell::new(Arena { direct: vec![], ranges: vec![] }) });

/// The tables want `'static` contents; they live until the next run of this worker.
fn table(v: &[Entry], single: bool) -> CharDataTable<u32> {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        if single {
            a.direct.push(v.iter().map(|e| (expand(e.0), e.2)).collect());
            let b: *const [(char, u32)] = &**a.direct.last().unwrap();
            CharDataTable::Direct(unsafe { &*b })
        } else {
            a.ranges.push(v.iter().map(|e| (CharRange::closed(expand(e.0), expand(e.1)), e.2)).collect());
            let b: *const [(CharRange, u32)] = &**a.ranges.last().unwrap();
            CharDataTable::Range(unsafe { &*b })
        }
    })
}

struct World {
    single: bool,
    entries: Vec<Entry>,
    table: CharDataTable<u32>,
}

fn near(run: &mut Run, v: &[Entry]) -> char {
    if v.is_empty() || run.src.chance(1, 6) {
        return end(run);
    }
    let e = *run.src.pick(v);
    let at = if run.src.chance(1, 2) { e.0 } else { e.1 };
    expand((at + run.src.below(5) as i64 - 2).clamp(0, COUNT - 1))
}

fn hit(v: &[Entry], c: i64) -> Option<Entry> {
    v.iter().copied().find(|e| e.0 <= c && c <= e.1)
}

fn shown(x: &Option<(CharRange, u32)>) -> Option<Entry> {
    x.map(|(r, v)| (compact(r.low), compact(r.high), v))
}

fn lookup(run: &mut Run, w: &World) -> Res {
    let c = near(run, &w.entries);
    let want = hit(&w.entries, compact(c));
    let what = run.src.below(4);
    run.ev("lookup", what as u64, c as u64);
    let name = || format!("{:?} in {} table {:?}", c, if w.single { "direct" } else { "range" }, w.entries);
    match what {
        0 => {
            let got = w.table.find(c);
            check!(got == want.map(|e| e.2), "find", "find({}): {:?}, expected {:?}", name(), got, want)
        }
        1 => {
            let got = w.table.contains(c);
            check!(got == want.is_some(), "contains", "contains({}): {}", name(), got)
        }
        2 => {
            let got = w.table.find_or_default(c);
            check!(got == want.map_or(0, |e| e.2), "find-or-default", "find_or_default({}): {}", name(), got)
        }
        _ => {
            let got = shown(&w.table.find_with_range(c));
            let want = if w.single { None } else { want };
            check!(got == want, "find-with-range", "find_with_range({}): {:?}, expected {:?}", name(), got, want)
        }
    }
    Ok(())
}

enum Reader<'a> {
    Table(usize, CharDataTableIter<'a, u32>, usize),
    Blocks(BlockIter<'static>, usize),
}

fn blocks() -> &'static [(i64, i64, &'static str)] {
    static B: std::sync::OnceLock<Vec<(i64, i64, &'static str)>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        // those of surrogates hold no characters
        let whole = crate::data::blocks::TABLE.iter().filter(|b| !(0xD800 <= b.0 && b.1 <= 0xDFFF));
        whole.map(|b| (compact(char::from_u32(b.0).unwrap()), compact(char::from_u32(b.1).unwrap()), b.2)).collect()
    })
}

pub fn tables(run: &mut Run) -> Res {
    ARENA.with(|a| {
        let mut a = a.borrow_mut();
        a.direct.clear();
        a.ranges.clear();
    });
    let n = run.src.range(1, 3);
    let mut ws: Vec<World> = vec![];
    for _ in 0..n {
        let single = run.src.chance(1, 2);
        let e = entries(run, single);
        run.note(|| format!("{} table {:?}", if single { "direct" } else { "range" }, e));
        run.il(hash_str(&format!("{:?}", e)));
        ws.push(World { single, table: table(&e, single), entries: e });
    }
    let bl = blocks();
    let mut readers: Vec<Reader> = vec![];
    for step in 0..run.src.range(1, 60) {
        if readers.is_empty() || readers.len() < 6 && run.src.chance(1, 8) {
            let k = run.src.below(n + 1);
            run.ev("open", k as u64, 0);
            readers.push(if k == n { Reader::Blocks(BlockIter::default(), 0) } else { Reader::Table(k, ws[k].table.iter(), 0) });
            continue;
        }
        match run.src.below(8) {
            0 => {
                let k = run.src.below(readers.len());
                run.fault("reader_abandoned");
                run.ev("abandon", k as u64, 0);
                readers.swap_remove(k);
            }
            1 | 2 => {
                let k = run.src.below(n);
                lookup(run, &ws[k])?;
            }
            3 => {
                // a block by one of its characters, or between blocks
                let b = *run.src.pick(bl);
                let at = [b.0, b.1, b.0 - 1, b.1 + 1, b.0 + run.src.below((b.1 - b.0 + 1) as usize) as i64][run.src.below(5)].clamp(0, COUNT - 1);
                let want = bl.iter().find(|x| x.0 <= at && at <= x.1);
                let got = Block::of(expand(at)).map(|b| (compact(b.range.low), compact(b.range.high), b.name));
                run.ev("block", at as u64, 0);
                check!(got.as_ref() == want, "block-of", "Block::of({:?}): {:?}, Unicode 10 has {:?}", expand(at), got, want);
            }
            _ => {
                let k = run.src.below(readers.len());
                let steps = match run.src.below(8) {
                    0 => run.src.range(2, 12),
                    1 => 1000, // to the end and beyond
                    _ => 1,
                };
                run.il(mix(step as u64, (k * 1000 + steps) as u64));
                run.ev("read", k as u64, steps as u64);
                let by_nth = steps > 1 && steps < 100 && run.src.chance(1, 3);
                match &mut readers[k] {
                    Reader::Table(t, it, at) => {
                        let e = &ws[*t].entries;
                        for _ in 0..if by_nth { 1 } else { steps } {
                            let skip = match by_nth {
                                true if run.src.chance(1, 10) => super::chars::far(run),
                                true => steps,
                                false => 0,
                            };
                            let (lo, hi) = it.size_hint();
                            let left = e.len() - (*at).min(e.len());
                            check!(lo <= left && hi.map_or(true, |h| h >= left), "size-hint", "{:?} with {} entries left", (lo, hi), left);
                            let want = e.get(at.saturating_add(skip)).copied();
                            let got = shown(&if by_nth { it.nth(skip) } else { it.next() });
                            check!(got == want, "iteration", "entry {} of {:?}: {:?}, expected {:?}", at.saturating_add(skip), e, got, want);
                            *at = at.saturating_add(skip).saturating_add(1).min(e.len());
                            if got.is_none() && steps == 1000 && run.src.chance(1, 2) {
                                break;
                            }
                        }
                    }
                    Reader::Blocks(it, at) => {
                        for _ in 0..steps.min(400) {
                            let want = bl.get(*at).copied();
                            let got = it.next().map(|b| (compact(b.range.low), compact(b.range.high), b.name));
                            check!(got == want, "block-iteration", "block {}: {:?}, expected {:?}", at, got, want);
                            *at = (*at + 1).min(bl.len());
                        }
                    }
                }
                let places = readers.iter().fold(0, |h, r| mix(h, match r { Reader::Table(t, _, at) => (t * 1000 + at) as u64, Reader::Blocks(_, at) => *at as u64 + 1_000_000 }));
                run.state(places);
            }
        }
    }
    Ok(())
}
