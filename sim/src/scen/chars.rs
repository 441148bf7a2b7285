//! R01: character ranges with two consumers.

use crate::check;
use crate::core::*;
use std::collections::Bound;
use unic::char::range::{chars, CharIter, CharRange};

pub fn compact(c: char) -> i64 {
    let c = c as i64;
    if c < 0xD800 {
        c
    } else {
        c - 0x800
    }
}
pub fn expand(i: i64) -> char {
    char::from_u32(if i < 0xD800 { i } else { i + 0x800 } as u32).expect("scalar value")
}
pub const COUNT: i64 = 0x110000 - 0x800;

/// An end of a range: near the special places most of the time.
pub fn end(run: &mut Run) -> char {
    let special: [i64; 8] = [0, COUNT - 1, 0xD7FF, 0xD800, 0x7F, 0xFFFF - 0x800, 0x10000 - 0x800, 0xD7F0];
    let i = match run.src.below(5) {
        0..=3 => *run.src.pick(&special) + run.src.below(9) as i64 - 4,
        _ => run.src.below(COUNT as usize) as i64,
    };
    expand(i.clamp(0, COUNT - 1))
}

/// A range and the set it denotes (compact, half-open; lo >= hi means empty).
pub fn range(run: &mut Run) -> (CharRange, i64, i64) {
    let a = end(run);
    let b = match run.src.below(6) {
        0..=2 => expand((compact(a) + run.src.below(8) as i64).min(COUNT - 1)),
        3 => expand((compact(a) + run.src.below(3000) as i64).min(COUNT - 1)),
        4 => expand((compact(a) - run.src.below(4) as i64).max(0)),
        _ => end(run),
    };
    let (x, y) = (compact(a), compact(b));
    let r = match run.src.below(12) {
        0 | 1 => (CharRange::closed(a, b), x, y + 1),
        2 => (CharRange::open_right(a, b), x, y),
        3 => (CharRange::open_left(a, b), x + 1, y + 1),
        4 => (CharRange::open(a, b), x + 1, y),
        5 => (CharRange::bound(Bound::Excluded(a), Bound::Unbounded), x + 1, COUNT),
        6 => (CharRange::bound(Bound::Unbounded, Bound::Included(b)), 0, y + 1),
        7 => (CharRange::bound(Bound::Included(a), Bound::Excluded(b)), x, y),
        8 => (chars!(a..=b), x, y + 1),
        9 => (chars!(a..b), x, y),
        10 => (CharRange { low: a, high: b }, x, y + 1),
        _ => (chars!(..), 0, COUNT),
    };
    if r.1 >= r.2 {
        (r.0, 0, 0)
    } else {
        r
    }
}

/// An amount far beyond any range, the lower bits of which are those of a small one or of none.
pub fn far(run: &mut Run) -> usize {
    run.probe("skipped far beyond the end");
    let near = run.src.below(40);
    match run.src.below(5) {
        0 => usize::MAX - near,
        1 => (1 << 32) + near,
        2 => (1 << 63) + near,
        3 => (1 << 31) + near,
        _ => (1 << 32) - 1 - near,
    }
}

pub fn ends(run: &mut Run) -> Res {
    let (r, mut lo, mut hi) = range(run);
    run.il(mix(lo as u64, hi as u64));
    run.note(|| format!("range {:?}: {} characters", r, hi - lo));
    let mut it: CharIter = if run.src.chance(1, 2) { r.iter() } else { r.into_iter() };
    let mut saved: Vec<(CharIter, i64, i64)> = vec![];
    let what = format!("{:X}..={:X}", r.low as u32, r.high as u32);
    let mut past = 0;
    let mut last = 0;
    for step in 0..200 {
        let left = (hi - lo) as usize;
        check!(it.len() == left, "len", "{}: reports {} with {} left", what, it.len(), left);
        check!(it.size_hint() == (left, Some(left)), "len", "{}: size hint {:?} with {} left", what, it.size_hint(), left);
        let op = run.src.weighted(&[8, 8, 2, 2, 1, 1, 2, 2, 1]);
        run.il(op as u64);
        if op <= 1 && step > 0 && last != op {
            run.nontrivial = true;
            last = op;
        }
        let first = if left > 0 { Some(expand(lo)) } else { None };
        let final_ = if left > 0 { Some(expand(hi - 1)) } else { None };
        match op {
            0 => {
                let got = it.next();
                run.ev("next", got.map_or(u64::MAX, |c| c as u64), 0);
                check!(got == first, "front", "{}: front gave {:?}, expected {:?}", what, got, first);
                lo += (left > 0) as i64;
            }
            1 => {
                let got = it.next_back();
                run.ev("next_back", got.map_or(u64::MAX, |c| c as u64), 0);
                check!(got == final_, "back", "{}: back gave {:?}, expected {:?}", what, got, final_);
                hi -= (left > 0) as i64;
            }
            2 | 3 => {
                let k = match run.src.below(8) {
                    0..=5 => run.src.below(4),
                    6 if left < 5000 && run.src.chance(1, 20) => far(run),
                    6 if run.src.chance(1, 3000) => left.saturating_sub(run.src.below(3)),
                    6 => left.min(3000).saturating_sub(run.src.below(3)),
                    7 if run.src.chance(1, 3000) => run.src.below(0x120000),
                    _ => run.src.below(2500),
                };
                let ok = k < left;
                if op == 2 {
                    let got = it.nth(k);
                    let want = if ok { Some(expand(lo + k as i64)) } else { None };
                    run.ev("nth", got.map_or(u64::MAX, |c| c as u64), k as u64);
                    check!(got == want, "front", "{}: nth({}) gave {:?}, expected {:?}", what, k, got, want);
                    lo += k.saturating_add(1).min(left) as i64;
                } else {
                    let got = it.nth_back(k);
                    let want = if ok { Some(expand(hi - 1 - k as i64)) } else { None };
                    run.ev("nth_back", got.map_or(u64::MAX, |c| c as u64), k as u64);
                    check!(got == want, "back", "{}: nth_back({}) gave {:?}, expected {:?}", what, k, got, want);
                    hi -= k.saturating_add(1).min(left) as i64;
                }
            }
            4 => {
                let (a, b, c) = (it.clone().last(), it.clone().max(), it.clone().min());
                run.ev("last", a.map_or(u64::MAX, |c| c as u64), 0);
                check!(a == final_ && b == final_ && c == first, "ends", "{}: last {:?} max {:?} min {:?}, expected {:?} and {:?}", what, a, b, c, final_, first);
            }
            5 => {
                if left <= 3000 {
                    // a copy runs to its end through internal iteration
                    let mode = run.src.below(4);
                    let mut got: Vec<char> = match mode {
                        0 => it.clone().collect(),
                        1 => { let mut v: Vec<char> = it.clone().rev().collect(); v.reverse(); v }
                        2 => it.clone().fold(vec![], |mut v, c| { v.push(c); v }),
                        _ => { let mut v = it.clone().rfold(vec![], |mut v, c| { v.push(c); v }); v.reverse(); v }
                    };
                    got.push('x');
                    run.ev("copy", got.len() as u64, mode as u64);
                    let mut want: Vec<char> = (lo..hi).map(expand).collect();
                    want.push('x');
                    check!(got == want, "copy", "{}: a copy gave {} characters, expected {}; first difference {:?}", what, got.len() - 1, want.len() - 1,
                        got.iter().zip(&want).position(|(a, b)| a != b));
                    check!(it.clone().count() == left, "copy", "{}: count {} with {} left", what, it.clone().count(), left);
                } else if run.src.chance(1, 1500) {
                    // the same for a large one
                    let mode = run.src.below(4);
                    run.ev("large-copy", left as u64, mode as u64);
                    run.probe("large_copy");
                    let (mut n, mut wrong) = (0i64, None);
                    let mut see = |c: char, back: bool| {
                        let i = if back { hi - 1 - n } else { lo + n };
                        if wrong.is_none() && (i < lo || i >= hi || c != expand(i)) {
                            wrong = Some((n, c));
                        }
                        n += 1;
                    };
                    match mode {
                        0 => it.clone().for_each(|c| see(c, false)),
                        1 => it.clone().rev().for_each(|c| see(c, true)),
                        2 => it.clone().fold((), |_, c| see(c, false)),
                        _ => it.clone().rfold((), |_, c| see(c, true)),
                    }
                    check!(wrong.is_none() && n == hi - lo, "copy", "{}: a copy gave {} characters, expected {}; first difference {:?}", what, n, hi - lo, wrong);
                    check!(it.clone().count() == left, "copy", "{}: count {} with {} left", what, it.clone().count(), left);
                }
            }
            6 => {
                if saved.len() < 4 && run.src.chance(1, 2) {
                    saved.push((it.clone(), lo, hi));
                    run.ev("checkpoint", lo as u64, hi as u64);
                } else if !saved.is_empty() {
                    let k = run.src.below(saved.len());
                    let s = saved[k].clone();
                    it = s.0;
                    lo = s.1;
                    hi = s.2;
                    run.fault("restore_checkpoint");
                    run.ev("restore", lo as u64, hi as u64);
                }
            }
            7 => {
                // through the range and back
                let r2 = CharRange::from(it.clone());
                run.fault("range_round_trip");
                run.ev("round-trip", r2.low as u64, r2.high as u64);
                check!(r2.is_empty() == (left == 0) && r2.len() == left, "round-trip", "{}: as a range it has {} characters, {} left", what, r2.len(), left);
                if left > 0 {
                    check!(r2 == CharRange::closed(expand(lo), expand(hi - 1)), "round-trip", "{}: became {:?}", what, r2);
                    for c in [lo - 1, lo, hi - 1, hi] {
                        if (0..COUNT).contains(&c) {
                            check!(r2.contains(expand(c)) == (lo <= c && c < hi), "round-trip", "{}: contains({:X}) is wrong", what, expand(c) as u32);
                        }
                    }
                } else {
                    check!(r2 == CharRange::closed('b', 'a'), "round-trip", "{}: exhausted iterator became {:?}", what, r2);
                }
                it = r2.into_iter();
            }
            _ => {
                let k = run.src.below(5);
                let front = run.src.chance(1, 2);
                let got: Vec<char> = if front { it.by_ref().take(k).collect() } else { it.by_ref().rev().take(k).collect() };
                let n = k.min(left) as i64;
                let want: Vec<char> = if front { (lo..lo + n).map(expand).collect() } else { (hi - n..hi).rev().map(expand).collect() };
                run.ev("burst", got.len() as u64, front as u64);
                check!(got == want, "burst", "{}: burst gave {:?}, expected {:?}", what, got, want);
                if front { lo += n } else { hi -= n }
            }
        }
        run.state(mix(lo as u64, hi as u64));
        if lo >= hi {
            run.probe("exhausted");
            past += 1;
            if past > 6 && !run.src.chance(1, 3) {
                break;
            }
        }
        if step > 12 && run.src.chance(1, 25) {
            break;
        }
    }
    Ok(())
}
