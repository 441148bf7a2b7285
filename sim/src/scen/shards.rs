//! R06: the code space divided between shards by character ranges, and requests routed to them.
//!
//! Simulated: the shards, which split, merge, die and are taken over, and routers with tables of their own, up to date or
//! not.  Real: the ranges with their constructors, comparison, membership, equality and length.  Model: intervals.

use crate::check;
use crate::core::*;
use crate::scen::chars::{compact, end, expand, COUNT};
use std::cmp::Ordering;
use std::collections::Bound;
use unic::char::range::{chars, CharRange};

/// A range for the characters `lo..hi` (compact), constructed in one of the ways there are.
fn build(run: &mut Run, lo: i64, hi: i64) -> CharRange {
    let (first, last) = (expand(lo), expand(hi - 1));
    let before = (lo > 0).then(|| expand(lo - 1));
    let after = (hi < COUNT).then(|| expand(hi));
    match (run.src.below(12), before, after) {
        (0, _, _) => CharRange { low: first, high: last },
        (1, _, _) => chars!(first..=last),
        (2, _, Some(a)) => chars!(first..a),
        (3, _, Some(a)) => CharRange::open_right(first, a),
        (4, Some(b), _) => CharRange::open_left(b, last),
        (5, Some(b), Some(a)) => CharRange::open(b, a),
        (6, Some(b), Some(a)) => CharRange::bound(Bound::Excluded(b), Bound::Excluded(a)),
        (7, None, _) => CharRange::bound(Bound::Unbounded, Bound::Included(last)),
        (7, _, None) => CharRange::bound(Bound::Included(first), Bound::Unbounded),
        (8, Some(b), None) => CharRange::bound(Bound::Excluded(b), Bound::Unbounded),
        (9, None, Some(a)) => CharRange::bound(Bound::Unbounded, Bound::Excluded(a)),
        (10, None, None) => chars!(..),
        (11, _, _) => CharRange::closed(first, last).iter().into(),
        _ => CharRange::closed(first, last),
    }
}

/// A range without characters, made in one of the ways there are.
fn empty(run: &mut Run) -> CharRange {
    let a = end(run);
    let c = compact(a);
    let less = expand((c - 1 - run.src.below(3) as i64).max(0));
    match run.src.below(6) {
        0 => CharRange::open_right(a, a),
        1 => CharRange::open_left(a, a),
        2 => CharRange::open(a, a),
        3 if c > 0 => CharRange::closed(a, less),
        4 if c > 0 => CharRange::open(less, a).iter().skip(5).next().map_or(CharRange::open(expand(c - 1), a), |_| CharRange::open(a, less)),
        _ => {
            // what is left of a range when all has been read
            let mut i = CharRange::closed(a, a).iter();
            if run.src.chance(1, 2) { i.next() } else { i.next_back() };
            i.into()
        }
    }
}

#[derive(Clone)]
struct Shard {
    range: CharRange,
    lo: i64,
    hi: i64,
    owner: u32,
}

/// Everything a range answers about one character.
fn asked(s: &Shard, c: char) -> Res {
    let i = compact(c);
    let inside = s.lo <= i && i < s.hi;
    let want = if i < s.lo { Ordering::Greater } else if i >= s.hi { Ordering::Less } else { Ordering::Equal };
    let r = s.range;
    check!(r.contains(c) == inside, "contains", "{:?} contains {:?}: {}", r, c, !inside);
    check!(r.cmp_char(c) == want, "cmp_char", "{:?} compared with {:?}: {:?}, expected {:?}", r, c, r.cmp_char(c), want);
    Ok(())
}

pub fn shards(run: &mut Run) -> Res {
    let (lo, hi) = match run.src.below(3) {
        0 => (0, COUNT),
        _ => {
            let (a, b) = (compact(end(run)), compact(end(run)));
            (a.min(b), a.max(b) + 1)
        }
    };
    let range = build(run, lo, hi);
    let mut shards = vec![Shard { range, lo, hi, owner: 0 }];
    // tables of routers: copies of the division at some time
    let mut routers: Vec<Vec<Shard>> = vec![shards.clone(); run.src.range(1, 3)];
    let mut owners = 1;
    run.note(|| format!("one shard for {:?}", range));
    for _ in 0..run.src.range(2, 40) {
        let what = if shards.is_empty() { 3 } else { run.src.weighted(&[6, 2, 1, 1, 3, 8, 2, 2, 1]) };
        run.il(what as u64);
        run.stats.steps += 1;
        match what {
            0 => {
                // a shard divides
                let k = run.src.below(shards.len());
                let s = shards[k].clone();
                if s.hi - s.lo < 2 {
                    continue;
                }
                let near = run.src.below(4) as i64;
                let at = match run.src.below(4) {
                    0 => s.lo + 1 + near,
                    1 => s.hi - 1 - near,
                    2 => compact(end(run)),
                    _ => s.lo + 1 + run.src.below((s.hi - s.lo - 1) as usize) as i64,
                }
                .clamp(s.lo + 1, s.hi - 1);
                let (a, b) = (build(run, s.lo, at), build(run, at, s.hi));
                run.note(|| format!("{:?} divides into {:?} and {:?}", s.range, a, b));
                run.ev("divide", k as u64, at as u64);
                check!(a.len() + b.len() == s.range.len(), "len", "{:?} has {} characters, its parts {:?} and {:?} {} and {}", s.range, s.range.len(), a, b, a.len(), b.len());
                check!(a != b && a != s.range && b != s.range && !a.is_empty() && !b.is_empty(), "equality", "{:?}, {:?} and {:?} are not three ranges", s.range, a, b);
                owners += 1;
                shards[k] = Shard { range: a, hi: at, ..s.clone() };
                shards.insert(k + 1, Shard { range: b, lo: at, hi: s.hi, owner: owners });
            }
            1 => {
                // neighbours unite
                let k = run.src.below(shards.len());
                if k + 1 == shards.len() || shards[k].hi != shards[k + 1].lo {
                    continue;
                }
                let s = shards.remove(k + 1);
                shards[k].hi = s.hi;
                shards[k].range = if run.src.chance(1, 2) { CharRange::closed(shards[k].range.low, s.range.high) } else { build(run, shards[k].lo, s.hi) };
                run.note(|| format!("shards unite: {:?}", shards[k].range));
            }
            2 => {
                // a shard dies: nobody answers for its characters
                let k = run.src.below(shards.len());
                run.fault("shard died");
                run.note(|| format!("the shard for {:?} dies", shards[k].range));
                shards.remove(k);
            }
            3 => {
                // somebody takes over what nobody has
                let mut gaps = vec![];
                let mut from = lo;
                for s in &shards {
                    if s.lo > from {
                        gaps.push((from, s.lo));
                    }
                    from = s.hi;
                }
                if from < hi {
                    gaps.push((from, hi));
                }
                if gaps.is_empty() {
                    continue;
                }
                let g = *run.src.pick(&gaps);
                owners += 1;
                let range = build(run, g.0, g.1);
                run.note(|| format!("a new shard for {:?}", range));
                let at = shards.iter().position(|s| s.lo > g.0).unwrap_or(shards.len());
                shards.insert(at, Shard { range, lo: g.0, hi: g.1, owner: owners });
            }
            4 => {
                // a router is told of the division now; otherwise it goes on with what it knew
                let n = run.src.below(routers.len());
                routers[n] = shards.clone();
            }
            5 => {
                // a request is routed
                let n = run.src.below(routers.len());
                let t = &routers[n];
                let c = match run.src.below(4) {
                    0 => end(run),
                    k if !t.is_empty() => {
                        let s = run.src.pick(t);
                        let i = match k { 1 => s.lo - run.src.below(2) as i64, 2 => s.hi - run.src.below(2) as i64, _ => s.lo + run.src.below((s.hi - s.lo) as usize) as i64 };
                        expand(i.clamp(0, COUNT - 1))
                    }
                    _ => expand(run.src.below(COUNT as usize) as i64),
                };
                let i = compact(c);
                let want = t.iter().find(|s| s.lo <= i && i < s.hi).map(|s| s.owner);
                let by_order = t.binary_search_by(|s| s.range.cmp_char(c)).ok().map(|k| t[k].owner);
                let by_member: Vec<u32> = t.iter().filter(|s| s.range.contains(c)).map(|s| s.owner).collect();
                run.ev("route", n as u64, want.unwrap_or(0) as u64);
                run.state(mix(t.len() as u64, i as u64));
                check!(by_order == want && by_member == want.into_iter().collect::<Vec<_>>(), "route", "{:?} is routed to {:?} (by order), {:?} (by membership), expected {:?}; table {:?}", c, by_order, by_member, want, t.iter().map(|s| s.range).collect::<Vec<_>>());
                for s in t.iter().take(3) {
                    asked(s, c)?;
                }
            }
            6 => {
                // an inventory
                let k = run.src.below(shards.len());
                let s = &shards[k];
                let r = s.range;
                check!(r.len() as i64 == s.hi - s.lo && !r.is_empty(), "len", "{:?} says it has {} characters ({}), expected {}", r, r.len(), if r.is_empty() { "empty" } else { "not empty" }, s.hi - s.lo);
                let (mut i, want) = (r.iter(), (expand(s.lo), expand(s.hi - 1)));
                let got = (i.next(), i.next_back().or(Some(want.0)));
                check!(got == (Some(want.0), Some(want.1)), "ends", "{:?} begins and ends with {:?}, expected {:?}", r, got, want);
                asked(s, want.0)?;
                asked(s, want.1)?;
            }
            7 => {
                // a shard is looked for by its range, put in another way
                let n = run.src.below(routers.len());
                if routers[n].is_empty() {
                    continue;
                }
                let s = routers[n][run.src.below(routers[n].len())].clone();
                let r = build(run, s.lo, s.hi);
                let found: Vec<u32> = routers[n].iter().filter(|x| x.range == r).map(|x| x.owner).collect();
                check!(found == [s.owner] && !(s.range != r), "equality", "{:?} equals {:?}: found {:?}, expected shard {}", r, s.range, found, s.owner);
            }
            _ => {
                // a shard without characters is nobody's
                let e = empty(run);
                let f = empty(run);
                run.note(|| format!("empty ranges {:?} and {:?}", e, f));
                check!(e.is_empty() && e.len() == 0 && e.iter().next().is_none() && e.iter().next_back().is_none(), "empty", "{:?} is empty but says {} and has {} characters", e, e.is_empty(), e.len());
                check!(e == f && !(e != f), "empty", "{:?} and {:?} are both empty and not equal", e, f);
                let c = end(run);
                check!(!e.contains(c) && !e.contains(e.low) && !e.contains(e.high), "empty", "{:?} is empty and contains characters", e);
                if let Some(s) = shards.first() {
                    check!(s.range != e, "empty", "{:?} equals {:?}", s.range, e);
                }
            }
        }
    }
    let total: i64 = shards.iter().map(|s| s.range.len() as i64).sum();
    let want: i64 = shards.iter().map(|s| s.hi - s.lo).sum();
    check!(total == want, "total", "the shards hold {} characters, expected {}", total, want);
    Ok(())
}
