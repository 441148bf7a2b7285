//! R02: parallel range iteration on a simulated work-stealing pool.

use crate::check;
use crate::core::*;
use crate::scen::chars::{expand, range};
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::prelude::*;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use unic::char::range::CharRange;

fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}

/// Runs `f` on a simulated pool; its decisions come from the run's tape.
fn on_pool<R>(run: &mut Run, threads: usize, f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    let src = std::mem::replace(&mut run.src, Src::replay(vec![]));
    let shared = Arc::new(Mutex::new((src, Vec::<(&'static str, usize)>::new())));
    let c = shared.clone();
    // switches are rarer in some runs than in others
    let den = { lock(&c).0.range(1, 6) };
    rayon_core::sim::install(
        threads,
        Box::new(move |what, n| {
            let mut g = lock(&c);
            if g.0.rec.len() > 200_000 {
                return 0;
            }
            let k = match what {
                "switch" => {
                    if g.0.chance(1, den) {
                        1 + g.0.below(n - 1)
                    } else {
                        0
                    }
                }
                _ => g.0.below(n),
            };
            g.1.push((what, k));
            k
        }),
    );
    let r = catch_unwind(AssertUnwindSafe(f));
    rayon_core::sim::uninstall();
    let (src, log) = Arc::try_unwrap(shared).map_err(|_| ()).expect("pool gone").into_inner().unwrap_or_else(|e| e.into_inner());
    run.src = src;
    let mut steals = 0;
    for (what, k) in log {
        if what == "steal" {
            steals += k;
            if k > 0 {
                run.fault("steal");
            }
        } else if what == "switch" && k > 0 {
            run.fault("preemption");
        }
        run.il(mix(hash_str(what), k as u64));
    }
    run.ev("pool", threads as u64, steals as u64);
    r
}

struct Split<'a> {
    src: Arc<Mutex<Src>>,
    out: &'a Mutex<Vec<(usize, Vec<char>, bool)>>,
    total: usize,
}
impl ProducerCallback<char> for Split<'_> {
    type Output = ();
    fn callback<P: Producer<Item = char>>(self, p: P) {
        let n = self.total;
        self.go(p, 0, n, 0);
    }
}
impl Split<'_> {
    /// Splits at arbitrary places and drains every part from an arbitrary mix of both ends.
    fn go<P: Producer<Item = char>>(&self, p: P, at: usize, len: usize, depth: usize) {
        let (split, k) = {
            let mut s = lock(&self.src);
            (depth < 6 && s.chance(2, 3), s.range(0, len))
        };
        if split {
            let (a, b) = p.split_at(k);
            let back = lock(&self.src).chance(1, 2);
            if back {
                self.go(b, at + k, len - k, depth + 1);
                self.go(a, at, k, depth + 1);
            } else {
                self.go(a, at, k, depth + 1);
                self.go(b, at + k, len - k, depth + 1);
            }
            return;
        }
        let mut it = p.into_iter();
        let (mut front, mut back) = (vec![], vec![]);
        let mut exact = true;
        loop {
            exact &= it.len() == len.saturating_sub(front.len() + back.len());
            let from_back = lock(&self.src).chance(1, 2);
            match if from_back { it.next_back() } else { it.next() } {
                None => break,
                Some(c) if from_back => back.push(c),
                Some(c) => front.push(c),
            }
            if front.len() + back.len() > len + 4 {
                break;
            }
        }
        back.reverse();
        front.extend(back);
        lock(self.out).push((at, front, exact));
    }
}

pub fn parallel(run: &mut Run) -> Res {
    let (r, lo, hi) = loop {
        let (r, lo, hi) = range(run);
        if hi - lo <= 4000 {
            break (r, lo, hi);
        }
        // long ranges: a window of it at either end or across the surrogates
        let w = run.src.range(0, 600) as i64;
        let at = match run.src.below(3) {
            0 => lo,
            1 => hi - w,
            _ => (0xD800 - w / 2).clamp(lo, hi - w),
        };
        if w == 0 {
            break (CharRange::closed('b', 'a'), 0, 0);
        }
        break (CharRange::closed(expand(at), expand(at + w - 1)), at, at + w);
    };
    let want: Vec<char> = (lo..hi).map(expand).collect();
    let n = want.len();
    let threads = 1 + run.src.geo(7);
    let what = format!("{:X}..={:X} on {} workers", r.low as u32, r.high as u32, threads);
    run.note(|| format!("{}: {} characters", what, n));
    run.il(mix(lo as u64, hi as u64));
    let yields = n <= 400;
    let y = || {
        if yields {
            rayon_core::sim::yield_point()
        }
    };
    let by_ref = run.src.chance(1, 2);
    let mk = || if by_ref { (&r).into_par_iter() } else { r.into_par_iter() };
    let min = run.src.geo(64).max(1);
    let max = run.src.geo(64).max(1);
    let op = run.src.below(15);
    run.state(mix(mix(lo as u64, hi as u64), op as u64));
    macro_rules! ok {
        ($e:expr) => {
            match on_pool(run, threads, || $e) {
                Ok(v) => v,
                Err(p) => std::panic::resume_unwind(p),
            }
        };
    }
    let msg = |what2: &str, got: String| format!("{}: {} gave {}", what, what2, got);
    match op {
        0 | 1 | 2 => {
            // every character visited exactly once; a worker may fail
            let bad: Option<char> = if op == 2 && n > 0 { Some(want[run.src.below(n)]) } else { None };
            let seen: Mutex<Vec<char>> = Mutex::new(vec![]);
            let res = on_pool(run, threads, || {
                let f = |c: char| {
                    y();
                    lock(&seen).push(c);
                    if Some(c) == bad {
                        inject_panic();
                    }
                    y();
                };
                if op == 1 { mk().with_min_len(min).with_max_len(max).for_each(f) } else { mk().with_max_len(max).for_each(f) }
            });
            let mut seen = seen.into_inner().unwrap_or_else(|e| e.into_inner());
            run.ev("for_each", seen.len() as u64, bad.is_some() as u64);
            for &c in seen.iter().take(64) {
                run.il(c as u64);
            }
            let order_kept = seen.windows(2).all(|w| w[0] < w[1]);
            if !order_kept {
                run.probe("visited_out_of_order");
            }
            seen.sort();
            check!(seen.windows(2).all(|w| w[0] != w[1]), "visited-twice", "{}: some character was visited twice", what);
            match (bad, res) {
                (None, Ok(())) => check!(seen == want, "for_each", "{}", msg("for_each", format!("{} visits, first wrong {:?}", seen.len(), first_diff(&seen, &want)))),
                (None, Err(p)) => std::panic::resume_unwind(p),
                (Some(c), Ok(())) => return fail("panic-lost", format!("{}: the worker's panic at {:X} did not reach the caller", what, c as u32)),
                (Some(c), Err(p)) => {
                    run.fault("worker_panic");
                    if !p.is::<Injected>() {
                        std::panic::resume_unwind(p);
                    }
                    check!(seen.iter().all(|c| want.binary_search(c).is_ok()), "for_each", "{}: visited a character outside the range", what);
                    check!(seen.contains(&c), "for_each", "{}: never visited {:X}", what, c as u32);
                }
            }
        }
        3 => {
            let got: Vec<char> = ok!(mk().with_max_len(max).map(|c| { y(); c }).collect());
            check!(got == want, "collect", "{}", msg("collect", format!("{} characters, first wrong {:?}", got.len(), first_diff(&got, &want))));
        }
        4 => {
            let got: Vec<char> = ok!({ let mut v = vec!['z']; mk().with_min_len(min).collect_into_vec(&mut v); v });
            check!(got == want, "collect", "{}", msg("collect_into_vec", format!("{} characters, first wrong {:?}", got.len(), first_diff(&got, &want))));
        }
        5 => {
            let m = 1 + run.src.below(5) as u32;
            let got: Vec<char> = ok!(mk().with_max_len(max).filter(|&c| { y(); c as u32 % m == 0 }).collect());
            let w: Vec<char> = want.iter().copied().filter(|&c| c as u32 % m == 0).collect();
            check!(got == w, "collect", "{}", msg("filter+collect", format!("{} characters, first wrong {:?}", got.len(), first_diff(&got, &w))));
        }
        6 => {
            let (count, len, hint) = ok!((mk().with_max_len(max).inspect(|_| y()).count(), mk().len(), mk().opt_len()));
            check!(count == n && len == n && hint.map_or(true, |h| h == n), "count", "{}", msg("count/len", format!("{} and {} and {:?} for {}", count, len, hint, n)));
        }
        7 => {
            let f = |a: u64, b: u64| a.wrapping_add(b);
            let got = ok!(mk().with_max_len(max).map(|c| { y(); mix(7, c as u64) }).reduce(|| 0, f));
            let w = want.iter().fold(0u64, |a, &c| f(a, mix(7, c as u64)));
            check!(got == w, "reduce", "{}", msg("reduce", format!("{} instead of {}", got, w)));
            let s = ok!(mk().with_max_len(max).fold(String::new, |mut s, c| { y(); s.push(c); s }).reduce(String::new, |a, b| a + &b));
            check!(s == want.iter().collect::<String>(), "reduce", "{}", msg("fold", "another string".into()));
        }
        8 => {
            let (mn, mx) = ok!((mk().with_max_len(max).inspect(|_| y()).min(), mk().with_max_len(max).inspect(|_| y()).max()));
            check!(mn == want.first().copied() && mx == want.last().copied(), "reduce", "{}", msg("min/max", format!("{:?} {:?}", mn, mx)));
        }
        9 => {
            let got: Vec<char> = ok!(mk().with_max_len(max).rev().map(|c| { y(); c }).collect());
            let mut w = want.clone();
            w.reverse();
            check!(got == w, "collect", "{}", msg("rev", format!("{} characters, first wrong {:?}", got.len(), first_diff(&got, &w))));
        }
        10 => {
            let (a, b) = (run.src.range(0, n + 2), run.src.range(0, n + 2));
            let got: Vec<(usize, char)> = ok!(mk().enumerate().skip(a).take(b).with_max_len(max).map(|c| { y(); c }).collect());
            let w: Vec<(usize, char)> = want.iter().copied().enumerate().skip(a).take(b).collect();
            check!(got == w, "collect", "{}", msg("enumerate/skip/take", format!("{} items", got.len())));
        }
        11 => {
            let k = 1 + run.src.below(7);
            let got: Vec<Vec<char>> = ok!(mk().chunks(k).map(|c| { y(); c }).collect());
            let w: Vec<Vec<char>> = want.chunks(k).map(|c| c.to_vec()).collect();
            check!(got == w, "collect", "{}", msg("chunks", format!("{} chunks", got.len())));
        }
        12 => {
            // searches that stop early
            let t = if n > 0 { want[run.src.below(n)] } else { 'a' };
            let first = ok!(mk().with_max_len(max).find_first(|&c| { y(); c >= t }));
            let last = ok!(mk().with_max_len(max).find_last(|&c| { y(); c <= t }));
            let pos = ok!(mk().with_max_len(max).position_any(|c| { y(); c == t }));
            let has = n > 0;
            let w = if has { Some(t) } else { None };
            check!(first == w && last == w && pos.map(|p| want[p]) == w, "search", "{}", msg("searching", format!("{:?} {:?} {:?}", first, last, pos)));
        }
        13 => {
            let other: Vec<usize> = (0..n).collect();
            let got: BTreeMap<char, usize> = ok!(mk().zip(other.into_par_iter()).with_max_len(max).map(|c| { y(); c }).collect());
            check!(got.len() == n && got.iter().enumerate().all(|(i, (c, k))| i == *k && want[i] == *c), "collect", "{}", msg("zip", format!("{} pairs", got.len())));
        }
        _ => {
            // arbitrary split trees, drained from both ends
            let out = Mutex::new(vec![]);
            let src = Arc::new(Mutex::new(std::mem::replace(&mut run.src, Src::replay(vec![]))));
            mk().with_producer(Split { src: src.clone(), out: &out, total: n });
            run.src = Arc::try_unwrap(src).map_err(|_| ()).expect("src").into_inner().unwrap();
            let parts = out.into_inner().unwrap();
            run.fault("split_tree");
            for p in &parts {
                run.il(p.0 as u64);
                run.ev("part", p.0 as u64, p.1.len() as u64);
            }
            check!(parts.iter().all(|p| p.2), "len", "{}: a part misreports its length", what);
            let mut parts = parts;
            parts.sort_by_key(|p| (p.0, p.1.len()));
            let got: Vec<char> = parts.iter().flat_map(|p| p.1.iter().copied()).collect();
            check!(got == want, "split", "{}", msg("an arbitrary split", format!("{} characters, first wrong {:?}", got.len(), first_diff(&got, &want))));
        }
    }
    Ok(())
}

fn first_diff(a: &[char], b: &[char]) -> Option<(usize, Option<char>, Option<char>)> {
    (0..a.len().max(b.len())).find(|&i| a.get(i) != b.get(i)).map(|i| (i, a.get(i).copied(), b.get(i).copied()))
}
