//! S04, S05: double-ended segment iterators with two consumers.

use crate::check;
use crate::core::*;
use crate::refs::uax29;
use crate::scen::text::*;
use unic::segment::{GraphemeIndices, Graphemes, WordBoundIndices, WordBounds, Words};

#[derive(Clone)]
enum It<'a> {
    G(Graphemes<'a>),
    GI(GraphemeIndices<'a>),
    W(WordBounds<'a>),
    WI(WordBoundIndices<'a>),
}

type Seg<'a> = (Option<usize>, &'a str);

/// Calls of the real iterator, with its items in one form.
macro_rules! call {
    ($it:expr, $i:ident => $e:expr) => {
        match $it {
            It::G($i) => $e.map(|s| (None, s)),
            It::GI($i) => $e.map(|(o, s)| (Some(o), s)),
            It::W($i) => $e.map(|s| (None, s)),
            It::WI($i) => $e.map(|(o, s)| (Some(o), s)),
        }
    };
}
macro_rules! consume {
    ($it:expr, $i:ident, $x:ident => $e:expr) => {
        match $it {
            It::G($i) => { let $x = |s: &'a str| -> Seg<'a> { (None, s) }; $e }
            It::GI($i) => { let $x = |(o, s): (usize, &'a str)| -> Seg<'a> { (Some(o), s) }; $e }
            It::W($i) => { let $x = |s: &'a str| -> Seg<'a> { (None, s) }; $e }
            It::WI($i) => { let $x = |(o, s): (usize, &'a str)| -> Seg<'a> { (Some(o), s) }; $e }
        }
    };
}

impl<'a> It<'a> {
    fn next(&mut self) -> Option<Seg<'a>> {
        call!(self, i => i.next())
    }
    fn next_back(&mut self) -> Option<Seg<'a>> {
        call!(self, i => i.next_back())
    }
    fn nth(&mut self, n: usize) -> Option<Seg<'a>> {
        call!(self, i => i.nth(n))
    }
    fn nth_back(&mut self, n: usize) -> Option<Seg<'a>> {
        call!(self, i => i.nth_back(n))
    }
    fn last(self) -> Option<Seg<'a>> {
        call!(self, i => i.last())
    }
    fn count(self) -> usize {
        consume!(self, i, _x => i.count())
    }
    /// By internal iteration of one kind or another.
    fn all(self, back: bool, how: usize) -> Vec<Seg<'a>> {
        let mut v: Vec<Seg> = vec![];
        consume!(self, i, x => match (back, how) {
            (false, 0) => i.for_each(|s| v.push(x(s))),
            (true, 0) => i.rev().for_each(|s| v.push(x(s))),
            (false, 1) => v = i.fold(vec![], |mut v, s| { v.push(x(s)); v }),
            (true, 1) => v = i.rfold(vec![], |mut v, s| { v.push(x(s)); v }),
            (false, _) => v = i.map(x).collect(),
            (true, _) => v = i.map(x).rev().collect(),
        });
        v
    }
    fn as_str(&self) -> &'a str {
        match self {
            It::G(i) => i.as_str(),
            It::GI(i) => i.as_str(),
            It::W(i) => i.as_str(),
            It::WI(i) => i.as_str(),
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        match self {
            It::G(i) => i.size_hint(),
            It::GI(i) => i.size_hint(),
            It::W(i) => i.size_hint(),
            It::WI(i) => i.size_hint(),
        }
    }
}

fn two_consumers(run: &mut Run, text: &str, bounds: &[usize], it: It) -> Res {
    // the text is a slice of a larger buffer: what lies around it must not matter
    let segs: Vec<(usize, usize)> = bounds.windows(2).map(|w| (w[0], w[1])).filter(|s| s.0 < s.1).collect();
    let (mut lo, mut hi) = (0usize, segs.len());
    let mut it = it;
    let mut saved: Vec<(It, usize, usize)> = vec![];
    let mut steps = 0;
    let burst = run.src.range(1, 6);
    let mut back = false;
    let mut left = 0;
    let th = hash_str(text);
    loop {
        steps += 1;
        check!(steps < 6 * text.len() + 200, "endless", "still yielding after {} steps on {:?}", steps, esc(text));
        // views
        let (a, b) = if lo < hi { (segs[lo].0, segs[hi - 1].1) } else { (0, 0) };
        let rest = it.as_str();
        let view = &text[a..b];
        check!((rest.as_ptr(), rest.len()) == (view.as_ptr(), view.len()) || rest == view, "as_str", "remaining view {:?}, expected {:?}", esc(rest), esc(&text[a..b]));
        let (l, h) = it.size_hint();
        check!(l <= hi - lo && h.map_or(true, |h| h >= hi - lo), "size_hint", "size hint {:?} with {} left", (l, h), hi - lo);
        if run.src.chance(1, 12) {
            saved.push((it.clone(), lo, hi));
            run.ev("checkpoint", lo as u64, hi as u64);
        } else if !saved.is_empty() && steps < 3 * text.len() && run.src.chance(1, 12) {
            let k = run.src.below(saved.len());
            let s = saved[k].clone();
            it = s.0;
            lo = s.1;
            hi = s.2;
            run.fault("restore_checkpoint");
            run.ev("restore", lo as u64, hi as u64);
            run.il(3);
        }
        if left == 0 {
            back = run.src.chance(1, 2);
            left = run.src.range(1, burst);
        }
        left -= 1;
        run.il(back as u64);
        // (not where the rest is long: these take as many steps as there are segments)
        let extra = if b - a < 400 { run.src.below(40) } else { 9 };
        if extra == 0 {
            // the rest at once, from a copy
            let how = run.src.below(5);
            run.probe("rest_at_once");
            match how {
                3 => {
                    let n = it.clone().count();
                    check!(n == hi - lo, "count", "{:?}: {} segments counted with {} left", esc(text), n, hi - lo);
                }
                4 => {
                    let l = it.clone().last();
                    let w = (lo < hi).then(|| &text[segs[hi - 1].0..segs[hi - 1].1]);
                    check!(l.map(|l| l.1) == w, "last", "{:?}: the last segment is {:?}, expected {:?}", esc(text), l, w);
                }
                _ => {
                    let all = it.clone().all(back, how);
                    let mut want = segs[lo..hi].to_vec();
                    if back {
                        want.reverse();
                    }
                    check!(
                        all.len() == want.len() && all.iter().zip(&want).all(|(g, w)| g.1 == &text[w.0..w.1] && g.0.map_or(true, |o| o == w.0)),
                        "rest", "{:?}: the rest, read {}, is {:?}, expected {:?}", esc(text), if back { "backwards" } else { "forwards" }, all, want
                    );
                }
            }
        }
        if extra == 1 || extra == 2 {
            // some are skipped
            let n = if run.src.chance(1, 60) { super::chars::far(run) } else { run.src.below(4) };
            let gone = n.min(hi - lo);
            if back {
                hi -= gone;
            } else {
                lo += gone;
            }
            run.note(|| format!("{} skipped from the {}", n, if back { "back" } else { "front" }));
            run.il((n as u64).wrapping_add(5));
            run.probe("skipped");
            if n > gone || lo == hi {
                let got = if back { it.nth_back(n) } else { it.nth(n) };
                check!(got.is_none(), "past-end", "yielded {:?} after skipping beyond the end", got);
                check!(it.next().is_none() && it.next_back().is_none(), "past-end", "revived after exhaustion");
                return Ok(());
            }
            let got = if back { it.nth_back(n) } else { it.nth(n) };
            let w = if back {
                hi -= 1;
                segs[hi]
            } else {
                lo += 1;
                segs[lo - 1]
            };
            check!(
                got.map_or(false, |g| g.1 == &text[w.0..w.1] && g.0.map_or(true, |o| o == w.0)),
                "skip", "{:?}: after {} skipped from the {} comes {:?}, expected {:?}", esc(text), n, if back { "back" } else { "front" }, got, &text[w.0..w.1]
            );
            continue;
        }
        let got = if back { it.next_back() } else { it.next() };
        run.ev(if back { "pull-back" } else { "pull-front" }, got.map_or(u64::MAX, |g| g.1.len() as u64), 0);
        if lo == hi {
            check!(got.is_none(), "past-end", "yielded {:?} after exhaustion", got);
            run.probe("pulled_past_end");
            // stays exhausted from both ends
            check!(it.next().is_none() && it.next_back().is_none(), "past-end", "revived after exhaustion");
            return Ok(());
        }
        let want = if back {
            hi -= 1;
            segs[hi]
        } else {
            lo += 1;
            segs[lo - 1]
        };
        if back && lo > 0 || !back && hi < segs.len() {
            run.nontrivial = true;
            run.probe("ends_interleaved");
        }
        let w = &text[want.0..want.1];
        match got {
            None => return fail("early-end", format!("{:?}: ended with {:?} remaining", esc(text), esc(w))),
            Some((o, s)) => {
                check!(
                    s == w && s.as_ptr() == w.as_ptr(),
                    if back { "segment-back" } else { "segment-front" },
                    "{:?}: yielded {:?} from the {}, expected {:?}",
                    esc(text), esc(s), if back { "back" } else { "front" }, esc(w)
                );
                if let Some(o) = o {
                    check!(o == want.0, "index", "{:?}: index {} instead of {}", esc(text), o, want.0);
                }
            }
        }
        run.state(mix(mix(th, lo as u64), hi as u64));
    }
}

/// Place the text inside a larger buffer.
fn embed(run: &mut Run, text: &str) -> (String, usize) {
    let pre = *run.src.pick(&["", "a", "\u{1F1E6}", "\u{600}", "\r", "\u{270C}", "\u{200D}", "1", "\u{5D0}"]);
    let post = *run.src.pick(&["", "a", "\u{1F1E6}", "\u{300}", "\n", "\u{1F3FB}", "\u{200D}", "1", "\u{5D0}"]);
    (format!("{}{}{}", pre, text, post), pre.len())
}

pub fn graphemes(run: &mut Run) -> Res {
    let t = grapheme_text(run, 40);
    let extended = !run.src.chance(1, 3);
    let (buf, off) = embed(run, &t);
    let text = &buf[off..off + t.len()];
    let bounds = uax29::grapheme_boundaries(text, extended);
    let idx = run.src.chance(1, 2);
    run.note(|| format!("text \"{}\", extended={}, indices={}", esc(text), extended, idx));
    run.ev("text", hash_str(text), extended as u64);
    run.il(hash_str(text));
    let it = match (idx, extended) {
        (false, true) => It::G(Graphemes::new(text)),
        (false, false) => It::G(Graphemes::new_legacy(text)),
        (true, true) => It::GI(GraphemeIndices::new(text)),
        (true, false) => It::GI(GraphemeIndices::new_legacy(text)),
    };
    two_consumers(run, text, &bounds, it)
}

pub fn words(run: &mut Run) -> Res {
    let t = word_text(run, 40);
    let (buf, off) = embed(run, &t);
    let text = &buf[off..off + t.len()];
    let bounds = uax29::word_boundaries(text);
    let idx = run.src.chance(1, 2);
    run.note(|| format!("text \"{}\", indices={}", esc(text), idx));
    run.ev("text", hash_str(text), 0);
    run.il(hash_str(text));
    let it = if idx { It::WI(WordBoundIndices::new(text)) } else { It::W(WordBounds::new(text)) };
    two_consumers(run, text, &bounds, it)
}

// ---- filtered words, with a predicate that may fail -------------------------------------------

thread_local! {
    static FAIL_IN: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
    static CALLS: std::cell::RefCell<Vec<(usize, usize)>> = const { std::cell::RefCell::new(vec![]) };
}

fn pred(s: &&str) -> bool {
    CALLS.with(|c| c.borrow_mut().push((s.as_ptr() as usize, s.len())));
    FAIL_IN.with(|f| {
        let n = f.get();
        if n != usize::MAX {
            if n == 0 {
                f.set(usize::MAX);
                inject_panic();
            }
            f.set(n - 1);
        }
    });
    accept(s)
}

fn accept(s: &str) -> bool {
    s.chars().any(|c| c.is_alphanumeric())
}

/// Words: the predicate decides; a failing predicate consumes exactly the segment it was shown.
pub fn filtered(run: &mut Run) -> Res {
    let text = word_text(run, 40);
    let bounds = uax29::word_boundaries(&text);
    let segs: Vec<&str> = bounds.windows(2).map(|w| &text[w[0]..w[1]]).filter(|s| !s.is_empty()).collect();
    run.note(|| format!("text \"{}\"", esc(&text)));
    run.ev("text", hash_str(&text), 0);
    run.il(hash_str(&text));
    let (mut lo, mut hi) = (0usize, segs.len());
    let mut it = Words::new(&text, pred);
    FAIL_IN.with(|f| f.set(usize::MAX));
    for _ in 0..2 * segs.len() + 4 {
        let back = run.src.chance(1, 2);
        let fail_at = if run.src.chance(1, 4) { run.src.below(4) } else { usize::MAX };
        FAIL_IN.with(|f| f.set(fail_at));
        CALLS.with(|c| c.borrow_mut().clear());
        let got = catch_injected(|| if back { it.next_back() } else { it.next() });
        FAIL_IN.with(|f| f.set(usize::MAX));
        run.il(back as u64 * 2 + got.is_err() as u64);
        run.ev(if back { "pull-back" } else { "pull-front" }, got.as_ref().map_or(7, |g| g.map_or(0, |s| s.len() as u64)), fail_at as u64);
        // model
        let mut n = 0usize;
        let mut want: Result<Option<&str>, ()> = Ok(None);
        while lo < hi {
            let s = if back {
                hi -= 1;
                segs[hi]
            } else {
                lo += 1;
                segs[lo - 1]
            };
            if n == fail_at {
                want = Err(());
                break;
            }
            n += 1;
            if accept(s) {
                want = Ok(Some(s));
                break;
            }
        }
        if want.is_err() {
            run.fault("predicate_failure");
        }
        check!(
            got == want,
            "filtered",
            "{:?}: pull from the {} gave {:?}, expected {:?}",
            esc(&text), if back { "back" } else { "front" }, got, want
        );
        run.nontrivial = true;
        if lo == hi {
            run.probe("exhausted");
        }
    }
    Ok(())
}
