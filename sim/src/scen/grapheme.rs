//! S01, S02, S03: the grapheme cursor as a node that asks a client for pieces of a remote text.
//!
//! The client (simulated) owns the text; the cursor (real code) sees only the windows it is handed.  The
//! scheduler decides the chunking, how much is supplied per request, retries, cancellations by a seek,
//! clones and restores.  Oracle: the reference segmentation of the whole text.

use crate::check;
use crate::core::*;
use crate::refs::uax29;
use crate::scen::text::*;
use unic::segment::{GraphemeCursor, GraphemeIncomplete};

/// The cursor in a text that begins `base` bytes before the harness's text.
#[derive(Clone)]
struct Cursor {
    real: GraphemeCursor,
    base: usize,
}

impl Cursor {
    fn down<T>(&self, r: Result<T, GraphemeIncomplete>) -> Result<T, GraphemeIncomplete> {
        r.map_err(|e| match e {
            GraphemeIncomplete::PreContext(k) => GraphemeIncomplete::PreContext(k.wrapping_sub(self.base)),
            e => e,
        })
    }
    fn is_boundary(&mut self, chunk: &str, start: usize) -> Result<bool, GraphemeIncomplete> {
        let r = self.real.is_boundary(chunk, start + self.base);
        self.down(r)
    }
    fn next_boundary(&mut self, chunk: &str, start: usize) -> Result<Option<usize>, GraphemeIncomplete> {
        let r = self.real.next_boundary(chunk, start + self.base);
        self.down(r).map(|o| o.map(|b| b.wrapping_sub(self.base)))
    }
    fn prev_boundary(&mut self, chunk: &str, start: usize) -> Result<Option<usize>, GraphemeIncomplete> {
        let r = self.real.prev_boundary(chunk, start + self.base);
        self.down(r).map(|o| o.map(|b| b.wrapping_sub(self.base)))
    }
    fn provide_context(&mut self, chunk: &str, start: usize) {
        self.real.provide_context(chunk, start + self.base)
    }
    fn cur_cursor(&self) -> usize {
        self.real.cur_cursor().wrapping_sub(self.base)
    }
    fn set_cursor(&mut self, at: usize) {
        self.real.set_cursor(at + self.base)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    Is,
    Next,
    Prev,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Phase {
    Idle,
    Call(Op),
    Ctx(Op, usize),
    More(Op), // NextChunk or PrevChunk was requested
}

#[derive(Clone)]
struct Client {
    cur: Cursor,
    /// model position (last jump target or returned boundary)
    pos: usize,
    ph: Phase,
    win: (usize, usize),
    /// progress bookkeeping of the operation under way
    requests: usize,
    last_candidate: usize,
    last_ctx: usize,
}

/// The first element after `x` of a sorted list.
fn after(l: &[usize], x: usize) -> Option<usize> {
    l.get(l.partition_point(|&e| e <= x)).copied()
}

/// The last element before `x` of a sorted list.
fn before(l: &[usize], x: usize) -> Option<usize> {
    l.partition_point(|&e| e < x).checked_sub(1).map(|i| l[i])
}

struct World<'a> {
    text: &'a str,
    offs: Vec<usize>,
    bounds: Vec<usize>,
    /// chunk cuts including 0 and len
    cuts: Vec<usize>,
    /// windows may be re-read with other limits between operations
    refetch: bool,
    /// buffers may be grown instead of replaced
    grow: bool,
    /// context is supplied one character at a time
    drip: bool,
    check_answers: bool,
    check_requests: bool,
    /// the length of what comes before `text`: line feeds that nobody ever looks at
    base: usize,
}

impl<'a> World<'a> {
    /// The first position the harness works at: far from the unseen part, if there is one.
    fn first(&self) -> usize {
        if self.base > 0 { MARGIN } else { 0 }
    }
    fn too_near(&self, c: &Client, op: Op) -> bool {
        self.base > 0 && c.pos < self.offs[MARGIN] && (op == Op::Prev || op == Op::Is)
    }
    fn any_position(&self, run: &mut Run) -> usize {
        *run.src.pick(&self.offs[self.first()..])
    }
    fn is_off(&self, o: usize) -> bool {
        self.offs.binary_search(&o).is_ok()
    }
    fn expected(&self, op: Op, pos: usize) -> Option<usize> {
        match op {
            Op::Is => Some(self.bounds.binary_search(&pos).is_ok() as usize),
            Op::Next => after(&self.bounds, pos),
            Op::Prev => before(&self.bounds, pos),
        }
    }
    /// A window for starting operation `op` at `pos`, as the documentation asks for it: it holds the
    /// character after the cursor (for Prev: the one before, or only the one after).
    fn window(&self, run: &mut Run, op: Op, pos: usize) -> (usize, usize) {
        let len = self.text.len();
        if len == 0 {
            return (0, 0);
        }
        if !self.refetch || run.src.chance(1, 2) {
            // the stored chunk holding the character after (before) the cursor
            let want_after = match op {
                Op::Prev => pos == 0,
                _ => pos < len,
            };
            let i = if want_after {
                (self.cuts.partition_point(|&c| c <= pos) - 1).min(self.cuts.len() - 2)
            } else {
                self.cuts.partition_point(|&c| c < pos) - 1
            };
            return (self.cuts[i], self.cuts[i + 1]);
        }
        // an arbitrary window
        let k = self.offs.binary_search(&pos).unwrap();
        let last = self.offs.len() - 1;
        let (mut a, mut b) = (k, k);
        a -= run.src.geo(a);
        b += run.src.geo(last - b);
        match op {
            Op::Prev => {
                if a == k && b == k {
                    if k > 0 {
                        a -= 1
                    } else {
                        b += 1
                    }
                }
            }
            _ => {
                if b == k {
                    if k < last {
                        b += 1
                    } else if a == k {
                        a -= 1
                    }
                }
            }
        }
        (self.offs[a], self.offs[b])
    }
}

fn code(op: Op) -> u64 {
    match op {
        Op::Is => 1,
        Op::Next => 2,
        Op::Prev => 3,
    }
}

enum Ans {
    Done(Option<usize>),
    Incomplete(GraphemeIncomplete),
}

fn call(w: &World, c: &mut Client, op: Op) -> Ans {
    let chunk = &w.text[c.win.0..c.win.1];
    let r = match op {
        Op::Is => c.cur.is_boundary(chunk, c.win.0).map(|b| Some(b as usize)),
        Op::Next => c.cur.next_boundary(chunk, c.win.0),
        Op::Prev => c.cur.prev_boundary(chunk, c.win.0),
    };
    match r {
        Ok(a) => Ans::Done(a),
        Err(e) => Ans::Incomplete(e),
    }
}

fn start(w: &World, run: &mut Run, c: &mut Client, op: Op) {
    c.win = w.window(run, op, c.pos);
    c.ph = Phase::Call(op);
    c.requests = 0;
    c.last_candidate = usize::MAX;
    c.last_ctx = usize::MAX;
    run.ev("op", code(op), c.pos as u64);
    run.ev("window", c.win.0 as u64, c.win.1 as u64);
    run.il(code(op) << 40 | (c.win.0 as u64) << 20 | c.win.1 as u64);
}

/// One step of the dialogue. Returns true when the operation completed.
fn step(w: &World, run: &mut Run, c: &mut Client) -> Result<bool, Violation> {
    match c.ph {
        Phase::Idle => Ok(true),
        Phase::Call(op) => {
            let a = call(w, c, op);
            match a {
                Ans::Done(ans) => {
                    run.ev("answer", code(op), ans.map_or(u64::MAX, |x| x as u64));
                    if w.check_answers {
                        let want = w.expected(op, c.pos);
                        check!(
                            ans == want,
                            &format!("wrong-{:?}", op),
                            "{:?} at {} of {:?}: got {:?}, the whole text says {:?} (boundaries {:?})",
                            op, c.pos, esc(w.text), ans, want, w.bounds
                        );
                        if op != Op::Is {
                            if let Some(b) = ans {
                                c.pos = b;
                            }
                        }
                        check!(
                            c.cur.cur_cursor() == c.pos,
                            "cur_cursor",
                            "after {:?} the cursor reports position {}, expected {}",
                            op, c.cur.cur_cursor(), c.pos
                        );
                    } else {
                        c.pos = c.cur.cur_cursor();
                        check!(w.is_off(c.pos), "cursor-off-text", "cursor at {} in {:?}", c.pos, esc(w.text));
                    }
                    c.ph = Phase::Idle;
                    Ok(true)
                }
                Ans::Incomplete(e) => {
                    request(w, run, c, op, &e)?;
                    Ok(false)
                }
            }
        }
        Phase::Ctx(op, n) => {
            // supply context ending at n
            let k = w.offs.binary_search(&n).unwrap();
            let take = if w.drip { 1 } else { 1 + run.src.geo(k - 1) };
            let a = w.offs[k - take.min(k)];
            run.ev("supply-context", a as u64, n as u64);
            run.il(5 << 40 | (a as u64) << 20 | n as u64);
            if take < k {
                run.fault("partial_context");
            }
            c.cur.provide_context(&w.text[a..n], a);
            c.last_ctx = a;
            c.ph = Phase::Call(op);
            Ok(false)
        }
        Phase::More(op) => {
            let len = w.text.len();
            let old = c.win;
            match op {
                Op::Next => {
                    let from = old.1;
                    let to = if w.refetch && run.src.chance(1, 2) {
                        let k = w.offs.binary_search(&from).unwrap();
                        w.offs[k + 1 + run.src.geo(w.offs.len() - 2 - k)]
                    } else {
                        after(&w.cuts, from).unwrap_or(len)
                    };
                    if w.grow && run.src.chance(1, 3) {
                        run.fault("buffer_grown");
                        c.win = (old.0, to);
                    } else {
                        c.win = (from, to);
                    }
                }
                _ => {
                    let to = old.0;
                    let from = if w.refetch && run.src.chance(1, 2) {
                        let k = w.offs.binary_search(&to).unwrap();
                        w.offs[k - 1 - run.src.geo(k - 1)]
                    } else {
                        before(&w.cuts, to).unwrap_or(0)
                    };
                    if w.grow && run.src.chance(1, 3) {
                        run.fault("buffer_grown");
                        c.win = (from, old.1);
                    } else {
                        c.win = (from, to);
                    }
                }
            }
            run.fault("chunk_switch");
            run.ev("window", c.win.0 as u64, c.win.1 as u64);
            run.il(6 << 40 | (c.win.0 as u64) << 20 | c.win.1 as u64);
            c.ph = Phase::Call(op);
            Ok(false)
        }
    }
}

fn request(w: &World, run: &mut Run, c: &mut Client, op: Op, e: &GraphemeIncomplete) -> Res {
    let len = w.text.len();
    let n = w.offs.len();
    c.requests += 1;
    check!(
        c.requests <= (n + 2) * (n + 2),
        "no-progress",
        "{:?} at {} of {:?} has made {} requests without an answer",
        op, c.pos, esc(w.text), c.requests
    );
    match *e {
        GraphemeIncomplete::PreContext(k) => {
            run.ev("asks-context", k as u64, 0);
            run.probe("pre_context_request");
            check!(
                k > 0 && k <= len && w.is_off(k),
                "bad-request-context",
                "{:?} asks for context ending at {} (text length {})",
                op, k, len
            );
            let cand = c.cur.cur_cursor();
            if w.check_requests {
                check!(
                    k <= c.win.0 && k <= cand,
                    "bad-request-context",
                    "{:?} in window {:?} asks for context ending at {}, which it already has (candidate {})",
                    op, c.win, k, cand
                );
                if c.last_candidate == cand {
                    check!(
                        k <= c.last_ctx,
                        "repeated-request",
                        "{:?} asks again for context ending at {} though context from {} was supplied",
                        op, k, c.last_ctx
                    );
                }
            }
            if c.last_candidate != cand {
                c.last_ctx = usize::MAX;
            }
            c.last_candidate = cand;
            c.ph = Phase::Ctx(op, k);
        }
        GraphemeIncomplete::NextChunk => {
            run.ev("asks-next-chunk", 0, 0);
            run.probe("next_chunk_request");
            check!(op == Op::Next && c.win.1 < len, "bad-request-next", "{:?} asks for the next chunk after {:?} of {}", op, c.win, len);
            c.ph = Phase::More(op);
        }
        GraphemeIncomplete::PrevChunk => {
            run.ev("asks-prev-chunk", 0, 0);
            run.probe("prev_chunk_request");
            check!(op == Op::Prev && c.win.0 > 0, "bad-request-prev", "{:?} asks for the chunk before {:?}", op, c.win);
            c.ph = Phase::More(op);
        }
        GraphemeIncomplete::InvalidOffset => {
            return fail(
                "invalid-offset",
                format!("{:?} at {} of {:?} in window {:?}: InvalidOffset for a conforming client", op, c.pos, esc(w.text), c.win),
            );
        }
    }
    Ok(())
}

/// Line feeds that begin a text with an unseen part.
const MARGIN: usize = 3;

/// A text, and how much comes before it.
fn document(run: &mut Run, max: usize) -> (String, usize) {
    let t = grapheme_text(run, max);
    if !run.src.chance(1, 8) {
        return (t, 0);
    }
    run.probe("far_into_a_text");
    let t = format!("{}{}", "\n".repeat(MARGIN), t);
    let near = match run.src.below(4) {
        0 => 1 << 16,
        1 => 1 << 31,
        2 => 1 << 32,
        _ => usize::MAX - t.len(),
    };
    let base = near.saturating_sub(run.src.below(t.len() + 3));
    (t, base)
}

fn world<'a>(run: &mut Run, text: &'a str, base: usize, extended: bool) -> World<'a> {
    let offs = offsets(text);
    let mut cuts = vec![0];
    let den = 1 + run.src.below(5);
    for &o in &offs[1..] {
        if o == text.len() || run.src.below(den) == 0 {
            cuts.push(o);
        }
    }
    if text.is_empty() {
        cuts.push(0);
    }
    World {
        text,
        bounds: uax29::grapheme_boundaries(text, extended),
        offs,
        cuts,
        refetch: run.src.chance(1, 2),
        grow: run.src.chance(1, 4),
        drip: run.src.chance(1, 3),
        check_answers: true,
        check_requests: true,
        base,
    }
}

fn client(w: &World, pos: usize, extended: bool) -> Client {
    let (at, len) = (pos + w.base, w.text.len() + w.base);
    let real = if extended { GraphemeCursor::new(at, len) } else { GraphemeCursor::new_legacy(at, len) };
    let cur = Cursor { real, base: w.base };
    Client { cur, pos, ph: Phase::Idle, win: (0, 0), requests: 0, last_candidate: usize::MAX, last_ctx: usize::MAX }
}

fn header(run: &mut Run, w: &World, extended: bool) {
    run.note(|| format!("text \"{}\" ({} bytes) after {} bytes, extended={}, chunks cut at {:?}", esc(w.text), w.text.len(), w.base, extended, w.cuts));
    let h = hash_str(w.text) ^ w.base as u64;
    run.ev("text", h, extended as u64);
    run.il(h ^ extended as u64);
    for &c in &w.cuts {
        run.il(c as u64);
    }
}

fn state_of(run: &mut Run, c: &Client) {
    // state measure: (operation phase, window relative to the cursor, category pair is in the cursor)
    let s = format!("{:?}", c.cur.real);
    run.state(hash_str(&s));
}

/// S01: complete walks.
pub fn walk(run: &mut Run) -> Res {
    let (text, base) = document(run, 40);
    let extended = !run.src.chance(1, 3);
    let w = world(run, &text, base, extended);
    header(run, &w, extended);
    let fwd = !run.src.chance(1, 2);
    let pos = if run.src.chance(1, 4) {
        w.any_position(run)
    } else if fwd {
        w.offs[w.first()]
    } else {
        text.len()
    };
    let op = if fwd { Op::Next } else { Op::Prev };
    let mut c = client(&w, pos, extended);
    run.ev("start", pos as u64, fwd as u64);
    let mut seen = vec![];
    loop {
        if w.too_near(&c, op) {
            break;
        }
        let before = c.pos;
        start(&w, run, &mut c, op);
        while !step(&w, run, &mut c)? {}
        state_of(run, &c);
        if c.pos == before {
            break; // Ok(None), already checked against the reference
        }
        seen.push(c.pos);
        check!(seen.len() <= w.offs.len(), "endless-walk", "{:?} boundaries in {:?}", seen, esc(&text));
    }
    let want: Vec<usize> = if fwd {
        w.bounds.iter().copied().filter(|&b| b > pos).collect()
    } else {
        w.bounds.iter().rev().copied().filter(|&b| b < pos && (w.base == 0 || b >= w.offs[MARGIN - 1])).collect()
    };
    check!(seen == want, "walk", "walk of {:?} reported {:?}, expected {:?}", esc(&text), seen, want);
    Ok(())
}

/// S02: arbitrary histories: seeks, cancellation, reversal, checkpoints.
pub fn history(run: &mut Run) -> Res {
    let (text, base) = document(run, 24);
    let extended = !run.src.chance(1, 3);
    let w = world(run, &text, base, extended);
    header(run, &w, extended);
    let pos = w.any_position(run);
    let mut c = client(&w, pos, extended);
    run.ev("start", pos as u64, 0);
    let mut saved: Vec<Client> = vec![];
    let n = run.src.range(1, 24);
    for _ in 0..n {
        match run.src.weighted(&[6, 6, 5, 4, 2, 2]) {
            0 => go(&w, run, &mut c, Op::Next, &mut saved)?,
            1 => go(&w, run, &mut c, Op::Prev, &mut saved)?,
            2 => go(&w, run, &mut c, Op::Is, &mut saved)?,
            3 => {
                let target = if run.src.chance(1, 4) { c.cur.cur_cursor() } else { w.any_position(run) };
                seek(run, &mut c, target);
            }
            4 => {
                run.ev("checkpoint", saved.len() as u64, c.pos as u64);
                saved.push(c.clone());
            }
            _ => {
                if !saved.is_empty() {
                    let k = run.src.below(saved.len());
                    run.fault("restore_checkpoint");
                    run.ev("restore", k as u64, 0);
                    run.il(8 << 40 | k as u64);
                    c = saved[k].clone();
                    // a checkpoint taken in the middle of an operation is carried on (or cancelled)
                    if c.ph != Phase::Idle {
                        run.probe("restored_mid_operation");
                        finish(&w, run, &mut c, &mut saved)?;
                    }
                }
            }
        }
        state_of(run, &c);
    }
    Ok(())
}

fn seek(run: &mut Run, c: &mut Client, target: usize) {
    run.ev("seek", target as u64, c.cur.cur_cursor() as u64);
    run.il(7 << 40 | target as u64);
    run.fault("seek");
    c.cur.set_cursor(target);
    c.pos = target;
    c.ph = Phase::Idle;
}

fn go(w: &World, run: &mut Run, c: &mut Client, op: Op, saved: &mut Vec<Client>) -> Res {
    if w.too_near(c, op) {
        return Ok(());
    }
    start(w, run, c, op);
    finish(w, run, c, saved)
}

fn finish(w: &World, run: &mut Run, c: &mut Client, saved: &mut Vec<Client>) -> Res {
    loop {
        if step(w, run, c)? {
            return Ok(());
        }
        // in mid-protocol
        match run.src.below(16) {
            13 => {
                run.fault("checkpoint_mid_operation");
                saved.push(c.clone());
            }
            14 => {
                // cancel by a jump
                let target = if run.src.chance(1, 3) { c.cur.cur_cursor() } else { w.any_position(run) };
                run.fault("request_abandoned");
                seek(run, c, target);
                return Ok(());
            }
            15 => retry(w, run, c)?,
            _ => {}
        }
    }
}

/// The call is repeated without answering its request: it must ask for the same again.
fn retry(w: &World, run: &mut Run, c: &mut Client) -> Res {
    let (op, want) = match c.ph {
        Phase::Ctx(op, k) => (op, GraphemeIncomplete::PreContext(k)),
        Phase::More(Op::Next) => (Op::Next, GraphemeIncomplete::NextChunk),
        Phase::More(op) => (op, GraphemeIncomplete::PrevChunk),
        _ => return Ok(()),
    };
    run.fault("retry_without_answer");
    run.ev("retry", code(op), 0);
    match call(w, c, op) {
        Ans::Incomplete(e) if e == want => Ok(()),
        Ans::Incomplete(e) => {
            fail("retry-differs", format!("{:?} asked for {:?}, repeated without an answer it asks for {:?}", op, want, e))
        }
        Ans::Done(a) => {
            // an answer is fine only if it is right; the operation is complete then
            let exp = w.expected(op, c.pos);
            check!(a == exp, "retry-wrong", "{:?} repeated without an answer: {:?}, expected {:?}", op, a, exp);
            if op != Op::Is {
                if let Some(b) = a {
                    c.pos = b;
                }
            }
            c.ph = Phase::Idle;
            Ok(())
        }
    }
}

/// S03: the protocol itself: answerable requests, no panics, bounded progress, refused bad chunks.
pub fn protocol(run: &mut Run) -> Res {
    let (text, base) = document(run, 30);
    let extended = !run.src.chance(1, 3);
    let mut w = world(run, &text, base, extended);
    w.check_answers = false;
    if run.src.chance(1, 2) {
        w.cuts = w.offs.clone(); // one character per chunk
        if text.is_empty() {
            w.cuts.push(0);
        }
    }
    header(run, &w, extended);
    let pos = w.any_position(run);
    let mut c = client(&w, pos, extended);
    run.ev("start", pos as u64, 0);
    let n = run.src.range(1, 16);
    for _ in 0..n {
        if run.src.chance(1, 5) {
            let t = w.any_position(run);
            seek(run, &mut c, t);
        }
        let op = *run.src.pick(&[Op::Next, Op::Prev, Op::Is]);
        if w.too_near(&c, op) {
            continue;
        }
        if run.src.chance(1, 6) && w.offs.len() > 2 {
            bad_chunk(&w, run, &mut c, op)?;
        }
        start(&w, run, &mut c, op);
        loop {
            if step(&w, run, &mut c)? {
                break;
            }
            if run.src.chance(1, 5) {
                retry(&w, run, &mut c)?;
                if c.ph == Phase::Idle {
                    c.pos = c.cur.cur_cursor();
                    break;
                }
            }
        }
        state_of(run, &c);
    }
    Ok(())
}

/// Hand the cursor a chunk that does not contain its position: an error (or an answer it already knows,
/// which must then be right), no panic, no damage.
fn bad_chunk(w: &World, run: &mut Run, c: &mut Client, op: Op) -> Res {
    let len = w.text.len();
    let pos = c.cur.cur_cursor();
    let before = c.cur.clone();
    let k = w.offs.binary_search(&pos).unwrap();
    // strictly before or strictly after the cursor
    let win = if k >= 2 && run.src.chance(1, 2) {
        let b = run.src.range(1, k - 1);
        let a = run.src.below(b);
        (w.offs[a], w.offs[b])
    } else if k + 2 < w.offs.len() {
        let a = run.src.range(k + 1, w.offs.len() - 2);
        let b = run.src.range(a + 1, w.offs.len() - 1);
        (w.offs[a], w.offs[b])
    } else {
        return Ok(());
    };
    run.fault("misplaced_chunk");
    run.ev("misplaced", win.0 as u64, win.1 as u64);
    let save = c.win;
    c.win = win;
    let r = call(w, c, op);
    c.win = save;
    match r {
        Ans::Incomplete(GraphemeIncomplete::InvalidOffset) => {}
        Ans::Incomplete(e) => {
            return fail("misplaced-chunk-request", format!("{:?} at {} given {:?}: {:?}", op, pos, win, e));
        }
        Ans::Done(a) => {
            // known without looking (cached, or text ends)
            let ok = match op {
                Op::Is => a == w.expected(Op::Is, pos),
                Op::Next => pos == len && a.is_none(),
                Op::Prev => pos == 0 && a.is_none(),
            };
            check!(ok, "misplaced-chunk-answer", "{:?} at {} given {:?}: {:?}", op, pos, win, a);
        }
    }
    check!(c.cur.cur_cursor() == pos, "misplaced-chunk-moved", "cursor moved from {} to {}", pos, c.cur.cur_cursor());
    // an error must leave the cursor usable; keep the damaged one, not the clone
    let _ = before;
    Ok(())
}
