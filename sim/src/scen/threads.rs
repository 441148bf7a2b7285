//! I02: operations on several simulated threads, preempted at seeded instructions, handed from thread
//! to thread, in a fresh process each time (so that whatever is initialised on first use is).

use crate::check;
use crate::core::*;
use crate::scen::mixed::{catch, reference, relative, spec, start, text, Spec, Task, FAIL_IN};
use std::io::{Read, Write};
use std::marker::PhantomData;
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};
use unic::bidi::{BidiInfo, Level};
use unic::char::range::{CharIter, CharRange};
use unic::normal::{Decompositions, Recompositions, StrNormalForm};
use unic::segment::{GraphemeCursor, GraphemeIndices, Graphemes, WordBoundIndices, WordBounds};
use unic::ucd::*;

#[repr(C)]
#[derive(Clone, Copy, Debug)]
struct Sw {
    delta: u32,
    pick: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct Trace {
    at: u64,
    from: u32,
    to: u32,
    why: u32,
    pc: u32,
}

#[repr(C)]
#[derive(Clone, Copy)]
struct SchedStats {
    events: u64,
    hot: u64,
    switches: u64,
    waits: u64,
    yields: u64,
    hash: u64,
    status: u32,
    ntrace: u32,
    trace: [Trace; 256],
}

extern "C" {
    fn mt_begin(n: i32, any: *const Sw, nany: u64, hot: *const Sw, nhot: u64, cap: u64, seed: u64);
    fn mt_mute(on: i32);
    fn mt_enter(i: i32);
    fn mt_leave();
    fn mt_yield();
    fn mt_run(first: i32) -> *const SchedStats;
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, fl: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn alarm(s: u32) -> u32;
}

struct Mover<T>(T);
// the types themselves are judged by `sendable`
unsafe impl<T> Send for Mover<T> {}
unsafe impl<T> Sync for Mover<T> {}

// ---------------------------------------------------------------- may the values be shared at all

struct Probe<T: ?Sized>(PhantomData<T>);
trait YesSend {
    fn sends(&self) -> bool {
        true
    }
}
trait NoSend {
    fn sends(&self) -> bool {
        false
    }
}
impl<T: Send + ?Sized> YesSend for Probe<T> {}
impl<T: ?Sized> NoSend for &Probe<T> {}
trait YesSync {
    fn syncs(&self) -> bool {
        true
    }
}
trait NoSync {
    fn syncs(&self) -> bool {
        false
    }
}
impl<T: Sync + ?Sized> YesSync for Probe<T> {}
impl<T: ?Sized> NoSync for &Probe<T> {}

fn sendable() -> Res {
    macro_rules! all {
        ($($t:ty),*) => { $(
            check!((&Probe::<$t>(PhantomData)).sends(), "not-send", "{} cannot be handed to another thread", stringify!($t));
            check!((&Probe::<$t>(PhantomData)).syncs(), "not-sync", "{} cannot be shared between threads", stringify!($t));
        )* };
    }
    type C = std::str::Chars<'static>;
    all!(
        Graphemes<'static>, GraphemeIndices<'static>, GraphemeCursor, WordBounds<'static>, WordBoundIndices<'static>,
        Decompositions<C>, Recompositions<C>, BidiInfo<'static>, Level, unic::bidi::ParagraphInfo, CharRange, CharIter, Name,
        Block, BlockIter, GeneralCategory, Age, BidiClass, CanonicalCombiningClass, GraphemeClusterBreak, WordBreak,
        SentenceBreak, UnicodeVersion, NameAliasType, unic::idna::Flags, unic::idna::Errors
    );
    Ok(())
}

// ---------------------------------------------------------------- what is done

#[derive(Clone, Debug)]
enum Op {
    /// an operation on the thread's own values
    Own(Spec),
    /// a copy, made by whoever comes first, of a shared iterator that has been advanced
    Copy(u8, String, usize),
    /// questions to a shared BidiInfo
    Info(String, u8),
}

type Factory = Box<dyn Fn() -> Box<dyn Task>>;

fn proto<I>(mut it: I, k: usize, show: fn(I::Item) -> String) -> Factory
where
    I: Iterator + Clone + 'static,
{
    for _ in 0..k {
        it.next();
    }
    Box::new(move || {
        let mut c = None;
        // copied at the first step, by the thread that takes it
        let it: *const I = &it;
        Box::new(move || c.get_or_insert_with(|| unsafe { (*it).clone() }).next().map(show))
    })
}

fn factory(op: &'static Op) -> Factory {
    match op {
        Op::Own(sp) => Box::new(move || start(sp)),
        Op::Copy(kind, t, k) => {
            let t: &'static str = t;
            let k = *k;
            match kind {
                0 => proto(Graphemes::new(t), k, |s: &str| s.to_string()),
                1 => proto(WordBounds::new(t), k, |s: &str| s.to_string()),
                2 => proto(t.nfc(), k, |c| format!("{:?}", c)),
                3 => proto(t.nfd(), k, |c| format!("{:?}", c)),
                4 => proto(t.nfkc(), k, |c| format!("{:?}", c)),
                5 => proto(GraphemeIndices::new_legacy(t), k, |(i, s): (usize, &str)| format!("{} {}", i, s)),
                6 => proto(WordBoundIndices::new(t), k, |(i, s): (usize, &str)| format!("{} {}", i, s)),
                _ => {
                    let c = t.chars().next().unwrap_or('\u{D7FA}');
                    let d = char::from_u32((c as u32 + 9).min(0x10FFFF)).unwrap_or('\u{E003}');
                    proto(CharRange::closed(c.min(d), d.max(c)).iter(), k, |c| format!("{:?}", c))
                }
            }
        }
        Op::Info(t, l) => {
            let level = [None, Some(0), Some(1)][*l as usize % 3];
            let info: &'static BidiInfo<'static> = Box::leak(Box::new(BidiInfo::new(t, level.map(|l| Level::new(l).unwrap()))));
            Box::new(move || {
                let mut n = 0;
                Box::new(move || {
                    let i = n / 3;
                    let p = info.paragraphs.get(i)?;
                    n += 1;
                    Some(match n % 3 {
                        0 => format!("{:?}", info.reorder_line(p, p.range.clone())),
                        1 => format!("{:?}", info.visual_runs(p, p.range.clone()).1),
                        _ => format!("{:?}", info.levels[p.range.clone()].iter().map(|l| (l.number(), l.is_rtl())).collect::<Vec<_>>()),
                    })
                })
            })
        }
    }
}

fn drain(mut t: Box<dyn Task>) -> Vec<String> {
    let mut v = vec![];
    while let Ok(Some(s)) = catch(|| t.step()) {
        v.push(s);
        if v.len() > 2000 {
            break;
        }
    }
    v
}

/// The object `i`: what is left of it, what it gave, how it stands.
struct Object {
    task: Option<Box<dyn Task>>,
    out: Vec<String>,
    state: u8, // 0 running, 1 finished, 2 failed
}

#[derive(Clone)]
struct Plan {
    ops: Vec<Op>,
    /// per thread: (object, steps, fail in the n-th callback)
    threads: Vec<Vec<(usize, usize, u64)>>,
    /// threads that end after their program without helping to finish
    quits: Vec<bool>,
    /// preemptions anywhere, and at accesses to shared memory
    switches: Vec<Sw>,
    hot: Vec<Sw>,
    first: usize,
    seed: u64,
}

fn work(me: usize, plan: &Plan, objects: &[Mutex<Option<Object>>]) {
    // one thread runs at a time, and not switched in here: the locks are never contended
    fn quietly<T>(f: impl FnOnce() -> T) -> T {
        unsafe { mt_mute(1) };
        let r = f();
        unsafe { mt_mute(0) };
        r
    }
    let take = |i: usize| quietly(|| objects[i].lock().unwrap().take());
    let give = |i: usize, o: Object| quietly(|| *objects[i].lock().unwrap() = Some(o));
    let advance = |o: &mut Object, steps: usize, fail: u64| {
        let Some(mut t) = o.task.take() else { return };
        FAIL_IN.with(|f| f.set(fail));
        for _ in 0..steps {
            match catch(|| t.step()) {
                Ok(Some(s)) => o.out.push(s),
                Ok(None) => {
                    o.state = 1;
                    FAIL_IN.with(|f| f.set(0));
                    return;
                }
                Err(()) => {
                    o.state = 2;
                    FAIL_IN.with(|f| f.set(0));
                    return;
                }
            }
        }
        FAIL_IN.with(|f| f.set(0));
        o.task = Some(t);
    };
    for &(i, steps, fail) in &plan.threads[me] {
        match take(i) {
            Some(mut o) => {
                advance(&mut o, steps, fail);
                give(i, o);
            }
            None => unsafe { mt_yield() },
        }
    }
    if plan.quits[me] {
        return;
    }
    let n = objects.len();
    loop {
        let mut left = false;
        for k in 0..n {
            let i = (me + k) % n;
            match take(i) {
                Some(mut o) => {
                    advance(&mut o, 3, 0);
                    left |= o.task.is_some();
                    give(i, o);
                    unsafe { mt_yield() }
                }
                None => {
                    left = true;
                    unsafe { mt_yield() }
                }
            }
        }
        if !left {
            return;
        }
    }
}

// ---------------------------------------------------------------- in a child process

fn put_str(b: &mut Vec<u8>, s: &str) {
    b.extend_from_slice(&(s.len() as u32).to_le_bytes());
    b.extend_from_slice(s.as_bytes());
}
fn put_list(b: &mut Vec<u8>, v: &[String]) {
    b.extend_from_slice(&(v.len() as u32).to_le_bytes());
    for s in v {
        put_str(b, s);
    }
}
struct Get<'a>(&'a [u8]);
impl<'a> Get<'a> {
    fn n(&mut self) -> usize {
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        u32::from_le_bytes(a.try_into().unwrap()) as usize
    }
    fn s(&mut self) -> String {
        let n = self.n();
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        String::from_utf8_lossy(a).into_owned()
    }
    fn list(&mut self) -> Vec<String> {
        let n = self.n();
        (0..n).map(|_| self.s()).collect()
    }
    fn raw(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
}

/// Runs `f` in a forked child and returns what it wrote, or the signal or status it died with.
fn in_child(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, i32> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "simulator: pipe");
        let p = fork();
        assert!(p >= 0, "simulator: fork");
        if p == 0 {
            alarm(40);
            drop(std::fs::File::from_raw_fd(fds[0]));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            match r {
                Ok(b) => {
                    let _ = w.write_all(&b);
                    _exit(0)
                }
                Err(_) => _exit(101),
            }
        }
        drop(std::fs::File::from_raw_fd(fds[1]));
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut b = vec![];
        let _ = r.read_to_end(&mut b);
        let mut st = 0;
        waitpid(p, &mut st, 0);
        if st == 0 { Ok(b) } else { Err(st) }
    }
}

const EVENT_CAP: u64 = 60_000_000;

fn threaded(plan: &'static Plan) -> Vec<u8> {
    let factories: Vec<Factory> = plan.ops.iter().map(factory).collect();
    let factories: &'static [Factory] = Box::leak(factories.into_boxed_slice());
    let objects: Arc<Mover<Vec<Mutex<Option<Object>>>>> = Arc::new(Mover(
        factories.iter().map(|f| Mutex::new(Some(Object { task: Some(f()), out: vec![], state: 0 }))).collect(),
    ));
    let n = plan.threads.len();
    unsafe { mt_begin(n as i32, plan.switches.as_ptr(), plan.switches.len() as u64, plan.hot.as_ptr(), plan.hot.len() as u64, EVENT_CAP, plan.seed) };
    let hs: Vec<_> = (0..n).map(|i| {
        let o = objects.clone();
        std::thread::Builder::new().stack_size(4 << 20).spawn(move || unsafe {
            mt_enter(i as i32);
            let o = o;
            work(i, plan, &o.0);
            mt_leave();
        }).expect("simulator: thread")
    }).collect();
    let st = unsafe { &*mt_run(plan.first as i32) };
    let mut b = vec![];
    b.extend_from_slice(unsafe { std::slice::from_raw_parts(st as *const SchedStats as *const u8, std::mem::size_of::<SchedStats>()) });
    if st.status != 1 {
        return b;
    }
    for h in hs {
        h.join().expect("simulator: join");
    }
    for o in &objects.0 {
        match o.lock().unwrap().take() {
            Some(o) => {
                b.push(o.state);
                put_list(&mut b, &o.out);
            }
            None => {
                b.push(3);
                put_list(&mut b, &[]);
            }
        }
    }
    // and once more, after everything
    for f in factories {
        put_list(&mut b, &drain(f()));
    }
    b
}

fn sequential(ops: &'static [Op]) -> Vec<u8> {
    let mut b = vec![];
    for op in ops {
        put_list(&mut b, &drain(factory(op)()));
    }
    b
}

pub fn threads(run: &mut Run) -> Res {
    sendable()?;
    let k = run.src.range(1, 2);
    let mut pool: Vec<String> = (0..k).map(|_| text(run)).collect();
    if run.src.chance(1, 3) {
        let t = relative(run, &pool[0].clone());
        pool.push(t);
    }
    let n = run.src.range(1, 4);
    let mut ops: Vec<Op> = vec![];
    for _ in 0..n {
        // the same operation on several threads meets itself
        if !ops.is_empty() && run.src.chance(1, 3) {
            let o = ops[run.src.below(ops.len())].clone();
            ops.push(o);
            continue;
        }
        ops.push(match run.src.weighted(&[5, 2, 1]) {
            0 => Op::Own(spec(run, &pool)),
            1 => Op::Copy(run.src.below(8) as u8, run.src.pick(&pool).clone(), run.src.below(4)),
            _ => Op::Info(run.src.pick(&pool).clone(), run.src.below(3) as u8),
        });
    }
    let nt = run.src.range(2, 4);
    let threads: Vec<Vec<(usize, usize, u64)>> = (0..nt).map(|t| {
        let m = run.src.range(0, 5);
        (0..m).map(|j| {
            let i = if run.src.chance(1, 2) { run.src.below(n) } else { (t + j) % n };
            let fail = if run.src.chance(1, 12) { run.src.range(1, 12) as u64 } else { 0 };
            (i, 1 + run.src.geo(16), fail)
        }).collect()
    }).collect();
    let mut quits: Vec<bool> = (0..nt).map(|_| run.src.chance(1, 6)).collect();
    if quits.iter().all(|q| *q) {
        quits[0] = false;
    }
    let m = if run.src.chance(7, 8) { run.src.geo(60) } else { 0 };
    let e = run.src.range(3, 15);
    let switches: Vec<Sw> = (0..m).map(|_| {
        let bits = run.src.range(2, e);
        Sw { delta: run.src.below(1 << bits) as u32, pick: run.src.below(6) as u32 }
    }).collect();
    let h = if run.src.chance(7, 8) { run.src.range(1, 40) } else { 0 };
    let e = run.src.below(9);
    let hot: Vec<Sw> = (0..h).map(|_| Sw { delta: run.src.below(1 << e) as u32, pick: run.src.below(6) as u32 }).collect();
    let raw = Box::into_raw(Box::new(Plan { ops, threads, quits, switches, hot, first: run.src.below(nt), seed: run.src.below(1 << 16) as u64 }));
    // lives until the end of the run, in the children for good
    let r = execute(run, unsafe { &*raw });
    drop(unsafe { Box::from_raw(raw) });
    r
}

fn execute(run: &mut Run, plan: &'static Plan) -> Res {
    let nt = plan.threads.len();
    for op in &plan.ops {
        run.il(hash_str(&format!("{:?}", op)));
        run.note(|| format!("operation {:?}", op));
    }
    run.note(|| format!("threads {:?} ending early {:?} first {} switches {:?}", plan.threads, plan.quits, plan.first,
        plan.switches.iter().map(|s| format!("+{}>{}", s.delta, s.pick)).chain(plan.hot.iter().map(|s| format!("shared+{}>{}", s.delta, s.pick))).collect::<Vec<_>>()));
    let seq = match in_child(|| sequential(&plan.ops)) {
        Ok(b) => b,
        Err(st) => return fail("sequential-use-dies", format!("{:?} one after the other: process status {}", plan.ops, st)),
    };
    let mut g = Get(&seq);
    let want: Vec<Vec<String>> = plan.ops.iter().map(|_| g.list()).collect();
    let par = match in_child(|| threaded(plan)) {
        Ok(b) => b,
        Err(14) => return fail("threads-hang", format!("{:?} on {} threads did not end", plan.ops, nt)),
        Err(st) => return fail("threads-die", format!("{:?} on {} threads: process status {}", plan.ops, nt, st)),
    };
    let mut g = Get(&par);
    let st: SchedStats = unsafe { std::ptr::read_unaligned(g.raw(std::mem::size_of::<SchedStats>()).as_ptr() as *const SchedStats) };
    run.ev("schedule", st.hash, st.status as u64);
    run.il(st.hash);
    run.stats.steps += st.events;
    for t in &st.trace[..st.ntrace as usize] {
        run.note(|| format!("  at {} thread {} -> {} {} (code offset {:#x})", t.at, t.from, t.to, ["preempted", "blocked", "yields"][t.why as usize % 3], t.pc));
    }
    for t in &st.trace[..st.ntrace as usize] {
        run.fault(["preemption", "blocked on a lock", "yield"][t.why as usize % 3]);
    }
    if st.hot > 0 {
        run.probe("atomic or static memory access by the library");
    }
    check!(st.status != 2, "deadlock", "{:?} on {} threads: every thread waits for another", plan.ops, nt);
    check!(st.status == 1, "threads-hang", "{:?} on {} threads: no end after {} steps", plan.ops, nt, st.events);
    for (i, op) in plan.ops.iter().enumerate() {
        let state = g.raw(1)[0];
        let got = g.list();
        run.state(hash_str(&got.concat()));
        run.note(|| format!("{}: state {} {:?}", i, state, got));
        check!(state != 0 && state != 3, "lost", "{:?} on {} threads: the harness lost an operation", op, nt);
        if state == 2 {
            run.fault("callback failed");
            check!(want[i].starts_with(&got), "influenced", "{:?}, which failed in a callback, gave {:?}; sequentially it gives {:?}", op, got, want[i]);
        } else {
            check!(got == want[i], "influenced", "{:?} on {} threads gave {:?}; sequentially it gives {:?}", op, nt, got, want[i]);
        }
    }
    for (i, op) in plan.ops.iter().enumerate() {
        let got = g.list();
        check!(got == want[i], "left-behind", "{:?} gave {:?} after {} threads had used the library; sequentially it gives {:?}", op, got, nt, want[i]);
        if let Op::Own(sp) = op {
            reference(sp, &got)?;
        }
    }
    Ok(())
}
