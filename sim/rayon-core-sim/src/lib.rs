//! A stand-in for rayon-core (the work-stealing pool) for deterministic simulation.
//!
//! Logical workers are OS threads that hand one token around: exactly one of them runs at any
//! moment, and which one continues at a yield point is decided by the chooser that the simulator
//! installs.  Whether the second half of a `join` is stolen by another worker is decided the same
//! way.  The rest of rayon (adapters, splitting policy, collecting) is the real code.

use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex, MutexGuard};

type Payload = Box<dyn Any + Send>;

pub mod sim {
    use super::*;

    pub type Chooser = Box<dyn FnMut(&'static str, usize) -> usize + Send>;

    pub(crate) struct State {
        pub chooser: Chooser,
        pub threads: usize,
        pub token: usize,
        pub runnable: Vec<usize>,
        pub next: usize,
        pub alive: usize,
    }
    pub(crate) static STATE: Mutex<Option<State>> = Mutex::new(None);
    pub(crate) static WAKE: Condvar = Condvar::new();
    thread_local!(pub(crate) static ME: Cell<usize> = const { Cell::new(0) });

    pub(crate) fn lock() -> MutexGuard<'static, Option<State>> {
        STATE.lock().unwrap_or_else(|e| e.into_inner())
    }

    /// Installs the simulated pool: `threads` workers, every decision made by `chooser`
    /// (what, n) -> 0..n, where 0 is the simple choice.
    pub fn install(threads: usize, chooser: Chooser) {
        ME.with(|m| m.set(0));
        *lock() = Some(State { chooser, threads, token: 0, runnable: vec![0], next: 1, alive: 1 });
    }

    pub fn uninstall() {
        *lock() = None;
    }

    pub fn installed() -> bool {
        lock().is_some()
    }

    pub(crate) fn choose(what: &'static str, n: usize) -> usize {
        match lock().as_mut() {
            Some(s) => (s.chooser)(what, n),
            None => 0,
        }
    }

    fn wait_for_token(me: usize) {
        let mut g = lock();
        while g.as_ref().map_or(false, |s| s.token != me) {
            g = WAKE.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    }

    /// A place where another worker may run.
    pub fn yield_point() {
        let me = ME.with(|m| m.get());
        {
            let mut g = lock();
            let Some(s) = g.as_mut() else { return };
            if s.runnable.len() <= 1 {
                return;
            }
            // 0: go on; otherwise another worker
            let others: Vec<usize> = s.runnable.iter().copied().filter(|&f| f != me).collect();
            let k = (s.chooser)("switch", others.len() + 1);
            if k == 0 {
                return;
            }
            s.token = others[k - 1];
            WAKE.notify_all();
        }
        wait_for_token(me);
    }

    /// New worker, not yet running.
    pub(crate) fn fork() -> Option<usize> {
        let mut g = lock();
        let s = g.as_mut()?;
        if s.alive >= s.threads {
            return None;
        }
        if (s.chooser)("steal", 2) == 0 {
            return None;
        }
        let id = s.next;
        s.next += 1;
        s.alive += 1;
        s.runnable.push(id);
        Some(id)
    }

    pub(crate) fn enter(id: usize) {
        ME.with(|m| m.set(id));
        wait_for_token(id);
    }

    fn pass(s: &mut State, what: &'static str) {
        let k = if s.runnable.len() > 1 { (s.chooser)(what, s.runnable.len()) } else { 0 };
        s.token = s.runnable[k];
        WAKE.notify_all();
    }

    /// The worker `id` is finished; `waiter` (blocked on it) may go on.
    pub(crate) fn leave(id: usize, done: &Mutex<(bool, Option<usize>)>) {
        let mut g = lock();
        let s = g.as_mut().expect("pool");
        s.runnable.retain(|&f| f != id);
        s.alive -= 1;
        let mut d = done.lock().unwrap_or_else(|e| e.into_inner());
        d.0 = true;
        if let Some(w) = d.1.take() {
            s.runnable.push(w);
        }
        drop(d);
        pass(s, "after-end");
    }

    /// Blocks the current worker until `done`.
    pub(crate) fn block(done: &Mutex<(bool, Option<usize>)>) {
        let me = ME.with(|m| m.get());
        {
            let mut g = lock();
            let s = g.as_mut().expect("pool");
            let mut d = done.lock().unwrap_or_else(|e| e.into_inner());
            if d.0 {
                return;
            }
            d.1 = Some(me);
            drop(d);
            s.runnable.retain(|&f| f != me);
            pass(s, "while-waiting");
        }
        wait_for_token(me);
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
}
impl FnContext {
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn current_num_threads() -> usize {
    sim::lock().as_ref().map_or(1, |s| s.threads)
}
pub fn max_num_threads() -> usize {
    1 << 16
}
pub fn current_thread_index() -> Option<usize> {
    sim::lock().as_ref().map(|s| sim::ME.with(|m| m.get()) % s.threads)
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    let Some(id) = sim::fork() else {
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext { migrated: false })));
        return match ra {
            Ok(ra) => (ra, b(FnContext { migrated: false })),
            Err(p) => {
                // rayon still executes the other half before the panic goes on
                let _ = catch_unwind(AssertUnwindSafe(|| b(FnContext { migrated: true })));
                resume_unwind(p)
            }
        };
    };
    let done = Mutex::new((false, None));
    let slot: Mutex<Option<Result<RB, Payload>>> = Mutex::new(None);
    let ra = std::thread::scope(|sc| {
        sc.spawn(|| {
            sim::enter(id);
            let r = catch_unwind(AssertUnwindSafe(|| b(FnContext { migrated: true })));
            *slot.lock().unwrap() = Some(r);
            sim::leave(id, &done);
        });
        sim::yield_point();
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext { migrated: false })));
        sim::block(&done);
        ra
    });
    let rb = slot.into_inner().unwrap().expect("other half");
    match (ra, rb) {
        (Err(p), _) => resume_unwind(p),
        (_, Err(p)) => resume_unwind(p),
        (Ok(x), Ok(y)) => (x, y),
    }
}

// ---------------------------------------------------------------- scopes: spawned work runs at the end

type Job<'s> = Box<dyn FnOnce(&Scope<'s>) + Send + 's>;

pub struct Scope<'scope> {
    jobs: Mutex<Vec<Job<'scope>>>,
}
impl std::fmt::Debug for Scope<'_> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Scope")
    }
}
impl<'scope> Scope<'scope> {
    pub fn spawn<F>(&self, f: F)
    where
        F: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.jobs.lock().unwrap().push(Box::new(f));
    }
}
pub type ScopeFifo<'scope> = Scope<'scope>;

pub fn in_place_scope<'scope, F, R>(op: F) -> R
where
    F: FnOnce(&Scope<'scope>) -> R,
{
    let s = Scope { jobs: Mutex::new(vec![]) };
    let r = op(&s);
    loop {
        let job = {
            let mut j = s.jobs.lock().unwrap();
            if j.is_empty() {
                break;
            }
            let n = j.len();
            let k = sim::choose("job", n);
            j.remove(k)
        };
        job(&s);
    }
    r
}
pub fn scope<'scope, F, R>(op: F) -> R
where
    F: FnOnce(&Scope<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn scope_fifo<'scope, F, R>(op: F) -> R
where
    F: FnOnce(&ScopeFifo<'scope>) -> R + Send,
    R: Send,
{
    in_place_scope(op)
}
pub fn in_place_scope_fifo<'scope, F, R>(op: F) -> R
where
    F: FnOnce(&ScopeFifo<'scope>) -> R,
{
    in_place_scope(op)
}

// ---------------------------------------------------------------- the rest of the interface

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}
#[derive(Debug)]
pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _p: std::marker::PhantomData<&'a ()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|index| op(BroadcastContext { index, n, _p: std::marker::PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}
#[derive(Debug)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    sim::yield_point();
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    Some(Yield::Idle)
}
#[derive(Debug)]
pub struct ThreadBuilder;
#[derive(Debug)]
pub struct ThreadPoolBuildError;
#[derive(Debug)]
pub struct ThreadPool;
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
}
impl ThreadPool {
    pub fn install<OP: FnOnce() -> R + Send, R: Send>(&self, op: OP) -> R {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
}
