//! Deterministic stand-in for `rayon-core`: the real `rayon` iterators run on top of it.
//! A seed decides the number of workers the iterators see, which half of each join runs first and
//! which halves count as stolen (and hence how finely the work is split). Without preemption every
//! fork/join is executed on the calling thread. With preemption the halves are threads of which
//! exactly one runs at a time; the seed decides at every yield point (calls into other simulated
//! crates) which one continues.

use std::cell::{Cell, RefCell};
use std::fmt;
use std::marker::PhantomData;

pub mod sim {
    use super::*;
    #[derive(Clone, Debug)]
    pub struct Plan {
        pub threads: usize,
        pub seed: u64,
        /// false: plain depth-first, left-to-right execution
        pub random: bool,
        /// how many times a half may be interrupted by another one (0: never)
        pub preempt: u32,
    }
    thread_local! {
        pub(crate) static PLAN: RefCell<Option<(Plan, u64)>> = const { RefCell::new(None) };
        pub(crate) static JOINS: Cell<u64> = const { Cell::new(0) };
        pub(crate) static SIG: Cell<u64> = const { Cell::new(0) };
    }
    /// Sets the schedule used by the current thread from now on.
    pub fn install(p: Plan) {
        let s = p.seed;
        SIG.with(|x| x.set(0));
        if p.preempt > 0 {
            baton::Sched::install(p.seed, p.preempt, p.threads.max(1));
        } else {
            baton::clear();
        }
        PLAN.with(|x| *x.borrow_mut() = Some((p, s)));
    }
    pub fn clear() {
        PLAN.with(|x| *x.borrow_mut() = None);
        baton::clear();
    }
    /// Joins executed since the last call, and a hash of the schedule taken.
    pub fn take_stats() -> (u64, u64) {
        let (j, s) = (JOINS.with(|j| j.replace(0)), SIG.with(|j| j.replace(0)));
        baton::stats().unwrap_or((j, s))
    }
    /// Runs a half on its own thread and reports a panic as text.
    pub type Catcher = fn(&mut dyn FnMut()) -> Result<(), String>;
    pub(crate) static CATCHER: std::sync::OnceLock<Catcher> = std::sync::OnceLock::new();
    pub fn set_catcher(c: Catcher) {
        let _ = CATCHER.set(c);
    }

    /// A point where another half may continue.
    pub fn yield_point() {
        baton::yield_point()
    }

    pub(crate) fn draw() -> u64 {
        if let Some(d) = baton::draw() {
            return d;
        }
        PLAN.with(|p| {
            let mut p = p.borrow_mut();
            match p.as_mut() {
                Some((plan, s)) if plan.random => {
                    *s = s.wrapping_add(0x9E3779B97F4A7C15);
                    let mut z = *s;
                    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
                    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
                    z ^ (z >> 31)
                }
                _ => 0,
            }
        })
    }
}

/// Threads of which one runs at a time.
mod baton {
    use super::*;
    use std::sync::{Arc, Condvar, Mutex};
    use std::time::Duration;

    struct State {
        running: usize,
        /// in a fixed order
        runnable: Vec<usize>,
        /// (who waits, for whom)
        waiting: Vec<(usize, usize)>,
        done: Vec<usize>,
        next_id: usize,
        rng: u64,
        left: u32,
        ticks: u64,
        sig: u64,
        joins: u64,
    }
    pub struct Sched {
        m: Mutex<State>,
        cv: Condvar,
        threads: usize,
    }
    thread_local! {
        static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
    }
    pub fn me() -> Option<(Arc<Sched>, usize)> {
        ME.with(|m| m.borrow().clone())
    }
    pub fn threads() -> Option<usize> {
        ME.with(|m| m.borrow().as_ref().map(|x| x.0.threads))
    }
    impl State {
        fn draw(&mut self) -> u64 {
            self.rng = self.rng.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = self.rng;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        }
        fn note(&mut self, x: u64) {
            self.sig = (self.sig ^ x).wrapping_mul(0x100000001b3).rotate_left(7);
        }
        fn switch(&mut self) {
            let k = self.draw() as usize % self.runnable.len();
            self.running = self.runnable[k];
            self.note(self.running as u64);
            self.ticks += 1;
        }
    }
    impl Sched {
        pub fn install(seed: u64, left: u32, threads: usize) {
            let s = State { running: 0, runnable: vec![0], waiting: vec![], done: vec![], next_id: 1, rng: seed, left, ticks: 0, sig: 0, joins: 0 };
            ME.with(|m| *m.borrow_mut() = Some((Arc::new(Sched { m: Mutex::new(s), cv: Condvar::new(), threads }), 0)));
        }
        /// Waits until it is `id`'s turn. If the running one is stuck (it waits for a lock that an
        /// interrupted one holds), the next one in order goes on.
        fn wait(&self, id: usize) {
            let mut st = self.m.lock().unwrap();
            while st.running != id {
                let seen = st.ticks;
                let (g, t) = self.cv.wait_timeout(st, Duration::from_millis(250)).unwrap();
                st = g;
                if t.timed_out() && st.ticks == seen && st.running != id && st.runnable.contains(&id) {
                    let stuck = st.running;
                    let at = st.runnable.iter().position(|x| *x == stuck).map_or(0, |i| i + 1);
                    st.running = st.runnable[at % st.runnable.len()];
                    st.ticks += 1;
                    self.cv.notify_all();
                }
            }
        }
    }
    pub fn clear() {
        ME.with(|m| *m.borrow_mut() = None);
    }
    pub fn stats() -> Option<(u64, u64)> {
        let (s, _) = me()?;
        let st = s.m.lock().unwrap();
        Some((st.joins, st.sig))
    }
    /// Only so many halves become threads, further ones run where they are.
    pub fn may_fork() -> bool {
        me().is_some_and(|(s, _)| s.m.lock().unwrap().joins < 12)
    }
    pub fn draw() -> Option<u64> {
        let (s, _) = me()?;
        let mut st = s.m.lock().unwrap();
        Some(st.draw())
    }
    pub fn yield_point() {
        let Some((s, id)) = me() else { return };
        {
            let mut st = s.m.lock().unwrap();
            st.ticks += 1;
            if st.running == id {
                if st.left == 0 || st.runnable.len() < 2 || st.draw() % 3 != 0 {
                    return;
                }
                st.left -= 1;
                st.switch();
                s.cv.notify_all();
            }
        }
        s.wait(id);
    }
    /// Runs both halves as threads; whichever the seed picks goes first.
    pub fn join<RA: Send, RB: Send>(a: impl FnOnce() -> RA + Send, b: impl FnOnce() -> RB + Send) -> (RA, RB) {
        let (s, id) = me().unwrap();
        let child = {
            let mut st = s.m.lock().unwrap();
            st.joins += 1;
            let c = st.next_id;
            st.next_id += 1;
            st.runnable.push(c);
            c
        };
        let mut rb = None;
        let mut failed = None;
        let ra = std::thread::scope(|sc| {
            let (s2, rb, failed) = (s.clone(), &mut rb, &mut failed);
            sc.spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((s2.clone(), child)));
                s2.wait(child);
                let mut b = Some(b);
                let mut run = || *rb = Some(b.take().unwrap()());
                let r = match sim::CATCHER.get() {
                    Some(c) => c(&mut run),
                    None => std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut run)).map_err(|_| "panic in a parallel job".to_string()),
                };
                *failed = r.err();
                let mut st = s2.m.lock().unwrap();
                st.runnable.retain(|x| *x != child);
                st.done.push(child);
                if let Some(i) = st.waiting.iter().position(|w| w.1 == child) {
                    let (w, _) = st.waiting.remove(i);
                    st.runnable.push(w);
                }
                if st.running == child {
                    st.switch();
                }
                st.ticks += 1;
                s2.cv.notify_all();
            });
            {
                // the child may go first
                let mut st = s.m.lock().unwrap();
                if st.running == id && st.draw() % 2 == 0 {
                    st.switch();
                    s.cv.notify_all();
                }
            }
            s.wait(id);
            let ra = std::panic::catch_unwind(std::panic::AssertUnwindSafe(a));
            {
                let mut st = s.m.lock().unwrap();
                if !st.done.contains(&child) {
                    st.runnable.retain(|x| *x != id);
                    st.waiting.push((id, child));
                    if st.running == id {
                        st.switch();
                    }
                    s.cv.notify_all();
                }
            }
            s.wait(id);
            ra
        });
        match (ra, failed) {
            (Err(p), _) => std::panic::resume_unwind(p),
            (_, Some(m)) => panic!("{m}"),
            (Ok(ra), None) => (ra, rb.unwrap()),
        }
    }
}

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if baton::may_fork() {
        let d = sim::draw();
        let (ma, mb) = (d & 3 == 3, d & 12 == 12);
        return baton::join(move || a(FnContext::new(ma)), move || b(FnContext::new(mb)));
    }
    sim::JOINS.with(|j| j.set(j.get() + 1));
    let d = sim::draw();
    let (swap, ma, mb) = (d & 1 == 1, d & 6 == 6, d & 24 == 24);
    sim::SIG.with(|s| s.set((s.get() ^ (d & 31)).wrapping_mul(0x100000001b3).rotate_left(7)));
    if swap {
        let rb = b(FnContext::new(mb));
        let ra = a(FnContext::new(ma));
        (ra, rb)
    } else {
        let ra = a(FnContext::new(ma));
        let rb = b(FnContext::new(mb));
        (ra, rb)
    }
}

pub fn current_num_threads() -> usize {
    if let Some(n) = baton::threads() {
        return n;
    }
    sim::PLAN.with(|p| p.borrow().as_ref().map(|p| p.0.threads).unwrap_or(1)).max(1)
}
pub fn max_num_threads() -> usize {
    1024
}
pub fn current_thread_index() -> Option<usize> {
    None
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    None
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    None
}
pub fn yield_local() -> Option<Yield> {
    None
}

type Job<'s> = Box<dyn FnOnce() + Send + 's>;

macro_rules! scopes { ($scope:ident, $f:ident, $ip:ident, $spawn:ident) => {
    pub struct $scope<'scope> {
        jobs: RefCell<Vec<Box<dyn FnOnce(&$scope<'scope>) + Send + 'scope>>>,
    }
    unsafe impl Sync for $scope<'_> {}
    impl<'scope> $scope<'scope> {
        pub fn $spawn<B>(&self, body: B) where B: FnOnce(&$scope<'scope>) + Send + 'scope {
            self.jobs.borrow_mut().push(Box::new(body));
        }
    }
    pub fn $f<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&$scope<'scope>) -> R + Send, R: Send {
        $ip(op)
    }
    pub fn $ip<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&$scope<'scope>) -> R {
        let s = $scope { jobs: RefCell::new(vec![]) };
        let r = op(&s);
        loop {
            let job = {
                let mut j = s.jobs.borrow_mut();
                if j.is_empty() { break }
                let n = j.len() as u64;
                j.remove((sim::draw() % n) as usize)
            };
            job(&s);
        }
        r
    }
} }
scopes!(Scope, scope, in_place_scope, spawn);
scopes!(ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo);

pub fn spawn<F: FnOnce() + Send + 'static>(f: F) {
    let j: Job = Box::new(f);
    j()
}
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) {
    f()
}

pub struct BroadcastContext<'a> {
    index: usize,
    n: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        self.n
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = current_num_threads();
    (0..n).map(|index| op(BroadcastContext { index, n, _m: PhantomData })).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "thread pool")
    }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadBuilder;
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: self.n })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        if self.n == 0 {
            current_num_threads()
        } else {
            self.n
        }
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        f()
    }
}
