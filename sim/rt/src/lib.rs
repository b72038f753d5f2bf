//! Simulated runtime: one thread, a virtual clock, a seeded choice among ready tasks, and the
//! transport of simulated requests. Everything that waits, waits here.
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

pub mod net;

/// Payload of the unwinding that ends a simulated process from outside.
pub struct Killed(pub &'static str);

#[derive(Default)]
pub struct Stats {
    pub events: u64,
    pub polls: u64,
    /// Hash of the order in which tasks and events ran.
    pub order: u64,
    pub sim_ms: u64,
}

struct Rt {
    now: u64,
    seq: u64,
    rng: u64,
    /// (due, tie break, sequence number) → waker
    timers: BTreeMap<(u64, u64, u64), Waker>,
    tasks: Vec<Option<Task>>,
    kill_at: Option<u64>,
    max_events: u64,
    stats: Stats,
}
struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    ready: Arc<Flag>,
}
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed)
    }
}

thread_local! {
    static RT: RefCell<Option<Rt>> = const { RefCell::new(None) };
    static DOOM: Cell<Option<&'static str>> = const { Cell::new(None) };
    static ARGS: RefCell<Option<Vec<String>>> = const { RefCell::new(None) };
}
fn rt<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    RT.with(|r| f(r.borrow_mut().as_mut().expect("no simulated runtime on this thread")))
}
fn next(rng: &mut u64) -> u64 {
    *rng = rng.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

/// Starts a runtime on this thread; seed 0 runs everything in order of creation.
pub fn enter(seed: u64, now_ms: u64) {
    RT.with(|r| {
        *r.borrow_mut() = Some(Rt {
            now: now_ms * 1_000_000,
            seq: 0,
            rng: seed,
            timers: BTreeMap::new(),
            tasks: vec![],
            kill_at: None,
            max_events: 2_000_000,
            stats: Stats::default(),
        })
    });
    DOOM.with(|d| d.set(None));
}
pub fn leave() -> Stats {
    let mut r = RT.with(|r| r.borrow_mut().take()).expect("no runtime");
    r.stats.sim_ms = r.now / 1_000_000;
    let s = std::mem::take(&mut r.stats);
    drop(r);
    net::clear();
    s
}
pub fn active() -> bool {
    RT.with(|r| r.borrow().is_some())
}
pub fn now() -> Duration {
    Duration::from_nanos(rt(|r| r.now))
}
pub fn now_ms() -> u64 {
    rt(|r| r.now / 1_000_000)
}
/// The process ends when the clock reaches this moment.
pub fn kill_at(ms: Option<u64>) {
    rt(|r| r.kill_at = ms.map(|m| m * 1_000_000))
}
/// The process ends at its next interaction with the runtime.
pub fn doom(why: &'static str) {
    DOOM.with(|d| d.set(Some(why)))
}
pub fn max_events(n: u64) {
    rt(|r| r.max_events = n)
}
/// Unwinds if the process has been ended.
pub fn check_doom() {
    if let Some(w) = DOOM.with(|d| d.get()) {
        if !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Killed(w)));
        }
    }
}
/// Result of a simulated process.
pub enum Ended<T> {
    Returned(T),
    Killed(&'static str),
    Panicked(Box<dyn Any + Send>),
}
pub fn process<T>(f: impl FnOnce() -> T) -> Ended<T> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    // whatever was spawned ends with the process
    let old = rt(|r| (std::mem::take(&mut r.tasks), std::mem::take(&mut r.timers)));
    drop(old);
    let doomed = DOOM.with(|d| d.take());
    match r {
        Ok(v) => match doomed {
            Some(w) => Ended::Killed(w),
            None => Ended::Returned(v),
        },
        Err(p) => match p.downcast::<Killed>() {
            Ok(k) => Ended::Killed(k.0),
            Err(p) => match doomed {
                Some(w) => Ended::Killed(w),
                None => Ended::Panicked(p),
            },
        },
    }
}
/// Command line of the simulated process.
pub fn set_args(a: Option<Vec<String>>) {
    ARGS.with(|x| *x.borrow_mut() = a)
}
pub fn args() -> Option<Vec<String>> {
    ARGS.with(|x| x.borrow().clone())
}

/// Completes after a span of simulated time.
pub struct Sleep {
    due: Option<u64>,
    d: Duration,
    key: Option<(u64, u64, u64)>,
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep { due: None, d, key: None }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        check_doom();
        let d = self.d.as_nanos().min(u64::MAX as u128 / 4) as u64;
        let (due, done, key) = rt(|r| {
            let due = self.due.unwrap_or(r.now.saturating_add(d));
            if let Some(k) = self.key {
                r.timers.remove(&k);
            }
            if due <= r.now && self.due.is_some() || d == 0 && self.due.is_some() {
                return (due, true, None);
            }
            r.seq += 1;
            let tie = if r.rng == 0 { 0 } else { next(&mut r.rng) };
            let k = (due, tie, r.seq);
            r.timers.insert(k, cx.waker().clone());
            (due, false, Some(k))
        });
        self.due = Some(due);
        self.key = key;
        if done {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(k) = self.key {
            RT.with(|r| {
                if let Ok(mut r) = r.try_borrow_mut() {
                    if let Some(r) = r.as_mut() {
                        r.timers.remove(&k);
                    }
                }
            });
        }
    }
}

/// Lets other ready tasks run first.
pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

/// Runs one ready spawned task; false if none is ready.
fn run_task() -> bool {
    let picked = rt(|r| {
        let ready: Vec<usize> = r
            .tasks
            .iter()
            .enumerate()
            .filter(|(_, t)| t.as_ref().is_some_and(|t| t.fut.is_some() && t.ready.0.load(Ordering::Relaxed)))
            .map(|(i, _)| i)
            .collect();
        if ready.is_empty() {
            return None;
        }
        let k = if r.rng == 0 { 0 } else { (next(&mut r.rng) % ready.len() as u64) as usize };
        let i = ready[k];
        let t = r.tasks[i].as_mut().unwrap();
        t.ready.0.store(false, Ordering::Relaxed);
        r.stats.polls += 1;
        r.stats.order = (r.stats.order ^ i as u64).wrapping_mul(0x100000001b3);
        Some((i, t.fut.take().unwrap(), t.ready.clone()))
    });
    let Some((i, mut fut, flag)) = picked else { return false };
    let w = Waker::from(flag);
    match fut.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Ready(()) => rt(|r| {
            if let Some(t) = r.tasks.get_mut(i) {
                *t = None
            }
        }),
        Poll::Pending => rt(|r| {
            if let Some(Some(t)) = r.tasks.get_mut(i) {
                t.fut = Some(fut)
            }
        }),
    }
    true
}
/// Advances the clock to the next event; false if there is none.
fn advance() -> bool {
    let w = rt(|r| {
        let Some((&k, _)) = r.timers.iter().next() else { return None };
        if r.kill_at.is_some_and(|t| k.0.max(r.now) >= t) {
            r.now = r.kill_at.unwrap().max(r.now);
            r.kill_at = None;
            return Some(Err(()));
        }
        let w = r.timers.remove(&k).unwrap();
        r.now = r.now.max(k.0);
        r.stats.events += 1;
        r.stats.order = (r.stats.order ^ k.2).wrapping_mul(0x100000001b3);
        if r.stats.events > r.max_events {
            return Some(Err(()));
        }
        Some(Ok(w))
    });
    match w {
        None => false,
        Some(Ok(w)) => {
            w.wake();
            true
        }
        Some(Err(())) => {
            let over = rt(|r| r.stats.events > r.max_events);
            if over {
                panic!("simulation: event budget exhausted");
            }
            doom("stopped");
            check_doom();
            true
        }
    }
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let w = Waker::from(flag.clone());
    loop {
        check_doom();
        // a ready task may run before or after the main future
        if flag.0.swap(false, Ordering::Relaxed) {
            rt(|r| r.stats.polls += 1);
            if let Poll::Ready(v) = f.as_mut().poll(&mut Context::from_waker(&w)) {
                return v;
            }
            continue;
        }
        if run_task() {
            continue;
        }
        if !advance() {
            check_doom();
            panic!("simulation: deadlock, nothing can wake the waiting task");
        }
    }
}

struct Join<T> {
    value: Option<T>,
    waker: Option<Waker>,
    aborted: bool,
}
pub struct JoinHandle<T> {
    s: Rc<RefCell<Join<T>>>,
    i: usize,
}
// everything stays on one thread
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
#[derive(Debug)]
pub struct JoinError;
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "task was cancelled")
    }
}
impl std::error::Error for JoinError {}
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let s = Rc::new(RefCell::new(Join { value: None, waker: None, aborted: false }));
    let s2 = s.clone();
    let fut = async move {
        let v = f.await;
        let w = {
            let mut s = s2.borrow_mut();
            s.value = Some(v);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake()
        }
    };
    let i = rt(|r| {
        r.tasks.push(Some(Task { fut: Some(Box::pin(fut)), ready: Arc::new(Flag(AtomicBool::new(true))) }));
        r.tasks.len() - 1
    });
    JoinHandle { s, i }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        let t = rt(|r| r.tasks[self.i].take());
        drop(t);
        self.s.borrow_mut().aborted = true;
    }
    pub fn is_finished(&self) -> bool {
        self.s.borrow().value.is_some()
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.s.borrow_mut();
        if let Some(v) = s.value.take() {
            return Poll::Ready(Ok(v));
        }
        if s.aborted {
            return Poll::Ready(Err(JoinError));
        }
        s.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// A value that several parties wait for (used by the stand-ins).
pub struct Slot<T>(pub Mutex<Option<T>>);
/// First-in first-out queue of closures run at fixed times is not needed: timers suffice.
#[allow(dead_code)]
type Unused = VecDeque<()>;
