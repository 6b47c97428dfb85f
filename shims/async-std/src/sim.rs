//! Deterministic single-threaded executor, timers and harness controls.
use std::cell::{Cell, UnsafeCell};
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

extern "C" {
    fn sym_choice(n: u32) -> u32;
    fn sym_fail(p: *const u8, n: usize);
}
fn fail(m: &str) {
    unsafe { sym_fail(m.as_ptr(), m.len()) }
}

/// A cell for the simulation's global state: everything runs on one thread and
/// no reference into it is kept across a poll.
pub(crate) struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
unsafe impl<T> Send for Global<T> {}
impl<T> Global<T> {
    pub(crate) const fn new(t: T) -> Self {
        Global(UnsafeCell::new(t))
    }
    pub(crate) fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(unsafe { &mut *self.0.get() })
    }
}

struct Flag {
    id: usize,
    gen: u32,
    queued: Cell<bool>,
}
unsafe impl Send for Flag {}
unsafe impl Sync for Flag {}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.queued.get() {
            self.queued.set(true);
            let (id, gen) = (self.id, self.gen);
            EXEC.with(|e| e.ready.push((id, gen)));
        }
    }
}

type Fut = Pin<Box<dyn Future<Output = ()>>>;
struct Slot {
    gen: u32,
    fut: Option<Fut>,
    flag: Option<Arc<Flag>>,
    running: bool,
    cancelled: bool,
}
struct Exec {
    slots: Vec<Slot>,
    ready: Vec<(usize, u32)>,
    sched_budget: u32,
    max_polls: u32,
    polls: u32,
    tasks_alive: usize,
}
struct Timer {
    id: u32,
    at: Duration,
    dur: Duration,
    waker: Option<Waker>,
    fired: bool,
}
struct Clock {
    now: Duration,
    next: u32,
    timers: Vec<Timer>,
}
static EXEC: Global<Exec> = Global::new(Exec {
    slots: Vec::new(),
    ready: Vec::new(),
    sched_budget: 0,
    max_polls: 2000,
    polls: 0,
    tasks_alive: 0,
});
static CLOCK: Global<Clock> = Global::new(Clock { now: Duration::ZERO, next: 0, timers: Vec::new() });

/// How many scheduling decisions may still deviate from first-woken-first-run.
pub fn set_sched_budget(n: u32) {
    EXEC.with(|e| e.sched_budget = n)
}
/// Polls allowed until quiescence before the run counts as a livelock.
pub fn set_max_polls(n: u32) {
    EXEC.with(|e| e.max_polls = n)
}
pub fn tasks_alive() -> usize {
    EXEC.with(|e| e.tasks_alive)
}
pub fn timers_pending() -> usize {
    CLOCK.with(|c| c.timers.iter().filter(|t| !t.fired).count())
}
/// Time still to elapse on every pending timer, in creation order.
pub fn timers() -> Vec<Duration> {
    CLOCK.with(|c| c.timers.iter().filter(|t| !t.fired).map(|t| t.at - c.now).collect())
}
/// The time every pending timer was started with, in creation order.
pub fn timer_durs() -> Vec<Duration> {
    CLOCK.with(|c| c.timers.iter().filter(|t| !t.fired).map(|t| t.dur).collect())
}
/// Let time pass until the next pending timer expires.
pub fn fire_timer() -> bool {
    let w = CLOCK.with(|c| {
        let mut best: Option<usize> = None;
        for i in 0..c.timers.len() {
            if c.timers[i].fired {
                continue;
            }
            match best {
                Some(b) if c.timers[b].at <= c.timers[i].at => {}
                _ => best = Some(i),
            }
        }
        let b = best?;
        c.now = c.timers[b].at;
        c.timers[b].fired = true;
        Some(c.timers[b].waker.take())
    });
    match w {
        None => false,
        Some(w) => {
            if let Some(w) = w {
                w.wake()
            }
            true
        }
    }
}

fn spawn_raw(fut: Fut) -> (usize, u32) {
    EXEC.with(|e| {
        let id = match e.slots.iter().position(|s| s.fut.is_none() && !s.running) {
            Some(i) => i,
            None => {
                e.slots.push(Slot { gen: 0, fut: None, flag: None, running: false, cancelled: false });
                e.slots.len() - 1
            }
        };
        let s = &mut e.slots[id];
        s.gen += 1;
        s.fut = Some(fut);
        s.cancelled = false;
        s.flag = Some(Arc::new(Flag { id, gen: s.gen, queued: Cell::new(true) }));
        let gen = s.gen;
        e.ready.push((id, gen));
        e.tasks_alive += 1;
        (id, gen)
    })
}

fn poll_task(id: usize, gen: u32) {
    let got = EXEC.with(|e| {
        let s = &mut e.slots[id];
        if s.gen != gen || s.fut.is_none() || s.running {
            return None;
        }
        s.running = true;
        let flag = s.flag.clone().unwrap();
        flag.queued.set(false);
        Some((s.fut.take().unwrap(), flag))
    });
    let (mut fut, flag) = match got {
        Some(x) => x,
        None => return,
    };
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    let done = fut.as_mut().poll(&mut cx).is_ready();
    let cancelled = EXEC.with(|e| e.slots[id].cancelled);
    if done || cancelled {
        drop(fut);
        EXEC.with(|e| {
            let s = &mut e.slots[id];
            s.running = false;
            s.flag = None;
            e.tasks_alive -= 1;
        });
    } else {
        EXEC.with(|e| {
            let s = &mut e.slots[id];
            s.running = false;
            s.fut = Some(fut);
        });
    }
}

fn step() -> bool {
    let next = EXEC.with(|e| {
        let n = e.ready.len();
        if n == 0 {
            return None;
        }
        let mut k = 0;
        if n > 1 && e.sched_budget > 0 {
            e.sched_budget -= 1;
            k = unsafe { sym_choice(n as u32) } as usize;
        }
        e.polls += 1;
        Some(e.ready.remove(k))
    });
    match next {
        None => false,
        Some((id, gen)) => {
            poll_task(id, gen);
            true
        }
    }
}

/// Run every woken task until none is left.
pub fn run() {
    EXEC.with(|e| e.polls = 0);
    while step() {
        if EXEC.with(|e| e.polls > e.max_polls) {
            fail("livelock: tasks keep running without any external event");
            return;
        }
    }
}
/// Run at most one woken task; false when none is woken.
pub fn run_one() -> bool {
    step()
}
pub fn ready_len() -> usize {
    EXEC.with(|e| e.ready.len())
}

/// Drop a task, wherever it is suspended.
fn cancel_task(id: usize, gen: u32) {
    let f = EXEC.with(|e| {
        let s = &mut e.slots[id];
        if s.gen != gen {
            return None;
        }
        if s.running {
            s.cancelled = true;
            return None;
        }
        let f = s.fut.take();
        if f.is_some() {
            s.flag = None;
            e.tasks_alive -= 1;
        }
        f
    });
    drop(f)
}

struct JoinState<T> {
    out: UnsafeCell<Option<T>>,
    waker: UnsafeCell<Option<Waker>>,
}
unsafe impl<T> Send for JoinState<T> {}
unsafe impl<T> Sync for JoinState<T> {}

pub struct JoinHandle<T> {
    st: Arc<JoinState<T>>,
    id: usize,
    gen: u32,
}
impl<T> std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> JoinHandle<T> {
    pub async fn cancel(self) -> Option<T> {
        self.abort()
    }
    /// Drop the task now (used by harnesses).
    pub fn abort(self) -> Option<T> {
        cancel_task(self.id, self.gen);
        unsafe { (*self.st.out.get()).take() }
    }
    pub fn is_done(&self) -> bool {
        unsafe { (*self.st.out.get()).is_some() }
    }
    pub fn take(&mut self) -> Option<T> {
        unsafe { (*self.st.out.get()).take() }
    }
    /// Whether the task is woken and waits for its turn.
    pub fn is_woken(&self) -> bool {
        EXEC.with(|e| e.ready.iter().any(|r| *r == (self.id, self.gen)))
    }
    /// Poll this task only, if it is woken.
    pub fn run_woken(&self) -> bool {
        let key = (self.id, self.gen);
        let had = EXEC.with(|e| match e.ready.iter().position(|r| *r == key) {
            Some(p) => {
                e.ready.remove(p);
                true
            }
            None => false,
        });
        if had {
            poll_task(self.id, self.gen);
        }
        had
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        unsafe {
            match (*self.st.out.get()).take() {
                Some(v) => Poll::Ready(v),
                None => {
                    *self.st.waker.get() = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }
    }
}

/// Spawn without the `Send` bound.
pub fn spawn_any<F, T>(f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + 'static,
    T: 'static,
{
    let st = Arc::new(JoinState { out: UnsafeCell::new(None), waker: UnsafeCell::new(None) });
    let st2 = st.clone();
    let (id, gen) = spawn_raw(Box::pin(async move {
        let v = f.await;
        unsafe {
            *st2.out.get() = Some(v);
            if let Some(w) = (*st2.waker.get()).take() {
                w.wake()
            }
        }
    }));
    JoinHandle { st, id, gen }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: Future<Output = T> + Send + 'static,
    T: Send + 'static,
{
    spawn_any(f)
}
pub fn spawn_blocking<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    spawn_any(async move { f() })
}
pub struct Builder;
impl Builder {
    pub fn new() -> Self {
        Builder
    }
    pub fn name(self, _n: String) -> Self {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: Future<Output = T> + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
}
pub fn block_on<F, T>(f: F) -> T
where
    F: Future<Output = T>,
{
    let flag = Arc::new(Flag { id: usize::MAX, gen: 0, queued: Cell::new(true) });
    let waker = Waker::from(flag);
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        if !step() && !fire_timer() {
            fail("block_on: deadlock");
            panic!("block_on: deadlock");
        }
    }
}

pub struct Sleep {
    dur: Duration,
    id: Option<u32>,
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.dur.is_zero() {
            return Poll::Ready(());
        }
        let w = cx.waker().clone();
        match self.id {
            None => {
                let dur = self.dur;
                let id = CLOCK.with(|c| {
                    let id = c.next;
                    c.next += 1;
                    let at = c.now.saturating_add(dur);
                    c.timers.push(Timer { id, at, dur, waker: Some(w), fired: false });
                    id
                });
                self.id = Some(id);
                Poll::Pending
            }
            Some(id) => CLOCK.with(|c| match c.timers.iter_mut().find(|t| t.id == id) {
                Some(t) if !t.fired => {
                    t.waker = Some(w);
                    Poll::Pending
                }
                _ => Poll::Ready(()),
            }),
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(id) = self.id {
            let t = CLOCK.with(|c| c.timers.iter().position(|t| t.id == id).map(|p| c.timers.remove(p)));
            drop(t)
        }
    }
}
pub fn sleep_fut(dur: Duration) -> Sleep {
    Sleep { dur, id: None }
}
pub async fn sleep(dur: Duration) {
    sleep_fut(dur).await
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TimeoutError {
    _p: (),
}
impl std::fmt::Display for TimeoutError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("future has timed out")
    }
}
impl std::error::Error for TimeoutError {}

pub async fn timeout<F, T>(dur: Duration, f: F) -> Result<T, TimeoutError>
where
    F: Future<Output = T>,
{
    let mut f = Box::pin(f);
    let mut t = sleep_fut(dur);
    futures_core_poll_fn(move |cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut t).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(TimeoutError { _p: () })),
            Poll::Pending => Poll::Pending,
        }
    })
    .await
}
pub async fn io_timeout<F, T>(dur: Duration, f: F) -> io::Result<T>
where
    F: Future<Output = io::Result<T>>,
{
    match timeout(dur, f).await {
        Ok(r) => r,
        Err(_) => Err(io::Error::from(io::ErrorKind::TimedOut)),
    }
}
fn futures_core_poll_fn<T>(f: impl FnMut(&mut Context<'_>) -> Poll<T>) -> impl Future<Output = T> {
    std::future::poll_fn(f)
}

pub use crate::net::{
    connect, fail_accept, pipe_pair, set_connect_error, set_max_write, udp_fail_sends, udp_inject, udp_sent, LinkCtl, UdpSent,
};
