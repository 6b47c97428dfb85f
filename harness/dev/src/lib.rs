//! Device access control (crate lxi-device): properties L01-L04 and S01.
use async_std::sim::{self, JoinHandle};
use lxi_device::lock::{
    LockHandle, Mutex, MutexGuard, RemoteLockHandle, SharedLock, SharedLockError, SharedLockMode,
    SpinMutex,
};
use lxi_device::status;
use lxi_device::trigger::Source;
use lxi_device::util::{EchoDevice, SimpleDevice};
use lxi_device::{Device, DeviceError};
use std::rc::Rc;
use std::sync::Arc;
use symrt::dev::{self, Ev};
use symrt::*;

type Handle = LockHandle<u32>;
type Shared = Arc<SpinMutex<SharedLock>>;

// ---------------------------------------------------------------- model ----

/// What a handle holds, by the rules.
#[derive(Clone, Default)]
struct Held {
    ex: bool,
    sh: Option<Vec<u8>>,
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum Why {
    Ok,
    Already,
    Locked,
}
struct Model {
    h: Vec<Held>,
}
impl Model {
    fn new(n: usize) -> Self {
        Model { h: vec![Held::default(); n] }
    }
    fn ex_other(&self, me: usize) -> bool {
        self.h.iter().enumerate().any(|(i, h)| i != me && h.ex)
    }
    fn any_ex(&self) -> bool {
        self.h.iter().any(|h| h.ex)
    }
    fn n_sh(&self) -> u32 {
        self.h.iter().filter(|h| h.sh.is_some()).count() as u32
    }
    fn sh_other(&self, me: usize) -> bool {
        self.h.iter().enumerate().any(|(i, h)| i != me && h.sh.is_some())
    }
    fn key(&self) -> Option<&Vec<u8>> {
        self.h.iter().find_map(|h| h.sh.as_ref())
    }
    fn may_use(&self, me: usize) -> bool {
        if self.h[me].ex {
            return true;
        }
        !self.ex_other(me) && (self.h[me].sh.is_some() || !self.sh_other(me))
    }
    fn want_ex(&self, me: usize) -> Why {
        if self.h[me].ex {
            Why::Already
        } else if self.any_ex() || (self.n_sh() > 0 && self.h[me].sh.is_none()) {
            Why::Locked
        } else {
            Why::Ok
        }
    }
    fn want_sh(&self, me: usize, key: &[u8]) -> Why {
        if self.h[me].sh.is_some() {
            return Why::Already;
        }
        match self.key() {
            // a holder of the key joins, also while another holder has the exclusive lock
            Some(k) => {
                if bytes_eq(k, key) {
                    Why::Ok
                } else {
                    Why::Locked
                }
            }
            None => {
                if self.h[me].ex {
                    Why::Already
                } else if self.any_ex() {
                    Why::Locked
                } else {
                    Why::Ok
                }
            }
        }
    }
    fn release(&mut self, me: usize) -> Held {
        std::mem::take(&mut self.h[me])
    }
}
fn check_req(r: &Result<(), SharedLockError>, want: Why) {
    match r {
        Ok(()) => {
            if want != Why::Ok {
                fail("a lock was granted against the rules")
            }
        }
        Err(SharedLockError::AlreadyLocked) => {
            if want != Why::Already {
                fail("a lock request was refused as already held although it was not")
            }
        }
        Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => {
            if want != Why::Locked {
                fail("a lock request was refused although the rules grant it")
            }
        }
        Err(_) => fail("a lock request failed with a reason that does not exist for it"),
    }
}
/// The reason given in a refusal must be a fact.
fn check_reason(m: &Model, me: usize, r: &Result<(), SharedLockError>) {
    match r {
        Err(SharedLockError::LockedByShared) => {
            check(m.sh_other(me), "a refusal names a shared lock that nobody else holds")
        }
        Err(SharedLockError::LockedByExclusive) => {
            check(m.ex_other(me), "a refusal names an exclusive lock that nobody else holds")
        }
        _ => {}
    }
}
fn check_reports(m: &Model, hs: &[Option<Handle>]) {
    for (i, h) in hs.iter().enumerate() {
        if let Some(h) = h {
            let info = h.lock_info();
            check(info.0 == m.any_ex(), "lock information misreports the exclusive lock");
            check(info.1 == m.n_sh(), "lock information misreports the number of shared holders");
            check(h.has_exclusive() == m.h[i].ex, "a handle misreports whether it holds the exclusive lock");
            check(h.has_shared() == m.h[i].sh.is_some(), "a handle misreports whether it holds a shared lock");
            let c = h.can_lock();
            check(c.is_ok() == m.may_use(i), "the device is reported available to a handle against the rules");
            check_reason(m, i, &c);
        }
    }
}

// ------------------------------------------------------------------ L01 ----

/// Symbolic histories of non-blocking requests by three handles; keys are
/// symbolic strings of up to 1 byte.
fn l01(depth: usize, nh: usize, remote: bool) {
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    let mut hs: Vec<Option<Handle>> =
        (0..nh).map(|_| Some(LockHandle::new(shared.clone(), device.clone()))).collect();
    let mut m = Model::new(nh);
    let mut used = 1;
    for _ in 0..depth {
        // handles are interchangeable until first used
        let i = choice(if used < nh { used + 1 } else { nh });
        let i = if i >= used {
            used += 1;
            i
        } else {
            i
        };
        if used > nh {
            used = nh
        }
        let before = Model { h: m.h.clone() };
        if hs[i].is_none() {
            hs[i] = Some(LockHandle::new(shared.clone(), device.clone()));
            check_reports(&m, &hs);
            continue;
        }
        match choice(5) {
            0 => {
                let w = m.want_ex(i);
                let h = hs[i].as_mut().unwrap();
                let r = if choice(2) == 0 { h.try_acquire_exclusive() } else { h.try_acquire(b"") };
                check_req(&r, w);
                check_reason(&before, i, &r);
                if r.is_ok() {
                    cover(1);
                    m.h[i].ex = true
                }
            }
            1 => {
                let key = any_vec(1);
                let w = m.want_sh(i, &key);
                let h = hs[i].as_mut().unwrap();
                let r = h.try_acquire(&key);
                check_req(&r, w);
                check_reason(&before, i, &r);
                if r.is_ok() {
                    if m.n_sh() > 0 {
                        cover(2)
                    }
                    m.h[i].sh = Some(key)
                }
            }
            2 => {
                let r = hs[i].as_mut().unwrap().try_release();
                let had = m.release(i);
                match r {
                    Ok(SharedLockMode::Exclusive) => check(had.ex, "release reports an exclusive lock that was not held"),
                    Ok(SharedLockMode::Shared) => {
                        check(had.sh.is_some() && !had.ex, "release reports only a shared lock although an exclusive one was held, or none was")
                    }
                    Err(SharedLockError::AlreadyUnlocked) => {
                        check(!had.ex && had.sh.is_none(), "release of a held lock reports that nothing was held")
                    }
                    Err(_) => fail("release failed with a reason that does not exist for it"),
                }
            }
            3 => {
                let ok = m.may_use(i);
                let r = hs[i].as_ref().unwrap().try_lock();
                match &r {
                    Ok(_) => check(ok, "try_lock hands the device to a handle that may not use it"),
                    Err(SharedLockError::LockedByExclusive) | Err(SharedLockError::LockedByShared) => {
                        check(!ok, "try_lock refuses the device to a handle that may use it")
                    }
                    Err(_) => fail("try_lock fails although the device is free"),
                }
                drop(r)
            }
            _ => {
                hs[i] = None;
                m.release(i);
                cover(3);
            }
        }
        check_reports(&m, &hs);
    }
    if remote {
        // the same state seen through a remote handle
        if let Some(h) = hs[0].take() {
            let h = Arc::new(SpinMutex::new(h));
            let r = RemoteLockHandle::new(h.clone());
            check(r.can_lock().is_ok() == m.may_use(0), "a remote handle reports the device available against the rules");
            let key = any_vec(choice(2));
            let w = if key.is_empty() { m.want_ex(0) } else { m.want_sh(0, &key) };
            let before = Model { h: m.h.clone() };
            let q = r.try_acquire(&key);
            check_req(&q, w);
            check_reason(&before, 0, &q);
            if q.is_ok() {
                cover(4);
                if key.is_empty() {
                    m.h[0].ex = true
                } else {
                    m.h[0].sh = Some(key)
                }
            }
            check(h.lock().has_exclusive() == m.h[0].ex, "a remote request is not reflected in its handle");
            check(h.lock().has_shared() == m.h[0].sh.is_some(), "a remote request is not reflected in its handle");
            drop(r);
            drop(h);
            m.release(0);
            check_reports(&m, &hs);
        }
    }
    for i in 0..nh {
        hs[i] = None;
        m.release(i);
    }
    let probe = LockHandle::new(shared, device);
    check(probe.lock_info() == (false, 0), "locks remain after every handle was dropped");
    obs(used as u64);
}
fn any_key() -> Vec<u8> {
    let n = [1, 2, 3, 4, 16, 255, 256, 257][choice(8)];
    if n <= 4 {
        any_vec(n)
    } else {
        let mut k = vec![b'k'; n];
        k[[0, n / 2, n - 1][choice(3)]] = any_u8();
        k
    }
}
/// Shared locks are shared by exactly those who give exactly the same key.
fn h_l01_keys() {
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    let mut hs: Vec<Option<Handle>> =
        (0..2).map(|_| Some(LockHandle::new(shared.clone(), device.clone()))).collect();
    let mut m = Model::new(2);
    let (k0, k1) = (any_key(), any_key());
    let other = k0 != k1;
    for (i, key) in [(0usize, &k0), (1, &k1)] {
        let w = m.want_sh(i, key);
        let r = hs[i].as_mut().unwrap().try_acquire(key);
        check_req(&r, w);
        if r.is_ok() {
            m.h[i].sh = Some(key.clone())
        }
        check_reports(&m, &hs);
    }
    if other {
        cover(1);
        hs[0].as_mut().unwrap().force_release();
        m.release(0);
        check(hs[1].as_mut().unwrap().try_acquire(&k1).is_ok(), "a shared lock is refused although nobody holds a lock");
        m.h[1].sh = Some(k1.clone());
        // through a remote handle
        let h = Arc::new(SpinMutex::new(hs[0].take().unwrap()));
        let r = RemoteLockHandle::new(h.clone());
        check(r.try_acquire(&k0).is_err(), "a shared lock is granted for another key than the one in use");
    } else {
        cover(2);
    }
    obs(k0.len() as u64);
}
/// Many holders of one shared lock, leaving in any order.
fn h_l01_many() {
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    let n = [2usize, 127, 128, 255, 256, 257, 300][choice(7)];
    let k = any_u8();
    let mut hs: Vec<Option<Handle>> =
        (0..n + 1).map(|_| Some(LockHandle::new(shared.clone(), device.clone()))).collect();
    let mut out = hs.pop().unwrap().unwrap();
    let info = |o: &Handle, n: usize| {
        check(o.lock_info() == (false, n as u32), "lock information misreports the number of shared holders");
        check(o.can_lock().is_ok() == (n == 0), "the device is reported available to a handle against the rules");
    };
    for i in 0..n {
        check(hs[i].as_mut().unwrap().try_acquire(&[k]).is_ok(), "a lock request was refused although the rules grant it");
        info(&out, i + 1);
    }
    let other = k.wrapping_add(1 + choice(2) as u8);
    check(out.try_acquire(&[other]).is_err(), "a lock was granted against the rules");
    check(out.try_acquire(b"").is_err(), "a lock was granted against the rules");
    let up = choice(2) == 1;
    if up {
        // one of them upgrades and gives up both
        let h = hs[n / 2].as_mut().unwrap();
        check(h.try_acquire(b"").is_ok(), "a lock request was refused although the rules grant it");
        check(out.lock_info() == (true, n as u32), "lock information misreports the exclusive lock");
        h.force_release();
        info(&out, n - 1);
        check(hs[n / 2].as_mut().unwrap().try_acquire(&[k]).is_ok(), "a lock request was refused although the rules grant it");
    }
    let (how, back) = (choice(2), choice(2) == 1);
    for i in 0..n {
        info(&out, n - i);
        check(out.try_acquire(&[other]).is_err(), "a lock was granted against the rules");
        let j = if back { n - 1 - i } else { i };
        if how == 0 {
            check(matches!(hs[j].as_mut().unwrap().try_release(), Ok(SharedLockMode::Shared)), "a release does not say what it released");
        } else {
            hs[j] = None;
        }
    }
    info(&out, 0);
    check(out.try_acquire(if up { b"" } else { b"z" }).is_ok(), "a lock request was refused although the rules grant it");
    cover(1);
}
fn h_l01_q() {
    l01(5, 3, true)
}
fn h_l01_t() {
    l01(6, 3, true)
}

// ------------------------------------------------------- L02, L03, L04 ----

/// State shared between the driver, the tasks and the "other thread".
struct World {
    prop: u8,
    m: Model,
    other: Option<Handle>,
    guards: u32,
    me: usize,
    seen_ok: bool,
    in_cb: bool,
}
static W: Global<World> = Global::new(World {
    prop: 0,
    m: Model { h: Vec::new() },
    other: None,
    guards: 0,
    me: 0,
    seen_ok: false,
    in_cb: false,
});
fn chk(prop: u8, c: bool, msg: &str) {
    if W.with(|w| w.prop) == prop {
        check(c, msg)
    }
}
const OTHER: usize = 2;
const KEYS: [&[u8]; 3] = [b"", b"a", b"b"];

/// One step of the other user of the device: take a lock or give up its locks.
fn other_op() {
    let k = choice(5);
    let mut h = match W.with(|w| w.other.take()) {
        Some(h) => h,
        None => return prune(),
    };
    match k {
        3 => {
            if h.try_release().is_err() {
                prune() // steps without effect are L01's business
            }
            W.with(|w| {
                w.m.release(OTHER);
                w.other = Some(h)
            })
        }
        4 => {
            drop(h);
            W.with(|w| w.m.release(OTHER));
        }
        k => {
            if h.try_acquire(KEYS[k]).is_ok() {
                W.with(|w| {
                    if k == 0 {
                        w.m.h[OTHER].ex = true
                    } else {
                        w.m.h[OTHER].sh = Some(KEYS[k].to_vec())
                    }
                })
            } else {
                prune()
            }
            W.with(|w| w.other = Some(h))
        }
    }
}
static DEVICE: Global<Option<Arc<Mutex<u32>>>> = Global::new(None);
/// The other user runs on another thread, at a lock boundary of the running task.
fn other_thread(_after: u32) {
    // if the device is in the running task's hands already, remember whether it
    // may have it
    let taken = DEVICE.with(|d| d.as_ref().unwrap().try_lock().is_none());
    if taken {
        W.with(|w| {
            if w.guards == 0 && w.m.may_use(w.me) {
                w.seen_ok = true
            }
        })
    }
    other_op();
}
fn run(preempt: bool) {
    if preempt {
        set_preempt(Some(other_thread), PRE.with(|p| *p));
    }
    sim::run();
    if preempt {
        PRE.with(|p| *p = preempt_left());
        set_preempt(None, 0);
    }
}
static PRE: Global<u32> = Global::new(0);

/// Entered by whoever has just been handed the device.
fn entered(me: usize) {
    W.with(|w| {
        let ok = w.seen_ok || w.m.may_use(me);
        w.seen_ok = false;
        w.guards += 1;
        if w.prop == 2 {
            check(ok, "the device is handed to a handle while another handle's lock forbids it");
            check(w.guards == 1, "two users have the device at the same time");
        }
    })
}
fn left() {
    W.with(|w| w.guards -= 1)
}
struct Pass(MutexGuardAny);
type MutexGuardAny = MutexGuard<'static, u32>;
impl Drop for Pass {
    fn drop(&mut self) {
        left()
    }
}
unsafe fn stretch(g: MutexGuard<'_, u32>) -> MutexGuardAny {
    std::mem::transmute(g)
}
static GUARD: Global<Option<Pass>> = Global::new(None);

enum Waiter {
    Local(Rc<Handle>),
    Remote(Rc<RemoteLockHandle<u32>>, Arc<SpinMutex<Handle>>),
}

/// One task waits for the device (or tries once) while another user takes and
/// gives up locks between and during its polls, and a third keeps the device
/// busy for a while.
fn waits(prop: u8, events: usize, preempts: u32, tries: bool) {
    W.with(|w| {
        w.prop = prop;
        w.m = Model::new(3)
    });
    PRE.with(|p| *p = preempts);
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    DEVICE.with(|d| *d = Some(device.clone()));
    let mut mine = LockHandle::new(shared.clone(), device.clone());
    W.with(|w| w.other = Some(LockHandle::new(shared.clone(), device.clone())));
    // what the waiting handle holds at first
    match choice(3) {
        0 => {}
        1 => {
            check(mine.try_acquire(b"a").is_ok(), "the first lock on a free device is refused");
            W.with(|w| w.m.h[0].sh = Some(b"a".to_vec()))
        }
        _ => {
            check(mine.try_acquire(b"").is_ok(), "the first lock on a free device is refused");
            W.with(|w| w.m.h[0].ex = true)
        }
    }
    if choice(2) == 1 {
        other_op();
    }
    let mut busy = None;
    if choice(2) == 1 {
        busy = device.try_lock();
        W.with(|w| w.guards += 1);
    }
    let kind = choice(2);
    let waiter = if kind == 0 {
        Waiter::Local(Rc::new(mine))
    } else {
        let a = Arc::new(SpinMutex::new(mine));
        Waiter::Remote(Rc::new(RemoteLockHandle::new(a.clone())), a)
    };
    set_shuffle(2);
    let mut task: Option<JoinHandle<()>> = Some(match &waiter {
        Waiter::Local(h) => {
            let h = h.clone();
            sim::spawn_any(async move {
                let r = if tries { h.try_lock() } else { h.async_lock().await };
                if let Ok(g) = r {
                    entered(0);
                    let g = unsafe { stretch(g) };
                    GUARD.with(|x| *x = Some(Pass(g)))
                }
            })
        }
        Waiter::Remote(h, _) => {
            let h = h.clone();
            sim::spawn_any(async move {
                let r = if tries { h.try_lock().await } else { h.async_lock().await };
                if let Ok(g) = r {
                    entered(0);
                    let g = unsafe { stretch(g) };
                    GUARD.with(|x| *x = Some(Pass(g)))
                }
            })
        }
    });
    for e in 0..=events {
        let last = e == events;
        if last || choice(2) == 1 {
            run(true);
            quiet(&mut task, &shared, &device, tries);
        }
        if last {
            break;
        }
        match choice(4) {
            0 => other_op(),
            1 => {
                // whoever has the device is done with it
                if W.with(|w| w.guards) == 0 {
                    prune()
                }
                if busy.take().is_some() {
                    left()
                }
                let g = GUARD.with(|g| g.take());
                drop(g)
            }
            2 => match &waiter {
                // the session's own requests, made while its task waits
                Waiter::Remote(_, a) => {
                    let r = RemoteLockHandle::new(a.clone());
                    match choice(3) {
                        0 => {
                            if r.try_acquire(b"").is_ok() {
                                W.with(|w| w.m.h[0].ex = true)
                            } else {
                                prune()
                            }
                        }
                        1 => {
                            if r.try_acquire(b"a").is_ok() {
                                W.with(|w| w.m.h[0].sh = Some(b"a".to_vec()))
                            } else {
                                prune()
                            }
                        }
                        _ => {
                            if a.lock().try_release().is_err() {
                                prune()
                            }
                            W.with(|w| {
                                w.m.release(0);
                            })
                        }
                    }
                }
                Waiter::Local(_) => prune(),
            },
            _ => {
                // abandon the wait
                if let Some(t) = task.take() {
                    cover(9);
                    t.abort();
                } else {
                    prune()
                }
            }
        }
    }
    // nothing may be left of any of it
    drop(task.take().map(|t| t.abort()));
    if busy.take().is_some() {
        left()
    }
    let g = GUARD.with(|g| g.take());
    drop(g);
    drop(waiter);
    let o = W.with(|w| w.other.take());
    drop(o);
    if prop == 4 {
        let probe: Handle = LockHandle::new(shared.clone(), device.clone());
        check(probe.lock_info() == (false, 0), "locks remain after every handle was dropped");
        check(probe.try_lock().is_ok(), "the device stays busy after every user is gone");
    }
    obs(kind as u64);
}
fn quiet(task: &mut Option<JoinHandle<()>>, shared: &Shared, device: &Arc<Mutex<u32>>, tries: bool) {
    let (may, guards) = W.with(|w| (w.m.may_use(0), w.guards));
    if let Some(t) = task {
        if t.is_done() {
            cover(1);
            if !tries && W.with(|w| w.guards) == 0 {
                // handed out and returned already
            }
        } else {
            cover(2);
            chk(3, !(may && guards == 0), "a task keeps waiting for the device although it is free and may be used");
        }
    }
    // an abandoned or finished wait holds nothing
    let free = device.try_lock().is_some();
    chk(4, free == (guards == 0), "the device is held by nobody but stays busy");
    if W.with(|w| w.prop) == 4 {
        let probe: Handle = LockHandle::new(shared.clone(), device.clone());
        let info = probe.lock_info();
        let want = W.with(|w| (w.m.any_ex(), w.m.n_sh()));
        check(info == want, "a wait for the device changed the locks");
    }
}

/// Two tasks wait for locks while a third user takes and gives up its own.
fn acquires(prop: u8, events: usize, preempts: u32, kinds: usize) {
    W.with(|w| {
        w.prop = prop;
        w.m = Model::new(3)
    });
    PRE.with(|p| *p = preempts);
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    DEVICE.with(|d| *d = Some(device.clone()));
    W.with(|w| w.other = Some(LockHandle::new(shared.clone(), device.clone())));
    other_op();
    // the tasks' requests
    let want: [usize; 2] = [choice(3), choice(3)];
    let remote = choice(kinds);
    let mut tasks: Vec<Option<JoinHandle<(bool, Box<dyn FnOnce() -> bool>)>>> = Vec::new();
    let mut give_up: [Option<Box<dyn FnOnce() -> bool>>; 2] = [None, None];
    let mut state = [0u8; 2]; // 0 waiting, 1 granted, 2 refused, 3 gone
    for i in 0..2 {
        let mut h = LockHandle::new(shared.clone(), device.clone());
        let key = KEYS[want[i]];
        tasks.push(Some(sim::spawn_any(async move {
            if remote == 1 {
                let a = Arc::new(SpinMutex::new(h));
                let r = RemoteLockHandle::new(a.clone());
                let ok = r.async_acquire(key).await.is_ok();
                let f: Box<dyn FnOnce() -> bool> = Box::new(move || {
                    drop(r);
                    drop(a);
                    true
                });
                (ok, f)
            } else {
                let ok = h.async_acquire(key).await.is_ok();
                let f: Box<dyn FnOnce() -> bool> = Box::new(move || h.try_release().is_ok());
                (ok, f)
            }
        })));
    }
    sim::set_sched_budget(1);
    for e in 0..=events {
        let last = e == events;
        if last || choice(2) == 1 {
            run(true);
            for i in 0..2 {
                if state[i] == 0 {
                    if let Some((ok, f)) = tasks[i].as_mut().unwrap().take() {
                        if ok {
                            cover(1);
                            state[i] = 1;
                            W.with(|w| {
                                if want[i] == 0 {
                                    w.m.h[i].ex = true
                                } else {
                                    w.m.h[i].sh = Some(KEYS[want[i]].to_vec())
                                }
                            });
                            give_up[i] = Some(f);
                        } else {
                            chk(3, false, "a wait for a lock ended without the lock");
                            state[i] = 2;
                        }
                    }
                }
            }
            // exclusion
            let info = {
                let probe: Handle = LockHandle::new(shared.clone(), device.clone());
                probe.lock_info()
            };
            W.with(|w| {
                let m = &w.m;
                let nex = m.h.iter().filter(|h| h.ex).count();
                if prop == 3 {
                    check(nex <= 1, "two handles hold the exclusive lock");
                    let k = m.key().cloned();
                    for h in &m.h {
                        if let (Some(a), Some(b)) = (&h.sh, &k) {
                            check(a == b, "shared locks with different keys are held at the same time")
                        }
                    }
                }
                if prop == 4 {
                    check(
                        info == (nex > 0, m.n_sh()),
                        "after an abandoned or finished wait the locks held are not those that were granted",
                    );
                }
            });
            for i in 0..2 {
                if state[i] == 0 {
                    cover(2);
                    let w = W.with(|w| {
                        if want[i] == 0 {
                            w.m.want_ex(i)
                        } else {
                            w.m.want_sh(i, KEYS[want[i]])
                        }
                    });
                    chk(3, w != Why::Ok, "a task keeps waiting for a lock that is free for it");
                    chk(4, w != Why::Ok, "an abandoned wait or dropped handle keeps others from a lock");
                }
            }
        }
        if last {
            break;
        }
        match choice(4) {
            0 => other_op(),
            k @ (1 | 2) => {
                let i = k - 1;
                match state[i] {
                    0 => {
                        // abandon the wait; the handle dies with it
                        let done = tasks[i].take().unwrap().abort();
                        cover(9);
                        state[i] = 3;
                        drop(done.map(|(_, f)| f()));
                    }
                    1 => {
                        if let Some(f) = give_up[i].take() {
                            f();
                        }
                        W.with(|w| {
                            w.m.release(i);
                        });
                        state[i] = 3;
                    }
                    _ => prune(),
                }
            }
            _ => {
                // the third user goes away altogether
                let o = W.with(|w| w.other.take());
                if o.is_none() {
                    prune();
                }
                drop(o);
                W.with(|w| {
                    w.m.release(OTHER);
                })
            }
        }
    }
    obs(state[0] as u64 * 4 + state[1] as u64);
}

fn h_l02_wait() {
    waits(2, 3, 1, false)
}
fn h_l02_try() {
    waits(2, 2, 1, true)
}
fn h_l03_wait() {
    waits(3, 3, 1, false)
}
fn h_l03_acquire() {
    acquires(3, 3, 1, 2)
}
fn h_l04_wait() {
    waits(4, 3, 0, false)
}
fn h_l04_acquire() {
    acquires(4, 3, 1, 2)
}
fn h_l02_wait_t() {
    waits(2, 4, 2, false)
}
fn h_l03_wait_t() {
    waits(3, 4, 2, false)
}
fn h_l03_acquire_t() {
    acquires(3, 4, 2, 2)
}
fn h_l04_wait_t() {
    waits(4, 4, 1, false)
}
fn h_l04_acquire_t() {
    acquires(4, 4, 2, 2)
}

/// Repeating attempts, waits and cancellations keeps the lock's memory bounded.
fn h_l04_memory() {
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    let kind = choice(5);
    let mut holder: Handle = LockHandle::new(shared.clone(), device.clone());
    let blocked = kind == 1 || kind == 3;
    if blocked {
        check(holder.try_acquire(b"").is_ok(), "the first lock on a free device is refused");
    }
    let mine: Handle = LockHandle::new(shared.clone(), device.clone());
    let a = Arc::new(SpinMutex::new(mine));
    let r = Rc::new(RemoteLockHandle::new(a.clone()));
    let cycle = || match kind {
        0 | 1 => {
            // wait for the device; it is either granted or the wait is abandoned
            let r = r.clone();
            let t = sim::spawn_any(async move { r.async_lock().await.is_ok() });
            sim::run();
            t.abort();
        }
        2 | 3 => {
            let r = r.clone();
            let t = sim::spawn_any(async move { r.async_acquire(b"k").await.is_ok() });
            sim::run();
            t.abort();
            a.lock().force_release();
        }
        _ => {
            // the device itself is busy
            let g = device.try_lock();
            let r = r.clone();
            let t = sim::spawn_any(async move { r.async_lock().await.is_ok() });
            sim::run();
            t.abort();
            drop(g);
        }
    };
    for _ in 0..6 {
        cycle()
    }
    let a0 = heap_live();
    for _ in 0..24 {
        cycle()
    }
    let a1 = heap_live();
    check(a1 <= a0, "memory grows with every attempt to use the device or to take a lock");
    obs(kind as u64);
}

// ------------------------------------------------------------------ S01 ----

fn poll_next(r: &mut status::Receiver) -> Option<u8> {
    match r.try_next() {
        Ok(x) => {
            check(x.is_some(), "a subscriber is cut off although the sender lives");
            x
        }
        Err(_) => None,
    }
}
/// Symbolic histories of sends, reads, subscriptions and drops with symbolic
/// status values.
fn s01(depth: usize) {
    let mut tx = status::Sender::new();
    let mut tx2 = tx.clone();
    // (receiver, statuses it is owed)
    let mut rx: Vec<Option<(status::Receiver, Vec<u8>)>> = vec![None, None];
    let mut waits: Vec<Option<JoinHandle<(status::Receiver, Option<u8>)>>> = vec![None, None];
    for _ in 0..depth {
        let i = choice(2);
        match choice(4) {
            0 => {
                let v = any_u8();
                if i == 0 {
                    tx.send_status(v)
                } else {
                    tx2.send_status(v)
                }
                for r in rx.iter_mut().flatten() {
                    // a subscriber with nothing pending has room
                    r.1.push(v)
                }
                sim::run();
                for k in 0..2 {
                    if let Some(mut t) = waits[k].take() {
                        cover(1);
                        match t.take() {
                            Some((r, Some(got))) => {
                                check(got == v, "a waiting subscriber received another value than the one sent");
                                rx[k] = Some((r, Vec::new()));
                            }
                            _ => {
                                fail("a waiting subscriber is not woken by a status update");
                            }
                        }
                    }
                }
            }
            1 => match rx[i].take() {
                // take everything pending, or start waiting if there is nothing
                Some((mut r, owed)) => {
                    let mut got = Vec::new();
                    while let Some(v) = poll_next(&mut r) {
                        got.push(v);
                        if got.len() > owed.len() {
                            fail("a subscriber receives an update nobody sent (or twice)");
                            return;
                        }
                    }
                    // there was room for the first; updates sent while others were
                    // pending may be missed, and then the later ones are
                    check(owed.is_empty() || !got.is_empty(), "a subscriber missed an update it had room for");
                    for k in 0..got.len() {
                        check(got[k] == owed[k], "a subscriber receives updates out of order or altered");
                    }
                    if got.len() > 0 {
                        cover(2);
                        rx[i] = Some((r, Vec::new()));
                    } else {
                        use futures::StreamExt;
                        waits[i] = Some(sim::spawn_any(async move {
                            let v = r.next().await;
                            (r, v)
                        }));
                        sim::run();
                        check(!waits[i].as_ref().unwrap().is_done(), "a subscriber receives an update nobody sent");
                    }
                }
                None => prune(),
            },
            2 => {
                if rx[i].is_some() || waits[i].is_some() {
                    // dropped while something or nothing is pending
                    rx[i] = None;
                    if let Some(t) = waits[i].take() {
                        t.abort();
                    }
                    cover(3);
                } else {
                    rx[i] = Some((if choice(2) == 0 { tx.get_new_receiver() } else { tx2.get_new_receiver() }, Vec::new()));
                }
            }
            _ => {
                // a clone of the sender serves the same subscribers
                if choice(2) == 0 {
                    tx = tx2.clone()
                } else {
                    tx2 = tx.clone()
                }
            }
        }
    }
    obs(depth as u64);
}
/// Subscribers that went away cost nothing.
fn h_s01_memory() {
    let mut tx = status::Sender::new();
    let keep = choice(2) == 1;
    let mut kept = None;
    if keep {
        kept = Some(tx.get_new_receiver());
    }
    let send = choice(2) == 1;
    let mut cycle = || {
        let r = tx.get_new_receiver();
        if !send {
            return;
        }
        tx.send_status(1);
        drop(r);
        tx.send_status(2);
        if let Some(k) = &mut kept {
            check(k.try_next().is_ok(), "a subscriber missed an update it had room for");
            while let Ok(Some(_)) = k.try_next() {}
        }
    };
    for _ in 0..6 {
        cycle()
    }
    let a0 = heap_live();
    for _ in 0..12 {
        cycle()
    }
    check(heap_live() <= a0, "memory grows with every subscriber that went away");
    obs(keep as u64);
}
fn h_s01_q() {
    s01(6)
}
fn h_s01_t() {
    s01(8)
}

// ------------------------------------------------------------------ D01 ----
fn sources() -> Vec<Source> {
    use Source::*;
    vec![
        Bus, Immediate, Internal, External, Lxi0, Lxi1, Lxi2, Lxi3, Lxi4, Lxi5, Lxi6, Lxi7, Lan0, Lan1, Lan2, Lan3,
        Lan4, Lan5, Lan6, Lan7,
    ]
}
fn err_kind(e: &DeviceError) -> u8 {
    match e {
        DeviceError::NotSupported => 1,
        DeviceError::IoTimeout => 2,
        DeviceError::IoError => 3,
        _ => 4,
    }
}
fn some_err() -> Option<DeviceError> {
    match choice(4) {
        0 => None,
        1 => Some(DeviceError::NotSupported),
        2 => Some(DeviceError::IoTimeout),
        _ => Some(DeviceError::IoError),
    }
}
fn none(_c: &[u8]) -> Option<Vec<u8>> {
    None
}
fn twice(c: &[u8]) -> Option<Vec<u8>> {
    Some([c, c].concat())
}
fn empty(_c: &[u8]) -> Option<Vec<u8>> {
    Some(Vec::new())
}
/// Whatever is asked of a boxed device, through any generic code, is asked of the device.
fn via<D: Device + ?Sized>(d: &mut D) {
    for _ in 0..2 {
        dev::take_log();
        let (got, want): (Result<(), DeviceError>, Option<DeviceError>);
        let ev;
        match choice(6) {
            0 => {
                let c = any_vec(choice(4));
                let k = choice(4);
                let f = [none, twice, empty, Some_ as fn(&[u8]) -> Option<Vec<u8>>][k];
                dev::set_respond(f);
                let r = d.execute(&c);
                match (&r, f(&c)) {
                    (None, None) => cover(1),
                    (Some(a), Some(b)) => check_eq(a, &b, "a boxed device's response is altered"),
                    _ => fail("a boxed device's response is lost or made up"),
                }
                ev = Ev::Exec(c);
                got = Ok(());
                want = None;
            }
            1 => {
                let v = any_u8();
                let fails = choice(2) == 1;
                dev::DEV.with(|d| d.stb = if fails { Err(()) } else { Ok(v) });
                ev = Ev::Status;
                match d.get_status() {
                    Ok(s) => {
                        check(!fails && s == v, "a boxed device's status is altered");
                        got = Ok(());
                        want = None;
                    }
                    Err(e) => {
                        got = Err(e);
                        want = if fails { Some(DeviceError::IoError) } else { None };
                    }
                }
            }
            2 => {
                let all = sources();
                let s = all[choice(all.len())];
                let e = some_err();
                want = e.as_ref().map(|e| copy_err(e));
                dev::DEV.with(|d| d.trigger_err = e);
                got = d.trigger(s);
                ev = Ev::Trigger(s);
            }
            3 => {
                let e = some_err();
                want = e.as_ref().map(|e| copy_err(e));
                dev::DEV.with(|d| d.clear_err = e);
                got = d.clear();
                ev = Ev::Clear;
            }
            4 => {
                let e = some_err();
                let on = choice(2) == 1;
                want = e.as_ref().map(|e| copy_err(e));
                dev::DEV.with(|d| d.remote_err = e);
                got = d.set_remote(on);
                ev = Ev::Remote(on);
            }
            _ => {
                let on = choice(2) == 1;
                d.set_local_lockout(on);
                got = Ok(());
                want = None;
                ev = Ev::Lockout(on);
            }
        }
        let log = dev::take_log();
        check(log.len() == 1, "a request to a boxed device does not reach it exactly once");
        check(log.len() == 1 && log[0] == ev, "a request to a boxed device reaches it as another one");
        match (got, want) {
            (Ok(()), None) => cover(2),
            (Err(a), Some(b)) => {
                cover(3);
                check(err_kind(&a) == err_kind(&b), "a boxed device's error is altered")
            }
            _ => fail("a boxed device's outcome is altered"),
        }
    }
}
#[allow(non_snake_case)]
fn Some_(c: &[u8]) -> Option<Vec<u8>> {
    Some(c.to_vec())
}
fn copy_err(e: &DeviceError) -> DeviceError {
    match e {
        DeviceError::NotSupported => DeviceError::NotSupported,
        DeviceError::IoTimeout => DeviceError::IoTimeout,
        _ => DeviceError::IoError,
    }
}
fn h_d01_box() {
    match choice(3) {
        0 => via(&mut Box::new(dev::Dev)),
        1 => via(&mut (Box::new(dev::Dev) as Box<dyn Device + Send>)),
        _ => via(&mut (Box::new(Box::new(dev::Dev) as Box<dyn Device>) as Box<dyn Device>)),
    }
}
/// A boxed device behind a lock handle.
fn h_d01_lock() {
    let d: Arc<Mutex<Box<dyn Device + Send>>> = Arc::new(Mutex::new(Box::new(dev::Dev)));
    let h = LockHandle::new(SharedLock::new(), d);
    let mut g = h.try_lock().unwrap();
    via(&mut *g);
}
fn upper(c: &[u8]) -> Vec<u8> {
    c.iter().map(|b| b.to_ascii_uppercase()).collect()
}
/// The two devices that come with the crate.
fn h_d01_util() {
    let c = match choice(5) {
        0 => b"*iDn?".to_vec(),
        1 => b"EvenT".to_vec(),
        2 => b"query?".to_vec(),
        3 => any_vec(choice(7)),
        _ => {
            // almost one of them
            let mut c = [&b"*IDN?"[..], b"EVENT", b"QUERY?"][choice(3)].to_vec();
            let i = choice(c.len());
            c[i] = any_u8();
            c
        }
    };
    let c = if choice(2) == 1 { [&c[..], b"\n"].concat() } else { c };
    let r = EchoDevice.execute(&c);
    check(r.is_some(), "the echo device does not echo");
    check_eq(&r.unwrap_or_default(), &c, "the echo device does not echo what it got");
    let mut d = SimpleDevice::new();
    let up = upper(&c);
    let word = up.strip_suffix(b"\n").unwrap_or(&up);
    let r = d.execute(&c);
    match word {
        b"EVENT" => {
            cover(1);
            check(r.is_none(), "an event is answered")
        }
        b"*IDN?" => {
            cover(2);
            check_eq(&r.unwrap_or_default(), b"Cyberdyne systems,T800 Model 101,A9012.C,V2.4", "wrong identification")
        }
        b"QUERY?" => {
            cover(3);
            check_eq(&r.unwrap_or_default(), b"RESPONSE", "wrong response")
        }
        _ => {
            cover(4);
            let mut v = c.clone();
            v.reverse();
            check(r.is_some(), "an unknown command is not answered");
            check_eq(&r.unwrap_or_default(), &v, "an unknown command is not answered with its reverse")
        }
    }
}
fn h_d01_status() {
    let mut d = SimpleDevice::new();
    let (mut rmt, mut trig, mut clr) = (false, false, false);
    for _ in 0..4 {
        match choice(5) {
            0 => {
                rmt = choice(2) == 1;
                check(d.set_remote(rmt).is_ok(), "remote refused")
            }
            1 => {
                let all = sources();
                check(d.trigger(all[choice(2)]).is_ok(), "trigger refused");
                trig = true
            }
            2 => {
                check(d.clear().is_ok(), "clear refused");
                trig = false;
                clr = true
            }
            3 => d.set_local_lockout(choice(2) == 1),
            _ => {
                d.execute(b"x");
            }
        }
        let want = (rmt as u8) << 7 | (trig as u8) << 6 | (clr as u8) << 5;
        check(matches!(d.get_status(), Ok(s) if s == want), "the status does not show what happened to the device");
    }
    obs(rmt as u64)
}

// ------------------------------------------------------- many of a kind ----

enum Got {
    Lock(Handle),
    Remote(RemoteLockHandle<u32>, Arc<SpinMutex<Handle>>),
    Dev(MutexGuardAny, Box<dyn std::any::Any>),
    No,
}
/// Many waiters at once: each gets its turn, whoever gives up.
fn h_l03_many() {
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    let n = [3, 5, 9, 33, 70][choice(5)];
    // what they wait for: 0 exclusive, 1 shared a, 2 shared b, 3 the device
    let kind = [0, 1, 3][choice(3)];
    let odd = [n, 0, n / 2, n - 1][choice(4)];
    let odd_kind = if odd == n { 0 } else { choice(4) };
    if odd < n && odd_kind == kind {
        prune()
    }
    let remote = choice(2) == 1;
    let quit = [n, 0, n / 2, n - 1][choice(4)];
    let mut holder: Handle = LockHandle::new(shared.clone(), device.clone());
    let by = choice(3);
    let mut busy = None;
    match by {
        0 => check(holder.try_acquire(b"").is_ok(), "the first lock on a free device is refused"),
        1 => check(holder.try_acquire(b"c").is_ok(), "the first lock on a free device is refused"),
        _ => busy = device.try_lock(),
    }
    let mut tasks: Vec<Option<JoinHandle<Got>>> = Vec::new();
    for i in 0..n {
        let k = if i == odd { odd_kind } else { kind };
        let mut h: Handle = LockHandle::new(shared.clone(), device.clone());
        tasks.push(Some(sim::spawn_any(async move {
            if k < 3 {
                let key = KEYS[k];
                if remote {
                    let a = Arc::new(SpinMutex::new(h));
                    let r = RemoteLockHandle::new(a.clone());
                    match r.async_acquire(key).await {
                        Ok(()) => Got::Remote(r, a),
                        Err(_) => Got::No,
                    }
                } else {
                    let r = if k == 0 {
                        h.async_acquire_exclusive().await
                    } else {
                        h.async_acquire_shared(key).await
                    };
                    match r {
                        Ok(()) => Got::Lock(h),
                        Err(_) => Got::No,
                    }
                }
            } else if remote {
                let a = Arc::new(SpinMutex::new(h));
                let r = RemoteLockHandle::new(a.clone());
                let g = r.async_lock().await.map(|g| unsafe { stretch(g) });
                match g {
                    Ok(g) => Got::Dev(g, Box::new((r, a))),
                    Err(_) => Got::No,
                }
            } else {
                let h = Arc::new(h);
                let g = h.async_lock().await.map(|g| unsafe { stretch(g) });
                match g {
                    Ok(g) => Got::Dev(g, Box::new(h)),
                    Err(_) => Got::No,
                }
            }
        })));
    }
    sim::run();
    // nothing that the holder excludes was granted
    let locks_wait = by < 2;
    if locks_wait {
        check(tasks.iter().all(|t| !t.as_ref().unwrap().is_done()), "a wait completes although another handle's lock forbids it");
    }
    if quit < n {
        if let Some(t) = tasks[quit].take() {
            drop(t.abort());
        }
        cover(1);
    }
    if choice(2) == 0 {
        holder.force_release();
    } else {
        drop(std::mem::replace(&mut holder, LockHandle::new(shared.clone(), device.clone())));
    }
    drop(busy.take());
    // every round somebody gets what it waits for, and gives it up again
    let mut left = n - (quit < n) as usize;
    while left > 0 {
        sim::run();
        let mut got: Vec<(usize, Got)> = Vec::new();
        for i in 0..n {
            if let Some(t) = &mut tasks[i] {
                if let Some(g) = t.take() {
                    got.push((i, g));
                    tasks[i] = None;
                }
            }
        }
        if got.is_empty() {
            fail("of many who wait one waits for ever");
            return;
        }
        left -= got.len();
        let c = |k: usize| got.iter().filter(|(i, _)| (if *i == odd { odd_kind } else { kind }) == k).count();
        check(got.iter().all(|(_, g)| !matches!(g, Got::No)), "a wait for a lock ended without the lock");
        check(c(0) <= 1 && (c(0) == 0 || c(1) + c(2) == 0), "an exclusive lock is shared");
        check(c(1) == 0 || c(2) == 0, "shared locks with different keys are held at the same time");
        check(c(3) <= 1, "two users have the device at the same time");
        let info = holder.lock_info();
        check(info == (c(0) > 0, (c(1) + c(2)) as u32), "lock information misreports the locks held");
        drop(got);
    }
    cover(2);
    check(holder.lock_info() == (false, 0), "locks remain after every handle was dropped");
    check(holder.try_lock().is_ok(), "the device stays busy after every user is gone");
}
/// Many subscribers; some go away.
fn h_s01_many() {
    use futures::StreamExt;
    let mut tx = status::Sender::new();
    let n = [1, 3, 16, 17, 64, 129][choice(6)];
    let mut rx: Vec<Option<status::Receiver>> = (0..n).map(|_| Some(tx.get_new_receiver())).collect();
    let mut waits: Vec<Option<JoinHandle<(status::Receiver, Option<u8>)>>> = (0..n).map(|_| None).collect();
    let gone = [n, 0, n / 2, n - 1][choice(4)];
    let every = choice(2) == 1;
    let waiting = choice(2) == 1;
    for round in 0..3 {
        if waiting {
            for i in 0..n {
                if let Some(mut r) = rx[i].take() {
                    waits[i] = Some(sim::spawn_any(async move {
                        let v = r.next().await;
                        (r, v)
                    }));
                }
            }
            sim::run();
        }
        if round == 1 {
            for i in 0..n {
                if i == gone || (every && i % 2 == 0) {
                    rx[i] = None;
                    drop(waits[i].take().map(|t| t.abort()));
                    cover(1);
                }
            }
        }
        let v = any_u8();
        tx.send_status(v);
        sim::run();
        for i in 0..n {
            if let Some(mut t) = waits[i].take() {
                match t.take() {
                    Some((r, Some(x))) => {
                        check(x == v, "a waiting subscriber received another value than the one sent");
                        rx[i] = Some(r);
                    }
                    _ => fail("a waiting subscriber is not woken by a status update"),
                }
            } else if let Some(r) = &mut rx[i] {
                check(poll_next(r) == Some(v), "a subscriber missed an update it had room for");
            }
            if let Some(r) = &mut rx[i] {
                check(poll_next(r).is_none(), "a subscriber receives an update nobody sent (or twice)");
            }
        }
    }
    cover(2);
    obs(n as u64);
}
/// The rest of the handles' interface means the same.
fn h_l01_api() {
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    let mut hs: Vec<Option<Handle>> =
        (0..2).map(|_| Some(LockHandle::new(shared.clone(), device.clone()))).collect();
    let mut m = Model::new(2);
    for _ in 0..4 {
        let i = choice(2);
        let k = choice(6);
        let mut h = hs[i].take().unwrap();
        match k {
            // a shared lock, the key may be empty here
            0 | 1 => {
                let key = any_vec(choice(2));
                let w = m.want_sh(i, &key);
                let before = Model { h: m.h.clone() };
                let r = if k == 0 {
                    h.try_acquire_shared(&key)
                } else {
                    let key = key.clone();
                    let mut t = sim::spawn_any(async move {
                        let r = h.async_acquire_shared(&key).await;
                        (h, r)
                    });
                    sim::run();
                    match t.take() {
                        Some((b, r)) => {
                            h = b;
                            check(w != Why::Locked, "a lock was granted against the rules");
                            r
                        }
                        None => {
                            check(w == Why::Locked, "a task keeps waiting for a lock that is free for it");
                            // giving up the wait drops the handle with all it holds
                            drop(t.abort());
                            m.release(i);
                            hs[i] = Some(LockHandle::new(shared.clone(), device.clone()));
                            check_reports(&m, &hs);
                            continue;
                        }
                    }
                };
                check_req(&r, w);
                check_reason(&before, i, &r);
                if r.is_ok() {
                    cover(1);
                    m.h[i].sh = Some(key)
                }
            }
            2 => {
                let w = m.want_ex(i);
                let mut t = sim::spawn_any(async move {
                    let r = if choice(2) == 0 { h.async_acquire_exclusive().await } else { h.async_acquire(b"").await };
                    (h, r)
                });
                sim::run();
                match t.take() {
                    Some((b, r)) => {
                        h = b;
                        check(w != Why::Locked, "a lock was granted against the rules");
                        check_req(&r, w);
                        if r.is_ok() {
                            cover(2);
                            m.h[i].ex = true
                        }
                    }
                    None => {
                        check(w == Why::Locked, "a task keeps waiting for a lock that is free for it");
                        drop(t.abort());
                        m.release(i);
                        hs[i] = Some(LockHandle::new(shared.clone(), device.clone()));
                        check_reports(&m, &hs);
                        continue;
                    }
                }
            }
            3 => {
                // access for quick looks does not depend on locks
                let a = Arc::new(h);
                let b = a.clone();
                let mut t = sim::spawn_any(async move {
                    let g = b.inner_lock().await;
                    *g
                });
                sim::run();
                check(t.take().is_some(), "a look at the free device waits");
                h = match Arc::try_unwrap(a) {
                    Ok(h) => h,
                    Err(_) => return fail("harness: handle"),
                };
            }
            4 => {
                // a remote handle, for one request
                let a = Arc::new(SpinMutex::new(h));
                let r = RemoteLockHandle::new(a.clone());
                let mut t = sim::spawn_any(async move {
                    let q = r.try_lock().await.is_ok();
                    let g = r.inner_lock().await;
                    drop(g);
                    q
                });
                sim::run();
                match t.take() {
                    Some(q) => check(q == m.may_use(i), "a remote handle reports the device available against the rules"),
                    None => return fail("a look at the free device waits"),
                }
                h = match Arc::try_unwrap(a) {
                    Ok(h) => h.into_inner(),
                    Err(_) => return fail("harness: handle"),
                };
            }
            _ => {
                h.force_release();
                m.release(i);
            }
        }
        hs[i] = Some(h);
        check_reports(&m, &hs);
        {
            let s = shared.lock();
            check(s.exclusive_lock() == m.any_ex(), "the lock's state misreports the exclusive lock");
            check(s.num_shared_locks() == m.n_sh(), "the lock's state misreports the number of shared holders");
        }
    }
}

/// An attempt to use the device is refused for the reason there is.
fn h_l01_busy() {
    let shared = SharedLock::new();
    let device = Arc::new(Mutex::new(0u32));
    let k = any_u8();
    let mut m = Model::new(2);
    let mut hs: Vec<Option<Handle>> =
        (0..2).map(|_| Some(LockHandle::new(shared.clone(), device.clone()))).collect();
    for i in 0..2 {
        let h = hs[i].as_mut().unwrap();
        match choice(4) {
            0 => {}
            1 => {
                if h.try_acquire(&[k]).is_ok() {
                    m.h[i].sh = Some(vec![k])
                }
            }
            2 => {
                if h.try_acquire(b"").is_ok() {
                    m.h[i].ex = true
                }
            }
            _ => {
                if h.try_acquire(&[k]).is_ok() {
                    m.h[i].sh = Some(vec![k])
                }
                if h.try_acquire(b"").is_ok() {
                    m.h[i].ex = true
                }
            }
        }
    }
    check_reports(&m, &hs);
    let i = choice(2);
    let used = choice(2) == 1;
    let guard = if used { device.try_lock() } else { None };
    let may = m.may_use(i);
    let verdict = |e: Option<SharedLockError>| match e {
        None => check(may && !used, "try_lock hands out a device that is in use or locked"),
        Some(SharedLockError::Busy) => {
            cover(1);
            check(may && used, "a refusal says that the device is in use although that is not the reason")
        }
        Some(e) => {
            check(!may, "try_lock refuses the device to a handle that may use it, for a lock that does not concern it");
            check_reason(&m, i, &Err(e));
        }
    };
    if choice(2) == 0 {
        verdict(hs[i].as_ref().unwrap().try_lock().err());
    } else {
        let h = Arc::new(SpinMutex::new(hs[i].take().unwrap()));
        let r = RemoteLockHandle::new(h);
        let mut t = sim::spawn_any(async move { r.try_lock().await.err() });
        sim::run();
        match t.take() {
            Some(e) => verdict(e),
            None => fail("a look at the device waits"),
        }
    }
    drop(guard);
    obs(m.n_sh() as u64);
}

entries!(
    h_l03_many, h_s01_many, h_l01_api,
    h_d01_box, h_d01_lock, h_d01_util, h_d01_status,
    h_l01_q, h_l01_busy, h_l01_many, h_l01_keys, h_l01_t, h_l02_wait, h_l02_try, h_l02_wait_t, h_l03_wait, h_l03_acquire, h_l03_wait_t,
    h_l03_acquire_t, h_l04_wait, h_l04_acquire, h_l04_wait_t, h_l04_acquire_t, h_l04_memory, h_s01_q,
    h_s01_t, h_s01_memory
);
