//! Harness runtime: symbolic inputs, assertions, hooks of the shims, and a device
//! that records what it is asked to do.
use std::cell::UnsafeCell;

pub mod ffi {
    extern "C" {
        pub fn sym_u8() -> u8;
        pub fn sym_u16() -> u16;
        pub fn sym_u32() -> u32;
        pub fn sym_u64() -> u64;
        pub fn sym_bytes(p: *mut u8, n: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, p: *const u8, n: usize);
        pub fn sym_fail(p: *const u8, n: usize);
        pub fn sym_obs(v: u64);
        pub fn sym_obs_bytes(p: *const u8, n: usize);
        pub fn sym_cover(id: u32);
        pub fn sym_choice(n: u32) -> u32;
        pub fn sym_concrete(v: u64) -> u64;
        pub fn sym_heap_live() -> i64;
        pub fn sym_msg(p: *const u8, n: usize);
        pub fn sym_prune();
    }
}
pub fn any_u8() -> u8 {
    unsafe { ffi::sym_u8() }
}
pub fn any_u16() -> u16 {
    unsafe { ffi::sym_u16() }
}
pub fn any_u32() -> u32 {
    unsafe { ffi::sym_u32() }
}
pub fn any_u64() -> u64 {
    unsafe { ffi::sym_u64() }
}
pub fn any_bool() -> bool {
    choice(2) == 1
}
pub fn any_vec(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        unsafe { ffi::sym_bytes(v.as_mut_ptr(), n) }
    }
    v
}
pub fn assume(c: bool) {
    unsafe { ffi::sym_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { ffi::sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) {
    unsafe { ffi::sym_fail(msg.as_ptr(), msg.len()) }
}
/// Compare two byte strings under one assertion.
pub fn check_eq(a: &[u8], b: &[u8], msg: &str) {
    if a.len() != b.len() {
        fail(msg);
        return;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    check(d == 0, msg)
}
pub fn bytes_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn obs(v: u64) {
    unsafe { ffi::sym_obs(v) }
}
pub fn obs_bytes(b: &[u8]) {
    unsafe { ffi::sym_obs_bytes(b.as_ptr(), b.len()) }
}
pub fn cover(id: u32) {
    unsafe { ffi::sym_cover(id) }
}
/// One of 0..n, each explored separately.
pub fn choice(n: usize) -> usize {
    unsafe { ffi::sym_choice(n as u32) as usize }
}
pub fn concrete(v: u64) -> u64 {
    unsafe { ffi::sym_concrete(v) }
}
pub fn heap_live() -> i64 {
    unsafe { ffi::sym_heap_live() }
}
pub fn note(m: &str) {
    unsafe { ffi::sym_msg(m.as_ptr(), m.len()) }
}
pub fn prune() {
    unsafe { ffi::sym_prune() }
}

/// Harness state: everything runs on one thread.
pub struct Global<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Global<T> {}
unsafe impl<T> Send for Global<T> {}
impl<T> Global<T> {
    pub const fn new(t: T) -> Self {
        Global(UnsafeCell::new(t))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        f(unsafe { &mut *self.0.get() })
    }
}

struct Hooks {
    preempt: Option<fn(u32)>,
    preempt_budget: u32,
    nested: bool,
    shuffle_budget: u32,
    contended: Option<fn()>,
}
static HOOKS: Global<Hooks> = Global::new(Hooks {
    preempt: None,
    preempt_budget: 0,
    nested: false,
    shuffle_budget: 0,
    contended: None,
});
/// Run `f` ("the other thread") at lock boundaries, at most `budget` times, each
/// time the solver may choose to.
pub fn set_preempt(f: Option<fn(u32)>, budget: u32) {
    HOOKS.with(|h| {
        h.preempt = f;
        h.preempt_budget = budget;
    })
}
pub fn preempt_left() -> u32 {
    HOOKS.with(|h| h.preempt_budget)
}
/// How many `select!` polls get every branch order.
pub fn set_shuffle(n: u32) {
    HOOKS.with(|h| h.shuffle_budget = n)
}
pub fn set_contended(f: fn()) {
    HOOKS.with(|h| h.contended = Some(f))
}
#[no_mangle]
pub extern "C" fn sim_preempt(after: u32) {
    let f = HOOKS.with(|h| if h.nested || h.preempt_budget == 0 { None } else { h.preempt });
    if let Some(f) = f {
        if choice(2) == 1 {
            HOOKS.with(|h| {
                h.preempt_budget -= 1;
                h.nested = true
            });
            f(after);
            HOOKS.with(|h| h.nested = false);
        }
    }
}
#[no_mangle]
pub extern "C" fn sim_contended() {
    match HOOKS.with(|h| h.contended) {
        Some(f) => f(),
        None => fail("a task holds a spin lock while it is suspended: another task spins forever"),
    }
}
#[no_mangle]
pub extern "C" fn sim_shuffle(n: u32) -> u32 {
    if HOOKS.with(|h| {
        if h.shuffle_budget > 0 {
            h.shuffle_budget -= 1;
            true
        } else {
            false
        }
    }) {
        choice(n as usize) as u32
    } else {
        n - 1
    }
}

pub mod lockmodel;

pub mod dev {
    //! A device that records every call and answers as the harness says.
    use super::Global;
    use lxi_device::{trigger::Source, Device, DeviceError};

    #[derive(Clone, PartialEq, Eq)]
    pub enum Ev {
        Exec(Vec<u8>),
        Status,
        Trigger(Source),
        Clear,
        Remote(bool),
        Lockout(bool),
    }
    pub struct State {
        pub log: Vec<Ev>,
        pub stb: Result<u8, ()>,
        pub trigger_err: Option<DeviceError>,
        pub clear_err: Option<DeviceError>,
        pub remote_err: Option<DeviceError>,
        pub respond: fn(&[u8]) -> Option<Vec<u8>>,
    }
    fn echo(c: &[u8]) -> Option<Vec<u8>> {
        Some(c.to_vec())
    }
    pub static DEV: Global<State> = Global::new(State {
        log: Vec::new(),
        stb: Ok(0),
        trigger_err: None,
        clear_err: None,
        remote_err: None,
        respond: echo,
    });
    pub fn take_log() -> Vec<Ev> {
        DEV.with(|d| std::mem::take(&mut d.log))
    }
    pub fn log_len() -> usize {
        DEV.with(|d| d.log.len())
    }
    pub fn set_respond(f: fn(&[u8]) -> Option<Vec<u8>>) {
        DEV.with(|d| d.respond = f)
    }
    pub fn set_stb(v: u8) {
        DEV.with(|d| d.stb = Ok(v))
    }
    /// Commands executed since the last `take_log`, in order.
    pub fn execs() -> Vec<Vec<u8>> {
        DEV.with(|d| {
            d.log
                .iter()
                .filter_map(|e| match e {
                    Ev::Exec(c) => Some(c.clone()),
                    _ => None,
                })
                .collect()
        })
    }
    pub fn count(f: impl Fn(&Ev) -> bool) -> usize {
        DEV.with(|d| d.log.iter().filter(|e| f(e)).count())
    }
    pub struct Dev;
    impl Device for Dev {
        fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
            let c = cmd.to_vec();
            let f = DEV.with(|d| {
                d.log.push(Ev::Exec(c));
                d.respond
            });
            f(cmd)
        }
        fn get_status(&mut self) -> Result<u8, DeviceError> {
            DEV.with(|d| {
                d.log.push(Ev::Status);
                d.stb.map_err(|_| DeviceError::IoError)
            })
        }
        fn trigger(&mut self, s: Source) -> Result<(), DeviceError> {
            DEV.with(|d| {
                d.log.push(Ev::Trigger(s));
                match d.trigger_err.take() {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            })
        }
        fn clear(&mut self) -> Result<(), DeviceError> {
            DEV.with(|d| {
                d.log.push(Ev::Clear);
                match d.clear_err.take() {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            })
        }
        fn set_remote(&mut self, r: bool) -> Result<(), DeviceError> {
            DEV.with(|d| {
                d.log.push(Ev::Remote(r));
                match d.remote_err.take() {
                    Some(e) => Err(e),
                    None => Ok(()),
                }
            })
        }
        fn set_local_lockout(&mut self, e: bool) {
            DEV.with(|d| d.log.push(Ev::Lockout(e)))
        }
    }
}

/// Declares the exported entry points and the table the replay program uses.
#[macro_export]
macro_rules! entries {
    ($($name:ident),* $(,)?) => {
        mod exported {
            $( #[no_mangle] pub extern "C" fn $name() { super::$name() } )*
        }
        pub fn table() -> Vec<(&'static str, fn())> {
            vec![$( (stringify!($name), $name as fn()) ),*]
        }
    };
}
