//! Model of the `spin` crate for a single-threaded simulation.
//!
//! * Taking and releasing a lock are preemption points: the harness may run an
//!   operation of "another thread" there (`sim_preempt`).
//! * Finding the lock taken means that the thread would busy-wait on a lock held
//!   by a suspended task: `sim_contended` reports it.
#![no_std]
use core::cell::{Cell, UnsafeCell};
use core::fmt;
use core::ops::{Deref, DerefMut};

extern "C" {
    fn sim_preempt(after: u32);
    fn sim_contended();
}

pub struct Mutex<T: ?Sized> {
    locked: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    m: &'a Mutex<T>,
}
// as in the real crate, a guard may cross threads when T may
unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { locked: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> T {
        self.data.into_inner()
    }
    pub fn as_mut_ptr(&self) -> *mut T {
        self.data.get()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        unsafe { sim_preempt(0) };
        if self.locked.get() {
            unsafe { sim_contended() };
        }
        self.locked.set(true);
        MutexGuard { m: self }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        unsafe { sim_preempt(0) };
        if self.locked.get() {
            None
        } else {
            self.locked.set(true);
            Some(MutexGuard { m: self })
        }
    }
    pub fn is_locked(&self) -> bool {
        self.locked.get()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.data.get_mut()
    }
    /// # Safety
    /// As in the real crate.
    pub unsafe fn force_unlock(&self) {
        self.locked.set(false)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.locked.set(false);
        unsafe { sim_preempt(1) };
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
pub mod mutex {
    pub use super::{Mutex, MutexGuard};
    pub type SpinMutex<T> = super::Mutex<T>;
    pub type SpinMutexGuard<'a, T> = super::MutexGuard<'a, T>;
    pub mod spin {
        pub type SpinMutex<T> = crate::Mutex<T>;
        pub type SpinMutexGuard<'a, T> = crate::MutexGuard<'a, T>;
    }
}
pub mod relax {
    pub struct Spin;
    pub struct Yield;
}
