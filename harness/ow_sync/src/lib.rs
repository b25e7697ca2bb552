//! `std::sync` with a cooperative scheduler.
//!
//! Threads that were started by [`sched::run`] stop before every operation on a
//! [`Mutex`] or an atomic until the scheduler picks them; all other threads get
//! the plain `std` behaviour. Exactly one controlled thread runs at a time, so
//! an execution is determined by the sequence of choices.
pub use std::sync::*;

pub mod sched;

use std::ops::{Deref, DerefMut};

#[derive(Default)]
pub struct Mutex<T: ?Sized> {
    inner: std::sync::Mutex<T>,
}

pub struct MutexGuard<'a, T: ?Sized> {
    inner: Option<std::sync::MutexGuard<'a, T>>,
    addr: usize,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Self { inner: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn addr(&self) -> usize {
        &self.inner as *const _ as *const () as usize
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        let addr = self.addr();
        if !sched::point() {
            return match self.inner.lock() {
                Ok(g) => Ok(MutexGuard { inner: Some(g), addr }),
                Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), addr })),
            };
        }
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(MutexGuard { inner: Some(g), addr }),
                Err(TryLockError::Poisoned(e)) => {
                    return Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), addr }));
                }
                Err(TryLockError::WouldBlock) => sched::blocked(addr),
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sched::point();
        let addr = self.addr();
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { inner: Some(g), addr }),
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
                MutexGuard { inner: Some(e.into_inner()), addr },
            ))),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.inner.fmt(f)
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.inner.take();
        sched::released(self.addr);
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}

#[derive(Default)]
pub struct RwLock<T: ?Sized> {
    inner: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    inner: Option<std::sync::RwLockReadGuard<'a, T>>,
    addr: usize,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    inner: Option<std::sync::RwLockWriteGuard<'a, T>>,
    addr: usize,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        Self { inner: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn addr(&self) -> usize {
        &self.inner as *const _ as *const () as usize
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
macro_rules! rw {
    ($lock:ident, $try:ident, $guard:ident) => {
        impl<T: ?Sized> RwLock<T> {
            pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
                let addr = self.addr();
                let controlled = sched::point();
                loop {
                    match self.inner.$try() {
                        Ok(g) => return Ok($guard { inner: Some(g), addr }),
                        Err(TryLockError::Poisoned(e)) => {
                            return Err(PoisonError::new($guard { inner: Some(e.into_inner()), addr }));
                        }
                        Err(TryLockError::WouldBlock) if controlled => sched::blocked(addr),
                        Err(TryLockError::WouldBlock) => std::thread::yield_now(),
                    }
                }
            }
            pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
                sched::point();
                let addr = self.addr();
                match self.inner.$try() {
                    Ok(g) => Ok($guard { inner: Some(g), addr }),
                    Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
                    Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(
                        PoisonError::new($guard { inner: Some(e.into_inner()), addr }),
                    )),
                }
            }
        }
        impl<T: ?Sized> Deref for $guard<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.inner.as_ref().unwrap()
            }
        }
        impl<T: ?Sized> Drop for $guard<'_, T> {
            fn drop(&mut self) {
                self.inner.take();
                sched::released(self.addr);
            }
        }
    };
}
rw!(read, try_read, RwLockReadGuard);
rw!(write, try_write, RwLockWriteGuard);
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.inner.fmt(f)
    }
}

/// Controlled threads may wake up without having been notified.
#[derive(Default, Debug)]
pub struct Condvar {
    inner: std::sync::Condvar,
}
impl Condvar {
    pub const fn new() -> Self {
        Self { inner: std::sync::Condvar::new() }
    }
    pub fn notify_one(&self) {
        self.notify_all()
    }
    pub fn notify_all(&self) {
        sched::released(self as *const _ as usize);
        self.inner.notify_all();
    }
}
/// `lock` is the mutex the guard came from: needed to take it again.
impl Condvar {
    pub fn wait<'a, T>(&self, mut guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let addr = guard.addr;
        if !sched::controlled() {
            let g = guard.inner.take().unwrap();
            return match self.inner.wait(g) {
                Ok(g) => Ok(MutexGuard { inner: Some(g), addr }),
                Err(e) => Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), addr })),
            };
        }
        // SAFETY: the address is that of the mutex, which the guard borrows for 'a
        let m: &'a std::sync::Mutex<T> = unsafe { &*(addr as *const std::sync::Mutex<T>) };
        drop(guard);
        sched::blocked(self as *const _ as usize);
        loop {
            match m.try_lock() {
                Ok(g) => return Ok(MutexGuard { inner: Some(g), addr }),
                Err(TryLockError::Poisoned(e)) => {
                    return Err(PoisonError::new(MutexGuard { inner: Some(e.into_inner()), addr }));
                }
                Err(TryLockError::WouldBlock) => sched::blocked(addr),
            }
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self, mut guard: MutexGuard<'a, T>, mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
}

pub mod atomic {
    use super::sched::point;
    pub use std::sync::atomic::{Ordering, compiler_fence, fence};
    pub use std::sync::atomic::{AtomicI8, AtomicI16, AtomicPtr, AtomicU8, AtomicU16};

    macro_rules! base {
        ($name:ident, $t:ty) => {
            #[derive(Default, Debug)]
            pub struct $name(std::sync::atomic::$name);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(std::sync::atomic::$name::new(v))
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point();
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    point();
                    self.0.store(v, o)
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(
                    &self, a: $t, b: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn compare_exchange_weak(
                    &self, a: $t, b: $t, s: Ordering, f: Ordering,
                ) -> Result<$t, $t> {
                    point();
                    self.0.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self, s: Ordering, f: Ordering, mut g: F,
                ) -> Result<$t, $t> {
                    let mut prev = self.load(f);
                    while let Some(next) = g(prev) {
                        match self.compare_exchange(prev, next, s, f) {
                            Ok(x) => return Ok(x),
                            Err(n) => prev = n,
                        }
                    }
                    Err(prev)
                }
                pub fn as_ptr(&self) -> *mut $t {
                    self.0.as_ptr()
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
        };
    }
    macro_rules! ops {
        ($name:ident, $t:ty, $($op:ident),*) => {
            impl $name {
                $(pub fn $op(&self, v: $t, o: Ordering) -> $t {
                    point();
                    self.0.$op(v, o)
                })*
            }
        };
    }
    base!(AtomicBool, bool);
    ops!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
    macro_rules! int {
        ($($name:ident $t:ty),*) => {$(
            base!($name, $t);
            ops!($name, $t, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min);
        )*};
    }
    int!(AtomicI32 i32, AtomicU32 u32, AtomicI64 i64, AtomicU64 u64, AtomicUsize usize, AtomicIsize isize);
}
