//! Shadowed `std::sync`.
pub use ::std::sync::*;

use crate::rt;
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};

#[path = "atomic.rs"]
pub mod atomic;

// ------------------------------------------------------------------------------------ Mutex

/// A lock word with owner semantics known to the scheduler.
struct RawLock {
    // 0: free, 1: writer, >= 2: number of readers + 1.
    word: UnsafeCell<u32>,
}

impl RawLock {
    const fn new() -> Self {
        RawLock {
            word: UnsafeCell::new(0),
        }
    }
    fn addr(&self) -> usize {
        self.word.get() as usize
    }
    fn lock(&self) {
        loop {
            rt::lock_point(self.addr());
            unsafe {
                if *self.word.get() == 0 {
                    *self.word.get() = 1;
                    rt::lock_acquired(self.addr());
                    return;
                }
            }
            rt::lock_block(self.addr());
        }
    }
    fn try_lock(&self) -> bool {
        rt::lock_point(self.addr());
        unsafe {
            if *self.word.get() == 0 {
                *self.word.get() = 1;
                rt::lock_acquired(self.addr());
                true
            } else {
                rt::lock_failed(self.addr());
                false
            }
        }
    }
    fn unlock(&self) {
        rt::lock_point(self.addr());
        unsafe { *self.word.get() = 0 };
        rt::lock_released(self.addr());
    }
    fn read(&self) {
        loop {
            rt::lock_point(self.addr());
            unsafe {
                let w = *self.word.get();
                if w != 1 {
                    *self.word.get() = w.max(1) + 1;
                    rt::lock_acquired(self.addr());
                    return;
                }
            }
            rt::lock_block(self.addr());
        }
    }
    fn try_read(&self) -> bool {
        rt::lock_point(self.addr());
        unsafe {
            let w = *self.word.get();
            if w != 1 {
                *self.word.get() = w.max(1) + 1;
                rt::lock_acquired(self.addr());
                true
            } else {
                rt::lock_failed(self.addr());
                false
            }
        }
    }
    fn unread(&self) {
        rt::lock_point(self.addr());
        unsafe {
            let w = *self.word.get();
            *self.word.get() = if w <= 2 { 0 } else { w - 1 };
        }
        rt::lock_released(self.addr());
    }
}

pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    poisoned: UnsafeCell<bool>,
    data: UnsafeCell<T>,
}

unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}

pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    panicking: bool,
}

impl<T> Mutex<T> {
    pub const fn new(data: T) -> Mutex<T> {
        Mutex {
            raw: RawLock::new(),
            poisoned: UnsafeCell::new(false),
            data: UnsafeCell::new(data),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = unsafe { *self.poisoned.get() };
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}

impl<T: ?Sized> Mutex<T> {
    fn wrap(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard {
            lock: self,
            panicking: ::std::thread::panicking(),
        };
        if unsafe { *self.poisoned.get() } {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock();
        self.wrap()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.raw.try_lock() {
            self.wrap().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        unsafe { *self.poisoned.get() }
    }
    pub fn clear_poison(&self) {
        unsafe { *self.poisoned.get() = false }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = unsafe { *self.poisoned.get() };
        let d = self.data.get_mut();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}

impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}

impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex")
    }
}

impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            unsafe { *self.lock.poisoned.get() = true }
        }
        self.lock.raw.unlock();
    }
}

// ----------------------------------------------------------------------------------- RwLock

pub struct RwLock<T: ?Sized> {
    raw: RawLock,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}

pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);

impl<T> RwLock<T> {
    pub const fn new(data: T) -> Self {
        RwLock {
            raw: RawLock::new(),
            data: UnsafeCell::new(data),
        }
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.read();
        Ok(RwLockReadGuard(self))
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.lock();
        Ok(RwLockWriteGuard(self))
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.raw.try_read() {
            Ok(RwLockReadGuard(self))
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.raw.try_lock() {
            Ok(RwLockWriteGuard(self))
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T> RwLock<T> {
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unread();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.0.raw.unlock();
    }
}

// ---------------------------------------------------------------------------------- Condvar

/// A condition variable. Waiters block until notified (spurious wakeups are not modelled).
#[derive(Default)]
pub struct Condvar {
    waiters: UnsafeCell<Vec<usize>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}

impl Condvar {
    pub const fn new() -> Self {
        Condvar {
            waiters: UnsafeCell::new(Vec::new()),
        }
    }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let lock = guard.lock;
        unsafe { (*self.waiters.get()).push(rt::current_tid()) };
        let me = rt::current_tid();
        drop(guard);
        while unsafe { (*self.waiters.get()).contains(&me) } {
            rt::lock_block(self as *const _ as *const u8 as usize);
        }
        lock.lock()
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut guard: MutexGuard<'a, T>,
        mut condition: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while condition(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn notify_one(&self) {
        rt::lock_point(self as *const _ as *const u8 as usize);
        unsafe {
            if !(*self.waiters.get()).is_empty() {
                (*self.waiters.get()).remove(0);
            }
        }
        rt::lock_released(self as *const _ as *const u8 as usize);
    }
    pub fn notify_all(&self) {
        rt::lock_point(self as *const _ as *const u8 as usize);
        unsafe { (*self.waiters.get()).clear() };
        rt::lock_released(self as *const _ as *const u8 as usize);
    }
}
