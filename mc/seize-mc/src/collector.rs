//! A stand-in for the `seize` collector.
//!
//! Same contract, observed as tightly as the contract permits: an object is reclaimed by the
//! last thread to leave among those that were inside a guard when it was retired, at the
//! moment it leaves. Retiring twice, retiring null and using a reclaimed object are failures.
use crate::rt;
use crate::sync::atomic::{AtomicPtr, Ordering};
use ::std::fmt;
use ::std::marker::PhantomData;

pub trait Guard {
    fn refresh(&mut self);
    fn flush(&self);
    fn collector(&self) -> &Collector;
    fn thread_id(&self) -> usize;

    #[inline]
    fn protect<T>(&self, ptr: &AtomicPtr<T>, _order: Ordering) -> *mut T {
        ptr.load(Ordering::SeqCst)
    }
    #[inline]
    fn swap<T>(&self, ptr: &AtomicPtr<T>, value: *mut T, _order: Ordering) -> *mut T {
        ptr.swap(value, Ordering::SeqCst)
    }
    #[inline]
    fn compare_exchange<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        _success: Ordering,
        _failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        ptr.compare_exchange(current, new, Ordering::SeqCst, Ordering::SeqCst)
    }
    #[inline]
    fn compare_exchange_weak<T>(
        &self,
        ptr: &AtomicPtr<T>,
        current: *mut T,
        new: *mut T,
        _success: Ordering,
        _failure: Ordering,
    ) -> Result<*mut T, *mut T> {
        ptr.compare_exchange_weak(current, new, Ordering::SeqCst, Ordering::SeqCst)
    }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector));
}

pub struct Collector {
    id: usize,
}

impl Default for Collector {
    fn default() -> Self {
        Self::new()
    }
}

impl Collector {
    pub fn new() -> Self {
        Collector {
            id: rt::coll_new(),
        }
    }
    /// Which collector this is, for the checks.
    pub fn mc_id(&self) -> usize {
        self.id
    }
    pub fn batch_size(self, _batch_size: usize) -> Self {
        self
    }
    #[inline]
    pub fn enter(&self) -> LocalGuard<'_> {
        rt::coll_enter(self.id, rt::current_tid());
        LocalGuard {
            collector: self,
            thread: rt::current_tid(),
            _unsend: PhantomData,
        }
    }
    #[inline]
    pub fn enter_owned(&self) -> OwnedGuard<'_> {
        OwnedGuard {
            collector: self,
            slot: rt::coll_enter_owned(self.id),
        }
    }
    pub unsafe fn retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        let f: unsafe fn(*mut (), &Collector) = unsafe { ::std::mem::transmute(reclaim) };
        let zst = (size_of::<T>() == 0).then_some(align_of::<T>());
        rt::coll_retire(self, self.id, ptr.cast(), f, zst);
    }
    pub unsafe fn reclaim_all(&self) {
        rt::coll_reclaim_all(self, self.id);
    }
}

impl Drop for Collector {
    fn drop(&mut self) {
        rt::coll_reclaim_all(self, self.id);
    }
}

impl Eq for Collector {}
impl PartialEq for Collector {
    #[inline]
    fn eq(&self, other: &Self) -> bool {
        self.id == other.id
    }
}
impl fmt::Debug for Collector {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Collector")
    }
}

pub struct LocalGuard<'a> {
    collector: &'a Collector,
    thread: usize,
    _unsend: PhantomData<*mut ()>,
}

impl Guard for LocalGuard<'_> {
    fn refresh(&mut self) {
        if rt::coll_count(self.collector.id, self.thread) == 1 {
            rt::coll_leave(self.collector, self.collector.id, self.thread);
            rt::coll_enter(self.collector.id, self.thread);
        }
    }
    fn flush(&self) {}
    #[inline]
    fn collector(&self) -> &Collector {
        self.collector
    }
    #[inline]
    fn thread_id(&self) -> usize {
        self.thread
    }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        unsafe { self.collector.retire(ptr, reclaim) }
    }
}

impl Drop for LocalGuard<'_> {
    fn drop(&mut self) {
        rt::coll_leave(self.collector, self.collector.id, self.thread);
    }
}

impl fmt::Debug for LocalGuard<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("LocalGuard").finish()
    }
}

pub struct OwnedGuard<'a> {
    collector: &'a Collector,
    slot: usize,
}

unsafe impl Sync for OwnedGuard<'_> {}
unsafe impl Send for OwnedGuard<'_> {}

impl Guard for OwnedGuard<'_> {
    fn refresh(&mut self) {
        rt::coll_leave(self.collector, self.collector.id, self.slot);
        rt::coll_enter(self.collector.id, self.slot);
    }
    fn flush(&self) {}
    #[inline]
    fn collector(&self) -> &Collector {
        self.collector
    }
    #[inline]
    fn thread_id(&self) -> usize {
        rt::current_tid()
    }
    unsafe fn defer_retire<T>(&self, ptr: *mut T, reclaim: unsafe fn(*mut T, &Collector)) {
        unsafe { self.collector.retire(ptr, reclaim) }
    }
}

impl Drop for OwnedGuard<'_> {
    fn drop(&mut self) {
        rt::coll_leave(self.collector, self.collector.id, self.slot);
        rt::coll_free_owned(self.collector.id, self.slot);
    }
}

impl fmt::Debug for OwnedGuard<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OwnedGuard").finish()
    }
}
