//! Shadowed `std::sync::atomic`.
pub use ::std::sync::atomic::*;

use crate::rt;
use ::std::fmt;

#[inline]
pub fn fence(order: Ordering) {
    rt::fence(order);
}

macro_rules! base {
    ($Name:ident, $T:ty, [$($g:tt)*], [$($gu:tt)*], $to:expr, $from:expr) => {
        impl $($g)* $Name $($gu)* {
            #[inline]
            pub const fn new(v: $T) -> Self {
                Self(::std::sync::atomic::$Name::new(v))
            }
            #[inline]
            fn addr_(&self) -> usize {
                self as *const Self as *const u8 as usize
            }
            #[inline]
            pub fn load(&self, order: Ordering) -> $T {
                if rt::pre(self.addr_(), rt::Kind::Load) {
                    let v = self.0.load(Ordering::Relaxed);
                    $from(rt::post_load(self.addr_(), $to(v), order))
                } else {
                    self.0.load(order)
                }
            }
            #[inline]
            pub fn store(&self, v: $T, order: Ordering) {
                if rt::pre(self.addr_(), rt::Kind::Store) {
                    let old = self.0.load(Ordering::Relaxed);
                    self.0.store(v, Ordering::Relaxed);
                    rt::post_store(self.addr_(), $to(old), $to(v), order);
                } else {
                    self.0.store(v, order)
                }
            }
            #[inline]
            fn rmw(&self, order: Ordering, f: impl FnOnce($T) -> $T, direct: impl FnOnce(&::std::sync::atomic::$Name $($gu)*) -> $T) -> $T {
                if rt::pre(self.addr_(), rt::Kind::Rmw) {
                    let old = self.0.load(Ordering::Relaxed);
                    let new = f(old);
                    self.0.store(new, Ordering::Relaxed);
                    rt::post_rmw(self.addr_(), $to(old), $to(new), order);
                    old
                } else {
                    direct(&self.0)
                }
            }
            #[inline]
            pub fn swap(&self, v: $T, order: Ordering) -> $T {
                self.rmw(order, |_| v, |a| a.swap(v, order))
            }
            #[inline]
            fn cas(&self, cur: $T, new: $T, s: Ordering, f: Ordering, weak: bool) -> Result<$T, $T> {
                if rt::pre(self.addr_(), rt::Kind::Cas) {
                    let old = self.0.load(Ordering::Relaxed);
                    if old == cur && !(weak && rt::spurious_cas(self.addr_())) {
                        self.0.store(new, Ordering::Relaxed);
                        rt::post_rmw(self.addr_(), $to(old), $to(new), s);
                        Ok(old)
                    } else {
                        rt::post_cas_fail(self.addr_(), $to(old), f);
                        Err(old)
                    }
                } else {
                    self.0.compare_exchange(cur, new, s, f)
                }
            }
            #[inline]
            pub fn compare_exchange(&self, cur: $T, new: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                self.cas(cur, new, s, f, false)
            }
            #[inline]
            pub fn compare_exchange_weak(&self, cur: $T, new: $T, s: Ordering, f: Ordering) -> Result<$T, $T> {
                self.cas(cur, new, s, f, true)
            }
            #[inline]
            pub fn fetch_update<F: FnMut($T) -> Option<$T>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$T, $T> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            #[inline]
            pub fn get_mut(&mut self) -> &mut $T {
                rt::exclusive(self.addr_());
                self.0.get_mut()
            }
            #[inline]
            pub fn into_inner(self) -> $T {
                self.0.into_inner()
            }
            /// # Safety
            ///
            /// As for the real one.
            #[inline]
            pub const unsafe fn from_ptr<'a>(ptr: *mut $T) -> &'a Self {
                unsafe { &*(ptr as *mut Self) }
            }
            #[inline]
            pub const fn as_ptr(&self) -> *mut $T {
                self.0.as_ptr()
            }
        }
        impl $($g)* From<$T> for $Name $($gu)* {
            fn from(v: $T) -> Self {
                Self::new(v)
            }
        }
        impl $($g)* fmt::Debug for $Name $($gu)* {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($Name))
            }
        }
    };
}

macro_rules! int {
    ($Name:ident, $T:ty) => {
        #[repr(transparent)]
        #[derive(Default)]
        pub struct $Name(::std::sync::atomic::$Name);
        base!($Name, $T, [], [], (|v: $T| v as u64), (|v: u64| v as $T));
        impl $Name {
            #[inline]
            pub fn fetch_add(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| x.wrapping_add(v), |a| a.fetch_add(v, o))
            }
            #[inline]
            pub fn fetch_sub(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| x.wrapping_sub(v), |a| a.fetch_sub(v, o))
            }
            #[inline]
            pub fn fetch_and(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| x & v, |a| a.fetch_and(v, o))
            }
            #[inline]
            pub fn fetch_or(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| x | v, |a| a.fetch_or(v, o))
            }
            #[inline]
            pub fn fetch_xor(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| x ^ v, |a| a.fetch_xor(v, o))
            }
            #[inline]
            pub fn fetch_nand(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| !(x & v), |a| a.fetch_nand(v, o))
            }
            #[inline]
            pub fn fetch_max(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| x.max(v), |a| a.fetch_max(v, o))
            }
            #[inline]
            pub fn fetch_min(&self, v: $T, o: Ordering) -> $T {
                self.rmw(o, |x| x.min(v), |a| a.fetch_min(v, o))
            }
        }
    };
}

int!(AtomicU8, u8);
int!(AtomicU16, u16);
int!(AtomicU32, u32);
int!(AtomicU64, u64);
int!(AtomicUsize, usize);
int!(AtomicI8, i8);
int!(AtomicI16, i16);
int!(AtomicI32, i32);
int!(AtomicI64, i64);
int!(AtomicIsize, isize);

#[repr(transparent)]
#[derive(Default)]
pub struct AtomicBool(::std::sync::atomic::AtomicBool);
base!(AtomicBool, bool, [], [], (|v: bool| v as u64), (|v: u64| v != 0));
impl AtomicBool {
    #[inline]
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| x & v, |a| a.fetch_and(v, o))
    }
    #[inline]
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| x | v, |a| a.fetch_or(v, o))
    }
    #[inline]
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| x ^ v, |a| a.fetch_xor(v, o))
    }
    #[inline]
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool {
        self.rmw(o, |x| !(x & v), |a| a.fetch_nand(v, o))
    }
    #[inline]
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.rmw(o, |x| !x, |a| a.fetch_xor(true, o))
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(::std::sync::atomic::AtomicPtr<T>);
base!(AtomicPtr, *mut T, [<T>], [<T>], (|v: *mut T| v as usize as u64), (|v: u64| v as usize as *mut T));
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        AtomicPtr::new(::std::ptr::null_mut())
    }
}
