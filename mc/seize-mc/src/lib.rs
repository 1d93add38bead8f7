//! Two roles, one crate:
//!
//! * a facade of `std` (papaya built with `--cfg papaya_mc` does `extern crate seize as std`):
//!   everything is re-exported from the real `std`, with atomics, locks, parking, spin hints,
//!   raw allocation and the internal `HashMap` shadowed by instrumented versions;
//! * a stand-in for the `seize` collector with eager, fully accounted reclamation.
//!
//! The model-checking engine itself lives in [`rt`].
#![allow(clippy::all)]

pub use ::std::*;

pub mod rt;

mod collector;
pub use collector::{Collector, Guard, LocalGuard, OwnedGuard};

/// Reclamation helpers, as in the real crate.
pub mod reclaim {
    use crate::Collector;

    pub unsafe fn boxed<T>(ptr: *mut T, _collector: &Collector) {
        unsafe { drop(::std::boxed::Box::from_raw(ptr)) }
    }

    pub unsafe fn in_place<T>(ptr: *mut T, _collector: &Collector) {
        unsafe { ::std::ptr::drop_in_place::<T>(ptr) }
    }
}

#[path = "sync.rs"]
pub mod sync;

/// Shadowed `std::hint`.
pub mod hint {
    pub use ::std::hint::*;

    #[inline]
    pub fn spin_loop() {
        crate::rt::spin_hint();
    }
}

/// Shadowed `std::alloc`.
pub mod alloc {
    pub use ::std::alloc::*;

    pub unsafe fn alloc_zeroed(layout: Layout) -> *mut u8 {
        unsafe { crate::rt::raw_alloc(layout, true) }
    }

    pub unsafe fn alloc(layout: Layout) -> *mut u8 {
        unsafe { crate::rt::raw_alloc(layout, false) }
    }

    pub unsafe fn dealloc(ptr: *mut u8, layout: Layout) {
        unsafe { crate::rt::raw_dealloc(ptr, layout) }
    }

    pub fn handle_alloc_error(_layout: Layout) -> ! {
        ::std::panic!("mc: allocation refused")
    }
}

/// Shadowed `std::collections`: the default hasher is deterministic.
pub mod collections {
    pub use ::std::collections::*;

    #[derive(Clone, Copy, Default, Debug)]
    pub struct DetState;

    pub struct DetHasher(u64);

    impl ::std::hash::BuildHasher for DetState {
        type Hasher = DetHasher;
        fn build_hasher(&self) -> DetHasher {
            DetHasher(0xcbf29ce484222325)
        }
    }

    impl ::std::hash::Hasher for DetHasher {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, bytes: &[u8]) {
            for b in bytes {
                self.0 = (self.0 ^ *b as u64).wrapping_mul(0x100000001b3);
            }
        }
        fn write_usize(&mut self, i: usize) {
            // Arena addresses are made relative so that hashing does not depend on where the
            // worker's arena was mapped.
            self.write_u64(crate::rt::relative(i) as u64);
        }
        fn write_u64(&mut self, i: u64) {
            self.0 = (self.0 ^ i).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
        }
    }

    pub type HashMap<K, V, S = DetState> = ::std::collections::HashMap<K, V, S>;
    pub type HashSet<K, S = DetState> = ::std::collections::HashSet<K, S>;

    pub mod hash_map {
        pub use ::std::collections::hash_map::*;
        pub use super::HashMap;
    }
}

/// Shadowed `std::thread`.
pub mod thread {
    pub use ::std::thread::*;

    use crate::rt;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Thread(pub(crate) usize);

    impl Thread {
        pub fn unpark(&self) {
            rt::unpark(self.0);
        }
        pub fn id(&self) -> usize {
            self.0
        }
    }

    pub fn current() -> Thread {
        Thread(rt::current_tid())
    }

    pub fn park() {
        rt::park();
    }

    pub fn park_timeout(_dur: ::std::time::Duration) {
        rt::spin_hint();
    }

    pub fn yield_now() {
        rt::spin_hint();
    }

    pub fn sleep(_dur: ::std::time::Duration) {
        rt::spin_hint();
    }

    pub fn available_parallelism() -> ::std::io::Result<::std::num::NonZeroUsize> {
        Ok(::std::num::NonZeroUsize::new(rt::parallelism()).unwrap())
    }
}
