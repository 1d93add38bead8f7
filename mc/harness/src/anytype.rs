//! C22: keys and values of any type. The same operations, against the same model, on maps and sets of
//! keys and values without size, of one byte, over-aligned, larger than a page, with and without
//! destructors, on an allocator that aligns nothing more than it has to.
use crate::cases::{case, fail, mode_name};
use crate::conc::resize_mode;
use crate::driver::{Case, Fam, Kind};
use crate::lin::{self, Act, Call, Hist, Lin};
use crate::prog::Mode;
use papaya::{Compute, HashMap, HashSet, Operation};
use seize::rt::{self, sys, Body, Config, Violation};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::hash::{BuildHasher, Hash, Hasher};
use std::num::NonZeroU8;
use std::sync::Arc;
use Mode::{B, I};

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            fail(sys(|| format!($($a)*)));
        }
    };
}

// ----------------------------------------------------------------------------- types

/// A key or value: `N` distinguishable ones.
pub trait Elt: Clone + Eq + Hash + Send + Sync + 'static {
    const N: u64;
    fn make(i: u64) -> Self;
    fn id(&self) -> u64;
    /// The number, of a reference that must be a good one.
    fn read(&self) -> u64 {
        let a = self as *const Self as usize;
        ensure!(a % std::mem::align_of::<Self>() == 0, "a reference to {} is not aligned: {a:#x}", std::any::type_name::<Self>());
        let i = self.id();
        ensure!(i < Self::N, "a {} reads as {i}, which was never stored", std::any::type_name::<Self>());
        i
    }
}

impl Elt for () {
    const N: u64 = 1;
    fn make(_: u64) {}
    fn id(&self) -> u64 {
        0
    }
}

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn live_zd() -> i64 {
    LIVE.with(|l| l.get())
}

/// No size, but a destructor.
#[derive(PartialEq, Eq, Hash)]
pub struct Zd;
impl Elt for Zd {
    const N: u64 = 1;
    fn make(_: u64) -> Zd {
        LIVE.with(|l| l.set(l.get() + 1));
        Zd
    }
    fn id(&self) -> u64 {
        0
    }
}
impl Clone for Zd {
    fn clone(&self) -> Zd {
        Zd::make(0)
    }
}
impl Drop for Zd {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        if live_zd() < 0 {
            fail("a value without size was dropped more often than it was made".into());
        }
    }
}

impl Elt for bool {
    const N: u64 = 2;
    fn make(i: u64) -> bool {
        i == 1
    }
    fn id(&self) -> u64 {
        // As a byte, in case it is none.
        unsafe { *(self as *const bool as *const u8) as u64 }
    }
}
macro_rules! ints {
    ($($T:ty, $n:expr;)*) => { $(
        impl Elt for $T {
            const N: u64 = $n;
            fn make(i: u64) -> $T {
                i as $T
            }
            fn id(&self) -> u64 {
                *self as u64
            }
        }
    )* };
}
ints! { u8, 100; u16, 60000; u32, 60000; u64, 60000; }
impl Elt for u128 {
    const N: u64 = 60000;
    fn make(i: u64) -> u128 {
        (i as u128) << 64 | (!i) as u128
    }
    fn id(&self) -> u64 {
        let i = (*self >> 64) as u64;
        if *self as u64 == !i {
            i
        } else {
            !0
        }
    }
}
impl<const L: usize> Elt for [u8; L] {
    const N: u64 = 100;
    fn make(i: u64) -> Self {
        let mut a = [i as u8; L];
        a[L - 1] = 200 - i as u8;
        a
    }
    fn id(&self) -> u64 {
        let i = self[0];
        if self[L - 1] == 200u8.wrapping_sub(i) && self[..L - 1].iter().all(|x| *x == i) {
            i as u64
        } else {
            !0
        }
    }
}
/// Aligned to more than any allocator gives unasked.
#[derive(Clone, PartialEq, Eq, Hash)]
#[repr(align(256))]
pub struct Al(u8);
impl Elt for Al {
    const N: u64 = 100;
    fn make(i: u64) -> Al {
        Al(i as u8)
    }
    fn id(&self) -> u64 {
        self.0 as u64
    }
}
impl Elt for String {
    const N: u64 = 60000;
    fn make(i: u64) -> String {
        let mut s = String::from("k");
        (0..4).for_each(|d| s.push((b'a' + (i >> (4 * d) & 15) as u8) as char));
        s
    }
    fn id(&self) -> u64 {
        let b = self.as_bytes();
        if b.len() != 5 || b[0] != b'k' {
            return !0;
        }
        (0..4).map(|d| (b[d + 1].wrapping_sub(b'a') as u64) << (4 * d)).sum()
    }
}
impl Elt for Box<u8> {
    const N: u64 = 100;
    fn make(i: u64) -> Box<u8> {
        Box::new(i as u8)
    }
    fn id(&self) -> u64 {
        **self as u64
    }
}
impl Elt for Option<Box<u16>> {
    const N: u64 = 100;
    fn make(i: u64) -> Self {
        if i == 0 {
            None
        } else {
            Some(Box::new(i as u16))
        }
    }
    fn id(&self) -> u64 {
        self.as_ref().map_or(0, |x| **x as u64)
    }
}
impl Elt for NonZeroU8 {
    const N: u64 = 100;
    fn make(i: u64) -> Self {
        NonZeroU8::new(i as u8 + 1).unwrap()
    }
    fn id(&self) -> u64 {
        self.get() as u64 - 1
    }
}
impl Elt for Arc<(u8, Zd)> {
    const N: u64 = 100;
    fn make(i: u64) -> Self {
        Arc::new((i as u8, Zd::make(0)))
    }
    fn id(&self) -> u64 {
        self.0 as u64
    }
}
const WORDS: [&str; 4] = ["zero", "one", "two", "three"];
impl Elt for &'static str {
    const N: u64 = 4;
    fn make(i: u64) -> Self {
        WORDS[i as usize]
    }
    fn id(&self) -> u64 {
        WORDS.iter().position(|w| w == self).map_or(!0, |i| i as u64)
    }
}

#[derive(Clone, Default)]
pub struct Spread;
pub struct SpreadHasher(u64);
impl BuildHasher for Spread {
    type Hasher = SpreadHasher;
    fn build_hasher(&self) -> SpreadHasher {
        SpreadHasher(0)
    }
}
impl Hasher for SpreadHasher {
    fn finish(&self) -> u64 {
        self.0.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(20)
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0.wrapping_mul(31).wrapping_add(*b as u64 + 1);
        }
    }
}

// ------------------------------------------------------------------------ operations

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Get(u64),
    Has(u64),
    Ins(u64, u64),
    Try(u64, u64),
    Goi(u64, u64),
    Rem(u64),
    /// Remove if the value is this.
    RemIf(u64, u64),
    /// To the next value.
    Upd(u64),
    /// To the next value, or this one if absent.
    Uoi(u64, u64),
    /// Insert 0, then 1, ... then remove.
    Cmp(u64),
    /// Keep the keys other than this.
    Retain(u64),
    Clear,
    Reserve(usize),
    /// Extend by two items.
    Ext,
    /// Replace the map by a clone.
    Cloned,
    Items,
}
use Op::*;

/// What an operation did to a key.
#[derive(Default)]
pub struct Did {
    act: Option<(u64, Act)>,
    items: Option<Vec<(u64, u64)>>,
    /// How many entries the closure was asked about.
    asked: Option<usize>,
}

/// A map or set of some type.
pub trait Dict {
    fn keys(&self) -> u64;
    fn values(&self) -> u64;
    fn run(&self, op: Op) -> Did;
    fn len(&self) -> usize;
    fn swap_clone(&mut self);
    fn extend(&mut self, kv: &[(u64, u64)]);
}

fn did(k: u64, a: Act) -> Did {
    Did {
        act: Some((k, a)),
        items: None,
        asked: None,
    }
}

struct M<K, V>(HashMap<K, V, Spread>);
impl<K: Elt, V: Elt> Dict for M<K, V> {
    fn keys(&self) -> u64 {
        K::N
    }
    fn values(&self) -> u64 {
        V::N
    }
    fn len(&self) -> usize {
        ensure!(self.0.is_empty() == (self.0.len() == 0), "is_empty disagrees with len");
        self.0.len()
    }
    fn swap_clone(&mut self) {
        self.0 = self.0.clone();
    }
    fn extend(&mut self, kv: &[(u64, u64)]) {
        let mut i = 0;
        (&self.0).extend(std::iter::from_fn(|| {
            let r = kv.get(i).map(|x| (K::make(x.0), V::make(x.1)));
            i += 1;
            r
        }));
    }
    fn run(&self, op: Op) -> Did {
        let m = &self.0;
        let g = m.guard();
        let g = &g;
        match op {
            Get(k) => {
                let q = K::make(k);
                let r = m.get_key_value(&q, g).map(|(x, v)| {
                    ensure!(x.read() == k, "a lookup of {k} yields the key {}", x.id());
                    v.read()
                });
                did(k, Act::Get(r))
            }
            Has(k) => {
                if m.contains_key(&K::make(k), g) {
                    did(k, Act::Some)
                } else {
                    did(k, Act::Get(None))
                }
            }
            Ins(k, v) => {
                let r = m.insert(K::make(k), V::make(v), g).map(|v| v.read());
                did(k, Act::Set { new: v, prev: r })
            }
            Try(k, v) => match m.try_insert(K::make(k), V::make(v), g) {
                Ok(x) => {
                    ensure!(x.read() == v, "try_insert of {v} yields {}", x.id());
                    did(k, Act::Set { new: v, prev: None })
                }
                Err(e) => {
                    ensure!(e.not_inserted.read() == v, "try_insert of {v} gives back {}", e.not_inserted.id());
                    did(k, Act::Get(Some(e.current.read())))
                }
            },
            Goi(k, v) => {
                let made = Cell::new(false);
                let r = m
                    .get_or_insert_with(
                        K::make(k),
                        || {
                            made.set(true);
                            V::make(v)
                        },
                        g,
                    )
                    .read();
                // Only sequential histories say more.
                if made.get() && r == v {
                    did(k, Act::Some)
                } else {
                    did(k, Act::Get(Some(r)))
                }
            }
            Rem(k) => match m.remove_entry(&K::make(k), g) {
                Some((x, v)) => {
                    ensure!(x.read() == k, "a removal of {k} yields the key {}", x.id());
                    did(k, Act::Del(v.read()))
                }
                None => did(k, Act::Get(None)),
            },
            RemIf(k, v) => match m.remove_if(&K::make(k), |x, y| x.read() == k && y.read() == v, g) {
                Ok(Some((_, x))) => {
                    ensure!(x.read() == v, "remove_if of {v} removes {}", x.id());
                    did(k, Act::Del(v))
                }
                Ok(None) => did(k, Act::Get(None)),
                Err((_, x)) => {
                    ensure!(x.read() != v, "remove_if of {v} does not remove it");
                    did(k, Act::Get(Some(x.read())))
                }
            },
            Upd(k) => {
                // Of the last call.
                let old = Cell::new(None);
                let r = m.update(
                    K::make(k),
                    |x| {
                        old.set(Some(x.read()));
                        V::make((x.read() + 1) % V::N)
                    },
                    g,
                );
                match r {
                    Some(x) => {
                        ensure!(old.get().is_some(), "update of {k} succeeds without calling the closure");
                        did(k, Act::Set { new: x.read(), prev: old.get() })
                    }
                    None => did(k, Act::Get(None)),
                }
            }
            Uoi(k, v) => {
                // The closures say what the last attempt was.
                let old = Cell::new(None);
                let new = Cell::new(0);
                let r = m
                    .update_or_insert_with(
                        K::make(k),
                        |x| {
                            old.set(Some(x.read()));
                            new.set((x.read() + 1) % V::N);
                            V::make(new.get())
                        },
                        || {
                            new.set(v);
                            V::make(v)
                        },
                        g,
                    )
                    .read();
                if old.get().is_some_and(|o| (o + 1) % V::N == r) {
                    did(k, Act::Set { new: r, prev: old.get() })
                } else {
                    did(k, Act::Set { new: r, prev: None })
                }
            }
            Cmp(k) => {
                let last = 1.min(V::N - 1);
                let called = Cell::new(false);
                let r = m.compute(
                    K::make(k),
                    |e| {
                        called.set(true);
                        match e {
                            None => Operation::Insert(V::make(0)),
                            Some((_, v)) if v.read() == last => Operation::Remove,
                            Some((_, v)) if v.read() > last => Operation::Abort(v.read()),
                            Some((_, v)) => Operation::Insert(V::make(v.read() + 1)),
                        }
                    },
                    g,
                );
                ensure!(called.get(), "compute of {k} does not call the closure");
                match r {
                    Compute::Inserted(_, v) => did(k, Act::Set { new: v.read(), prev: None }),
                    Compute::Updated { old, new } => did(k, Act::Set { new: new.1.read(), prev: Some(old.1.read()) }),
                    Compute::Removed(_, v) => did(k, Act::Del(v.read())),
                    Compute::Aborted(v) => did(k, Act::Get(Some(v))),
                }
            }
            Retain(k) => {
                let mut asked = 0;
                m.retain(
                    |x, v| {
                        asked += 1;
                        v.read();
                        x.read() != k
                    },
                    g,
                );
                Did {
                    act: None,
                    items: None,
                    asked: Some(asked),
                }
            }
            Clear => {
                m.clear(g);
                Did::default()
            }
            Reserve(n) => {
                m.reserve(n, g);
                Did::default()
            }
            Items => {
                let mut items = sys(|| Vec::with_capacity(32));
                for (k, v) in m.iter(g) {
                    let x = (k.read(), v.read());
                    sys(|| items.push(x));
                }
                Did {
                    act: None,
                    items: Some(items),
                    asked: None,
                }
            }
            Ext | Cloned => unreachable!(),
        }
    }
}

struct S<K>(HashSet<K, Spread>);
impl<K: Elt> Dict for S<K> {
    fn keys(&self) -> u64 {
        K::N
    }
    fn values(&self) -> u64 {
        1
    }
    fn len(&self) -> usize {
        ensure!(self.0.is_empty() == (self.0.len() == 0), "is_empty disagrees with len");
        self.0.len()
    }
    fn swap_clone(&mut self) {
        self.0 = self.0.clone();
    }
    fn extend(&mut self, kv: &[(u64, u64)]) {
        let mut i = 0;
        (&self.0).extend(std::iter::from_fn(|| {
            let r = kv.get(i).map(|x| K::make(x.0));
            i += 1;
            r
        }));
    }
    fn run(&self, op: Op) -> Did {
        let m = &self.0;
        let g = m.guard();
        let g = &g;
        match op {
            Get(k) => {
                let r = m.get(&K::make(k), g).map(|x| {
                    ensure!(x.read() == k, "a lookup of {k} yields {}", x.id());
                    0
                });
                did(k, Act::Get(r))
            }
            Has(k) => {
                if m.contains(&K::make(k), g) {
                    did(k, Act::Some)
                } else {
                    did(k, Act::Get(None))
                }
            }
            Ins(k, _) => {
                if m.insert(K::make(k), g) {
                    did(k, Act::Set { new: 0, prev: None })
                } else {
                    did(k, Act::Get(Some(0)))
                }
            }
            Rem(k) => {
                if m.remove(&K::make(k), g) {
                    did(k, Act::Del(0))
                } else {
                    did(k, Act::Get(None))
                }
            }
            Retain(k) => {
                let mut asked = 0;
                m.pin().retain(|x| {
                    asked += 1;
                    x.read() != k
                });
                Did {
                    act: None,
                    items: None,
                    asked: Some(asked),
                }
            }
            Clear => {
                m.clear(g);
                Did::default()
            }
            Reserve(n) => {
                m.reserve(n, g);
                Did::default()
            }
            Items => {
                let mut items = sys(|| Vec::with_capacity(32));
                for k in m.iter(g) {
                    let x = (k.read(), 0);
                    sys(|| items.push(x));
                }
                Did {
                    act: None,
                    items: Some(items),
                    asked: None,
                }
            }
            _ => unreachable!(),
        }
    }
}

fn map<K: Elt, V: Elt>(mode: Mode) -> Box<dyn Dict> {
    Box::new(M::<K, V>(
        HashMap::builder()
            .capacity(1)
            .hasher(Spread)
            .resize_mode(resize_mode(mode))
            .collector(seize::Collector::new())
            .build(),
    ))
}
fn set<K: Elt>(mode: Mode) -> Box<dyn Dict> {
    Box::new(S::<K>(
        HashSet::builder()
            .capacity(1)
            .hasher(Spread)
            .resize_mode(resize_mode(mode))
            .collector(seize::Collector::new())
            .build(),
    ))
}

#[derive(Clone, Copy)]
pub struct Ty {
    pub name: &'static str,
    make: fn(Mode) -> Box<dyn Dict>,
    keys: u64,
    values: u64,
    set: bool,
}
const fn m<K: Elt, V: Elt>(name: &'static str) -> Ty {
    Ty {
        name,
        make: map::<K, V>,
        keys: K::N,
        values: V::N,
        set: false,
    }
}
const fn s<K: Elt>(name: &'static str) -> Ty {
    Ty {
        name,
        make: set::<K>,
        keys: K::N,
        values: 1,
        set: true,
    }
}

/// The first ones are those whose schedules are explored in the quick tier.
pub const TYPES: [Ty; 30] = [
    m::<(), ()>("map of () to ()"),
    m::<Zd, Zd>("map of sizeless to sizeless, with destructors"),
    m::<u8, u8>("map of u8 to u8"),
    m::<bool, String>("map of bool to String"),
    m::<Box<u8>, Option<Box<u16>>>("map of Box<u8> to Option<Box<u16>>"),
    m::<Al, u8>("map of align(256) to u8"),
    s::<()>("set of ()"),
    s::<u8>("set of u8"),
    // From here on in the thorough tier only.
    m::<(), u32>("map of () to u32"),
    m::<u16, ()>("map of u16 to ()"),
    m::<u8, Zd>("map of u8 to sizeless, with destructor"),
    m::<Zd, u64>("map of sizeless, with destructor, to u64"),
    m::<bool, bool>("map of bool to bool"),
    m::<u16, u8>("map of u16 to u8"),
    m::<[u8; 3], [u8; 5]>("map of [u8; 3] to [u8; 5]"),
    m::<u32, u16>("map of u32 to u16"),
    m::<u128, u8>("map of u128 to u8"),
    m::<u8, u128>("map of u8 to u128"),
    m::<u8, Al>("map of u8 to align(256)"),
    m::<[u8; 5000], [u8; 5000]>("map of [u8; 5000] to [u8; 5000]"),
    m::<String, String>("map of String to String"),
    m::<NonZeroU8, u64>("map of NonZeroU8 to u64"),
    m::<&'static str, Arc<(u8, Zd)>>("map of &str to Arc"),
    s::<Zd>("set of sizeless, with destructor"),
    s::<bool>("set of bool"),
    s::<u16>("set of u16"),
    s::<[u8; 3]>("set of [u8; 3]"),
    s::<Al>("set of align(256)"),
    s::<String>("set of String"),
    s::<Option<Box<u16>>>("set of Option<Box<u16>>"),
];
pub const CORE: usize = 8;

fn fits(t: &Ty, op: Op) -> bool {
    let (k, v, map) = match op {
        Get(k) | Has(k) | Rem(k) | Retain(k) => (k, 0, false),
        Ins(k, v) => (k, v, false),
        Try(k, v) | Goi(k, v) | RemIf(k, v) | Uoi(k, v) => (k, v, true),
        Upd(k) | Cmp(k) => (k, 0, true),
        Clear | Reserve(_) | Ext | Cloned | Items => (0, 0, false),
    };
    k < t.keys && v < t.values && !(map && t.set)
}

// ------------------------------------------------------------------------ sequential

type Model = BTreeMap<u64, u64>;

fn full_check(d: &dyn Dict, want: &Model) {
    for k in 0..d.keys().min(10) {
        let r = d.run(Get(k)).act.unwrap().1;
        ensure!(
            r == Act::Get(want.get(&k).copied()),
            "a lookup of {k} {}, the model has {}",
            lin::show_act(r),
            lin::show(want.get(&k).copied())
        );
    }
    let n = d.len();
    ensure!(n == want.len(), "len is {n}, the model has {} keys", want.len());
    let items = d.run(Items).items.unwrap();
    let _s = rt::Sys::on();
    let mut items = items;
    items.sort();
    let w: Vec<(u64, u64)> = want.iter().map(|(k, v)| (*k, *v)).collect();
    ensure!(items == w, "iteration yields {items:?}, the model has {w:?}");
}

fn step(d: &mut Box<dyn Dict>, set: bool, want: &mut Model, op: Op) {
    let n = d.values();
    match op {
        Cloned => d.swap_clone(),
        Ext => {
            let kv: [(u64, u64); 2] = [(d.keys() - 1, 0), (0, n - 1)];
            d.extend(&kv);
            sys(|| kv.iter().for_each(|x| drop(want.insert(x.0, x.1))));
        }
        _ => {
            let r = d.run(op);
            // What the model says of it.
            let (exp, new) = match op {
                Get(k) => (Some((k, Act::Get(want.get(&k).copied()))), None),
                Has(k) => (
                    Some((k, if want.contains_key(&k) { Act::Some } else { Act::Get(None) })),
                    None,
                ),
                Ins(k, v) => {
                    let prev = want.get(&k).copied();
                    let a = if set && prev.is_some() { Act::Get(prev) } else { Act::Set { new: v, prev } };
                    (Some((k, a)), Some((k, Some(v))))
                }
                Try(k, v) => match want.get(&k) {
                    Some(x) => (Some((k, Act::Get(Some(*x)))), None),
                    None => (Some((k, Act::Set { new: v, prev: None })), Some((k, Some(v)))),
                },
                Goi(k, v) => match want.get(&k) {
                    Some(x) => (Some((k, Act::Get(Some(*x)))), None),
                    None => (Some((k, Act::Some)), Some((k, Some(v)))),
                },
                Rem(k) => match want.get(&k) {
                    Some(x) => (Some((k, Act::Del(*x))), Some((k, None))),
                    None => (Some((k, Act::Get(None))), None),
                },
                RemIf(k, v) => match want.get(&k) {
                    Some(x) if *x == v => (Some((k, Act::Del(v))), Some((k, None))),
                    x => (Some((k, Act::Get(x.copied()))), None),
                },
                Upd(k) => match want.get(&k) {
                    Some(x) => (
                        Some((k, Act::Set { new: (x + 1) % n, prev: Some(*x) })),
                        Some((k, Some((x + 1) % n))),
                    ),
                    None => (Some((k, Act::Get(None))), None),
                },
                Uoi(k, v) => {
                    let prev = want.get(&k).copied();
                    let new = prev.map_or(v, |x| (x + 1) % n);
                    (Some((k, Act::Set { new, prev })), Some((k, Some(new))))
                }
                Cmp(k) => {
                    let last = 1.min(n - 1);
                    match want.get(&k).copied() {
                        None => (Some((k, Act::Set { new: 0, prev: None })), Some((k, Some(0)))),
                        Some(x) if x == last => (Some((k, Act::Del(x))), Some((k, None))),
                        Some(x) if x > last => (Some((k, Act::Get(Some(x)))), None),
                        Some(x) => (
                            Some((k, Act::Set { new: x + 1, prev: Some(x) })),
                            Some((k, Some(x + 1))),
                        ),
                    }
                }
                Retain(k) => (None, Some((k, None))),
                Clear => {
                    sys(|| want.clear());
                    (None, None)
                }
                _ => (None, None),
            };
            ensure!(
                r.asked.is_none_or(|a| a == want.len()),
                "{op:?} asks about {:?} of {} entries",
                r.asked,
                want.len()
            );
            ensure!(r.act == exp, "{op:?} gives {:?}, the model says {exp:?}", r.act);
            if let Some((k, v)) = new {
                sys(|| match v {
                    Some(v) => drop(want.insert(k, v)),
                    None => drop(want.remove(&k)),
                });
            }
            sys(|| drop(r));
        }
    }
}

fn at_end(base: (usize, usize, usize)) {
    let (blocks, bytes, tables, ..) = rt::mem();
    ensure!(
        (blocks, bytes, tables) == base,
        "dropping the map leaves {} allocations ({} bytes) and {} tables",
        blocks - base.0,
        bytes - base.1,
        tables - base.2
    );
    ensure!(live_zd() == 0, "{} values without size were not dropped", live_zd());
}

fn base() -> (usize, usize, usize) {
    let m = rt::mem();
    (m.0, m.1, m.2)
}

const ALPHABET: [Op; 22] = [
    Get(1),
    Has(0),
    Ins(0, 0),
    Ins(0, 1),
    Ins(1, 0),
    Try(0, 0),
    Try(1, 1),
    Goi(0, 1),
    Rem(0),
    Rem(1),
    RemIf(0, 0),
    RemIf(0, 1),
    Upd(0),
    Uoi(0, 1),
    Cmp(0),
    Cmp(1),
    Retain(0),
    Clear,
    Reserve(16),
    Reserve(60),
    Ext,
    Cloned,
];

/// All sequences of three (four) operations from an empty map, from a full table and amid a resize.
pub fn sequences(thorough: bool) -> Fam {
    let mut v: Vec<Case> = vec![];
    for t in TYPES {
        for mode in [B, I(1), I(64)] {
            let alphabet: Vec<Op> = ALPHABET.iter().copied().filter(|o| fits(&t, *o)).collect();
            for start in 0..3 {
                if start > 0 && mode == I(64) {
                    continue;
                }
                for a in alphabet.clone() {
                    // In the thorough tier one more operation, chosen here.
                    // (The arena is too small for that many entries of more than a page.)
                    let second: Vec<Option<Op>> = if thorough && !t.name.contains("5000") {
                        alphabet.iter().map(|o| Some(*o)).collect()
                    } else {
                        vec![None]
                    };
                    for b in second {
                        let alphabet = alphabet.clone();
                        let pre = ["", ", from a full table", ", from amid a resize"][start];
                        let text = format!("{}, mode {}{pre}: {a:?} {b:?} then every two operations", t.name, mode_name(mode));
                        case(&mut v, text, move || {
                            LIVE.with(|l| l.set(0));
                            let base = base();
                            for x in alphabet.iter() {
                                for y in alphabet.iter() {
                                    let mut d = (t.make)(mode);
                                    let mut want = Model::new();
                                    if start > 0 {
                                        for k in 0..t.keys.min(8) {
                                            step(&mut d, t.set, &mut want, Ins(k, k % t.values));
                                        }
                                    }
                                    if start > 1 {
                                        step(&mut d, t.set, &mut want, Reserve(30));
                                        full_check(&*d, &want);
                                    }
                                    for op in [Some(a), b, Some(*x), Some(*y)].into_iter().flatten() {
                                        step(&mut d, t.set, &mut want, op);
                                    }
                                    full_check(&*d, &want);
                                    sys(|| drop(want));
                                    drop(d);
                                    at_end(base);
                                }
                            }
                        });
                    }
                }
            }
        }
    }
    Fam::cases("every operation sequence on maps and sets of every kind of type", v, u32::MAX)
}

// ------------------------------------------------------------------------ concurrent

#[derive(Clone)]
pub struct Prog {
    ty: usize,
    mode: Mode,
    setup: Vec<Op>,
    threads: Vec<Vec<Op>>,
}

impl Prog {
    pub fn text(&self) -> String {
        let mut s = format!("{}, mode {}, {:?}", TYPES[self.ty].name, mode_name(self.mode), self.setup);
        for t in &self.threads {
            s += &format!(" | {t:?}");
        }
        s
    }
    pub fn threads(&self) -> usize {
        self.threads.len()
    }
}

pub struct AnyBody {
    prog: Prog,
    dict: *mut Box<dyn Dict>,
    base: (usize, usize, usize),
    hist: Hist,
    init: Vec<(u16, Option<u64>)>,
    pub lin: Lin,
}

impl AnyBody {
    pub fn new(p: &Prog) -> AnyBody {
        AnyBody {
            prog: p.clone(),
            dict: std::ptr::null_mut(),
            base: (0, 0, 0),
            hist: Hist::default(),
            init: vec![],
            lin: Lin::new(),
        }
    }
    pub fn check(&mut self) -> Option<Violation> {
        match self.lin.check(&self.hist, &self.init, false) {
            Ok(()) => None,
            Err(msg) => Some(Violation { class: "lin", msg }),
        }
    }
    fn record(&mut self, tid: usize, op: Op) {
        let c: Call = lin::begin(tid);
        let r = unsafe { (*self.dict).run(op) };
        let e = lin::end();
        if let Some((k, a)) = r.act {
            self.hist.push(k as u16, a, &c, e, -1);
        }
        if let Some(i) = &r.items {
            for (n, x) in i.iter().enumerate() {
                ensure!(i[..n].iter().all(|y| y.0 != x.0), "iteration yields the key {} twice", x.0);
            }
        }
        sys(|| drop(r));
    }
}

impl Body for AnyBody {
    fn threads(&self) -> usize {
        self.prog.threads.len()
    }
    fn setup(&mut self) {
        LIVE.with(|l| l.set(0));
        self.base = base();
        let t = TYPES[self.prog.ty];
        let mut d = (t.make)(self.prog.mode);
        let mut want = Model::new();
        for i in 0..self.prog.setup.len() {
            step(&mut d, t.set, &mut want, self.prog.setup[i]);
        }
        {
            let _s = rt::Sys::on();
            self.hist.clear();
            self.init.clear();
            self.init.extend(want.iter().map(|(k, v)| (*k as u16, Some(*v))));
            drop(want);
        }
        self.dict = Box::into_raw(Box::new(d));
    }
    fn thread(&mut self, tid: usize) {
        // Coroutines of one execution take turns on one OS thread.
        let me: *mut AnyBody = self;
        unsafe {
            for i in 0..(&(*me).prog.threads)[tid - 1].len() {
                let op = (&(*me).prog.threads)[tid - 1][i];
                (*me).record(tid, op);
            }
        }
    }
    fn finish(&mut self) {
        let d = unsafe { Box::from_raw(self.dict) };
        let mut present = Model::new();
        for k in 0..d.keys().min(10) {
            let c: Call = lin::begin(0);
            let r = d.run(Get(k)).act.unwrap().1;
            let e = lin::end();
            self.hist.push(k as u16, r, &c, e, -1);
            if let Act::Get(Some(v)) = r {
                sys(|| present.insert(k, v));
            }
        }
        full_check(&**d, &present);
        sys(|| drop(present));
        drop(d);
        at_end(self.base);
    }
}

/// Every pair of operations on two threads.
pub fn schedules(thorough: bool, p: u32) -> Fam {
    let ops = [
        Get(0),
        Ins(0, 0),
        Ins(0, 1),
        Ins(1, 0),
        Try(0, 1),
        Rem(0),
        Upd(0),
        Cmp(0),
        Items,
        Reserve(16),
    ];
    let mut progs = vec![];
    for (ty, t) in TYPES.iter().enumerate().take(if thorough { TYPES.len() } else { CORE }) {
        let ops: Vec<Op> = ops.iter().copied().filter(|o| fits(t, *o)).collect();
        for mode in [B, I(1)] {
            let full: Vec<Op> = (0..t.keys.min(8)).map(|k| Ins(k, 0)).collect();
            let mut amid = vec![Ins(0, 0)];
            amid.extend((1..t.keys.min(3)).map(|k| Ins(k, 0)));
            amid.push(Reserve(16));
            let mut starts = vec![vec![], amid];
            if full.len() == 8 {
                starts.push(full);
            } else {
                starts.push(vec![Ins(0, 0)]);
            }
            for setup in starts {
                for (i, a) in ops.iter().enumerate() {
                    for b in &ops[i..] {
                        if matches!((a, b), (Get(_) | Items, Get(_) | Items)) {
                            continue;
                        }
                        progs.push(Prog {
                            ty,
                            mode,
                            setup: setup.clone(),
                            threads: vec![vec![*a], vec![*b, Get(0)]],
                        });
                    }
                }
            }
        }
    }
    Fam {
        name: "every pair of operations on maps and sets of every kind of type",
        kind: Kind::Typed {
            progs,
            cfg: Config {
                p,
                level: 1,
                ..Config::default()
            },
        },
    }
}

// ----------------------------------------------------------------------- destructors

/// What the destructor of a value does with the map that the value was in.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Inner {
    Lookup,
    Iterate,
    Insert(u64),
    Remove(u64),
    Update(u64),
    Compute(u64),
    Clear,
    Retain,
    Reserve,
    /// Enough insertions for a resize.
    Fill,
}

thread_local! {
    static ARMED: Cell<Option<(*const HashMap<u64, Val, Spread>, Inner)>> = const { Cell::new(None) };
    static RUNS: Cell<u32> = const { Cell::new(0) };
}

struct Val {
    n: u64,
    armed: bool,
    _live: Zd,
}
fn val(n: u64, armed: bool) -> Val {
    Val {
        n,
        armed,
        _live: Zd::make(0),
    }
}

impl Drop for Val {
    fn drop(&mut self) {
        if !self.armed {
            return;
        }
        RUNS.with(|r| r.set(r.get() + 1));
        let Some((m, inner)) = ARMED.with(|a| a.get()) else { return };
        let m = unsafe { &*m }.pin();
        match inner {
            Inner::Lookup => {
                m.get(&1).map(|v| v.n);
                m.len();
            }
            Inner::Iterate => m.iter().for_each(|(k, v)| ensure!(v.n / 100 == *k, "iteration yields a bad value")),
            Inner::Insert(k) => drop(m.insert(k, val(k * 100 + 50, false)).map(|v| v.n)),
            Inner::Remove(k) => drop(m.remove(&k).map(|v| v.n)),
            Inner::Update(k) => drop(m.update(k, |v| val(v.n + 1, false)).map(|v| v.n)),
            Inner::Compute(k) => drop(m.compute(k, |e| match e {
                Some(_) => Operation::<Val, ()>::Remove,
                None => Operation::Insert(val(k * 100 + 60, false)),
            })),
            Inner::Clear => m.clear(),
            Inner::Retain => {
                let mut m = m;
                m.retain(|k, _| *k % 2 == 0)
            }
            Inner::Reserve => m.reserve(60),
            Inner::Fill => (200..230).for_each(|k| drop(m.insert(k, val(k * 100, false)).is_none())),
        }
    }
}

/// A destructor that uses the map it runs in, wherever a map drops a value.
pub fn destructors() -> Fam {
    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Outer {
        Insert,
        Remove,
        Update,
        ComputeRemove,
        ComputeInsert,
        RemoveIf,
        Clear,
        Retain,
        /// These drop a value that they do not insert.
        GetOrInsert,
        TryInsert,
        UpdateOrInsert,
        Extend,
    }
    use Outer as O;
    let outers = [
        O::Insert,
        O::Remove,
        O::Update,
        O::ComputeRemove,
        O::ComputeInsert,
        O::RemoveIf,
        O::Clear,
        O::Retain,
        O::GetOrInsert,
        O::TryInsert,
        O::UpdateOrInsert,
        O::Extend,
    ];
    let mut inners = vec![Inner::Lookup, Inner::Iterate, Inner::Clear, Inner::Retain, Inner::Reserve, Inner::Fill];
    for k in [0, 1, 9] {
        inners.extend([Inner::Insert(k), Inner::Remove(k), Inner::Update(k), Inner::Compute(k)]);
    }
    let mut v: Vec<Case> = vec![];
    for mode in [B, I(1), I(64)] {
        for start in 0..3 {
            for owned in [false, true] {
                for outer in outers {
                    for inner in inners.clone() {
                        let text = format!(
                            "mode {}, {}, {} guard: {outer:?} drops a value whose destructor does {inner:?}",
                            mode_name(mode),
                            ["two keys", "a full table", "amid a resize"][start],
                            ["local", "owned"][owned as usize]
                        );
                        case(&mut v, text, move || {
                            LIVE.with(|l| l.set(0));
                            RUNS.with(|r| r.set(0));
                            ARMED.with(|a| a.set(None));
                            let base = base();
                            let m: Box<HashMap<u64, Val, Spread>> = Box::new(
                                HashMap::builder()
                                    .capacity(1)
                                    .hasher(Spread)
                                    .resize_mode(resize_mode(mode))
                                    .collector(seize::Collector::new())
                                    .build(),
                            );
                            let mut want = Model::new();
                            let inside = matches!(outer, O::GetOrInsert | O::TryInsert | O::UpdateOrInsert);
                            let n = [2, 8, 8][start];
                            for k in 0..n {
                                m.pin().insert(k, val(k * 100, k == 0 && !inside));
                                sys(|| want.insert(k, k * 100));
                            }
                            if start == 2 {
                                m.pin().reserve(30);
                            }
                            ARMED.with(|a| a.set(Some((&*m, inner))));
                            // The destructor runs within the operation or when its guard is released.
                            macro_rules! go {
                                ($r:expr) => {{
                                    let mut r = $r;
                                    match outer {
                                        O::Insert => drop(r.insert(0, val(70, false)).map(|v| v.n)),
                                        O::Remove => drop(r.remove(&0).map(|v| v.n)),
                                        O::Update => drop(r.update(0, |v| val(v.n + 7, false)).map(|v| v.n)),
                                        O::ComputeRemove => drop(r.compute(0, |_| Operation::<Val, ()>::Remove)),
                                        O::ComputeInsert => drop(r.compute(0, |_| Operation::<Val, ()>::Insert(val(80, false)))),
                                        O::RemoveIf => drop(r.remove_if(&0, |_, v| v.n == 0).is_ok()),
                                        O::Clear => r.clear(),
                                        O::Retain => r.retain(|k, _| *k % 3 == 1),
                                        O::GetOrInsert => drop(r.get_or_insert(0, val(90, true)).n),
                                        O::TryInsert => drop(r.try_insert(0, val(90, true)).is_ok()),
                                        O::UpdateOrInsert => drop(r.update_or_insert(0, |v| val(v.n + 9, false), val(90, true)).n),
                                        O::Extend => (&*m).extend([(0u64, val(70, false)), (5, val(570, false))]),
                                    }
                                }};
                            }
                            if owned {
                                go!(m.pin_owned())
                            } else {
                                go!(m.pin())
                            }
                            ARMED.with(|a| a.set(None));
                            let runs = RUNS.with(|r| r.get());
                            ensure!(runs == 1, "the destructor of the value ran {runs} times");
                            let _s = rt::Sys::on();
                            let apply_inner = |want: &mut Model| match inner {
                                Inner::Insert(k) => drop(want.insert(k, k * 100 + 50)),
                                Inner::Remove(k) => drop(want.remove(&k)),
                                Inner::Update(k) => drop(want.get_mut(&k).map(|v| *v += 1)),
                                Inner::Compute(k) => {
                                    if want.remove(&k).is_none() {
                                        want.insert(k, k * 100 + 60);
                                    }
                                }
                                Inner::Clear => want.clear(),
                                Inner::Retain => want.retain(|k, _| *k % 2 == 0),
                                Inner::Fill => (200..230).for_each(|k| drop(want.insert(k, k * 100))),
                                _ => {}
                            };
                            let apply_outer = |want: &mut Model| match outer {
                                O::Insert => drop(want.insert(0, 70)),
                                O::Remove | O::ComputeRemove | O::RemoveIf => drop(want.remove(&0)),
                                O::Update => drop(want.get_mut(&0).map(|v| *v += 7)),
                                O::ComputeInsert => drop(want.insert(0, 80)),
                                O::Clear => want.clear(),
                                O::Retain => want.retain(|k, _| *k % 3 == 1),
                                O::UpdateOrInsert => drop(want.insert(0, want.get(&0).map_or(90, |v| v + 9))),
                                O::Extend => {
                                    want.insert(0, 70);
                                    want.insert(5, 570);
                                }
                                _ => {}
                            };
                            // The value an operation does not need may be dropped before it takes effect or after,
                            // and the first item of an extend before the second one is inserted.
                            let mut allowed = vec![];
                            let mut a = want.clone();
                            apply_outer(&mut a);
                            apply_inner(&mut a);
                            allowed.push(a);
                            if inside {
                                let mut a = want.clone();
                                apply_inner(&mut a);
                                apply_outer(&mut a);
                                allowed.push(a);
                            }
                            if outer == O::Extend {
                                let mut a = want.clone();
                                a.insert(0, 70);
                                apply_inner(&mut a);
                                a.insert(5, 570);
                                allowed.push(a);
                            }
                            drop(want);
                            drop(_s);
                            let mut got = Model::new();
                            {
                                let r = m.pin();
                                let mut items = 0;
                                for (k, v) in r.iter() {
                                    items += 1;
                                    let x = (*k, v.n);
                                    sys(|| got.insert(x.0, x.1));
                                }
                                ensure!(items == got.len() && r.len() == items, "{items} items, {} keys, len {}", got.len(), r.len());
                                for (k, n) in &got {
                                    ensure!(r.get(k).is_some_and(|v| v.n == *n), "a lookup of {k} disagrees with iteration");
                                }
                            }
                            ensure!(allowed.contains(&got), "the map has {got:?}, one of {allowed:?} is right");
                            let live = live_zd();
                            ensure!(live == got.len() as i64, "{live} values are alive, {} are in the map", got.len());
                            sys(|| drop((got, allowed)));
                            drop(m);
                            at_end(base);
                        });
                    }
                }
            }
        }
    }
    Fam::cases("destructors that use the map", v, u32::MAX)
}
