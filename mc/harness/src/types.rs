//! Instrumented keys, values, lookups and hashers.
use seize::rt::{self, Obj};
use std::cell::Cell;
use std::hash::{BuildHasher, Hash, Hasher};

thread_local! {
    static OWN_TAGS: [Cell<u32>; rt::MAXT] = const { [const { Cell::new(0) }; rt::MAXT] };
    static FOREIGN: [Cell<u32>; rt::MAXT] = const { [const { Cell::new(0) }; rt::MAXT] };
}

thread_local! {
    /// What thread 2 of the program did to objects other threads made (see `caps::bits`).
    static FACTS: Cell<u8> = const { Cell::new(0) };
}
pub fn facts() -> u8 {
    FACTS.with(|f| f.get())
}
pub fn reset_facts() {
    FACTS.with(|f| f.set(0));
}
#[inline]
fn fact(by: u8, bit: u8) {
    if by != 2 && rt::current_tid() == 2 {
        FACTS.with(|f| f.set(f.get() | bit));
    }
}

/// Tag of the key owned by the running operation of this (model) thread.
pub struct Own;
pub const OWN_TAG: Own = Own;
impl Own {
    pub fn set(&self, tag: u32) {
        OWN_TAGS.with(|t| t[rt::current_tid()].set(tag));
    }
}
/// How often other keys were hashed by the running operation of this (model) thread.
pub fn foreign_hashes() -> u32 {
    FOREIGN.with(|t| t[rt::current_tid()].get())
}
pub fn reset_foreign_hashes() {
    FOREIGN.with(|t| t[rt::current_tid()].set(0));
}

thread_local! {
    /// How the keys misbehave: at which evaluation of `Hash` or `Eq` by this (model) thread, and how.
    static ODD: [Cell<(u32, u8)>; rt::MAXT] = const { [const { Cell::new((0, 0)) }; rt::MAXT] };
    static LIES: Cell<u64> = const { Cell::new(0) };
}
pub fn set_odd(n: u32, how: u8) {
    ODD.with(|o| o[rt::current_tid()].set((n, how)));
}
pub fn reset_odd() {
    ODD.with(|o| o.iter().for_each(|x| x.set((0, 0))));
    LIES.with(|l| l.set(0));
}
/// An evaluation: `p` panics, `l` and `m` answer wrongly, capitals do from then on.
#[inline]
fn odd() -> u8 {
    let t = rt::current_tid();
    let (n, how) = ODD.with(|o| o[t].get());
    if how == 0 {
        return 0;
    }
    if n > 1 {
        ODD.with(|o| o[t].set((n - 1, how)));
        return 0;
    }
    if how.is_ascii_lowercase() {
        ODD.with(|o| o[t].set((0, 0)));
    }
    if how == b'p' {
        std::panic::resume_unwind(Box::new(crate::exec::Inject));
    }
    how
}
#[inline]
fn odd_hash(h: u64) -> u64 {
    match odd() {
        0 => h,
        // Another fragment and slot, another slot.
        b'l' => h ^ (1 << 57) ^ 3,
        b'm' => h ^ 3,
        // Another one every time.
        b'L' => LIES.with(|l| {
            l.set(l.get() + 1);
            h.wrapping_add(l.get()) ^ (l.get() << 57)
        }),
        // No entry is found again.
        _ => h,
    }
}
#[inline]
fn odd_eq(eq: bool) -> bool {
    match odd() {
        0 => eq,
        // Unequal to everything.
        b'N' => false,
        // Equal to everything.
        b'Y' => true,
        _ => !eq,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Scheme {
    /// Every key hashes to 0.
    Same,
    /// Same home slot, different hash fragment.
    Slot,
    /// Home slot = id, same hash fragment.
    Lin,
    /// Well distributed, distinct fragments.
    Ideal,
    /// All home slots equal to the last slot (probing wraps), fragment = id & 1.
    Wrap,
    /// Pairs of keys share a hash; ids below 100 and fillers from 100 on have different slots.
    Pair,
    /// Keys below 100 hash to 0, the others (fillers) spread.
    Low,
    /// Keys below 100 hash to 0, the others to slot 32: disjoint probe sequences in 64 slots,
    /// the same one in 32.
    Half,
    /// Keys below 100 hash to 0, those below 200 to slot 4096: disjoint probe sequences in 8192
    /// slots, the same one in 4096. The others spread.
    Far,
}

impl Scheme {
    pub const ALL: [Scheme; 9] = [
        Scheme::Same,
        Scheme::Slot,
        Scheme::Lin,
        Scheme::Ideal,
        Scheme::Wrap,
        Scheme::Pair,
        Scheme::Low,
        Scheme::Half,
        Scheme::Far,
    ];
    pub fn name(self) -> &'static str {
        match self {
            Scheme::Same => "same",
            Scheme::Slot => "slot",
            Scheme::Lin => "lin",
            Scheme::Ideal => "ideal",
            Scheme::Wrap => "wrap",
            Scheme::Pair => "pair",
            Scheme::Low => "low",
            Scheme::Half => "half",
            Scheme::Far => "far",
        }
    }
    pub fn parse(s: &str) -> Scheme {
        *Scheme::ALL.iter().find(|x| x.name() == s).expect("hash scheme")
    }
    #[inline]
    pub fn hash(self, id: u16) -> u64 {
        let i = id as u64;
        match self {
            Scheme::Same => 0,
            Scheme::Slot => i << 57,
            Scheme::Lin => i,
            Scheme::Ideal => i.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(17) ^ (i << 57),
            Scheme::Wrap => 0xFFFF | ((i & 1) << 57),
            Scheme::Pair => (i >> 1).wrapping_mul(3) | ((i & 2) << 56),
            Scheme::Low => {
                if id < 100 {
                    0
                } else {
                    i | (1 << 57)
                }
            }
            Scheme::Half => {
                if id < 100 {
                    0
                } else {
                    32 | (1 << 57)
                }
            }
            Scheme::Far => {
                if id < 100 {
                    0
                } else if id < 200 {
                    4096 | (1 << 57)
                } else {
                    let j = i - 200;
                    let slot = if j < 1800 {
                        2200 + j
                    } else {
                        // Between the triangular numbers.
                        (32..90).fold(j - 1800 + 500, |s, k| s + (k * (k + 1) / 2 <= s) as u64)
                    };
                    slot | (2 << 57)
                }
            }
        }
    }
}

pub struct K {
    pub id: u16,
    pub tag: u32,
    pub hash: u64,
    by: u8,
    o: Obj,
}

impl K {
    pub fn new(id: u16, tag: u32, s: Scheme) -> K {
        K {
            id,
            tag,
            hash: s.hash(id),
            by: rt::current_tid() as u8,
            o: Obj::new(),
        }
    }
    #[inline]
    pub fn read(&self) -> u16 {
        self.o.read("key");
        fact(self.by, 1);
        self.id
    }
}

impl Drop for K {
    fn drop(&mut self) {
        fact(self.by, 2);
        self.o.dropped("key");
    }
}

impl Clone for K {
    fn clone(&self) -> K {
        self.o.read("key");
        fact(self.by, 1);
        K {
            id: self.id,
            tag: self.tag,
            hash: self.hash,
            by: rt::current_tid() as u8,
            o: Obj::new(),
        }
    }
}

impl Hash for K {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.o.read("key");
        fact(self.by, 1);
        let t = rt::current_tid();
        if OWN_TAGS.with(|o| o[t].get()) != self.tag {
            FOREIGN.with(|f| f[t].set(f[t].get() + 1));
        }
        state.write_u64(odd_hash(self.hash));
    }
}

impl PartialEq for K {
    fn eq(&self, other: &K) -> bool {
        self.o.read("key");
        other.o.read("key");
        fact(self.by, 1);
        fact(other.by, 1);
        odd_eq(self.id == other.id)
    }
}
impl Eq for K {}

impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.read())
    }
}

/// A borrowed form of a key.
pub struct Q {
    pub id: u16,
    pub hash: u64,
}
impl Q {
    pub fn new(id: u16, s: Scheme) -> Q {
        Q {
            id,
            hash: s.hash(id),
        }
    }
}
impl Hash for Q {
    fn hash<H: Hasher>(&self, state: &mut H) {
        state.write_u64(odd_hash(self.hash));
    }
}
impl equivalent::Equivalent<K> for Q {
    fn equivalent(&self, key: &K) -> bool {
        odd_eq(key.read() == self.id)
    }
}

pub struct V {
    pub val: u64,
    by: u8,
    o: Obj,
}
impl V {
    pub fn new(val: u64) -> V {
        V {
            val,
            by: rt::current_tid() as u8,
            o: Obj::new(),
        }
    }
    #[inline]
    pub fn read(&self) -> u64 {
        self.o.read("value");
        fact(self.by, 4);
        self.val
    }
}
impl Drop for V {
    fn drop(&mut self) {
        fact(self.by, 8);
        self.o.dropped("value");
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        V::new(self.read())
    }
}
impl PartialEq for V {
    fn eq(&self, other: &V) -> bool {
        self.read() == other.read()
    }
}
impl Eq for V {}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.read())
    }
}

#[derive(Clone, Copy, Default, Debug)]
pub struct Pass;
#[derive(Default)]
pub struct PassHasher(u64);
impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        fact(0, 16);
        PassHasher(0)
    }
}
impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0.wrapping_mul(257).wrapping_add(*b as u64 + 1);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}

pub type Map = papaya::HashMap<K, V, Pass>;
pub type Set = papaya::HashSet<K, Pass>;
