//! C21: the settings a map is built with. The builder is a small state machine: its state is the last
//! hasher, capacity, mode and collector given. Every sequence of builder calls up to a length is run, and
//! the map it makes must behave exactly as the model's state says.
use crate::cases::{case, fail, mode_name, table_allocs, tables};
use crate::conc::resize_mode;
use crate::driver::{Case, Fam};
use crate::prog::Mode;
use papaya::{HashMap, HashMapBuilder, HashSet, HashSetBuilder};
use seize::rt::{self, sys};
use seize::{Collector, Guard};
use std::cell::Cell;
use std::collections::hash_map::RandomState;
use std::hash::{BuildHasher, Hasher};
use Mode::{B, I};

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            fail(sys(|| format!($($a)*)));
        }
    };
}

const NAMES: usize = 4;
thread_local! {
    static CALLS: [Cell<u32>; NAMES] = const { [const { Cell::new(0) }; NAMES] };
}
fn calls(n: u8) -> u32 {
    CALLS.with(|c| c[n as usize].get())
}

/// A hasher with a name; the default one has name 3.
#[derive(Clone)]
pub struct Named(u8);
pub struct NamedHasher(u64);
impl Default for Named {
    fn default() -> Self {
        Named(3)
    }
}
impl BuildHasher for Named {
    type Hasher = NamedHasher;
    fn build_hasher(&self) -> NamedHasher {
        CALLS.with(|c| c[self.0 as usize].set(c[self.0 as usize].get() + 1));
        NamedHasher(0)
    }
}
impl Hasher for NamedHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = self.0 << 8 | *b as u64;
        }
    }
    fn write_u64(&mut self, i: u64) {
        // Spread over the table, with different metadata.
        self.0 = i.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(20);
    }
}

/// What a map or set of this kind can be asked.
trait Built {
    fn put(&self, k: u64);
    fn del(&self, k: u64);
    fn has(&self, k: u64) -> bool;
    fn count(&self) -> usize;
    fn coll(&self) -> usize;
}
impl<S: BuildHasher> Built for HashMap<u64, u64, S> {
    fn put(&self, k: u64) {
        self.insert(k, k, &self.guard());
    }
    fn del(&self, k: u64) {
        self.pin().remove(&k);
    }
    fn has(&self, k: u64) -> bool {
        self.get(&k, &self.guard()) == Some(&k)
    }
    fn count(&self) -> usize {
        self.len()
    }
    fn coll(&self) -> usize {
        let a = self.guard().collector().mc_id();
        let b = self.owned_guard().collector().mc_id();
        ensure!(a == b, "the guards of one map belong to two collectors");
        a
    }
}
impl<S: BuildHasher> Built for HashSet<u64, S> {
    fn put(&self, k: u64) {
        self.insert(k, &self.guard());
    }
    fn del(&self, k: u64) {
        self.pin().remove(&k);
    }
    fn has(&self, k: u64) -> bool {
        self.get(&k, &self.guard()) == Some(&k)
    }
    fn count(&self) -> usize {
        self.len()
    }
    fn coll(&self) -> usize {
        let a = self.guard().collector().mc_id();
        let b = self.owned_guard().collector().mc_id();
        ensure!(a == b, "the guards of one set belong to two collectors");
        a
    }
}

/// The state of the model: `None` stands for what is documented when nothing is given.
#[derive(Clone, Copy, PartialEq, Debug, Default)]
struct Settings {
    hasher: Option<u8>,
    cap: usize,
    mode: Option<Mode>,
    /// How many collectors were given.
    colls: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum Step {
    Cap(usize),
    Mode(Mode),
    Coll,
    Hasher(u8),
}
impl Step {
    fn name(self) -> String {
        match self {
            Step::Cap(c) => format!("capacity({c})"),
            Step::Mode(m) => format!("resize_mode({})", mode_name(m)),
            Step::Coll => "collector".into(),
            Step::Hasher(h) => format!("hasher({h})"),
        }
    }
    fn apply(self, s: &mut Settings) {
        match self {
            Step::Cap(c) => s.cap = c,
            Step::Mode(m) => s.mode = Some(m),
            Step::Coll => s.colls += 1,
            Step::Hasher(h) => s.hasher = Some(h),
        }
    }
}

/// Bytes of the newest table, if there is one.
fn bytes() -> u32 {
    if tables() > 0 {
        rt::mem().4 as u32
    } else {
        0
    }
}

/// Everything about capacity and resizing that can be seen: per operation, tables allocated, tables
/// alive, bytes of tables, and (if the hashes are ours) hashes computed.
fn trace(x: &dyn Built, name: Option<u8>, keys: u64) -> Vec<[u32; 4]> {
    let mut out = vec![];
    let hashed = || name.map_or(0, calls);
    let mut step = |f: &dyn Fn()| {
        let (a, h) = (table_allocs(), hashed());
        f();
        out.push([(table_allocs() - a) as u32, tables() as u32, bytes(), hashed() - h]);
    };
    step(&|| {});
    for k in 0..keys {
        step(&|| x.put(k));
    }
    for k in 0..keys {
        step(&|| x.del(k));
    }
    // Shrink.
    for k in 0..2 * keys {
        step(&|| x.put(1000 + k));
        step(&|| x.del(1000 + k));
    }
    out
}

/// What any trace must show for these settings, from the documentation.
fn judge(t: &[[u32; 4]], s: &Settings, ours: bool, keys: u64) {
    let cap = s.cap as u64;
    let upto = cap.min(keys) as usize;
    if s.cap > 0 && ours {
        let n: u32 = t[..=upto].iter().map(|x| x[0]).sum();
        ensure!(n <= 1 && t[..=upto].iter().all(|x| x[1] <= 1), "the map grows before it has {cap} keys");
    }
    let most = t.iter().map(|x| x[1]).max().unwrap();
    match s.mode.unwrap_or(I(64)) {
        B => ensure!(most == 1, "blocking resizes, but {most} tables were alive after an operation"),
        I(_) => ensure!(most > 1, "incremental resizes, but no resize was ever in progress after an operation"),
    }
    if let (I(c), true) = (s.mode.unwrap_or(I(64)), ours) {
        let h = t.iter().map(|x| x[3]).max().unwrap() as usize;
        ensure!(h <= c + 3, "chunks of {c} entries, but an operation hashed {h} keys");
        ensure!(h > c / 2, "chunks of {c} entries, but no operation hashed more than {h} keys");
    }
}

/// Enough keys for several resizes of tables that take more than one chunk.
fn keys(s: &Settings) -> u64 {
    300.max(4 * s.cap as u64 + 100)
}

/// Everything that is visible of a new map or set, against the settings that must describe it.
fn observe(x: &dyn Built, s: Settings, ids: &[usize]) -> Vec<[u32; 4]> {
    ensure!(s.cap > 0 || tables() == 0, "a map of capacity 0 has a table before the first insertion");
    let id = x.coll();
    if s.colls > 0 {
        ensure!(id == ids[s.colls - 1], "the collector is not the last one given");
    } else {
        ensure!(!ids.contains(&id), "the collector is one that was replaced");
    }
    let before: [u32; NAMES] = std::array::from_fn(|n| calls(n as u8));
    let t = trace(x, s.hasher, keys(&s));
    ensure!(x.count() == 0, "keys are left");
    for n in 0..NAMES as u8 {
        let d = calls(n) - before[n as usize];
        ensure!((d > 0) == (Some(n) == s.hasher), "hasher {:?} was given, hasher {n} was called {d} times", s.hasher);
    }
    judge(&t, &s, s.hasher.is_some(), keys(&s));
    t
}

/// The same settings, given in the order of the documentation.
fn reference(s: Settings, set: bool) -> Vec<[u32; 4]> {
    let (h, m, c) = (Named(s.hasher.unwrap()), resize_mode(s.mode.unwrap_or(I(64))), Collector::new());
    let (ids, s) = ([c.mc_id()], Settings { colls: 1, ..s });
    if set {
        observe(&HashSet::<u64>::builder().capacity(s.cap).hasher(h).resize_mode(m).collector(c).build(), s, &ids)
    } else {
        observe(&HashMap::<u64, u64>::builder().capacity(s.cap).hasher(h).resize_mode(m).collector(c).build(), s, &ids)
    }
}

/// The map made, against the model and against the map made in the documented order.
fn compare(make: &dyn Fn(&mut Vec<usize>) -> Box<dyn Built>, s: Settings, set: bool) {
    let mut ids = vec![];
    let t = {
        let x = make(&mut ids);
        observe(&*x, s, &ids)
    };
    if s.hasher.is_some() {
        let r = reference(s, set);
        let d = t.iter().zip(&r).position(|(a, b)| a != b);
        ensure!(d.is_none(), "step {} differs from that of a map with the same settings: {:?} and {:?}", d.unwrap(), t[d.unwrap()], r[d.unwrap()]);
    }
}

enum Bm {
    R(HashMapBuilder<u64, u64, RandomState>),
    N(HashMapBuilder<u64, u64, Named>),
}
enum Bs {
    R(HashSetBuilder<u64, RandomState>),
    N(HashSetBuilder<u64, Named>),
}

macro_rules! build {
    ($e:ident, $start:expr, $steps:expr, $ids:expr) => {{
        let mut b = $e::R($start);
        for s in $steps {
            b = match (b, *s) {
                ($e::R(b), Step::Cap(c)) => $e::R(b.capacity(c)),
                ($e::N(b), Step::Cap(c)) => $e::N(b.capacity(c)),
                ($e::R(b), Step::Mode(m)) => $e::R(b.resize_mode(resize_mode(m))),
                ($e::N(b), Step::Mode(m)) => $e::N(b.resize_mode(resize_mode(m))),
                ($e::R(b), Step::Coll) => {
                    let c = Collector::new();
                    $ids.push(c.mc_id());
                    $e::R(b.collector(c))
                }
                ($e::N(b), Step::Coll) => {
                    let c = Collector::new();
                    $ids.push(c.mc_id());
                    $e::N(b.collector(c))
                }
                ($e::R(b), Step::Hasher(h)) => $e::N(b.hasher(Named(h))),
                ($e::N(b), Step::Hasher(_)) => $e::N(b),
            };
        }
        match b {
            $e::R(b) => Box::new(b.build()) as Box<dyn Built>,
            $e::N(b) => Box::new(b.build()),
        }
    }};
}

/// All sequences of builder calls up to a length; the hasher can be given once.
fn sequences(len: usize) -> Vec<Vec<Step>> {
    let free = [Step::Cap(0), Step::Cap(5), Step::Cap(40), Step::Mode(B), Step::Mode(I(1)), Step::Mode(I(64)), Step::Coll];
    let mut all: Vec<Vec<Step>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..len {
        let mut next = vec![];
        for w in &last {
            for s in free.iter().copied().chain([Step::Hasher(1), Step::Hasher(2)]) {
                if matches!(s, Step::Hasher(_)) && w.iter().any(|x| matches!(x, Step::Hasher(_))) {
                    continue;
                }
                let mut x = w.clone();
                x.push(s);
                next.push(x);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

pub fn builders(thorough: bool) -> Fam {
    let mut v: Vec<Case> = vec![];
    for w in sequences(4 + thorough as usize) {
        let mut s = Settings::default();
        w.iter().for_each(|x| x.apply(&mut s));
        for set in [false, true] {
            let text = format!("{} {}", if set { "set" } else { "map" }, w.iter().map(|x| x.name()).collect::<Vec<_>>().join(" "));
            let w = w.clone();
            case(&mut v, text, move || {
                let make = |ids: &mut Vec<usize>| {
                    if set {
                        build!(Bs, HashSet::<u64>::builder(), &w, ids)
                    } else {
                        build!(Bm, HashMap::<u64, u64>::builder(), &w, ids)
                    }
                };
                compare(&make, s, set);
            });
        }
    }
    Fam::cases("sequences of builder calls", v, 500_000_000)
}

pub fn constructors(thorough: bool) -> Fam {
    let mut v: Vec<Case> = vec![];
    let one = |v: &mut Vec<Case>, text: String, set: bool, s: Settings, make: Box<dyn Fn() -> Box<dyn Built> + Send + Sync>| {
        case(v, format!("{} {text}", if set { "set" } else { "map" }), move || compare(&|_| make(), s, set));
    };
    let def = Settings::default();
    let own = Settings { hasher: Some(3), ..def };
    one(&mut v, "new".into(), false, def, Box::new(|| Box::new(HashMap::<u64, u64>::new())));
    one(&mut v, "new".into(), true, def, Box::new(|| Box::new(HashSet::<u64>::new())));
    one(&mut v, "default".into(), false, own, Box::new(|| Box::new(HashMap::<u64, u64, Named>::default())));
    one(&mut v, "default".into(), true, own, Box::new(|| Box::new(HashSet::<u64, Named>::default())));
    one(&mut v, "collected from nothing".into(), false, own, Box::new(|| Box::new(std::iter::empty::<(u64, u64)>().collect::<HashMap<u64, u64, Named>>())));
    one(&mut v, "collected from nothing".into(), true, own, Box::new(|| Box::new(std::iter::empty::<u64>().collect::<HashSet<u64, Named>>())));
    for h in [1u8, 2] {
        let s = Settings { hasher: Some(h), ..def };
        one(&mut v, format!("with_hasher({h})"), false, s, Box::new(move || Box::new(HashMap::<u64, u64, Named>::with_hasher(Named(h)))));
        one(&mut v, format!("with_hasher({h})"), true, s, Box::new(move || Box::new(HashSet::<u64, Named>::with_hasher(Named(h)))));
    }
    let caps: Vec<usize> = if thorough { (0..400).collect() } else { (0..60).chain([95, 96, 97, 200, 384, 385]).collect() };
    for c in caps {
        let s = Settings { hasher: Some(2), cap: c, ..def };
        one(&mut v, format!("with_capacity_and_hasher({c}, 2)"), false, s, Box::new(move || Box::new(HashMap::<u64, u64, Named>::with_capacity_and_hasher(c, Named(2)))));
        one(&mut v, format!("with_capacity_and_hasher({c}, 2)"), true, s, Box::new(move || Box::new(HashSet::<u64, Named>::with_capacity_and_hasher(c, Named(2)))));
        // Bytes of the first table do not depend on the hashes.
        for set in [false, true] {
            case(&mut v, format!("{} with_capacity({c})", if set { "set" } else { "map" }), move || {
                let s = Settings { cap: c, ..def };
                let first = |x: &dyn Built| {
                    let a = [tables() as u32, bytes()];
                    x.put(1);
                    [a, [tables() as u32, bytes()]]
                };
                let (a, b);
                if set {
                    a = first(&HashSet::<u64>::with_capacity(c));
                    b = first(&HashSet::<u64, Named>::with_capacity_and_hasher(c, Named(2)));
                    compare(&|_| Box::new(HashSet::<u64>::with_capacity(c)), s, set);
                } else {
                    a = first(&HashMap::<u64, u64>::with_capacity(c));
                    b = first(&HashMap::<u64, u64, Named>::with_capacity_and_hasher(c, Named(2)));
                    compare(&|_| Box::new(HashMap::<u64, u64>::with_capacity(c)), s, set);
                }
                ensure!(a == b, "with_capacity({c}) makes tables {a:?}, with_capacity_and_hasher {b:?}");
            });
        }
    }
    // A clone hashes like the original, and has a collector of its own.
    for m in [B, I(1), I(64)] {
        for n in [0u64, 1, 7, 40] {
            for set in [false, true] {
                case(&mut v, format!("{} clone of {n} keys, {}", if set { "set" } else { "map" }, mode_name(m)), move || {
                    fn both(x: &dyn Built, y: &dyn Built, n: u64) {
                        ensure!(x.coll() != y.coll(), "the clone shares the collector");
                        let before = calls(1);
                        for k in 0..n {
                            ensure!(y.has(k), "key {k} is not in the clone");
                        }
                        ensure!(n == 0 || calls(1) > before, "the clone does not use the hasher");
                        y.put(500);
                        ensure!(!x.has(500) && y.has(500), "the clone is not a map of its own");
                    }
                    if set {
                        let x = HashSet::<u64>::builder().hasher(Named(1)).resize_mode(resize_mode(m)).build();
                        (0..n).for_each(|k| x.put(k));
                        both(&x, &x.clone(), n);
                    } else {
                        let x = HashMap::<u64, u64>::builder().hasher(Named(1)).resize_mode(resize_mode(m)).build();
                        (0..n).for_each(|k| x.put(k));
                        both(&x, &x.clone(), n);
                    }
                });
            }
        }
    }
    Fam::cases("constructors", v, 500_000_000)
}

/// Different settings can be told apart by what `trace` sees (otherwise the comparison says nothing).
pub fn distinguishable() -> Fam {
    let mut v: Vec<Case> = vec![];
    for set in [false, true] {
        case(&mut v, format!("{} settings differ", if set { "set" } else { "map" }), move || {
            let mut seen: Vec<(Settings, Vec<[u32; 4]>)> = vec![];
            for cap in [0, 5, 40] {
                for mode in [B, I(1), I(64)] {
                    let s = Settings { hasher: Some(1), cap, mode: Some(mode), colls: 0 };
                    let t = reference(s, set);
                    for (o, u) in &seen {
                        ensure!(*u != t, "{o:?} and {s:?} behave alike");
                    }
                    seen.push((s, t));
                }
            }
        });
    }
    Fam::cases("settings can be told apart", v, 500_000_000)
}
