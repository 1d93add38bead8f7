//! Enumerated cases: questions that are not operation sequences of one map.
use crate::conc::{leak_check, new_map, new_set, resize_mode};
use crate::driver::{Case, Fam};
use crate::exec::Flags;
use crate::prog::{ops, Mode, Op, Prog, G};
use crate::types::*;
use papaya::{Compute, HashMap, HashSet, Operation};
use seize::rt::{self, sys, violation};
use seize::{Collector, Guard};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use Mode::{B, I};

const LONG: u32 = 500_000_000;

pub fn fail(msg: String) -> ! {
    violation("spec", msg)
}

macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c {
            fail(sys(|| format!($($a)*)));
        }
    };
}

pub fn mode_name(m: Mode) -> String {
    match m {
        B => "B".into(),
        I(n) => format!("I{n}"),
    }
}

pub fn case(v: &mut Vec<Case>, text: String, f: impl Fn() + Send + Sync + 'static) {
    v.push((text, Box::new(f)));
}

/// Whether the closure panics, and with what.
fn panics<T>(f: impl FnOnce() -> T) -> Option<String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(_) => None,
        Err(e) => {
            let m = sys(|| rt::panic_msg(&e));
            drop(e);
            Some(m)
        }
    }
}

pub fn tables() -> usize {
    rt::mem().2
}
pub fn table_allocs() -> usize {
    rt::mem().3
}

// ---------------------------------------------------------------------------------------
// C07: any number of keys with equal hashes can be stored.

pub fn equal_hashes() -> Fam {
    let mut v = vec![];
    for m in [B, I(1), I(64)] {
        for n in [1u16, 7, 8, 9, 14, 15, 16, 17, 20, 24, 26, 28, 29, 30, 31, 32, 40] {
            case(&mut v, format!("{} {n} keys with equal hashes", mode_name(m)), move || {
                let map = new_map(m, 0);
                for i in 0..n {
                    map.insert(K::new(i, i as u32, Scheme::Same), V::new(i as u64), &map.guard());
                }
                let g = map.guard();
                for i in 0..n {
                    let r = map.get(&Q::new(i, Scheme::Same), &g).map(|v| v.read());
                    ensure!(r == Some(i as u64), "key {i} is {r:?}");
                }
                let c = map.iter(&g).count();
                ensure!(c == n as usize, "iteration yields {c} of {n}");
                drop(g);
                for i in 0..n {
                    map.remove(&Q::new(i, Scheme::Same), &map.guard());
                }
                ensure!(map.is_empty(), "not empty in the end");
                drop(map);
                leak_check();
            });
        }
    }
    Fam::cases("equal hashes", v, 400_000)
}

// ---------------------------------------------------------------------------------------
// C12: histories over big tables.

/// Compares a map with its reference.
fn same_contents(m: &Map, want: &BTreeMap<u16, u64>, universe: u16, s: Scheme, what: &str) {
    let g = m.guard();
    ensure!(m.len() == want.len(), "{what}: len {} instead of {}", m.len(), want.len());
    for i in 0..universe {
        let r = m.get(&Q::new(i, s), &g).map(|v| v.read());
        let w = want.get(&i).copied();
        ensure!(r == w, "{what}: key {i} is {r:?} instead of {w:?}");
    }
    let mut seen = sys(|| vec![false; universe as usize]);
    for (k, v) in m.iter(&g) {
        let id = k.read();
        ensure!(id < universe && !seen[id as usize], "{what}: key {id} is yielded twice");
        seen[id as usize] = true;
        let w = want.get(&id).copied();
        let v = v.read();
        ensure!(w == Some(v), "{what}: key {id} is yielded with {v} instead of {w:?}");
    }
    let n = seen.iter().filter(|x| **x).count();
    ensure!(n == want.len(), "{what}: {n} of {} keys are yielded", want.len());
    let _s = rt::Sys::on();
    drop(seen);
}

pub fn big_histories(thorough: bool) -> Fam {
    let mut v = vec![];
    let sizes: &[u16] = if thorough { &[100, 400, 800, 1600, 3300, 6500, 9000] } else { &[100, 400, 1600, 7000] };
    let modes: &[Mode] = if thorough { &[B, I(1), I(5), I(64), I(1000), I(5000)] } else { &[B, I(1), I(64)] };
    for &n in sizes {
        for &m in modes {
            for s in [Scheme::Lin, Scheme::Ideal] {
                for word in ["fill thin refill update drain", "fill drain refill thin clear refill", "reserve fill thin retain update thin refill"] {
                    let text = format!("{} hash={} {n} keys: {word}", mode_name(m), s.name());
                    case(&mut v, text, move || {
                        let map = new_map(m, 0);
                        let mut want: BTreeMap<u16, u64> = BTreeMap::new();
                        let mut tag = 0u32;
                        for step in word.split(' ') {
                            match step {
                                "reserve" => map.reserve(n as usize, &map.guard()),
                                "clear" => {
                                    map.clear(&map.guard());
                                    sys(|| want.clear());
                                }
                                "retain" => {
                                    map.pin().retain(|k, _| k.read() % 3 != 0);
                                    sys(|| want.retain(|k, _| k % 3 != 0));
                                }
                                _ => {
                                    for i in 0..n {
                                        tag += 1;
                                        let g = map.guard();
                                        let nv = tag as u64 * 3;
                                        match step {
                                            "fill" | "refill" if step == "fill" || i % 2 == 0 => {
                                                let r = map.insert(K::new(i, tag, s), V::new(nv), &g).map(|v| v.read());
                                                let w = sys(|| want.insert(i, nv));
                                                ensure!(r == w, "{step}: insert of {i} returns {r:?} instead of {w:?}");
                                            }
                                            "update" => {
                                                let r = map.update(K::new(i, tag, s), |v| V::new(v.read() + 1), &g).map(|v| v.read());
                                                let w = sys(|| want.get_mut(&i).map(|x| { *x += 1; *x }));
                                                ensure!(r == w, "{step}: update of {i} returns {r:?} instead of {w:?}");
                                            }
                                            "thin" | "drain" if step == "drain" || i % 16 != 5 => {
                                                let r = map.remove(&Q::new(i, s), &g).map(|v| v.read());
                                                let w = sys(|| want.remove(&i));
                                                ensure!(r == w, "{step}: remove of {i} returns {r:?} instead of {w:?}");
                                            }
                                            _ => {}
                                        }
                                    }
                                }
                            }
                            same_contents(&map, &want, n, s, step);
                        }
                        drop(map);
                        sys(|| drop(want));
                        leak_check();
                    });
                }
            }
        }
    }
    Fam::cases("big tables", v, LONG)
}

// ---------------------------------------------------------------------------------------
// C14: capacities.

fn dense(top: usize, edges_to: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (1..=top).collect();
    let mut p = 8;
    while p <= edges_to {
        for x in [p - 1, p, p + 1, p / 4 * 3 - 1, p / 4 * 3, p / 4 * 3 + 1, p / 8 * 7, p / 3 * 2 + 1] {
            v.push(x);
        }
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}

pub fn capacities(thorough: bool) -> Fam {
    let mut v = vec![];
    for c in if thorough { dense(4200, 40_000) } else { dense(520, 9000) } {
        for m in [B, I(64)] {
            for s in [Scheme::Lin, Scheme::Ideal] {
                for set in [false, true] {
                    if set && s == Scheme::Lin && !thorough {
                        continue;
                    }
                    let text = format!("{}{} hash={} capacity {c}", if set { "set " } else { "" }, mode_name(m), s.name());
                    case(&mut v, text, move || {
                        let t0 = table_allocs();
                        if set {
                            let x = new_set(m, c);
                            for i in 0..c {
                                x.insert(K::new(i as u16, i as u32, s), &x.guard());
                            }
                            ensure!(x.len() == c, "{} of {c} keys", x.len());
                        } else {
                            let x = new_map(m, c);
                            for i in 0..c {
                                x.insert(K::new(i as u16, i as u32, s), V::new(i as u64), &x.guard());
                            }
                            ensure!(x.len() == c, "{} of {c} keys", x.len());
                        }
                        let n = table_allocs() - t0;
                        ensure!(n == 1, "{n} tables were allocated for {c} keys");
                        leak_check();
                    });
                }
            }
        }
    }
    Fam::cases("capacity", v, LONG)
}

/// Bytes of a table for that many slots, as observed.
fn fresh_table_size(c: usize) -> usize {
    let m = new_map(B, c);
    let g = m.guard();
    m.insert(K::new(0, 0, Scheme::Lin), V::new(0), &g);
    let r = rt::mem().4;
    drop(g);
    r
}

pub fn shrinking(thorough: bool) -> Fam {
    let mut v = vec![];
    for c in if thorough { dense(300, 4000) } else { dense(70, 800) } {
        for m in [B, I(1), I(64)] {
            for s in [Scheme::Lin, Scheme::Ideal] {
                let text = format!("{} hash={} capacity {c}, grown and emptied", mode_name(m), s.name());
                case(&mut v, text, move || {
                    let first = fresh_table_size(c);
                    let map = new_map(m, c);
                    let n = (c * 3).max(20) as u16;
                    let low = |what: &str| {
                        let now = rt::mem().4;
                        ensure!(now >= first, "{what}: a table of {now} bytes is allocated, the first had {first}");
                    };
                    for round in 0..3u16 {
                        for i in 0..n {
                            map.insert(K::new(i, i as u32, s), V::new(i as u64), &map.guard());
                            low("growing");
                        }
                        for i in 0..n {
                            map.remove(&Q::new(i, s), &map.guard());
                        }
                        // Force resizes of the empty table.
                        for i in 0..4 * n {
                            let k = n + round * 4 * n + i;
                            let g = map.guard();
                            map.insert(K::new(k, 0, s), V::new(0), &g);
                            low("shrinking");
                            let r = map.remove(&Q::new(k, s), &g);
                            ensure!(r.is_some(), "key {k} is lost");
                        }
                        ensure!(map.is_empty(), "not empty");
                    }
                    drop(map);
                    leak_check();
                });
            }
        }
    }
    Fam::cases("never below the initial capacity", v, LONG)
}

pub fn reserving(thorough: bool) -> Fam {
    let mut v = vec![];
    let adds = if thorough { dense(260, 5000) } else { dense(70, 1100) };
    for &add in &adds {
        for have in [0u16, 1, 5, 6, 7, 12, 30] {
            for m in [B, I(1), I(64)] {
                for cap in [0usize, 1, 20] {
                    let text = format!("{} capacity {cap}, {have} keys, reserve {add}", mode_name(m));
                    case(&mut v, text, move || {
                        for s in [Scheme::Lin, Scheme::Ideal] {
                            for set in [false, true] {
                                macro_rules! go {
                                    ($x:expr, $ins:expr) => {{
                                        let x = $x;
                                        for i in 0..have {
                                            $ins(&x, i);
                                        }
                                        if have % 2 == 0 {
                                            x.reserve(add, &x.guard());
                                        } else {
                                            x.pin().reserve(add);
                                        }
                                        let t0 = table_allocs();
                                        for i in 0..add {
                                            $ins(&x, have + i as u16);
                                        }
                                        let n = table_allocs() - t0;
                                        ensure!(n == 0, "{n} tables were allocated after reserving {add}");
                                        ensure!(x.len() == have as usize + add, "{} keys", x.len());
                                        let t0 = table_allocs();
                                        x.reserve(0, &x.guard());
                                        ensure!(table_allocs() == t0, "reserving nothing allocates a table");
                                    }};
                                }
                                if set {
                                    go!(new_set(m, cap), |x: &Set, i: u16| { x.insert(K::new(i, 0, s), &x.guard()); });
                                } else {
                                    go!(new_map(m, cap), |x: &Map, i: u16| { x.insert(K::new(i, 0, s), V::new(0), &x.guard()); });
                                }
                                leak_check();
                            }
                        }
                    });
                }
            }
        }
    }
    Fam::cases("reserve", v, LONG)
}

/// Impossible requests panic and leave everything as it was.
pub fn too_large() -> Fam {
    let mut v = vec![];
    let mut sizes = vec![usize::MAX, usize::MAX - 1, usize::MAX - 5, usize::MAX / 8, usize::MAX / 8 * 6, usize::MAX / 6];
    for p in 25..64 {
        let x = 1usize << p;
        sizes.extend([x - 1, x, x + 1, x / 4 * 3, x / 4 * 3 + 1]);
    }
    sizes.sort();
    sizes.dedup();
    for c in sizes {
        for m in [B, I(4)] {
            let md = mode_name(m);
            case(&mut v, format!("{md} capacity {c}"), move || {
                let r = panics(|| {
                    let x = new_map(m, c);
                    x.insert(K::new(1, 0, Scheme::Lin), V::new(0), &x.guard());
                });
                ensure!(r.is_some(), "a map of capacity {c} exists");
                let r = panics(|| {
                    let x: HashSet<u64, Pass> = HashSet::builder().capacity(c).hasher(Pass).resize_mode(resize_mode(m)).build();
                    x.insert(1, &x.guard());
                });
                ensure!(r.is_some(), "a set of capacity {c} exists");
            });
            for have in [0u16, 3, 9] {
                case(&mut v, format!("{md} {have} keys, reserve {c} more"), move || {
                    let x = new_map(m, 1);
                    let s = Scheme::Lin;
                    for i in 0..have {
                        x.insert(K::new(i, 0, s), V::new(i as u64), &x.guard());
                    }
                    for round in 0..2 {
                        let r = panics(|| x.reserve(c, &x.guard()));
                        ensure!(r.is_some(), "reserving {c} more succeeds");
                        let top = have + round * 60;
                        for i in 0..top {
                            let g = x.guard();
                            ensure!(x.get(&Q::new(i, s), &g).map(|v| v.read()) == Some(i as u64), "key {i} is lost");
                        }
                        // The map goes on working, growing included.
                        for i in top..top + 60 {
                            let g = x.guard();
                            ensure!(x.insert(K::new(i, 0, s), V::new(i as u64), &g).is_none(), "key {i} is there");
                        }
                        x.reserve(500, &x.guard());
                        ensure!(x.len() == top as usize + 60, "{} keys", x.len());
                    }
                    drop(x);
                    leak_check();
                });
            }
        }
    }
    let mut f = Fam::cases("too large", v, LONG);
    if let crate::driver::Kind::Case { isolated, .. } = &mut f.kind {
        *isolated = true;
    }
    f
}

// ---------------------------------------------------------------------------------------
// C15: churn.

#[derive(Clone, Copy, PartialEq)]
enum Churn {
    /// Insert a key never used before.
    New,
    /// Insert a key removed before, or one of a few.
    Again,
    /// Remove the oldest / the newest key.
    Old,
    Young,
    /// Replace the value of the oldest key.
    Set,
    Upd,
    Miss,
    Clear,
    Compute,
    Reserve,
    /// Insert eight new keys and remove them.
    Burst,
    Iter,
}
use Churn::{Again, Burst, Clear, Compute as Comp, Iter, Miss, New, Old, Reserve, Set as Put, Upd, Young};

const CHURN: [(Churn, &str); 12] = [
    (New, "new"),
    (Again, "again"),
    (Old, "old"),
    (Young, "young"),
    (Put, "set"),
    (Upd, "update"),
    (Miss, "miss"),
    (Clear, "clear"),
    (Comp, "compute"),
    (Reserve, "reserve"),
    (Burst, "burst"),
    (Iter, "iter"),
];

fn words(alphabet: usize, len: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    let mut all = vec![];
    for _ in 0..len {
        out = out
            .into_iter()
            .flat_map(|w: Vec<usize>| {
                (0..alphabet).map(move |a| {
                    let mut x = w.clone();
                    x.push(a);
                    x
                })
            })
            .collect();
        all.extend(out.iter().cloned());
    }
    all
}

trait Churned {
    fn put(&self, id: u16, tag: u32, s: Scheme) -> bool;
    fn del(&self, id: u16, s: Scheme) -> bool;
    fn upd(&self, id: u16, s: Scheme);
    fn comp(&self, id: u16, s: Scheme) -> bool;
    fn wipe(&self);
    fn more(&self);
    fn walk(&self) -> usize;
    fn count(&self) -> usize;
}
impl Churned for Map {
    fn put(&self, id: u16, tag: u32, s: Scheme) -> bool {
        self.insert(K::new(id, tag, s), V::new(tag as u64), &self.guard()).is_none()
    }
    fn del(&self, id: u16, s: Scheme) -> bool {
        self.remove(&Q::new(id, s), &self.guard()).is_some()
    }
    fn upd(&self, id: u16, s: Scheme) {
        self.update(K::new(id, 0, s), |v| V::new(v.read() + 1), &self.guard());
    }
    fn comp(&self, id: u16, s: Scheme) -> bool {
        let g = self.guard();
        matches!(
            self.compute(K::new(id, 0, s), |e| if e.is_some() { Operation::Remove } else { Operation::Abort(()) }, &g),
            Compute::Removed(..)
        )
    }
    fn wipe(&self) {
        self.clear(&self.guard())
    }
    fn more(&self) {
        self.reserve(4, &self.guard())
    }
    fn walk(&self) -> usize {
        self.iter(&self.guard()).count()
    }
    fn count(&self) -> usize {
        self.len()
    }
}
impl Churned for Set {
    fn put(&self, id: u16, tag: u32, s: Scheme) -> bool {
        self.insert(K::new(id, tag, s), &self.guard())
    }
    fn del(&self, id: u16, s: Scheme) -> bool {
        self.remove(&Q::new(id, s), &self.guard())
    }
    fn upd(&self, id: u16, s: Scheme) {
        self.insert(K::new(id, 0, s), &self.guard());
    }
    fn comp(&self, id: u16, s: Scheme) -> bool {
        self.del(id, s)
    }
    fn wipe(&self) {
        self.clear(&self.guard())
    }
    fn more(&self) {
        self.reserve(4, &self.guard())
    }
    fn walk(&self) -> usize {
        self.iter(&self.guard()).count()
    }
    fn count(&self) -> usize {
        self.len()
    }
}

/// At most this many keys are alive at once.
const ALIVE: usize = 16;

fn churned(x: &dyn Churned, per_key: usize, w: &[usize], reps: usize, s: Scheme, big: usize) {
    let mut live: Vec<u16> = sys(|| Vec::with_capacity(64));
    let mut next = 0u16;
    let mut tag = 0;
    // Twice a table that holds all of them at a quarter of its size, and garbage worth a table
    // of entries.
    let most_objs = (per_key * (ALIVE + 128)) as i64;
    let (mut top, mut top_t, mut top_o) = (0, 0, 0);
    for rep in 0..reps {
        for a in w {
            tag += 1;
            let op = CHURN[*a].0;
            let add = |live: &mut Vec<u16>, k: u16| {
                let fresh = x.put(k, tag, s);
                let was = live.contains(&k);
                ensure!(fresh != was, "insertion of {k} reports {fresh}");
                if fresh {
                    live.push(k);
                }
            };
            let rem = |live: &mut Vec<u16>, i: usize| {
                if i < live.len() {
                    let k = live.remove(i);
                    ensure!(x.del(k, s), "key {k} is lost");
                }
            };
            let fresh = |next: &mut u16| {
                *next = (*next + 1) % 30_000;
                100 + *next
            };
            match op {
                New => {
                    if live.len() >= 8 {
                        rem(&mut live, 0);
                    }
                    add(&mut live, fresh(&mut next));
                }
                Again => {
                    if live.len() >= 8 {
                        rem(&mut live, 0);
                    }
                    add(&mut live, (rep % 3) as u16);
                }
                Old => rem(&mut live, 0),
                Young => {
                    let l = live.len();
                    rem(&mut live, l.wrapping_sub(1));
                }
                Put => {
                    if let Some(k) = live.first().copied() {
                        x.put(k, tag, s);
                    }
                }
                Upd => {
                    if let Some(k) = live.last().copied() {
                        x.upd(k, s);
                    }
                }
                Miss => ensure!(!x.del(60, s), "key 60 is there"),
                Comp => {
                    if !live.is_empty() {
                        let k = live.remove(0);
                        ensure!(x.comp(k, s), "key {k} is lost");
                    }
                }
                Clear => {
                    x.wipe();
                    live.clear();
                }
                Reserve => x.more(),
                Burst => {
                    for _ in 0..8 {
                        add(&mut live, fresh(&mut next));
                    }
                    for _ in 0..8 {
                        let l = live.len();
                        rem(&mut live, l - 1);
                    }
                }
                Iter => {
                    let n = x.walk();
                    ensure!(n == live.len(), "{n} keys instead of {}", live.len());
                }
            }
            ensure!(x.count() == live.len(), "len {} instead of {}", x.count(), live.len());
            let (_, bytes, t, _, size) = rt::mem();
            let objs = rt::live_objs();
            top = top.max(bytes);
            top_t = top_t.max(t);
            top_o = top_o.max(objs);
            ensure!(size <= big, "round {rep}: a table of {size} bytes for at most {ALIVE} keys");
            ensure!(t <= 3, "round {rep}: {t} tables are alive");
            ensure!(objs <= most_objs, "round {rep}: {objs} keys and values are alive");
            ensure!(rt::garbage() == 0, "round {rep}: {} retired objects although no guard is held", rt::garbage());
        }
    }
    sys(|| drop(live));
}

fn churn_fam(set: bool, thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    let reps = if thorough { 1500 } else { 220 };
    let full: Vec<Vec<usize>> = words(CHURN.len(), if thorough { 3 } else { 2 });
    for m in [B, I(1), I(2), I(64)] {
        for (cap, s) in [(0, Scheme::Lin), (1, Scheme::Ideal), (1, Scheme::Slot), (40, Scheme::Lin)] {
            for w in &full {
                if !w.iter().any(|a| matches!(CHURN[*a].0, New | Again | Burst)) {
                    continue;
                }
                let names: Vec<&str> = w.iter().map(|a| CHURN[*a].1).collect();
                let text = format!(
                    "{}{} cap={cap} hash={} {reps} times {}",
                    if set { "set " } else { "" },
                    mode_name(m),
                    s.name(),
                    names.join(" ")
                );
                let w = w.clone();
                case(&mut v, text, move || {
                    // A table for four times the keys, or the one asked for.
                    let big = fresh_table_size(cap.max(ALIVE * 4));
                    leak_check();
                    if set {
                        let x = new_set(m, cap);
                        churned(&x, 1, &w, reps, s, big);
                    } else {
                        let x = new_map(m, cap);
                        churned(&x, 2, &w, reps, s, big);
                    }
                    leak_check();
                });
            }
        }
    }
    v
}

/// A few keys come and go in a map of many others.
pub fn hot_keys(thorough: bool) -> Fam {
    let mut v = vec![];
    let sizes: &[u16] = if thorough { &[10, 30, 60, 100, 300, 1000, 4000] } else { &[10, 30, 100, 300, 1000] };
    for &n in sizes {
        for m in [B, I(1), I(4), I(16), I(64), I(256), I(1024)] {
            for s in [Scheme::Ideal, Scheme::Lin] {
                for hot in [1u16, 4] {
                    let text = format!("{} hash={} {n} keys and {hot} that come and go", mode_name(m), s.name());
                    case(&mut v, text, move || {
                        let x = new_map(m, 0);
                        for k in 0..n {
                            x.insert(K::new(k, 0, s), V::new(k as u64), &x.guard());
                        }
                        // Complete what filling it has begun.
                        ensure!(x.iter(&x.guard()).count() == n as usize, "keys are missing");
                        let big = fresh_table_size(4 * n as usize + 64);
                        for rep in 0..20_000u32 {
                            let k = n + rep as u16 % hot;
                            x.insert(K::new(k, rep, s), V::new(rep as u64), &x.guard());
                            ensure!(x.remove(&Q::new(k, s), &x.guard()).is_some(), "key {k} is lost");
                            let (_, _, t, _, size) = rt::mem();
                            let objs = rt::live_objs();
                            ensure!(size <= big, "a table of {size} bytes");
                            ensure!(t <= 8, "{t} tables are alive");
                            ensure!(objs <= 4 * n as i64 + 1000, "{objs} keys and values are alive");
                        }
                        drop(x);
                        leak_check();
                    });
                }
            }
        }
    }
    Fam::cases("keys that come and go in large maps", v, LONG)
}

pub fn churn(thorough: bool) -> Fam {
    Fam::cases("cyclic churn", churn_fam(false, thorough), LONG)
}

pub fn churn_set(thorough: bool) -> Fam {
    Fam::cases("cyclic churn of sets", churn_fam(true, thorough), LONG)
}

// ---------------------------------------------------------------------------------------
// C16: foreign guards.

const STATES: [(&str, Mode, usize, &str); 9] = [
    ("unallocated", B, 0, ""),
    ("unallocated, incremental", I(1), 0, ""),
    ("empty", B, 1, ""),
    ("some keys", I(64), 1, "i1 i2 i3"),
    ("tombstones", B, 1, "i1 i2 i3 r2"),
    ("full", B, 1, "fill1.9"),
    ("growing", I(1), 1, "fill1.10"),
    ("nested", I(1), 1, "fill1.18 drain2.18 fill30.37"),
    ("grown", B, 0, "fill1.40"),
];

fn map_state(i: usize) -> Map {
    let (_, m, c, o) = STATES[i];
    let x = new_map(m, c);
    for o in ops(o) {
        apply_map(&x, &o);
    }
    x
}

fn apply_map(x: &Map, o: &Op) {
    let put = |k: u16| {
        x.insert(K::new(k, 0, Scheme::Lin), V::new(k as u64 * 10), &x.guard());
    };
    let del = |k: u16| {
        x.remove(&Q::new(k, Scheme::Lin), &x.guard());
    };
    match o {
        Op::Ins(k) => put(*k),
        Op::Rem(k) => del(*k),
        Op::Fill(a, b) => (*a..*b).for_each(put),
        Op::Drain(a, b) => (*a..*b).for_each(del),
        _ => unreachable!(),
    }
}

fn set_state(i: usize) -> Set {
    let (_, m, c, o) = STATES[i];
    let x = new_set(m, c);
    let put = |k: u16| {
        x.insert(K::new(k, 0, Scheme::Lin), &x.guard());
    };
    let del = |k: u16| {
        x.remove(&Q::new(k, Scheme::Lin), &x.guard());
    };
    for o in ops(o) {
        match o {
            Op::Ins(k) => put(k),
            Op::Rem(k) => del(k),
            Op::Fill(a, b) => (a..b).for_each(put),
            Op::Drain(a, b) => (a..b).for_each(del),
            _ => unreachable!(),
        }
    }
    x
}

fn state_keys(i: usize) -> Vec<u16> {
    let mut v = vec![];
    for o in ops(STATES[i].3) {
        match o {
            Op::Ins(k) => v.push(k),
            Op::Rem(k) => v.retain(|x| *x != k),
            Op::Fill(a, b) => v.extend(a..b),
            Op::Drain(a, b) => v.retain(|x| *x < a || *x >= b),
            _ => unreachable!(),
        }
    }
    v
}

/// What is in a map, without its help where possible.
fn dump(x: &Map) -> Vec<(u16, u64)> {
    let g = x.guard();
    let mut v: Vec<(u16, u64)> = sys(|| Vec::with_capacity(128));
    for k in 0..60 {
        if let Some(y) = x.get(&Q::new(k, Scheme::Lin), &g) {
            v.push((k, y.read()));
        }
    }
    v
}
fn dump_set(x: &Set) -> Vec<u16> {
    let g = x.guard();
    let mut v: Vec<u16> = sys(|| Vec::with_capacity(128));
    for k in 0..60 {
        if let Some(y) = x.get(&Q::new(k, Scheme::Lin), &g) {
            v.push(y.read());
        }
    }
    v
}

type Calls = std::cell::Cell<u32>;
fn key(k: u16) -> K {
    K::new(k, 0, Scheme::Lin)
}
fn qk(k: u16) -> Q {
    Q::new(k, Scheme::Lin)
}

macro_rules! map_methods {
    ($x:ident, $k:ident, $g:ident, $n:ident) => {
        [
            ("get", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.get(&qk($k), $g).map(|v| v.read()); }),
            ("contains_key", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.contains_key(&qk($k), $g); }),
            ("get_key_value", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.get_key_value(&qk($k), $g).map(|v| v.1.read()); }),
            ("insert", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.insert(key($k), V::new(7), $g); }),
            ("try_insert", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { let _ = $x.try_insert(key($k), V::new(7), $g); }),
            ("try_insert_with", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { let _ = $x.try_insert_with(key($k), || { $n.set(1); V::new(7) }, $g); }),
            ("get_or_insert", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.get_or_insert(key($k), V::new(7), $g); }),
            ("get_or_insert_with", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.get_or_insert_with(key($k), || { $n.set(1); V::new(7) }, $g); }),
            ("update", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.update(key($k), |_| { $n.set(1); V::new(7) }, $g); }),
            ("update_or_insert", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.update_or_insert(key($k), |_| { $n.set(1); V::new(7) }, V::new(8), $g); }),
            ("update_or_insert_with", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.update_or_insert_with(key($k), |_| { $n.set(1); V::new(7) }, || { $n.set(1); V::new(7) }, $g); }),
            ("compute to insert", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.compute(key($k), |_| { $n.set(1); Operation::Insert::<_, ()>(V::new(7)) }, $g); }),
            ("compute to abort", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.compute(key($k), |_| { $n.set(1); Operation::Abort(()) }, $g); }),
            ("remove", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.remove(&qk($k), $g); }),
            ("remove_entry", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.remove_entry(&qk($k), $g); }),
            ("remove_if", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { let _ = $x.remove_if(&qk($k), |_, _| { $n.set(1); true }, $g); }),
            ("reserve nothing", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.reserve(0, $g); }),
            ("reserve", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.reserve(50, $g); }),
            ("clear", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.clear($g); }),
            ("retain", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.retain(|_, _| { $n.set(1); false }, $g); }),
            ("iter", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.iter($g).for_each(|e| { e.1.read(); $n.set(1) }); }),
            ("keys", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.keys($g).for_each(|e| { e.read(); $n.set(1) }); }),
            ("values", |$x: &Map, $k: u16, $g: &GD, $n: &Calls| { $x.values($g).for_each(|e| { e.read(); $n.set(1) }); }),
        ]
    };
}

macro_rules! set_methods {
    ($x:ident, $k:ident, $g:ident, $n:ident) => {
        [
            ("get", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.get(&qk($k), $g).map(|v| v.read()); }),
            ("contains", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.contains(&qk($k), $g); }),
            ("insert", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.insert(key($k), $g); }),
            ("remove", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.remove(&qk($k), $g); }),
            ("reserve nothing", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.reserve(0, $g); }),
            ("reserve", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.reserve(50, $g); }),
            ("clear", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.clear($g); }),
            ("retain", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.retain(|_| { $n.set(1); false }, $g); }),
            ("iter", |$x: &mut Set, $k: u16, $g: &GD, $n: &Calls| { $x.iter($g).for_each(|e| { e.read(); $n.set(1) }); }),
        ]
    };
}

mod local {
    use super::*;
    pub type GD = seize::LocalGuard<'static>;
    pub fn map() -> Vec<(&'static str, fn(&Map, u16, &GD, &Calls))> {
        let a: [(&'static str, fn(&Map, u16, &GD, &Calls)); 23] = map_methods!(x, k, g, n);
        a.to_vec()
    }
    pub fn set() -> Vec<(&'static str, fn(&mut Set, u16, &GD, &Calls))> {
        let a: [(&'static str, fn(&mut Set, u16, &GD, &Calls)); 9] = set_methods!(x, k, g, n);
        a.to_vec()
    }
}
mod owned {
    use super::*;
    pub type GD = seize::OwnedGuard<'static>;
    pub fn map() -> Vec<(&'static str, fn(&Map, u16, &GD, &Calls))> {
        let a: [(&'static str, fn(&Map, u16, &GD, &Calls)); 23] = map_methods!(x, k, g, n);
        a.to_vec()
    }
    pub fn set() -> Vec<(&'static str, fn(&mut Set, u16, &GD, &Calls))> {
        let a: [(&'static str, fn(&mut Set, u16, &GD, &Calls)); 9] = set_methods!(x, k, g, n);
        a.to_vec()
    }
}

/// Where the guard comes from.
#[derive(Clone, Copy, PartialEq)]
enum From_ {
    OtherMap(usize),
    OtherSet,
    Collector,
    Itself,
}

unsafe fn forever<T>(x: &T) -> &'static T {
    unsafe { &*(x as *const T) }
}

pub fn foreign(set: bool) -> Fam {
    let mut v = vec![];
    let n = if set { local::set().len() } else { local::map().len() };
    for meth in 0..n {
        for own in [false, true] {
            for st in 0..STATES.len() {
                for from in [From_::OtherMap(0), From_::OtherMap(3), From_::OtherMap(6), From_::OtherSet, From_::Collector, From_::Itself] {
                    for k in [1u16, 2, 50] {
                        let name = if set { local::set()[meth].0 } else { local::map()[meth].0 };
                        let f = match from {
                            From_::OtherMap(i) => format!("another map ({})", STATES[i].0),
                            From_::OtherSet => "a set".into(),
                            From_::Collector => "a collector of its own".into(),
                            From_::Itself => "itself".into(),
                        };
                        let text = format!(
                            "{} {} ({}): {name} of key {k} with {} guard of {f}",
                            if set { "set" } else { "map" },
                            STATES[st].0,
                            mode_name(STATES[st].1),
                            if own { "an owned" } else { "a local" },
                        );
                        case(&mut v, text, move || foreign_case(set, meth, own, st, from, k));
                    }
                }
            }
        }
    }
    Fam::cases(if set { "guards of sets" } else { "guards of maps" }, v, LONG)
}

fn foreign_case(set: bool, meth: usize, own: bool, st: usize, from: From_, k: u16) {
    // Leaked on purpose in case of a failure only.
    let map = map_state(st);
    let mut hset = set_state(st);
    let other = map_state(if let From_::OtherMap(i) = from { i } else { 3 });
    let other_set = set_state(3);
    let coll = Collector::new();
    let before = (dump(&map), dump_set(&hset), dump(&other), dump_set(&other_set));
    let (objs, allocs) = (rt::live_objs(), table_allocs());
    let calls = Calls::new(0);
    let r;
    unsafe {
        let h: *mut Set = &mut hset;
        if own {
            let g: seize::OwnedGuard<'static> = match from {
                From_::OtherMap(_) => forever(&other).owned_guard(),
                From_::OtherSet => forever(&other_set).owned_guard(),
                From_::Collector => forever(&coll).enter_owned(),
                From_::Itself if set => forever(&*h).owned_guard(),
                From_::Itself => forever(&map).owned_guard(),
            };
            let (a, b) = sys(|| (owned::map(), owned::set()));
            r = if set { panics(|| b[meth].1(&mut *h, k, &g, &calls)) } else { panics(|| a[meth].1(&map, k, &g, &calls)) };
            sys(|| drop((a, b)));
        } else {
            let g: seize::LocalGuard<'static> = match from {
                From_::OtherMap(_) => forever(&other).guard(),
                From_::OtherSet => forever(&other_set).guard(),
                From_::Collector => forever(&coll).enter(),
                From_::Itself if set => forever(&*h).guard(),
                From_::Itself => forever(&map).guard(),
            };
            let (a, b) = sys(|| (local::map(), local::set()));
            r = if set { panics(|| b[meth].1(&mut *h, k, &g, &calls)) } else { panics(|| a[meth].1(&map, k, &g, &calls)) };
            sys(|| drop((a, b)));
        }
    }
    if from == From_::Itself {
        ensure!(r.is_none(), "the map's own guard is rejected: {r:?}");
    } else {
        ensure!(r.is_some(), "the call succeeds");
        ensure!(calls.get() == 0, "a closure was called or an entry exposed");
        ensure!(rt::live_objs() == objs, "{} keys and values instead of {objs}", rt::live_objs());
        ensure!(table_allocs() == allocs, "a table was allocated");
        ensure!(rt::garbage() == 0, "something was retired");
        let after = (dump(&map), dump_set(&hset), dump(&other), dump_set(&other_set));
        ensure!(before == after, "the contents changed: {before:?} to {after:?}");
        let want: Vec<u16> = sys(|| state_keys(st));
        ensure!(map.len() == want.len() && hset.len() == want.len(), "the length changed");
        sys(|| drop(want));
        sys(|| drop(after));
    }
    sys(|| drop(before));
    sys(|| drop(r));
    drop((map, hset, other, other_set, coll));
    leak_check();
}

// ---------------------------------------------------------------------------------------
// C17: conversions.

/// Ways to arrive at given contents.
const WAYS: [&str; 8] = [
    "plain",
    "plain incremental",
    "reserved",
    "collisions",
    "tombstones",
    "mid-resize",
    "shrinking",
    "chunk 64",
];

fn arrive<M>(way: usize, make: impl Fn(Mode, usize) -> M, put: impl Fn(&M, u16, u64, Scheme), del: impl Fn(&M, u16, Scheme), want: &[(u16, u64)]) -> (M, Scheme) {
    let (m, c, s) = match way {
        0 => (B, 0, Scheme::Lin),
        1 => (I(1), 0, Scheme::Ideal),
        2 => (B, 40, Scheme::Lin),
        3 => (B, 1, Scheme::Same),
        4 => (I(1), 1, Scheme::Same),
        5 => (I(1), 1, Scheme::Lin),
        6 => (I(1), 1, Scheme::Lin),
        _ => (I(64), 1, Scheme::Slot),
    };
    let x = make(m, c);
    match way {
        4 => {
            (20..25).for_each(|k| put(&x, k, 0, s));
            want.iter().for_each(|(k, v)| put(&x, *k, *v, s));
            (20..25).for_each(|k| del(&x, k, s));
        }
        5 => {
            // Eight slots are full, the ninth key starts the growth, the rest of the copy is open.
            (20..28).for_each(|k| put(&x, k, 0, s));
            want.iter().for_each(|(k, v)| put(&x, *k, *v, s));
            (20..28).for_each(|k| del(&x, k, s));
        }
        6 => {
            (20..50).for_each(|k| put(&x, k, 0, s));
            (20..50).for_each(|k| del(&x, k, s));
            want.iter().for_each(|(k, v)| put(&x, *k, *v + 1, s));
            want.iter().for_each(|(k, v)| put(&x, *k, *v, s));
        }
        _ => want.iter().for_each(|(k, v)| put(&x, *k, *v, s)),
    }
    (x, s)
}

/// Equal keys have equal hashes whatever way their maps came about.
struct Fixed;

fn arrive_map(way: usize, want: &[(u16, u64)], fixed: Option<Scheme>) -> (Map, Scheme) {
    let (m, s) = arrive(
        way,
        new_map,
        |m: &Map, k, v, s| {
            m.insert(K::new(k, 0, fixed.unwrap_or(s)), V::new(v), &m.guard());
        },
        |m, k, s| {
            m.remove(&Q::new(k, fixed.unwrap_or(s)), &m.guard());
        },
        want,
    );
    (m, fixed.unwrap_or(s))
}

fn arrive_set(way: usize, want: &[(u16, u64)], fixed: Option<Scheme>) -> (Set, Scheme) {
    let (m, s) = arrive(
        way,
        new_set,
        |m: &Set, k, _, s| {
            m.insert(K::new(k, 0, fixed.unwrap_or(s)), &m.guard());
        },
        |m, k, s| {
            m.remove(&Q::new(k, fixed.unwrap_or(s)), &m.guard());
        },
        want,
    );
    (m, fixed.unwrap_or(s))
}

/// All contents over some keys and values.
fn contents(keys: &[u16], vals: &[u64]) -> Vec<Vec<(u16, u64)>> {
    let mut out: Vec<Vec<(u16, u64)>> = vec![vec![]];
    for k in keys {
        let mut n = vec![];
        for c in &out {
            n.push(c.clone());
            for v in vals {
                let mut d = c.clone();
                d.push((*k, *v));
                n.push(d);
            }
        }
        out = n;
    }
    // A few larger ones.
    for n in [9u16, 13, 30] {
        out.push((0..n).map(|k| (k + 60, k as u64)).collect());
    }
    out
}

fn listed(m: &Map) -> Vec<(u16, u64)> {
    let mut v: Vec<(u16, u64)> = sys(|| Vec::with_capacity(256));
    for (k, x) in m.iter(&m.guard()) {
        v.push((k.read(), x.read()));
    }
    v.sort();
    v
}
fn listed_set(m: &Set) -> Vec<(u16, u64)> {
    let mut v: Vec<(u16, u64)> = sys(|| Vec::with_capacity(256));
    for k in m.iter(&m.guard()) {
        v.push((k.read(), 0));
    }
    v.sort();
    v
}

fn is(got: Vec<(u16, u64)>, want: &[(u16, u64)], what: &str) {
    ensure!(got == want, "{what}: {got:?} instead of {want:?}");
    sys(|| drop(got));
}

pub fn clones() -> Fam {
    let mut v = vec![];
    for want in contents(&[1, 2, 3], &[10, 11]) {
        for way in 0..WAYS.len() {
            let w = want.clone();
            case(&mut v, format!("clone of {want:?}, {}", WAYS[way]), move || {
                let zero: Vec<(u16, u64)> = sys(|| w.iter().map(|x| (x.0, 0)).collect());
                for first in [false, true] {
                    let (a, s) = arrive_map(way, &w, None);
                    let t0 = table_allocs();
                    let b = a.clone();
                    if s != Scheme::Same && s != Scheme::Slot {
                        ensure!(table_allocs() <= t0 + 2, "the clone was resized");
                    }
                    is(listed(&b), &w, "clone");
                    is(listed(&a), &w, "source after cloning");
                    ensure!(a.len() == w.len() && b.len() == w.len(), "lengths {} {}", a.len(), b.len());
                    ensure!(a == b && b == a, "a clone differs from its source");
                    for (k, x) in &w {
                        let r = b.get(&Q::new(*k, s), &b.guard()).map(|v| v.read());
                        ensure!(r == Some(*x), "key {k} of the clone is {r:?}");
                    }
                    // Nothing is shared.
                    for (k, _) in &w {
                        let g = b.guard();
                        b.insert(K::new(*k, 0, s), V::new(99), &g);
                    }
                    b.insert(K::new(55, 0, s), V::new(98), &b.guard());
                    is(listed(&a), &w, "source after changing the clone");
                    ensure!(a != b && b != a, "different maps are equal");
                    a.clear(&a.guard());
                    ensure!(b.len() == w.len() + 1, "clearing the source changes the clone");
                    let r = b.get(&Q::new(55, s), &b.guard()).map(|v| v.read());
                    ensure!(r == Some(98), "clearing the source changes the clone");
                    if first {
                        drop(a);
                        ensure!(b.iter(&b.guard()).all(|(_, v)| v.read() >= 98), "dropping the source changes the clone");
                        drop(b);
                    } else {
                        drop(b);
                        a.insert(K::new(1, 0, s), V::new(1), &a.guard());
                        drop(a);
                    }
                    leak_check();
                }
                let (a, s) = arrive_set(way, &w, None);
                let b = a.clone();
                is(listed_set(&b), &zero, "clone");
                ensure!(a == b && b == a && b.len() == w.len(), "a clone differs from its source");
                b.insert(K::new(55, 0, s), &b.guard());
                is(listed_set(&a), &zero, "source after changing the clone");
                ensure!(a != b && b != a, "different sets are equal");
                a.clear(&a.guard());
                ensure!(b.len() == w.len() + 1, "clearing the source changes the clone");
                drop(a);
                for (k, _) in &w {
                    ensure!(b.remove(&Q::new(*k, s), &b.guard()), "key {k} is lost");
                }
                drop(b);
                sys(|| drop(zero));
                leak_check();
            });
        }
    }
    Fam::cases("clone", v, LONG)
}

pub fn equality() -> Fam {
    let mut v = vec![];
    let all = contents(&[1, 2, 3], &[10, 11]);
    let _ = Fixed;
    for a in &all {
        for (wa, wb) in [(0, 0), (0, 5), (5, 4), (6, 1), (3, 2)] {
            let (a, all) = (a.clone(), all.clone());
            case(&mut v, format!("{a:?} ({}) against all ({})", WAYS[wa], WAYS[wb]), move || {
                for b in &all {
                    let (x, _) = arrive_map(wa, &a, Some(Scheme::Lin));
                    let (y, _) = arrive_map(wb, b, Some(Scheme::Lin));
                    ensure!((x == y) == (a == *b) && (y == x) == (a == *b), "comparison with {b:?} is wrong");
                    ensure!((x != y) == (a != *b), "comparison with {b:?} is wrong");
                    ensure!(x == x && y == y, "a map differs from itself");
                    let (s, _) = arrive_set(wa, &a, Some(Scheme::Lin));
                    let (t, _) = arrive_set(wb, b, Some(Scheme::Lin));
                    let same = a.len() == b.len() && a.iter().zip(b).all(|(p, q)| p.0 == q.0);
                    ensure!((s == t) == same && (t == s) == same, "comparison of the sets with {b:?} is wrong");
                    drop((x, y, s, t));
                    leak_check();
                }
            });
        }
    }
    Fam::cases("equality", v, LONG)
}

/// An iterator with a size hint of its own.
struct Hinted<It>(It, (usize, Option<usize>));
impl<It: Iterator> Iterator for Hinted<It> {
    type Item = It::Item;
    fn next(&mut self) -> Option<It::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.1
    }
}

type PMap = HashMap<u64, u64, Pass>;
type PSet = HashSet<u64, Pass>;

fn plain_list<S: std::hash::BuildHasher>(m: &HashMap<u64, u64, S>) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = sys(|| Vec::with_capacity(256));
    m.pin().iter().for_each(|(k, x)| v.push((*k, *x)));
    v.sort();
    v
}
fn plain_list_set<S: std::hash::BuildHasher>(m: &HashSet<u64, S>) -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = sys(|| Vec::with_capacity(256));
    m.pin().iter().for_each(|k| v.push((*k, 0)));
    v.sort();
    v
}
fn same(got: Vec<(u64, u64)>, want: &[(u64, u64)], what: &str) {
    ensure!(got == want, "{what}: {got:?} instead of {want:?}");
    sys(|| drop(got));
}

fn sequences() -> Vec<Vec<(u64, u64)>> {
    let items = [(1u64, 10u64), (1, 11), (2, 10), (2, 12), (1 << 60, 13)];
    let mut out: Vec<Vec<(u64, u64)>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..4 {
        last = last
            .iter()
            .flat_map(|s| {
                items.iter().map(move |i| {
                    let mut t = s.clone();
                    t.push(*i);
                    t
                })
            })
            .collect();
        out.extend(last.iter().cloned());
    }
    for n in [8u64, 9, 31, 100] {
        out.push((0..n).map(|i| (i, i)).collect());
        out.push((0..n).map(|i| (i % 7, i)).collect());
        out.push((0..n).chain(0..n / 2).map(|i| (i << 57 | i, i)).collect());
    }
    out
}

fn debug_items(s: &str) -> Vec<String> {
    let inner = s.strip_prefix('{').and_then(|x| x.strip_suffix('}')).unwrap_or("?");
    let mut v: Vec<String> = inner.split(", ").filter(|x| !x.is_empty()).map(String::from).collect();
    v.sort();
    v
}

pub fn conversions() -> Fam {
    let mut v = vec![];
    for seq in sequences() {
        let mut model = BTreeMap::new();
        for (k, x) in &seq {
            model.insert(*k, *x);
        }
        let want: Vec<(u64, u64)> = model.into_iter().collect();
        let keys: Vec<(u64, u64)> = want.iter().map(|x| (x.0, 0)).collect();
        let shown = if seq.len() < 6 { format!("{seq:?}") } else { format!("{} items, {} keys", seq.len(), want.len()) };
        case(&mut v, shown, move || {
            let n = seq.len();
            for hint in [(n, Some(n)), (0, None), (n / 2, Some(n * 2)), (n + 40, None)] {
                let m: PMap = Hinted(seq.iter().copied(), hint).collect();
                same(plain_list(&m), &want, "collect");
                ensure!(m.len() == want.len(), "length {} of {}", m.len(), want.len());
                for (k, x) in &want {
                    ensure!(m.pin().get(k) == Some(x), "key {k} is wrong");
                }
                // Growing a map that has something.
                for have in [0u64, 1, 3, 12] {
                    for mode in [B, I(1)] {
                        let m: PMap = HashMap::builder().hasher(Pass).resize_mode(resize_mode(mode)).build();
                        let w2: Vec<(u64, u64)> = sys(|| {
                            let mut t: BTreeMap<u64, u64> = (0..have).map(|i| (i, 77)).collect();
                            t.extend(want.iter().copied());
                            t.into_iter().collect()
                        });
                        (0..have).for_each(|i| {
                            m.pin().insert(i, 77);
                        });
                        (&m).extend(Hinted(seq.iter().copied(), hint));
                        same(plain_list(&m), &w2, "extend");
                        let m: PMap = HashMap::builder().hasher(Pass).resize_mode(resize_mode(mode)).build();
                        (0..have).for_each(|i| {
                            m.pin().insert(i, 77);
                        });
                        (&m).extend(Hinted(seq.iter().map(|(a, b)| (a, b)), hint));
                        same(plain_list(&m), &w2, "extend by reference");
                        let k2: Vec<(u64, u64)> = sys(|| w2.iter().map(|x| (x.0, 0)).collect());
                        let s: PSet = HashSet::builder().hasher(Pass).resize_mode(resize_mode(mode)).build();
                        (0..have).for_each(|i| {
                            s.pin().insert(i);
                        });
                        (&s).extend(Hinted(seq.iter().map(|x| x.0), hint));
                        same(plain_list_set(&s), &k2, "extend of a set");
                        let s: PSet = HashSet::builder().hasher(Pass).resize_mode(resize_mode(mode)).build();
                        (0..have).for_each(|i| {
                            s.pin().insert(i);
                        });
                        (&s).extend(Hinted(seq.iter().map(|x| &x.0), hint));
                        same(plain_list_set(&s), &k2, "extend of a set by reference");
                        sys(|| drop((w2, k2)));
                    }
                }
                let s: PSet = Hinted(seq.iter().map(|x| x.0), hint).collect();
                same(plain_list_set(&s), &keys, "collect into a set");
                ensure!(s.len() == keys.len(), "length {} of {}", s.len(), keys.len());
            }
            // Keys and values that own memory.
            let m: Map = seq.iter().map(|(k, x)| (K::new(*k as u16, 0, Scheme::Lin), V::new(*x))).collect();
            let mut a: Vec<(u64, u64)> = sys(|| Vec::with_capacity(256));
            m.pin().iter().for_each(|(k, x)| a.push((k.read() as u64, x.read())));
            a.sort();
            let folded: Vec<(u64, u64)> = sys(|| {
                let mut t = BTreeMap::new();
                seq.iter().for_each(|(k, x)| {
                    t.insert(*k as u16 as u64, *x);
                });
                t.into_iter().collect()
            });
            same(a, &folded, "collect of owned things");
            sys(|| drop(folded));
            drop(m);
            leak_check();
            // Arrays.
            macro_rules! arr {
                ($($n:literal)*) => { $(
                    if n == $n {
                        let a: [(u64, u64); $n] = std::array::from_fn(|i| seq[i]);
                        same(plain_list(&HashMap::from(a)), &want, "from an array");
                        let a: [u64; $n] = std::array::from_fn(|i| seq[i].0);
                        same(plain_list_set(&HashSet::from(a)), &keys, "set from an array");
                    }
                )* };
            }
            arr!(0 1 2 3 4 8 9 31);
            // Formatting.
            let m: PMap = seq.iter().copied().collect();
            let s: PSet = seq.iter().map(|x| x.0).collect();
            let dm: Vec<String> = {
                let std: std::collections::HashMap<u64, u64> = want.iter().copied().collect();
                debug_items(&format!("{std:?}"))
            };
            let ds: Vec<String> = {
                let std: std::collections::HashSet<u64> = want.iter().map(|x| x.0).collect();
                debug_items(&format!("{std:?}"))
            };
            for (t, d) in [
                (format!("{m:?}"), &dm),
                (format!("{:?}", m.pin()), &dm),
                (format!("{:?}", m.pin_owned()), &dm),
                (format!("{s:?}"), &ds),
                (format!("{:?}", s.pin()), &ds),
                (format!("{:?}", s.pin_owned()), &ds),
            ] {
                ensure!(debug_items(&t) == *d, "Debug shows {t}");
            }
            // The loops of the borrowed forms.
            let (p, q) = (m.pin(), s.pin());
            let mut a: Vec<(u64, u64)> = vec![];
            for (k, x) in &p {
                a.push((*k, *x));
            }
            a.sort();
            ensure!(a == want, "loop over a pinned map: {a:?}");
            let mut a: Vec<(u64, u64)> = vec![];
            for k in &q {
                a.push((*k, 0));
            }
            a.sort();
            ensure!(a == keys, "loop over a pinned set: {a:?}");
            ensure!(std::ptr::eq(p.map(), &m) && std::ptr::eq(q.set(), &s), "a pinned reference is of another map");
        });
    }
    Fam::cases("building, extending, formatting", v, LONG)
}

pub fn serde_trips() -> Fam {
    let mut v = vec![];
    for want in contents(&[1, 2, 3], &[10, 11]) {
        for way in 0..WAYS.len() {
            let w = want.clone();
            case(&mut v, format!("JSON of {want:?}, {}", WAYS[way]), move || {
                let want: Vec<(u64, u64)> = w.iter().map(|(k, x)| (*k as u64, *x)).collect();
                let keys: Vec<(u64, u64)> = w.iter().map(|(k, _)| (*k as u64, 0)).collect();
                let (m, _) = arrive(
                    way,
                    |mode, c| HashMap::<u64, u64>::builder().capacity(c).hasher(Pass).resize_mode(resize_mode(mode)).build(),
                    |m, k, x, _| {
                        m.pin().insert(k as u64, x);
                    },
                    |m, k, _| {
                        m.pin().remove(&(k as u64));
                    },
                    &w,
                );
                let (s, _) = arrive(
                    way,
                    |mode, c| HashSet::<u64>::builder().capacity(c).hasher(Pass).resize_mode(resize_mode(mode)).build(),
                    |m, k, _, _| {
                        m.pin().insert(k as u64);
                    },
                    |m, k, _| {
                        m.pin().remove(&(k as u64));
                    },
                    &w,
                );
                let texts = [
                    serde_json::to_string(&m).unwrap(),
                    serde_json::to_string(&m.pin()).unwrap(),
                    serde_json::to_string(&m.pin_owned()).unwrap(),
                ];
                for t in &texts {
                    let std: BTreeMap<u64, u64> = serde_json::from_str(t).unwrap();
                    let l: Vec<(u64, u64)> = std.into_iter().collect();
                    ensure!(l == want, "serialised as {t}");
                    ensure!(t.matches(':').count() == want.len(), "serialised as {t}");
                    let b: PMap = serde_json::from_str(t).unwrap();
                    same(plain_list(&b), &want, "read back");
                    ensure!(b == m && b.len() == want.len(), "the map read back differs");
                    let b: PMap = serde_json::from_value(serde_json::from_str(t).unwrap()).unwrap();
                    same(plain_list(&b), &want, "read back from a value");
                }
                let texts = [
                    serde_json::to_string(&s).unwrap(),
                    serde_json::to_string(&s.pin()).unwrap(),
                    serde_json::to_string(&s.pin_owned()).unwrap(),
                ];
                for t in &texts {
                    let mut l: Vec<u64> = serde_json::from_str(t).unwrap();
                    l.sort();
                    ensure!(l.iter().map(|k| (*k, 0)).eq(keys.iter().copied()), "serialised as {t}");
                    let b: PSet = serde_json::from_str(t).unwrap();
                    same(plain_list_set(&b), &keys, "read back");
                    ensure!(b == s && b.len() == keys.len(), "the set read back differs");
                    let b: PSet = serde_json::from_value(serde_json::from_str(t).unwrap()).unwrap();
                    same(plain_list_set(&b), &keys, "read back from a value");
                }
                // Duplicates in the text: the later one wins; garbage is an error.
                let mut t = String::from("{\"7\":1");
                want.iter().for_each(|(k, x)| t += &format!(",\"{k}\":0,\"{k}\":{x}"));
                let dup = t.clone() + "}";
                let b: PMap = serde_json::from_str(&dup).unwrap();
                let mut w7 = want.clone();
                w7.push((7, 1));
                w7.sort();
                same(plain_list(&b), &w7, "duplicates");
                for bad in [t.clone(), t.clone() + ",\"x\":1}", t + ",\"8\":[]}"] {
                    let r: Result<PMap, _> = serde_json::from_str(&bad);
                    ensure!(r.is_err(), "{bad} is accepted");
                }
                let mut t = String::from("[7,7");
                want.iter().for_each(|(k, _)| t += &format!(",{k},{k}"));
                let b: PSet = serde_json::from_str(&(t.clone() + "]")).unwrap();
                let mut w7 = keys.clone();
                w7.push((7, 0));
                w7.sort();
                same(plain_list_set(&b), &w7, "duplicates");
                for bad in [t.clone(), t.clone() + ",\"x\"]", t + ",{}]"] {
                    let r: Result<PSet, _> = serde_json::from_str(&bad);
                    ensure!(r.is_err(), "{bad} is accepted");
                }
            });
        }
    }
    Fam::cases("serialising", v, LONG)
}

// ---------------------------------------------------------------------------------------
// C20: work per operation.

fn big_prog(m: Mode, s: Scheme, setup: &str) -> Prog {
    Prog {
        set: false,
        mode: m,
        cap: 1,
        scheme: s,
        setup: ops(setup),
        threads: vec![],
    }
}

/// Single operations at every moment of resizes of many sizes.
pub fn chunk_work(thorough: bool) -> Fam {
    let mut v = vec![];
    let chunks: &[usize] = if thorough { &[1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 100] } else { &[1, 2, 3, 5, 8, 64] };
    let sizes: &[u16] = if thorough { &[8, 16, 26, 32, 64, 128, 256, 1024] } else { &[8, 26, 64, 256] };
    for &c in chunks {
        for &n in sizes {
            for s in [Scheme::Lin, Scheme::Ideal] {
                let text = format!("I{c} hash={} tables growing over {n} keys and shrinking", s.name());
                case(&mut v, text, move || {
                    let map = new_map(I(c), 1);
                    let mut tag = 0u32;
                    let mut step = |what: &str, f: &dyn Fn(u32)| {
                        tag += 1;
                        OWN_TAG.set(tag);
                        reset_foreign_hashes();
                        f(tag);
                        let h = foreign_hashes() as usize;
                        ensure!(h <= c + 1, "{what} hashed {h} stored keys, the chunk is {c}");
                    };
                    for i in 0..n {
                        // Every kind of write at every stage of the growth.
                        step("insert", &|t| {
                            map.insert(K::new(i, t, s), V::new(0), &map.guard());
                        });
                        match i % 6 {
                            0 => step("insert of a present key", &|t| {
                                map.insert(K::new(i / 2, t, s), V::new(0), &map.guard());
                            }),
                            1 => step("update", &|t| {
                                map.update(K::new(i / 3, t, s), |_| V::new(1), &map.guard());
                            }),
                            2 => step("compute", &|t| {
                                map.compute(K::new(i / 4, t, s), |_| Operation::Insert::<_, ()>(V::new(1)), &map.guard());
                            }),
                            3 => step("remove of an absent key", &|t| {
                                map.remove(&K::new(i + 5000, t, s), &map.guard());
                            }),
                            4 => step("update_or_insert", &|t| {
                                map.update_or_insert(K::new(i / 5, t, s), |_| V::new(1), V::new(2), &map.guard());
                            }),
                            _ => step("try_insert", &|t| {
                                let _ = map.try_insert(K::new(i / 5, t, s), V::new(2), &map.guard());
                            }),
                        }
                    }
                    for i in 0..n {
                        if i % 16 != 3 {
                            step("remove", &|t| {
                                map.remove(&K::new(i, t, s), &map.guard());
                            });
                        }
                    }
                    for i in 0..n {
                        step("insert into a sparse table", &|t| {
                            map.insert(K::new(i + 2000, t, s), V::new(0), &map.guard());
                        });
                        step("remove", &|t| {
                            map.remove(&K::new(i + 2000, t, s), &map.guard());
                        });
                    }
                    drop(map);
                    leak_check();
                });
            }
        }
    }
    Fam::cases("work at every stage of a resize", v, LONG)
}

/// Tables that fill up with tombstones faster than they are copied: operations pass through
/// several nested resizes, and still copy at most one chunk.
pub fn nested_work(thorough: bool) -> Fam {
    let mut v = vec![];
    let chunks: &[usize] = if thorough { &[1, 2, 3, 4, 5, 7, 8, 9] } else { &[1, 2, 3, 5] };
    let sizes: &[usize] = if thorough { &[1, 12, 24, 48, 96, 192] } else { &[1, 24, 96] };
    for &c in chunks {
        for &n in sizes {
            for (live, others) in [(2u16, 0u16), (7, 0), (2, 10), (6, 40), (3, 90)] {
                for kind in ["insert", "insert, update", "insert, compute", "insert, try_insert", "get_or_insert", "update_or_insert, remove_if"] {
                    let text = format!("I{c} capacity {n}, {live} keys of equal hashes at a time and {others} others: {kind}");
                    case(&mut v, text, move || {
                        let s = Scheme::Low;
                        let map = new_map(I(c), n);
                        for i in 0..others {
                            map.insert(K::new(200 + i, 0, s), V::new(0), &map.guard());
                        }
                        let mut tag = 0u32;
                        let mut step = |what: &str, f: &dyn Fn(u32)| {
                            tag += 1;
                            OWN_TAG.set(tag);
                            reset_foreign_hashes();
                            f(tag);
                            let h = foreign_hashes() as usize;
                            ensure!(h <= c, "{what} hashed {h} stored keys, the chunk is {c}");
                        };
                        for i in 0..200u16 {
                            let key = |t| K::new(i % 90, t, s);
                            match kind {
                                "get_or_insert" => step("get_or_insert", &|t| {
                                    map.get_or_insert(key(t), V::new(0), &map.guard());
                                }),
                                "update_or_insert, remove_if" => step("update_or_insert", &|t| {
                                    map.update_or_insert(key(t), |_| V::new(1), V::new(2), &map.guard());
                                }),
                                _ => step("insert", &|t| {
                                    map.insert(key(t), V::new(0), &map.guard());
                                }),
                            }
                            if i < live {
                                continue;
                            }
                            let j = (i - live) % 90;
                            match kind {
                                "insert, update" => step("update", &|t| {
                                    map.update(K::new(j, t, s), |_| V::new(1), &map.guard());
                                }),
                                "insert, compute" => step("compute", &|t| {
                                    map.compute(K::new(j, t, s), |_| Operation::Insert::<_, ()>(V::new(1)), &map.guard());
                                }),
                                "insert, try_insert" => step("try_insert", &|t| {
                                    let _ = map.try_insert(K::new(j, t, s), V::new(1), &map.guard());
                                }),
                                _ => (),
                            }
                            if kind.ends_with("remove_if") {
                                step("remove_if", &|t| {
                                    let k = K::new(j, t, s);
                                    let _ = map.remove_if(&k, |_, _| true, &map.guard());
                                });
                            } else {
                                step("remove", &|t| {
                                    map.remove(&K::new(j, t, s), &map.guard());
                                });
                            }
                        }
                        drop(map);
                        leak_check();
                    });
                }
            }
        }
    }
    Fam::cases("work in nested resizes", v, LONG)
}

/// A resize ends after a number of writes that is proportional to the table.
pub fn resize_progress(thorough: bool) -> Fam {
    let mut v = vec![];
    let chunks: &[usize] = if thorough { &[1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 64, 100, 1 << 40] } else { &[1, 2, 3, 5, 8, 64, 1 << 40] };
    let sizes: &[u16] = if thorough { &[8, 16, 32, 64, 128, 256, 512, 1024] } else { &[8, 16, 32, 64, 256] };
    for &c in chunks {
        for &n in sizes {
            for kind in ["insert", "replace", "update", "compute", "remove", "get_or_insert"] {
                let text = format!("I{c} a table of {n} slots grows while there is only: {kind}");
                case(&mut v, text, move || {
                    let s = Scheme::Lin;
                    let map = new_map(I(c), n as usize / 8 * 6);
                    let mut i = 0u16;
                    let t0 = table_allocs();
                    while table_allocs() == t0 {
                        map.insert(K::new(i, i as u32, s), V::new(0), &map.guard());
                        i += 1;
                        ensure!(i < 5 * n + 100, "no resize after {i} keys");
                    }
                    let old = i;
                    let mut done = 0u64;
                    let most = (4 * n as u64).div_ceil(c as u64) + 4;
                    while tables() > 1 {
                        done += 1;
                        ensure!(done <= most, "a resize of at most {} slots with chunks of {c} is not over after {most} writes", 4 * n);
                        let g = map.guard();
                        let j = (done % old as u64) as u16;
                        match kind {
                            "insert" => {
                                map.insert(K::new(i, 0, s), V::new(0), &g);
                                i += 1;
                            }
                            "replace" => {
                                map.insert(K::new(j, 0, s), V::new(0), &g);
                            }
                            "update" => {
                                map.update(K::new(j, 0, s), |_| V::new(0), &g);
                            }
                            "compute" => {
                                map.compute(K::new(j, 0, s), |e| if e.is_some() { Operation::Remove } else { Operation::Insert::<_, ()>(V::new(1)) }, &g);
                            }
                            "remove" => {
                                map.remove(&Q::new(j, s), &g);
                            }
                            _ => {
                                map.get_or_insert(K::new(i, 0, s), V::new(0), &g);
                                i += 1;
                            }
                        }
                    }
                    drop(map);
                    leak_check();
                });
            }
        }
    }
    Fam::cases("resizes end", v, LONG)
}

/// Blocking mode: every entry is hashed at most once per table allocated.
pub fn blocking_work(thorough: bool) -> Fam {
    let mut v = vec![];
    let sizes: &[u16] = if thorough { &[8, 16, 26, 40, 64, 128, 256, 1024, 4096, 8000] } else { &[8, 26, 64, 256, 1024, 6500] };
    for &n in sizes {
        for s in [Scheme::Lin, Scheme::Ideal] {
            for w in ["", "remove", "reserve", "clear"] {
                let text = format!("B hash={} tables growing over {n} keys and shrinking: {w}", s.name());
                case(&mut v, text, move || {
                    let map = new_map(B, 1);
                    let mut tag = 0u32;
                    let mut step = |what: &str, f: &dyn Fn(u32)| {
                        tag += 1;
                        OWN_TAG.set(tag);
                        reset_foreign_hashes();
                        let (t0, have) = (table_allocs(), map.len());
                        f(tag);
                        let (h, t) = (foreign_hashes() as usize, table_allocs() - t0);
                        ensure!(h <= t * have, "{what} hashed {h} stored keys although {t} tables were allocated for {have} keys");
                    };
                    for i in 0..n {
                        step("insert", &|t| {
                            map.insert(K::new(i, t, s), V::new(0), &map.guard());
                        });
                        if i % 5 == 0 {
                            step("update", &|t| {
                                map.update(K::new(i / 3, t, s), |_| V::new(1), &map.guard());
                            });
                        }
                    }
                    match w {
                        "remove" => {
                            for i in 0..n {
                                if i % 16 != 3 {
                                    step("remove", &|t| {
                                        map.remove(&K::new(i, t, s), &map.guard());
                                    });
                                }
                            }
                        }
                        "reserve" => step("reserve", &|_| map.reserve(n as usize * 2, &map.guard())),
                        "clear" => step("clear", &|_| map.clear(&map.guard())),
                        _ => {}
                    }
                    for i in 0..n.min(400) {
                        step("insert into the table", &|t| {
                            map.insert(K::new(i + 10_000, t, s), V::new(0), &map.guard());
                        });
                        step("remove", &|t| {
                            map.remove(&K::new(i + 10_000, t, s), &map.guard());
                        });
                    }
                    drop(map);
                    leak_check();
                });
            }
        }
    }
    let _ = (Flags::default(), G::L, big_prog);
    Fam::cases("blocking resizes", v, LONG)
}

#[allow(dead_code)]
fn guards_are_guards<T: Guard>() {}

// ---------------------------------------------------------------------------------------
// C19: what the type checker allows is what the model allows.

pub fn capabilities(probes: Vec<crate::caps::Probe>) -> Fam {
    let mut v = vec![];
    for p in probes {
        let (allowed, actual, exact, why) = (p.allowed, p.actual, p.exact, p.why);
        case(&mut v, p.text, move || {
            ensure!(allowed || !actual, "the code allows it, but: {why}");
            ensure!(actual || !allowed || !exact, "the code forbids it, but no thread can do anything wrong with it");
        });
    }
    Fam::cases("Send and Sync of every type", v, LONG)
}
