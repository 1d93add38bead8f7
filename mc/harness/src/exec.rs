//! Executing operations of a program against the real map or set and recording their effects.
use crate::lin::{self, Act, Call, Hist};
use crate::prog::{Op, Pol, Pred, G};
use crate::types::*;
use papaya::{Compute, HashMapRef, HashSetRef, Operation};
use seize::rt::{self, Sys, MAXT};
use seize::Guard;
use std::cell::{Cell, RefCell};

pub struct Inject;

struct Held {
    k: *const K,
    v: *const V,
    id: u16,
    val: u64,
}

#[derive(Clone, Copy, Default)]
pub struct Flags {
    /// len agrees at quiescence.
    pub len: bool,
    /// Nothing leaks.
    pub leak: bool,
    /// Iteration agrees with lookups at quiescence.
    pub iter: bool,
    /// Reads never wait and are bounded.
    pub reads: bool,
    /// Nothing ever waits.
    pub nowait: bool,
    /// The threads of the program do not change the contents.
    pub still: bool,
    /// Key identity as in the standard library.
    pub ident: bool,
    /// Once at rest, there is one table, no garbage and nothing but the live entries.
    pub tidy: bool,
    /// Hash evaluations per operation are bounded (incremental chunk).
    pub hashes: Option<u32>,
    /// What thread 2 may do to objects of others (an index into `caps::DYN`).
    pub facts: Option<u8>,
    /// Reads only read, and hash nothing but the key they look for.
    pub pure: bool,
    /// Iterations only read.
    pub pure_iter: bool,
    /// Only memory errors count (see `Config::lenient`).
    pub lenient: bool,
}

pub struct Cx {
    pub scheme: Scheme,
    pub set: bool,
    pub flags: Flags,
    pub universe: Vec<u16>,
    lookup: Vec<u16>,
    pub hist: Hist,
    /// Sequential model: (id, value), valid while `seq`.
    pub state: Vec<(u16, Option<u64>)>,
    tag_std: Vec<u32>,
    tag_new: Vec<u32>,
    pub seq: bool,
    applied: usize,
    held: Vec<Vec<Held>>,
    opno: [u32; MAXT],
    pub ident_finding: u64,
    /// Every result of the sequential operations, hashed (to compare API flavours).
    pub max_read_steps: u32,
    pub max_foreign: u32,
    /// What the threads work on, for the operations that have no guard.
    map: *const Map,
    pset: *const Set,
}

/// State of the closures of one operation.
pub struct Cl {
    boom: u32,
    calls: Cell<u32>,
    none_calls: Cell<u32>,
    last: Cell<Option<Option<u64>>>,
    log: RefCell<Vec<(u16, u64, bool)>>,
    call: Cell<Option<Call>>,
    /// What the closure does on the map itself, and at which of its calls.
    back: Cell<[Option<(u32, *const [Op])>; 4]>,
    cx: Cell<*mut Cx>,
    tid: Cell<usize>,
}

impl Cl {
    fn new(boom: u32) -> Cl {
        Cl {
            boom,
            calls: Cell::new(0),
            none_calls: Cell::new(0),
            last: Cell::new(None),
            log: RefCell::new(Vec::new()),
            call: Cell::new(None),
            back: Cell::new([None; 4]),
            cx: Cell::new(std::ptr::null_mut()),
            tid: Cell::new(0),
        }
    }
    /// Remember what the operation that runs now works on.
    fn bind(&self, cx: *mut Cx, tid: usize) {
        self.cx.set(cx);
        self.tid.set(tid);
    }
    /// Use the map from within the closure, with a guard of its own per operation.
    fn run_back(&self, ops: *const [Op]) {
        let (cx, tid) = (unsafe { &mut *self.cx.get() }, self.tid.get());
        for o in unsafe { &*ops } {
            let n = cx.held[tid].len();
            if cx.set {
                let m = unsafe { &*cx.pset };
                let g = m.guard();
                run_op(&mut SetG(m, &g), cx, tid, o);
                cx.recheck_from(tid, n);
                drop(g);
            } else {
                let m = unsafe { &*cx.map };
                let g = m.guard();
                run_op(&mut MapG(m, &g), cx, tid, o);
                cx.recheck_from(tid, n);
                drop(g);
            }
        }
    }
    fn hit(&self, arg: Option<u64>) {
        self.calls.set(self.calls.get() + 1);
        if arg.is_none() {
            self.none_calls.set(self.none_calls.get() + 1);
        }
        self.last.set(Some(arg));
        let calls = self.calls.get();
        for (at, ops) in self.back.get().into_iter().flatten() {
            if at == calls {
                self.run_back(ops);
            }
        }
        if calls == self.boom {
            std::panic::resume_unwind(Box::new(Inject));
        }
    }
}

fn bad(msg: String) -> ! {
    rt::violation("spec", msg)
}

#[inline]
fn newval(set: bool, tag: u32, id: u16) -> u64 {
    if set {
        1
    } else {
        ((tag as u64) << 16) | ((id as u64) << 1) | (id as u64 & 1)
    }
}

/// The value an update closure produces.
#[inline]
fn upd(old: u64, tag: u32) -> u64 {
    let x = ((old >> 16).wrapping_mul(8191).wrapping_add(tag as u64)) & ((1 << 47) - 1);
    (x << 16) | (old & 0xfffe) | ((old & 1) ^ 1)
}

impl Cx {
    pub fn new(universe: Vec<u16>, scheme: Scheme, set: bool, flags: Flags) -> Cx {
        let max = universe.iter().copied().max().unwrap_or(0) as usize;
        let mut lookup = vec![u16::MAX; max + 1];
        for (i, k) in universe.iter().enumerate() {
            lookup[*k as usize] = i as u16;
        }
        let n = universe.len();
        Cx {
            scheme,
            set,
            flags,
            state: universe.iter().map(|k| (*k, None)).collect(),
            universe,
            lookup,
            hist: Hist::default(),
            tag_std: vec![0; n],
            tag_new: vec![0; n],
            seq: true,
            applied: 0,
            held: (0..MAXT + 1).map(|_| Vec::new()).collect(),
            opno: [0; MAXT],
            ident_finding: 0,
            max_read_steps: 0,
            max_foreign: 0,
            map: std::ptr::null(),
            pset: std::ptr::null(),
        }
    }

    pub fn reset(&mut self) {
        let _s = Sys::on();
        self.hist.clear();
        self.state.iter_mut().for_each(|x| x.1 = None);
        self.tag_std.iter_mut().for_each(|x| *x = 0);
        self.tag_new.iter_mut().for_each(|x| *x = 0);
        self.seq = true;
        self.applied = 0;
        self.held.iter_mut().for_each(|x| x.clear());
        self.opno = [0; MAXT];
    }

    /// The setup is over: the sequential state becomes the initial state of a concurrent history.
    pub fn go_concurrent(&mut self) {
        let _s = Sys::on();
        self.hist.clear();
        self.applied = 0;
        self.seq = false;
    }

    pub fn index(&self, id: u16) -> usize {
        match self.lookup.get(id as usize) {
            Some(i) if *i != u16::MAX => *i as usize,
            _ => {
                let m = rt::sys(|| format!("key {id} appears, which was never inserted"));
                bad(m)
            }
        }
    }

    fn tag(&mut self, tid: usize) -> u32 {
        self.opno[tid] += 1;
        self.opno[tid] * 8 + tid as u32
    }

    fn hold(&mut self, tid: usize, k: Option<&K>, v: Option<&V>) {
        let _s = Sys::on();
        let id = k.map_or(0, |k| k.read());
        let val = v.map_or(0, |v| v.read());
        if let (Some(_), Some(_)) = (k, v) {
            if (val >> 1) as u16 & 0x7fff != id {
                let m = format!("key {id} is paired with the value {val:#x} of another key");
                bad(m);
            }
        }
        self.held[tid].push(Held {
            k: k.map_or(std::ptr::null(), |k| k),
            v: v.map_or(std::ptr::null(), |v| v),
            id,
            val,
        });
    }

    /// Read through every reference obtained since the guard was taken.
    pub fn recheck(&mut self, tid: usize) {
        self.recheck_from(tid, 0);
    }

    fn recheck_from(&mut self, tid: usize, n: usize) {
        for h in &self.held[tid][n..] {
            unsafe {
                if !h.k.is_null() && (*h.k).read() != h.id {
                    rt::fatal("uaf", rt::sys(|| format!("a held key reference changed from {}", h.id)));
                }
                if !h.v.is_null() && (*h.v).read() != h.val {
                    rt::fatal("uaf", rt::sys(|| format!("a held value reference changed from {:#x}", h.val)));
                }
            }
        }
        self.held[tid].truncate(n);
    }

    fn see_key(&mut self, tid: usize, k: &K) {
        if !self.flags.ident || !self.seq {
            return;
        }
        let i = self.index(k.read());
        let _ = tid;
        if k.tag == self.tag_std[i] {
            return;
        }
        if k.tag == self.tag_new[i] {
            self.ident_finding += 1;
            return;
        }
        bad(rt::sys(|| {
            format!(
                "key {} stored is neither the first nor the last one inserted (tag {}, first {}, last {})",
                k.id, k.tag, self.tag_std[i], self.tag_new[i]
            )
        }));
    }

    fn push(&mut self, id: u16, act: Act, c: &Call, r: (u32, rt::VC)) -> i32 {
        self.hist.push(id, act, c, r, -1)
    }

    /// Sequential phases: apply the new events to the model.
    fn apply(&mut self, op: &Op, tag: u32) {
        if !self.seq {
            return;
        }
        while self.applied < self.hist.evs.len() {
            let (key, act) = {
                let e = &self.hist.evs[self.applied];
                (e.key, e.act)
            };
            self.applied += 1;
            let i = self.index(key);
            let s = self.state[i].1;
            match lin::apply(s, act) {
                Ok(n) => {
                    if let Act::Set { prev, .. } = act {
                        self.tag_new[i] = tag;
                        if prev.is_none() {
                            self.tag_std[i] = tag;
                        }
                    }
                    self.state[i].1 = n;
                }
                Err(()) => {
                    let m = rt::sys(|| {
                        format!(
                            "{}: key {key} is {} but the operation {}",
                            op.text(),
                            lin::show(s),
                            lin::show_act(act)
                        )
                    });
                    rt::violation("seq", m);
                }
            }
        }
        let _s = Sys::on();
        if self.applied > 64 {
            self.hist.clear();
            self.applied = 0;
        }
    }

    /// Check the final lookups against the sequential model.
    pub fn apply_reads(&mut self) {
        self.apply(&Op::Refresh, 0);
    }

    pub fn present(&self) -> usize {
        self.state.iter().filter(|x| x.1.is_some()).count()
    }

    fn cost(&mut self, op: &Op, is_read: bool) {
        let (steps, waits) = rt::op_cost();
        let writes = rt::op_writes();
        if is_read && self.flags.pure && (writes > 0 || foreign_hashes() > 0) {
            let m = rt::sys(|| format!("{} writes {writes} times and hashes {} stored keys", op.text(), foreign_hashes()));
            rt::violation("write", m);
        }
        if is_read {
            self.max_read_steps = self.max_read_steps.max(steps);
        }
        let foreign = foreign_hashes();
        self.max_foreign = self.max_foreign.max(foreign);
        if let Some(b) = self.flags.hashes {
            if foreign > b {
                let m = rt::sys(|| format!("{} hashed {foreign} stored keys, allowed are {b}", op.text()));
                rt::violation("work", m);
            }
        }
        if (is_read && self.flags.reads || self.flags.nowait) && (waits > 0 || steps > 900) {
            let m = rt::sys(|| format!("{} waited {waits} times and took {steps} own steps", op.text()));
            rt::violation("wait", m);
        }
    }
}

/// Bookkeeping of one iteration.
struct It {
    last: Vec<i32>,
    call: Call,
}

impl It {
    fn new(cx: &Cx, call: Call) -> It {
        let _s = Sys::on();
        It {
            last: vec![-1; cx.universe.len()],
            call,
        }
    }
    fn item(&mut self, cx: &mut Cx, id: u16, act: Act) {
        let r = lin::end();
        let i = cx.index(id);
        let mut after = -1;
        if self.last[i] >= 0 {
            // The key was yielded before: it must have been absent in between.
            after = cx.hist.push(id, Act::Get(None), &self.call, r, self.last[i]);
        }
        self.last[i] = cx.hist.push(id, act, &self.call, r, after);
    }
    fn done(self, cx: &mut Cx, r: (u32, rt::VC)) {
        let writes = rt::op_writes();
        if cx.flags.pure_iter && writes > 0 {
            rt::violation("write", rt::sys(|| format!("the iteration writes {writes} times")));
        }
        for i in 0..self.last.len() {
            if self.last[i] < 0 {
                let id = cx.universe[i];
                cx.hist.push(id, Act::Get(None), &self.call, r, -1);
            }
        }
        let _s = Sys::on();
        drop(self);
    }
}

/// Predicate calls of a retain as effects.
fn retain_effects(cx: &mut Cx, cl: &Cl, c: &Call, complete: bool) {
    let r = lin::end();
    let log = rt::sys(|| std::mem::take(&mut *cl.log.borrow_mut()));
    for (id, v, keep) in &log {
        let act = match keep {
            true => Act::Get(Some(*v)),
            // A retain that found a resize in the way removes the entry in the next table,
            // which it does not reach if it panics.
            false if !complete && !cx.seq => Act::MayDel(*v),
            false => Act::CondDel(*v),
        };
        cx.push(*id, act, c, r);
    }
    if complete {
        for i in 0..cx.universe.len() {
            let id = cx.universe[i];
            let n = log.iter().filter(|x| x.0 == id).count();
            if n == 0 {
                cx.push(id, Act::Get(None), c, r);
            } else if n > 1 && cx.seq {
                bad(rt::sys(|| format!("retain asked {n} times about key {id}")));
            }
        }
    }
    let _s = Sys::on();
    drop(log);
}

fn compute_fn<'a>(
    pol: Pol,
    tag: u32,
    id: u16,
    cl: &'a Cl,
) -> impl FnMut(Option<(&K, &V)>) -> Operation<V, Option<u64>> + 'a {
    move |e| {
        let old = e.map(|(k, v)| {
            if k.read() != id {
                bad(rt::sys(|| format!("compute of key {id} is given key {}", k.id)));
            }
            v.read()
        });
        cl.hit(old);
        let ins = || Operation::Insert(V::new(newval(false, tag, id)));
        match (pol, old) {
            (Pol::A, o) => Operation::Abort(o),
            (Pol::U | Pol::I, Some(v)) => Operation::Insert(V::new(upd(v, tag))),
            (Pol::U | Pol::R, None) => Operation::Abort(None),
            (Pol::I | Pol::X | Pol::N | Pol::E, None) => ins(),
            (Pol::R | Pol::X, Some(_)) | (Pol::D, _) => Operation::Remove,
            (Pol::N, Some(v)) => Operation::Abort(Some(v)),
            (Pol::E, Some(v)) => {
                if v % 2 == 1 {
                    Operation::Insert(V::new(upd(v, tag)))
                } else {
                    Operation::Remove
                }
            }
        }
    }
}

fn pred_fn<'a>(p: Pred, id: u16, cl: &'a Cl) -> impl FnMut(&K, &V) -> bool + 'a {
    move |k, v| {
        if k.read() != id {
            bad(rt::sys(|| format!("remove_if of key {id} is given key {}", k.id)));
        }
        cl.hit(Some(v.read()));
        p.eval(v.val)
    }
}

fn retain_fn<'a>(p: Pred, cl: &'a Cl) -> impl FnMut(&K, &V) -> bool + 'a {
    move |k, v| {
        let (id, val) = (k.read(), v.read());
        cl.hit(Some(val));
        let keep = p.eval(val);
        rt::sys(|| cl.log.borrow_mut().push((id, val, keep)));
        keep
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, a: T, b: T) {
    if a != b {
        bad(rt::sys(|| format!("{what}: {a:?}, expected {b:?}")));
    }
}

macro_rules! map_body {
    ($m:expr, [$($g:expr)?], $cx:expr, $tid:expr, $op:expr, $cl:expr, $rec:expr) => {{
        let cx: &mut Cx = $cx;
        let cl: &Cl = $cl;
        let tid: usize = $tid;
        let s = cx.scheme;
        let op: &Op = $op;
        cl.bind(cx, tid);
        match op {
            Op::Get(k) => {
                let q = Q::new(*k, s);
                let c = lin::begin(tid);
                let r = $m.get(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, true);
                let v = r.map(|v| v.read());
                if r.is_some() { cx.hold(tid, None, r); }
                cx.push(*k, Act::Get(v), &c, e);
            }
            Op::Has(k) => {
                let q = Q::new(*k, s);
                let c = lin::begin(tid);
                let r = $m.contains_key(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, true);
                cx.push(*k, if r { Act::Some } else { Act::Get(None) }, &c, e);
            }
            Op::Kv(k) => {
                // Lookup by an owned form of the key.
                let q = K::new(*k, 0, s);
                OWN_TAG.set(0);
                let c = lin::begin(tid);
                let r = $m.get_key_value(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, true);
                if let Some((rk, rv)) = r {
                    eq("get_key_value key", rk.read(), *k);
                    cx.hold(tid, Some(rk), Some(rv));
                    cx.see_key(tid, rk);
                }
                cx.push(*k, Act::Get(r.map(|x| x.1.read())), &c, e);
            }
            Op::Ins(k) => {
                let tag = cx.tag(tid);
                OWN_TAG.set(tag);
                let new = newval(false, tag, *k);
                let (key, val) = (K::new(*k, tag, s), V::new(new));
                let c = lin::begin(tid);
                let r = $m.insert(key, val $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                let prev = r.map(|v| v.read());
                if r.is_some() { cx.hold(tid, None, r); }
                cx.push(*k, Act::Set { new, prev }, &c, e);
            }
            Op::Try(k) => {
                let tag = cx.tag(tid);
                OWN_TAG.set(tag);
                let new = newval(false, tag, *k);
                let (key, val) = (K::new(*k, tag, s), V::new(new));
                let c = lin::begin(tid);
                let r = $m.try_insert(key, val $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                match r {
                    Ok(v) => {
                        eq("try_insert value", v.read(), new);
                        cx.hold(tid, None, Some(v));
                        cx.push(*k, Act::Set { new, prev: None }, &c, e);
                    }
                    Err(x) => {
                        eq("OccupiedError.not_inserted", x.not_inserted.read(), new);
                        cx.hold(tid, None, Some(x.current));
                        cx.push(*k, Act::Get(Some(x.current.read())), &c, e);
                    }
                }
            }
            Op::TryW(k) | Op::GoiW(k) | Op::Goi(k) => {
                let tag = cx.tag(tid);
                OWN_TAG.set(tag);
                let new = newval(false, tag, *k);
                let key = K::new(*k, tag, s);
                let f = || {
                    cl.hit(None);
                    V::new(new)
                };
                let (c, r): (Call, Result<&V, &V>) = match op {
                    Op::TryW(_) => {
                        let c = lin::begin(tid);
                        (c, $m.try_insert_with(key, f $(, $g)?))
                    }
                    Op::GoiW(_) => {
                        let c = lin::begin(tid);
                        (c, Ok($m.get_or_insert_with(key, f $(, $g)?)))
                    }
                    _ => {
                        let v = V::new(new);
                        let c = lin::begin(tid);
                        (c, Ok($m.get_or_insert(key, v $(, $g)?)))
                    }
                };
                let e = lin::end();
                cx.cost(op, false);
                if cl.none_calls.get() > 1 {
                    bad("an insert closure was called twice".into());
                }
                let v = match r { Ok(v) | Err(v) => v };
                cx.hold(tid, None, Some(v));
                let v = v.read();
                let inserted = v == new;
                if matches!(op, Op::TryW(_)) {
                    eq("try_insert_with Ok", r.is_ok(), inserted);
                }
                if inserted && !matches!(op, Op::Goi(_)) {
                    eq("insert closure calls", cl.none_calls.get(), 1);
                }
                cx.push(*k, if inserted { Act::Set { new, prev: None } } else { Act::Get(Some(v)) }, &c, e);
            }
            Op::Upd(k) => {
                let tag = cx.tag(tid);
                OWN_TAG.set(tag);
                let key = K::new(*k, tag, s);
                let c = lin::begin(tid);
                let r = $m.update(key, |v: &V| { cl.hit(Some(v.read())); V::new(upd(v.val, tag)) } $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                match r {
                    Some(v) => {
                        let Some(Some(old)) = cl.last.get() else {
                            bad("update returns a value without calling its closure".into())
                        };
                        eq("update result", v.read(), upd(old, tag));
                        cx.hold(tid, None, Some(v));
                        cx.push(*k, Act::Set { new: v.read(), prev: Some(old) }, &c, e);
                    }
                    None => { cx.push(*k, Act::Get(None), &c, e); }
                }
            }
            Op::Uoi(k) | Op::UoiW(k) => {
                let tag = cx.tag(tid);
                OWN_TAG.set(tag);
                let new = newval(false, tag, *k);
                let key = K::new(*k, tag, s);
                let u = |v: &V| { cl.hit(Some(v.read())); V::new(upd(v.val, tag)) };
                let (c, r) = if let Op::Uoi(_) = op {
                    let v = V::new(new);
                    let c = lin::begin(tid);
                    (c, $m.update_or_insert(key, u, v $(, $g)?))
                } else {
                    let c = lin::begin(tid);
                    (c, $m.update_or_insert_with(key, u, || { cl.hit(None); V::new(new) } $(, $g)?))
                };
                let e = lin::end();
                cx.cost(op, false);
                if cl.none_calls.get() > 1 {
                    bad("an insert closure was called twice".into());
                }
                let v = r.read();
                cx.hold(tid, None, Some(r));
                if v == new {
                    cx.push(*k, Act::Set { new, prev: None }, &c, e);
                } else {
                    // The closure may have been called with stale values before; the last call counts.
                    let old = match cl.last.get() {
                        Some(Some(o)) if upd(o, tag) == v => o,
                        _ => bad(rt::sys(|| format!("update_or_insert returns {v:#x}, which its closure did not produce last"))),
                    };
                    cx.push(*k, Act::Set { new: v, prev: Some(old) }, &c, e);
                }
            }
            Op::Rem(k) => {
                let q = Q::new(*k, s);
                let c = lin::begin(tid);
                let r = $m.remove(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                if r.is_some() { cx.hold(tid, None, r); }
                cx.push(*k, match r { Some(v) => Act::Del(v.read()), None => Act::Get(None) }, &c, e);
            }
            Op::RemE(k) => {
                let q = K::new(*k, 0, s);
                OWN_TAG.set(0);
                let c = lin::begin(tid);
                let r = $m.remove_entry(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                if let Some((rk, rv)) = r {
                    eq("remove_entry key", rk.read(), *k);
                    cx.hold(tid, Some(rk), Some(rv));
                    cx.see_key(tid, rk);
                }
                cx.push(*k, match r { Some((_, v)) => Act::Del(v.read()), None => Act::Get(None) }, &c, e);
            }
            Op::RemIf(k, p) => {
                let q = Q::new(*k, s);
                let c = lin::begin(tid);
                let r = $m.remove_if(&q, pred_fn(*p, *k, cl) $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                match r {
                    Ok(None) => { cx.push(*k, Act::Get(None), &c, e); }
                    Ok(Some((rk, rv))) => {
                        eq("remove_if key", rk.read(), *k);
                        eq("remove_if predicate argument", cl.last.get(), Some(Some(rv.read())));
                        eq("remove_if predicate", p.eval(rv.val), true);
                        cx.hold(tid, Some(rk), Some(rv));
                        cx.see_key(tid, rk);
                        cx.push(*k, Act::Del(rv.val), &c, e);
                    }
                    Err((rk, rv)) => {
                        eq("remove_if key", rk.read(), *k);
                        eq("remove_if predicate argument", cl.last.get(), Some(Some(rv.read())));
                        eq("remove_if predicate", p.eval(rv.val), false);
                        cx.hold(tid, Some(rk), Some(rv));
                        cx.see_key(tid, rk);
                        cx.push(*k, Act::Get(Some(rv.val)), &c, e);
                    }
                }
            }
            Op::Comp(k, pol) => {
                let tag = cx.tag(tid);
                OWN_TAG.set(tag);
                let key = K::new(*k, tag, s);
                let f = compute_fn(*pol, tag, *k, cl);
                let c = lin::begin(tid);
                let r = $m.compute(key, f $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                if cl.none_calls.get() > 1 && matches!(pol, Pol::I | Pol::X | Pol::N | Pol::E) {
                    bad("compute called its closure for an insert twice".into());
                }
                let act = match r {
                    Compute::Inserted(rk, rv) => {
                        eq("compute inserted key", (rk.read(), rk.tag), (*k, tag));
                        cx.hold(tid, Some(rk), Some(rv));
                        eq("compute inserted value", rv.read(), newval(false, tag, *k));
                        Act::Set { new: rv.read(), prev: None }
                    }
                    Compute::Updated { old, new } => {
                        eq("compute updated keys", (old.0.read(), new.0.read()), (*k, *k));
                        cx.hold(tid, Some(old.0), Some(old.1));
                        cx.hold(tid, Some(new.0), Some(new.1));
                        eq("compute closure argument", cl.last.get(), Some(Some(old.1.read())));
                        eq("compute updated value", new.1.read(), upd(old.1.read(), tag));
                        Act::Set { new: new.1.val, prev: Some(old.1.val) }
                    }
                    Compute::Removed(rk, rv) => {
                        eq("compute removed key", rk.read(), *k);
                        cx.hold(tid, Some(rk), Some(rv));
                        eq("compute closure argument", cl.last.get(), Some(Some(rv.read())));
                        Act::Del(rv.read())
                    }
                    Compute::Aborted(x) => {
                        eq("compute closure argument", cl.last.get(), Some(x));
                        Act::Get(x)
                    }
                };
                cx.push(*k, act, &c, e);
            }
            Op::Len => {
                lin::begin(tid);
                let n = $m.len();
                lin::end();
                cx.cost(op, true);
                if cx.seq {
                    let want = cx.state.iter().filter(|x| x.1.is_some()).count();
                    if n != want {
                        rt::violation("len", rt::sys(|| format!("len is {n}, but {want} keys are present")));
                    }
                }
            }
            Op::IsEmpty => {
                lin::begin(tid);
                let n = $m.is_empty();
                lin::end();
                cx.cost(op, true);
                if cx.seq {
                    let want = cx.state.iter().all(|x| x.1.is_none());
                    if n != want {
                        rt::violation("len", rt::sys(|| format!("is_empty is {n}, expected {want}")));
                    }
                }
            }
            Op::Iter => {
                let c = lin::begin(tid);
                let mut it = It::new(cx, c);
                for (k, v) in $m.iter($($g)?) {
                    let (id, val) = (k.read(), v.read());
                    cx.hold(tid, Some(k), Some(v));
                    cx.see_key(tid, k);
                    it.item(cx, id, Act::Get(Some(val)));
                }
                let e = lin::end();
                it.done(cx, e);
            }
            Op::Keys => {
                let c = lin::begin(tid);
                let mut it = It::new(cx, c);
                for k in $m.keys($($g)?) {
                    let id = k.read();
                    cx.hold(tid, Some(k), None);
                    it.item(cx, id, Act::Some);
                }
                let e = lin::end();
                it.done(cx, e);
            }
            Op::Vals => {
                let c = lin::begin(tid);
                let mut it = It::new(cx, c);
                for v in $m.values($($g)?) {
                    let val = v.read();
                    cx.hold(tid, None, Some(v));
                    it.item(cx, (val >> 1) as u16 & 0x7fff, Act::Get(Some(val)));
                }
                let e = lin::end();
                it.done(cx, e);
            }
            Op::Nest(n, v) => {
                let c = lin::begin(tid);
                let mut it = It::new(cx, c);
                let mut i = $m.iter($($g)?);
                let mut cnt = 0;
                if *n == 0 {
                    for o in v { $rec(cx, o); }
                }
                while let Some((k, v2)) = i.next() {
                    let (id, val) = (k.read(), v2.read());
                    cx.hold(tid, Some(k), Some(v2));
                    it.item(cx, id, Act::Get(Some(val)));
                    cnt += 1;
                    if cnt == *n {
                        for o in v { $rec(cx, o); }
                    }
                }
                let e = lin::end();
                it.done(cx, e);
            }
            Op::Retain(p) => {
                let c = lin::begin(tid);
                cl.call.set(Some(c));
                $m.retain(retain_fn(*p, cl) $(, $g)?);
                retain_effects(cx, cl, &c, true);
            }
            Op::Clear => {
                let c = lin::begin(tid);
                $m.clear($($g)?);
                clear_effects(cx, &c);
            }
            Op::Reserve(n) => {
                lin::begin(tid);
                if *n == u16::MAX {
                    // More than there is memory for.
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $m.reserve(1 << 40 $(, $g)?)));
                    match r {
                        Ok(()) => rt::violation("spec", rt::sys(|| "a reserve of a petabyte succeeds".to_string())),
                        Err(e) => drop(e),
                    }
                } else {
                    $m.reserve(*n as usize $(, $g)?);
                }
                lin::end();
                cx.cost(op, false);
            }
            Op::Fill(..) | Op::Drain(..) | Op::AFill(..) | Op::ADrain(..) | Op::Join(_) | Op::Refresh | Op::Dup | Op::Dbg | Op::Same | Op::Ext(..) | Op::Boom(..) | Op::Back(..) | Op::Odd(..) => {
                unreachable!()
            }
        }
    }};
}

fn clear_effects(cx: &mut Cx, c: &Call) {
    let e = lin::end();
    for i in 0..cx.universe.len() {
        let id = cx.universe[i];
        cx.push(id, Act::Kill, c, e);
        if !cx.seq {
            cx.push(id, Act::OptKill, c, e);
            cx.push(id, Act::OptKill, c, e);
        }
    }
}

macro_rules! set_body {
    ($m:expr, [$($g:expr)?], $cx:expr, $tid:expr, $op:expr, $cl:expr, $rec:expr) => {{
        let cx: &mut Cx = $cx;
        let cl: &Cl = $cl;
        let tid: usize = $tid;
        let s = cx.scheme;
        let op: &Op = $op;
        cl.bind(cx, tid);
        match op {
            Op::Get(k) | Op::Kv(k) => {
                let q = Q::new(*k, s);
                let c = lin::begin(tid);
                let r = $m.get(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, true);
                if let Some(rk) = r {
                    eq("get key", rk.read(), *k);
                    cx.hold(tid, r, None);
                    cx.see_key(tid, rk);
                }
                cx.push(*k, Act::Get(r.map(|_| 1)), &c, e);
            }
            Op::Has(k) => {
                let q = K::new(*k, 0, s);
                OWN_TAG.set(0);
                let c = lin::begin(tid);
                let r = $m.contains(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, true);
                cx.push(*k, Act::Get(if r { Some(1) } else { None }), &c, e);
            }
            Op::Ins(k) => {
                let tag = cx.tag(tid);
                OWN_TAG.set(tag);
                let key = K::new(*k, tag, s);
                let c = lin::begin(tid);
                let r = $m.insert(key $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                cx.push(*k, Act::Set { new: 1, prev: if r { None } else { Some(1) } }, &c, e);
            }
            Op::Rem(k) => {
                let q = Q::new(*k, s);
                let c = lin::begin(tid);
                let r = $m.remove(&q $(, $g)?);
                let e = lin::end();
                cx.cost(op, false);
                cx.push(*k, if r { Act::Del(1) } else { Act::Get(None) }, &c, e);
            }
            Op::Len => {
                lin::begin(tid);
                let n = $m.len();
                lin::end();
                cx.cost(op, true);
                if cx.seq {
                    let want = cx.state.iter().filter(|x| x.1.is_some()).count();
                    if n != want {
                        rt::violation("len", rt::sys(|| format!("len is {n}, but {want} keys are present")));
                    }
                }
            }
            Op::IsEmpty => {
                lin::begin(tid);
                let n = $m.is_empty();
                lin::end();
                cx.cost(op, true);
                if cx.seq {
                    let want = cx.state.iter().all(|x| x.1.is_none());
                    if n != want {
                        rt::violation("len", rt::sys(|| format!("is_empty is {n}, expected {want}")));
                    }
                }
            }
            Op::Iter => {
                let c = lin::begin(tid);
                let mut it = It::new(cx, c);
                for k in $m.iter($($g)?) {
                    let id = k.read();
                    cx.hold(tid, Some(k), None);
                    cx.see_key(tid, k);
                    it.item(cx, id, Act::Get(Some(1)));
                }
                let e = lin::end();
                it.done(cx, e);
            }
            Op::Nest(n, v) => {
                let c = lin::begin(tid);
                let mut it = It::new(cx, c);
                let mut i = $m.iter($($g)?);
                let mut cnt = 0;
                if *n == 0 {
                    for o in v { $rec(cx, o); }
                }
                while let Some(k) = i.next() {
                    let id = k.read();
                    cx.hold(tid, Some(k), None);
                    it.item(cx, id, Act::Get(Some(1)));
                    cnt += 1;
                    if cnt == *n {
                        for o in v { $rec(cx, o); }
                    }
                }
                let e = lin::end();
                it.done(cx, e);
            }
            Op::Clear => {
                let c = lin::begin(tid);
                $m.clear($($g)?);
                clear_effects(cx, &c);
            }
            Op::Reserve(n) => {
                lin::begin(tid);
                if *n == u16::MAX {
                    // More than there is memory for.
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| $m.reserve(1 << 40 $(, $g)?)));
                    match r {
                        Ok(()) => rt::violation("spec", rt::sys(|| "a reserve of a petabyte succeeds".to_string())),
                        Err(e) => drop(e),
                    }
                } else {
                    $m.reserve(*n as usize $(, $g)?);
                }
                lin::end();
                cx.cost(op, false);
            }
            Op::Retain(p) => {
                let cl: &Cl = $cl;
                let c = lin::begin(tid);
                cl.call.set(Some(c));
                let p = *p;
                // The predicate of a set sees only the key; its parity decides.
                $m.retain(|k: &K| {
                    let id = k.read();
                    cl.hit(Some(1));
                    let keep = p.eval(id as u64);
                    rt::sys(|| cl.log.borrow_mut().push((id, 1, keep)));
                    keep
                } $(, $g)?);
                retain_effects(cx, cl, &c, true);
            }
            o => panic!("not a set operation: {}", o.text()),
        }
    }};
}

/// What runs the operations of one thread: a map or a set with some kind of guard.
pub trait Exec {
    fn one(&mut self, cx: &mut Cx, tid: usize, op: &Op, cl: &Cl);
    fn refresh(&mut self) {}
}

pub struct MapG<'a, Gd: Guard>(pub &'a Map, pub &'a Gd);
impl<Gd: Guard> Exec for MapG<'_, Gd> {
    fn one(&mut self, cx: &mut Cx, tid: usize, op: &Op, cl: &Cl) {
        let (m, g) = (self.0, self.1);
        map_body!(m, [g], cx, tid, op, cl, |cx: &mut Cx, o: &Op| run_op(
            &mut MapG(m, g),
            cx,
            tid,
            o
        ))
    }
}

pub struct MapR<'a, Gd: Guard>(pub HashMapRef<'a, K, V, Pass, Gd>);
impl<Gd: Guard> Exec for MapR<'_, Gd> {
    fn one(&mut self, cx: &mut Cx, tid: usize, op: &Op, cl: &Cl) {
        let me: *mut Self = self;
        let r = &mut self.0;
        map_body!(r, [], cx, tid, op, cl, |cx: &mut Cx, o: &Op| run_op(
            unsafe { &mut *me },
            cx,
            tid,
            o
        ))
    }
}

pub struct SetG<'a, Gd: Guard>(pub &'a Set, pub &'a Gd);
impl<Gd: Guard> Exec for SetG<'_, Gd> {
    fn one(&mut self, cx: &mut Cx, tid: usize, op: &Op, cl: &Cl) {
        let (mut m, g) = (SetAlias(self.0), self.1);
        set_body!(m, [g], cx, tid, op, cl, |cx: &mut Cx, o: &Op| run_op(
            &mut SetG(m.0, g),
            cx,
            tid,
            o
        ))
    }
}

/// `HashSet::retain` takes `&mut self` although a guard borrows the set: only an owned
/// collector's guard could ever be passed. Route it around the borrow checker.
struct SetAlias<'a>(&'a Set);
impl<'a> std::ops::Deref for SetAlias<'a> {
    type Target = Set;
    fn deref(&self) -> &Set {
        self.0
    }
}
impl SetAlias<'_> {
    fn retain(&mut self, f: impl FnMut(&K) -> bool, g: &impl Guard) {
        let m = self.0 as *const Set as *mut Set;
        unsafe { (*m).retain(f, g) }
    }
}

pub struct SetR<'a, Gd: Guard>(pub HashSetRef<'a, K, Pass, Gd>);
impl<Gd: Guard> Exec for SetR<'_, Gd> {
    fn one(&mut self, cx: &mut Cx, tid: usize, op: &Op, cl: &Cl) {
        let me: *mut Self = self;
        let r = &mut self.0;
        set_body!(r, [], cx, tid, op, cl, |cx: &mut Cx, o: &Op| run_op(
            unsafe { &mut *me },
            cx,
            tid,
            o
        ))
    }
}

/// Run one operation.
pub fn run_op(x: &mut dyn Exec, cx: &mut Cx, tid: usize, op: &Op) {
    if cx.flags.lenient && !cx.seq {
        let op = match op {
            Op::Odd(n, how, o) => {
                set_odd(*n as u32, *how);
                o
            }
            o => o,
        };
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_op_(x, cx, tid, op)));
        set_odd(0, 0);
        // (A payload other than these may live in the arena, which is where it stays.)
        std::mem::forget(r);
        return;
    }
    run_op_(x, cx, tid, op)
}

fn run_op_(x: &mut dyn Exec, cx: &mut Cx, tid: usize, op: &Op) {
    if rt::tracing() {
        rt::trace(|| format!("call {}", op.text()));
    }
    match op {
        Op::Fill(a, b) => (*a..*b).for_each(|k| run_op(x, cx, tid, &Op::Ins(k))),
        Op::Drain(a, b) => (*a..*b).for_each(|k| run_op(x, cx, tid, &Op::Rem(k))),
        Op::AFill(a, b) => {
            rt::atomically(|| (*a..*b).for_each(|k| run_op(x, cx, tid, &Op::Ins(k))))
        }
        Op::ADrain(a, b) => {
            rt::atomically(|| (*a..*b).for_each(|k| run_op(x, cx, tid, &Op::Rem(k))))
        }
        Op::Join(t) => rt::join_thread(*t as usize),
        Op::Refresh | Op::Odd(..) => unreachable!(),
        Op::Dup | Op::Dbg | Op::Same | Op::Ext(..) => whole(cx, tid, op),
        Op::Back(..) | Op::Boom(..) => {
            // A closure may use the map at several of its calls before it panics.
            let (mut back, mut backs) = ([None; 4], 0);
            let mut boom = 0;
            let mut o: &Op = op;
            loop {
                match o {
                    Op::Back(n, v, x) => {
                        back[backs] = Some((*n as u32, &v[..] as *const [Op]));
                        backs += 1;
                        o = x;
                    }
                    Op::Boom(n, x) => {
                        boom = *n as u32;
                        o = x;
                    }
                    _ => break,
                }
            }
            let cl = Cl::new(boom);
            cl.back.set(back);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                x.one(cx, tid, o, &cl);
            }));
            if let Err(e) = r {
                let refused = matches!(*o, Op::Comp(_, Pol::D))
                    && cl.last.get() == Some(None)
                    && e.is::<&str>();
                if !e.is::<Inject>() && !refused {
                    std::panic::resume_unwind(e);
                }
                drop(e);
                if let Op::Retain(_) = *o {
                    let c = cl.call.get().unwrap();
                    retain_effects(cx, &cl, &c, false);
                }
            }
            after(cx, tid, o);
        }
        _ => {
            let cl = Cl::new(0);
            x.one(cx, tid, op, &cl);
            after(cx, tid, op);
        }
    }
    if rt::tracing() {
        rt::trace(|| {
            let mut s = format!("done {}", op.text());
            if let Some(e) = cx.hist.evs.last() {
                if e.tid as usize == tid {
                    s += &format!(": {}", lin::show_act(e.act));
                }
            }
            s
        });
    }
}

/// The items of a copy of the map: each was in the map, and what is missing was absent, at some time.
fn copied(cx: &mut Cx, items: Vec<(u16, Option<u64>)>, c: &Call, r: (u32, rt::VC)) {
    for (id, v) in &items {
        cx.push(*id, v.map_or(Act::Some, |v| Act::Get(Some(v))), c, r);
    }
    for i in 0..cx.universe.len() {
        let id = cx.universe[i];
        if !items.iter().any(|x| x.0 == id) {
            cx.push(id, Act::Get(None), c, r);
        }
    }
    let _s = Sys::on();
    drop(items);
}

/// An iterator of keys and values to insert, each insertion being an operation of its own.
struct Feed<'a> {
    cx: *mut Cx,
    tid: usize,
    tag: u32,
    next: u16,
    end: u16,
    cur: &'a Cell<Option<(Call, u16)>>,
}
impl Feed<'_> {
    fn new_val(&self, k: u16) -> u64 {
        if unsafe { (*self.cx).set } {
            1
        } else {
            newval(false, self.tag, k)
        }
    }
}
impl Iterator for Feed<'_> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        let cx = unsafe { &mut *self.cx };
        if let Some((c, k)) = self.cur.take() {
            let e = lin::end();
            cx.push(k, Act::Put(self.new_val(k)), &c, e);
        }
        if self.next == self.end {
            return None;
        }
        let k = self.next;
        self.next += 1;
        let item = (K::new(k, self.tag, cx.scheme), V::new(newval(false, self.tag, k)));
        self.cur.set(Some((lin::begin(self.tid), k)));
        Some(item)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = (self.end - self.next) as usize;
        (n, Some(n))
    }
}

/// Operations on the whole map or set that take no guard.
fn whole(cx: &mut Cx, tid: usize, op: &Op) {
    let (map, set) = (unsafe { cx.map.as_ref() }, unsafe { cx.pset.as_ref() });
    match op {
        Op::Dup => {
            let c = lin::begin(tid);
            let (m2, s2) = (map.map(|m| m.clone()), set.map(|s| s.clone()));
            let r = lin::end();
            // Nobody else knows the copy.
            let items = rt::atomically(|| {
                let n = cx.universe.len();
                let mut v: Vec<(u16, Option<u64>)> = rt::sys(|| Vec::with_capacity(n));
                let mut found = 0;
                if let Some(m) = &m2 {
                    let g = m.guard();
                    m.iter(&g).for_each(|(k, x)| v.push((k.read(), Some(x.read()))));
                    for id in &cx.universe {
                        found += m.contains_key(&Q::new(*id, cx.scheme), &g) as usize;
                    }
                    if m.len() != v.len() {
                        bad(rt::sys(|| format!("the clone has {} items, its length is {}", v.len(), m.len())));
                    }
                }
                if let Some(s) = &s2 {
                    let g = s.guard();
                    s.iter(&g).for_each(|k| v.push((k.read(), Some(1))));
                    for id in &cx.universe {
                        found += s.contains(&Q::new(*id, cx.scheme), &g) as usize;
                    }
                    if s.len() != v.len() {
                        bad(rt::sys(|| format!("the clone has {} items, its length is {}", v.len(), s.len())));
                    }
                }
                if found != v.len() {
                    bad(rt::sys(|| format!("the clone has {} items, {found} are found", v.len())));
                }
                drop((m2, s2));
                v
            });
            copied(cx, items, &c, r);
        }
        Op::Dbg => {
            let c = lin::begin(tid);
            let t = match (map, set) {
                (Some(m), _) => format!("{m:?}"),
                (_, Some(s)) => format!("{s:?}"),
                _ => unreachable!(),
            };
            let r = lin::end();
            let items = rt::sys(|| {
                t.trim_matches(|c| c == '{' || c == '}')
                    .split(", ")
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let (k, v) = x.split_once(": ").map_or((x, "1"), |x| x);
                        (k[1..].parse().unwrap(), Some(v.parse().unwrap()))
                    })
                    .collect::<Vec<(u16, Option<u64>)>>()
            });
            drop(t);
            copied(cx, items, &c, r);
        }
        Op::Same => {
            lin::begin(tid);
            let same = match (map, set) {
                (Some(m), _) => m == m,
                (_, Some(s)) => s == s,
                _ => unreachable!(),
            };
            lin::end();
            if !same && (cx.seq || cx.flags.still) {
                bad("a map that nobody changes is not equal to itself".into());
            }
        }
        Op::Ext(a, b) => {
            let tag = cx.tag(tid);
            OWN_TAG.set(tag);
            let cur = Cell::new(None);
            let feed = Feed { cx, tid, tag, next: *a, end: *b, cur: &cur };
            match (map, set) {
                (Some(m), _) => (&*m).extend(feed),
                (_, Some(s)) => (&*s).extend(feed.map(|x| x.0)),
                _ => unreachable!(),
            }
            if cur.take().is_some() {
                bad("extend did not exhaust the iterator".into());
            }
        }
        _ => unreachable!(),
    }
}

fn after(cx: &mut Cx, tid: usize, op: &Op) {
    let tag = cx.opno[tid] * 8 + tid as u32;
    cx.apply(op, tag);
}

/// Run the operations of a thread with its kind of guard.
pub fn run_map(map: &Map, shared: Option<&seize::OwnedGuard<'_>>, cx: &mut Cx, tid: usize, g: G, ops: &[Op]) {
    cx.map = map;
    match g {
        G::L => {
            for o in ops {
                if let Op::Join(_) = o {
                    run_op(&mut Nop, cx, tid, o);
                    continue;
                }
                let g = map.guard();
                run_op(&mut MapG(map, &g), cx, tid, o);
                cx.recheck(tid);
                drop(g);
            }
        }
        G::O => {
            for o in ops {
                if let Op::Join(_) = o {
                    run_op(&mut Nop, cx, tid, o);
                    continue;
                }
                let g = map.owned_guard();
                run_op(&mut MapG(map, &g), cx, tid, o);
                cx.recheck(tid);
                drop(g);
            }
        }
        G::H => {
            let mut g = map.guard();
            for o in ops {
                if let Op::Refresh = o {
                    cx.recheck(tid);
                    g.refresh();
                    continue;
                }
                run_op(&mut MapG(map, &g), cx, tid, o);
            }
            cx.recheck(tid);
        }
        G::S => {
            let g = shared.expect("shared guard");
            for o in ops {
                run_op(&mut MapG(map, g), cx, tid, o);
            }
        }
        G::P => {
            let mut r = MapR(map.pin());
            for o in ops {
                run_op(&mut r, cx, tid, o);
            }
            cx.recheck(tid);
        }
        G::Q => {
            for o in ops {
                let mut r = MapR(map.pin_owned());
                run_op(&mut r, cx, tid, o);
                cx.recheck(tid);
            }
        }
        G::M | G::E | G::N => {}
    }
}

pub fn run_set(map: &Set, shared: Option<&seize::OwnedGuard<'_>>, cx: &mut Cx, tid: usize, g: G, ops: &[Op]) {
    cx.pset = map;
    match g {
        G::L => {
            for o in ops {
                if let Op::Join(_) = o {
                    run_op(&mut Nop, cx, tid, o);
                    continue;
                }
                let g = map.guard();
                run_op(&mut SetG(map, &g), cx, tid, o);
                cx.recheck(tid);
                drop(g);
            }
        }
        G::O => {
            for o in ops {
                if let Op::Join(_) = o {
                    run_op(&mut Nop, cx, tid, o);
                    continue;
                }
                let g = map.owned_guard();
                run_op(&mut SetG(map, &g), cx, tid, o);
                cx.recheck(tid);
                drop(g);
            }
        }
        G::H => {
            let g = map.guard();
            for o in ops {
                run_op(&mut SetG(map, &g), cx, tid, o);
            }
            cx.recheck(tid);
        }
        G::S => {
            let g = shared.expect("shared guard");
            for o in ops {
                run_op(&mut SetG(map, g), cx, tid, o);
            }
        }
        G::P => {
            let mut r = SetR(map.pin());
            for o in ops {
                run_op(&mut r, cx, tid, o);
            }
            cx.recheck(tid);
        }
        G::Q => {
            for o in ops {
                let mut r = SetR(map.pin_owned());
                run_op(&mut r, cx, tid, o);
                cx.recheck(tid);
            }
        }
        G::M | G::E | G::N => {}
    }
}

struct Nop;
impl Exec for Nop {
    fn one(&mut self, _: &mut Cx, _: usize, _: &Op, _: &Cl) {
        unreachable!()
    }
}
