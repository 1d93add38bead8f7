//! The concurrent body: a program run against the real map or set.
use crate::exec::{self, Cx, Flags};
use crate::lin::{Act, Call, Lin};
use crate::prog::{Mode, Op, Prog, G};
use crate::types::*;
use papaya::{HashMap, HashSet, ResizeMode};
use seize::rt::{self, Body, Config, Node, Rt, Stats, Violation};
use std::mem::ManuallyDrop;
use std::ptr;

pub fn resize_mode(m: Mode) -> ResizeMode {
    match m {
        Mode::B => ResizeMode::Blocking,
        Mode::I(n) => ResizeMode::Incremental(n),
    }
}

pub fn new_map(mode: Mode, cap: usize) -> Map {
    HashMap::builder()
        .capacity(cap)
        .hasher(Pass)
        .resize_mode(resize_mode(mode))
        .collector(seize::Collector::new())
        .build()
}

pub fn new_set(mode: Mode, cap: usize) -> Set {
    HashSet::builder()
        .capacity(cap)
        .hasher(Pass)
        .resize_mode(resize_mode(mode))
        .collector(seize::Collector::new())
        .build()
}

/// Facts seen on the code, per handle of `caps::DYN`.
pub static WITNESS: [std::sync::atomic::AtomicU32; 8] =
    [const { std::sync::atomic::AtomicU32::new(0) }; 8];
pub static ALLOWED: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
fn allowed_facts(h: u8) -> u8 {
    ALLOWED.get().map_or(0, |v| v[h as usize])
}

pub struct ConcBody {
    pub prog: Prog,
    pub cx: Cx,
    map: *mut Map,
    set: *mut Set,
    shared: ManuallyDrop<Option<seize::OwnedGuard<'static>>>,
    iter: ManuallyDrop<Option<papaya::Iter<'static, K, V, seize::OwnedGuard<'static>>>>,
    pub hb: bool,
    pub lin: Lin,
}

fn has_shared(p: &Prog) -> bool {
    p.threads.iter().any(|t| matches!(t.0, G::S | G::M | G::E | G::N))
}

impl ConcBody {
    pub fn new(prog: &Prog, flags: Flags, hb: bool) -> ConcBody {
        ConcBody {
            cx: Cx::new(prog.universe(), prog.scheme, prog.set, flags),
            prog: prog.clone(),
            map: ptr::null_mut(),
            set: ptr::null_mut(),
            shared: ManuallyDrop::new(None),
            iter: ManuallyDrop::new(None),
            hb,
            lin: Lin::new(),
        }
    }

    /// The history oracle, after a complete execution.
    pub fn check(&mut self) -> Option<Violation> {
        if let Some(h) = self.cx.flags.facts {
            let seen = facts();
            WITNESS[h as usize].fetch_or(seen as u32, std::sync::atomic::Ordering::Relaxed);
            let extra = seen & !allowed_facts(h);
            if extra != 0 {
                let msg = format!(
                    "thread 2, which only has {}: {}, of objects that other threads made; the model says it cannot",
                    crate::caps::DYN[h as usize].1,
                    crate::caps::bit_names(extra)
                );
                return Some(Violation { class: "facts", msg });
            }
        }
        if self.cx.flags.lenient {
            return None;
        }
        match self.lin.check(&self.cx.hist, &self.cx.state, self.hb) {
            Ok(()) => None,
            Err(msg) => Some(Violation { class: "lin", msg }),
        }
    }
}

/// Checks of a quiescent map or set; returns nothing, reports violations.
macro_rules! quiescent {
    ($cx:expr, $m:expr, $get:expr, $items:expr) => {{
        let cx: &mut Cx = $cx;
        let m = $m;
        let g = m.guard();
        let c: Call = crate::lin::begin(0);
        let mut present = 0;
        let mut found: Vec<(u16, Option<u64>)> = rt::sys(|| Vec::with_capacity(cx.universe.len()));
        for i in 0..cx.universe.len() {
            let id = cx.universe[i];
            let q = Q::new(id, cx.scheme);
            let v: Option<u64> = $get(m, &q, &g);
            let e = crate::lin::end();
            cx.hist.push(id, Act::Get(v), &c, e, -1);
            if v.is_some() {
                present += 1;
            }
            found.push((id, v));
        }
        if cx.flags.len {
            let n = m.len();
            if n != present {
                let s = rt::sys(|| format!("at quiescence len is {n}, but {present} keys are present"));
                rt::violation("len", s);
            }
            if m.is_empty() != (present == 0) {
                rt::violation("len", "is_empty disagrees with the contents".into());
            }
        }
        if cx.flags.iter {
            let mut items: Vec<(u16, u64)> = $items(m, &g);
            let _s = rt::Sys::on();
            items.sort();
            let want: Vec<(u16, u64)> =
                found.iter().filter_map(|x| x.1.map(|v| (x.0, v))).collect();
            if items != want {
                let s = format!("quiescent iteration yields {items:x?}, lookups find {want:x?}");
                rt::violation("iter", s);
            }
        }
        rt::sys(|| drop(found));
        drop(g);
        present
    }};
}

pub fn quiescent_map(cx: &mut Cx, m: &Map) -> usize {
    quiescent!(
        cx,
        m,
        |m: &Map, q: &Q, g: &seize::LocalGuard| m.get(q, g).map(|v| v.read()),
        |m: &Map, g: &seize::LocalGuard| {
            let mut v: Vec<(u16, u64)> = rt::sys(|| Vec::with_capacity(64));
            for (k, x) in m.iter(g) {
                let y = (k.read(), x.read());
                rt::sys(|| v.push(y));
            }
            v
        }
    )
}

pub fn quiescent_set(cx: &mut Cx, m: &Set) -> usize {
    quiescent!(
        cx,
        m,
        |m: &Set, q: &Q, g: &seize::LocalGuard| m.get(q, g).map(|_| 1),
        |m: &Set, g: &seize::LocalGuard| {
            let mut v: Vec<(u16, u64)> = rt::sys(|| Vec::with_capacity(64));
            for k in m.iter(g) {
                let y = (k.read(), 1);
                rt::sys(|| v.push(y));
            }
            v
        }
    )
}

/// After everything was dropped.
pub fn leak_check() {
    let objs = rt::live_objs();
    let (blocks, bytes, tables, ..) = rt::mem();
    if objs != 0 || blocks != 0 || tables != 0 {
        let s = rt::sys(|| {
            format!("after dropping the map: {objs} keys or values, {tables} tables and {blocks} allocations ({bytes} bytes) are left")
        });
        rt::violation("leak", s);
    }
}

impl Body for ConcBody {
    fn threads(&self) -> usize {
        self.prog.threads.len()
    }

    fn setup(&mut self) {
        // Whatever an aborted execution left behind lives in memory that is gone.
        self.shared = ManuallyDrop::new(None);
        self.iter = ManuallyDrop::new(None);
        self.cx.reset();
        reset_facts();
        reset_odd();
        if self.prog.set {
            self.set = Box::into_raw(Box::new(new_set(self.prog.mode, self.prog.cap)));
            let set = unsafe { &*self.set };
            exec::run_set(set, None, &mut self.cx, 0, G::L, &self.prog.setup);
            if has_shared(&self.prog) {
                self.shared = ManuallyDrop::new(Some(set.owned_guard()));
            }
        } else {
            self.map = Box::into_raw(Box::new(new_map(self.prog.mode, self.prog.cap)));
            let map = unsafe { &*self.map };
            exec::run_map(map, None, &mut self.cx, 0, G::L, &self.prog.setup);
            if has_shared(&self.prog) {
                self.shared = ManuallyDrop::new(Some(map.owned_guard()));
            }
            if self.prog.threads.iter().any(|t| t.0 == G::N) {
                let me: *mut ConcBody = self;
                let g = unsafe { (*me).shared.as_ref().unwrap() };
                self.iter = ManuallyDrop::new(Some(map.iter(g)));
            }
        }
        self.cx.go_concurrent();
    }

    fn thread(&mut self, tid: usize) {
        let me: *mut ConcBody = self;
        // Coroutines of one execution take turns on one OS thread.
        unsafe {
            let (g, ops): &(G, Vec<Op>) = &(*me).prog.threads[tid - 1];
            if *g == G::M {
                // (No reference into `me` may be live across a switch.)
                let guard = (*me).shared.take();
                drop(guard);
                return;
            }
            if *g == G::N {
                let it = (*me).iter.take().unwrap();
                for (k, v) in it {
                    k.read();
                    v.read();
                }
                return;
            }
            let shared = (*me).shared.as_ref();
            if *g == G::E {
                use seize::Guard;
                let c = shared.unwrap().collector();
                for _ in ops {
                    let guard = c.enter();
                    guard.flush();
                    drop(guard);
                }
                return;
            }
            if (*me).prog.set {
                exec::run_set(&*(*me).set, shared, &mut (*me).cx, tid, *g, ops);
            } else {
                exec::run_map(&*(*me).map, shared, &mut (*me).cx, tid, *g, ops);
            }
        }
    }

    fn finish(&mut self) {
        for t in 1..=self.prog.threads.len() {
            self.cx.recheck(t);
        }
        unsafe { ManuallyDrop::drop(&mut self.shared) };
        self.shared = ManuallyDrop::new(None);
        if self.cx.flags.lenient {
            let (map, set) = (self.map, self.set);
            let one = |f: &mut dyn FnMut()| std::mem::forget(std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)));
            if self.prog.set {
                one(&mut || std::mem::forget(quiescent_set(&mut self.cx, unsafe { &*set })));
                one(&mut || drop(unsafe { Box::from_raw(set) }));
            } else {
                one(&mut || std::mem::forget(quiescent_map(&mut self.cx, unsafe { &*map })));
                one(&mut || drop(unsafe { Box::from_raw(map) }));
            }
            return;
        }
        if self.prog.set {
            let n = quiescent_set(&mut self.cx, unsafe { &*self.set });
            if self.cx.flags.tidy {
                crate::seq::tidy_check(&self.cx, n);
            }
            drop(unsafe { Box::from_raw(self.set) });
        } else {
            let n = quiescent_map(&mut self.cx, unsafe { &*self.map });
            if self.cx.flags.tidy {
                crate::seq::tidy_check(&self.cx, n);
            }
            drop(unsafe { Box::from_raw(self.map) });
        }
        if self.cx.flags.leak {
            leak_check();
        }
    }
}

pub struct Outcome {
    pub stats: Stats,
    pub lin_checked: u64,
    pub lin_distinct: u64,
    pub max_read_steps: u32,
    pub violation: Option<(Violation, Vec<Node>)>,
}

fn as_conc(b: &mut dyn Body) -> &mut ConcBody {
    // Only `ConcBody` is ever explored with these callbacks.
    unsafe { &mut *(b as *mut dyn Body as *mut ConcBody) }
}

pub fn explore(
    rt: &mut Rt,
    prog: &Prog,
    flags: Flags,
    cfg: &Config,
    cap: u64,
    stop: &dyn Fn() -> bool,
) -> Outcome {
    let mut body = ConcBody::new(prog, flags, cfg.level >= 2 && cfg.w > 0);
    let (stats, violation) = rt.explore(cfg, &mut body, &mut |b| as_conc(b).check(), cap, stop);
    Outcome {
        stats,
        lin_checked: body.lin.checked,
        lin_distinct: body.lin.distinct,
        max_read_steps: body.cx.max_read_steps,
        violation,
    }
}

pub fn replay(
    rt: &mut Rt,
    prog: &Prog,
    flags: Flags,
    cfg: &Config,
    path: &[Node],
) -> (Vec<String>, Option<Violation>) {
    let mut body = ConcBody::new(prog, flags, cfg.level >= 2 && cfg.w > 0);
    rt.replay(cfg, &mut body, path, &mut |b| as_conc(b).check())
}
