//! The model-checking runtime: controlled scheduler, deterministic arena, memory model,
//! reclamation bookkeeping and a depth-first, deviation-bounded explorer.
//!
//! One `Rt` per OS worker thread. An execution runs the program's threads as coroutines; every
//! hooked operation is a scheduling point. Choices are replayed from the explorer's path and
//! extended with defaults; prefixes whose happens-before history has been explored with at
//! least the same remaining budget are pruned (same history => same state => same futures).
use ::std::alloc::{GlobalAlloc, Layout, System};
use ::std::cell::Cell;
use ::std::ptr;
use ::std::sync::atomic::Ordering;

use corosensei::stack::DefaultStack;
use corosensei::{Coroutine, CoroutineResult, Yielder};

pub const MAXT: usize = 6;
pub type VC = [u32; MAXT];

const ARENA_SIZE: usize = 96 << 20;
const GRAN: usize = 16;
const STACK: usize = 512 << 10;

// ------------------------------------------------------------------------------ thread state

thread_local! {
    static RT: Cell<*mut Rt> = const { Cell::new(ptr::null_mut()) };
    static ARENA_ON: Cell<bool> = const { Cell::new(false) };
    static ARENA: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

#[inline(always)]
fn rt() -> Option<&'static mut Rt> {
    let p = RT.get();
    if p.is_null() {
        None
    } else {
        let r = unsafe { &mut *p };
        if r.running {
            Some(r)
        } else {
            None
        }
    }
}

/// While alive, allocations come from the system allocator.
pub struct Sys(bool);
impl Sys {
    #[inline]
    pub fn on() -> Sys {
        Sys(ARENA_ON.replace(false))
    }
}
impl Drop for Sys {
    #[inline]
    fn drop(&mut self) {
        ARENA_ON.set(self.0);
    }
}

/// Run `f` with allocations going to the system allocator.
#[inline]
pub fn sys<T>(f: impl FnOnce() -> T) -> T {
    let _s = Sys::on();
    f()
}

// -------------------------------------------------------------------------------- allocator

/// Global allocator: routes allocations made inside an execution to the worker's arena.
pub struct ArenaAlloc;

unsafe impl GlobalAlloc for ArenaAlloc {
    #[inline]
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if ARENA_ON.get() {
            let p = RT.get();
            if !p.is_null() {
                return unsafe { (*p).arena_alloc(layout, false, false) };
            }
        }
        unsafe { System.alloc(layout) }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if ARENA_ON.get() {
            let p = RT.get();
            if !p.is_null() {
                return unsafe { (*p).arena_alloc(layout, true, false) };
            }
        }
        unsafe { System.alloc_zeroed(layout) }
    }
    #[inline]
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let (lo, hi) = ARENA.get();
        let a = ptr as usize;
        if a >= lo && a < hi {
            unsafe { (*RT.get()).arena_free(a) };
        } else {
            unsafe { System.dealloc(ptr, layout) }
        }
    }
}

pub unsafe fn raw_alloc(layout: Layout, zero: bool) -> *mut u8 {
    match rt() {
        Some(rt) => {
            if layout.size() > ARENA_SIZE / 4 {
                rt.refused_allocs += 1;
                return ptr::null_mut();
            }
            rt.arena_alloc(layout, zero, true)
        }
        None => unsafe {
            if zero {
                System.alloc_zeroed(layout)
            } else {
                System.alloc(layout)
            }
        },
    }
}

pub unsafe fn raw_dealloc(ptr: *mut u8, layout: Layout) {
    let (lo, hi) = ARENA.get();
    let a = ptr as usize;
    if a >= lo && a < hi {
        let rt = unsafe { &mut *RT.get() };
        if rt.running {
            rt.table_dealloc_check(a, layout);
        }
        rt.arena_free(a);
    } else {
        unsafe { System.dealloc(ptr, layout) }
    }
}

/// Address relative to the arena, so that nothing depends on where it was mapped.
pub fn relative(a: usize) -> usize {
    let (lo, hi) = ARENA.get();
    if a >= lo && a < hi {
        a - lo
    } else {
        a
    }
}

// ------------------------------------------------------------------------------------ types

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Load,
    Store,
    Rmw,
    Cas,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    New,
    Run,
    Blocked(usize),
    Parked,
    Join(usize),
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Phase {
    Seq,
    Par,
}

struct Th {
    h: u64,
    vc: VC,
    acq_vc: VC,
    rel_vc: VC,
    view: Vec<u32>,
    acq_view: Vec<u32>,
    rel_view: Vec<u32>,
    status: Status,
    token: bool,
    tok_lastw: u64,
    tok_vc: VC,
    consec: u32,
    allocs: u32,
    op_steps: u32,
    op_waits: u32,
    op_writes: u32,
    /// No scheduling points while positive.
    atomic: u32,
}

impl Th {
    fn new() -> Th {
        Th {
            h: 0,
            vc: [0; MAXT],
            acq_vc: [0; MAXT],
            rel_vc: [0; MAXT],
            view: Vec::with_capacity(256),
            acq_view: Vec::with_capacity(256),
            rel_view: Vec::with_capacity(256),
            status: Status::New,
            token: false,
            tok_lastw: 0,
            tok_vc: [0; MAXT],
            consec: 0,
            allocs: 0,
            op_steps: 0,
            op_waits: 0,
            op_writes: 0,
            atomic: 0,
        }
    }
    fn reset(&mut self, t: usize) {
        self.h = mix(0x1234_5678, t as u64);
        self.vc = [0; MAXT];
        self.vc[t] = 1;
        self.acq_vc = [0; MAXT];
        self.rel_vc = [0; MAXT];
        self.view.clear();
        self.acq_view.clear();
        self.rel_view.clear();
        self.status = Status::New;
        self.token = false;
        self.tok_lastw = 7;
        self.tok_vc = [0; MAXT];
        self.consec = 0;
        self.allocs = 0;
        self.op_steps = 0;
        self.op_waits = 0;
        self.op_writes = 0;
        self.atomic = 0;
    }
}

#[derive(Clone, Default)]
struct Msg {
    val: u64,
    vc: VC,
    view: Vec<u32>,
    ev: u64,
}

#[derive(Default)]
struct Loc {
    addr: usize,
    ident: u64,
    lastw: u64,
    readers: u64,
    sc_floor: u32,
    vc: VC,         // level 1: release clock of the last store
    msgs: Vec<Msg>, // level 2: full history
}

struct Block {
    start: usize,
    size: usize,
    align: usize,
    live: bool,
    table: bool,
    tid: u8,
    epoch: u32,
    ident: u64,
    acc: VC,
}

#[derive(Clone)]
struct Retired {
    ptr: *mut (),
    f: unsafe fn(*mut (), &crate::Collector),
    mask: u64,
    vc: VC,
    view: Vec<u32>,
}

#[derive(Default)]
struct Coll {
    counts: Vec<u32>,
    active: u64,
    owned: u64,
    retired: Vec<Retired>,
    leave_vc: VC,
    leave_view: Vec<u32>,
    view: Vec<u32>,
    lastw: u64,
    readers: u64,
    peak: usize,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: &'static str,
    pub msg: String,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub n: u16,
    pub idx: u16,
    pub tag: u32,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Complete,
    Pruned,
    Failed,
    /// A lenient execution that did not end.
    Stopped,
}

#[derive(Clone, Copy, Debug)]
pub struct Config {
    /// 0: sequentially consistent, no clocks; 1: plus happens-before clocks; 2: plus stale reads.
    pub level: u8,
    /// Preemptions.
    pub p: u32,
    /// Stale reads.
    pub w: u32,
    /// Spurious wakeups / weak compare-exchange failures.
    pub s: u32,
    pub horizon: u32,
    pub fair: u32,
    pub parallelism: usize,
    /// Only synchronisation state outside table slots is a scheduling point.
    pub coarse: bool,
    /// Prune on equal happens-before history.
    pub cache: bool,
    /// Only memory errors count: executions may panic, block or not end, and what the harness
    /// reports merely ends the operation.
    pub lenient: bool,
}

impl Default for Config {
    fn default() -> Config {
        Config {
            level: 0,
            p: 2,
            w: 0,
            s: 0,
            horizon: 60_000,
            fair: 3_000,
            parallelism: 2,
            coarse: false,
            cache: true,
            lenient: false,
        }
    }
}

/// A program under test.
pub trait Body {
    /// Number of threads (1..MAXT). Threads get ids 1..=n; the main thread is 0.
    fn threads(&self) -> usize;
    fn setup(&mut self);
    fn thread(&mut self, tid: usize);
    /// After all threads are done.
    fn finish(&mut self);
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub execs: u64,
    pub complete: u64,
    pub pruned: u64,
    pub steps: u64,
    pub nodes: u64,
    pub max_steps: u64,
    pub capped: u64,
    /// Distinct happens-before histories at scheduling points.
    pub states: u64,
}

impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.execs += o.execs;
        self.complete += o.complete;
        self.pruned += o.pruned;
        self.steps += o.steps;
        self.nodes += o.nodes;
        self.max_steps = self.max_steps.max(o.max_steps);
        self.capped += o.capped;
        self.states += o.states;
    }
}

// ------------------------------------------------------------------------------ state cache

/// Open-addressing map from 48-bit state fingerprints to the largest remaining budget explored.
struct Cache {
    tab: Vec<u64>,
    len: usize,
}

impl Cache {
    fn new() -> Cache {
        Cache {
            tab: vec![0; 1 << 12],
            len: 0,
        }
    }
    fn clear(&mut self) {
        if self.tab.len() > 1 << 16 {
            self.tab = vec![0; 1 << 12];
        } else {
            self.tab.iter_mut().for_each(|x| *x = 0);
        }
        self.len = 0;
    }
    /// True if the state was seen with at least this budget; records it otherwise.
    fn seen(&mut self, key: u64, budget: u8) -> bool {
        let fp = (key | 1 << 63) & !0xff;
        let mask = self.tab.len() - 1;
        let mut i = (mix(fp, 0x77) as usize) & mask;
        loop {
            let e = self.tab[i];
            if e == 0 {
                self.tab[i] = fp | budget as u64;
                self.len += 1;
                if self.len * 2 > self.tab.len() {
                    self.grow();
                }
                return false;
            }
            if e & !0xff == fp {
                if (e & 0xff) as u8 >= budget {
                    return true;
                }
                self.tab[i] = fp | budget as u64;
                return false;
            }
            i = (i + 1) & mask;
        }
    }
    fn grow(&mut self) {
        let old = ::std::mem::take(&mut self.tab);
        self.tab = vec![0; old.len() * 4];
        let mask = self.tab.len() - 1;
        for e in old {
            if e != 0 {
                let mut i = (mix(e & !0xff, 0x77) as usize) & mask;
                while self.tab[i] != 0 {
                    i = (i + 1) & mask;
                }
                self.tab[i] = e;
            }
        }
    }
}

#[inline(always)]
pub fn mix(a: u64, b: u64) -> u64 {
    let mut x = (a ^ b.rotate_left(32)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_add(b).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

#[inline]
fn join(a: &mut VC, b: &VC) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

fn vjoin(a: &mut Vec<u32>, b: &[u32]) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b.iter()) {
        if *y > *x {
            *x = *y;
        }
    }
}

// --------------------------------------------------------------------------------- runtime

type Coro = Coroutine<(), (), (), DefaultStack>;

pub struct Rt {
    // arena
    base: usize,
    bump: usize,
    blocks: Vec<Block>,
    gran: *mut u32,
    shadow: *mut u32,
    pub live_blocks: usize,
    pub live_bytes: usize,
    pub live_tables: usize,
    pub table_allocs: usize,
    pub last_table_size: usize,
    pub max_live_tables: usize,
    pub refused_allocs: usize,
    freed_tables: u32,

    // execution
    running: bool,
    cfg: Config,
    phase: Phase,
    cur: usize,
    next: usize,
    nth: usize,
    th: Vec<Th>,
    yielders: [*const Yielder<(), ()>; MAXT],
    abort: Option<End>,
    violation: Option<Violation>,
    p_rem: u32,
    w_rem: u32,
    s_rem: u32,
    steps: u32,
    clock: u32,
    hist_lastw: u64,
    hist_readers: u64,
    nodes_new: u64,

    // locations
    locs: Vec<Loc>,
    nlocs: usize,
    ext: Vec<(usize, u32)>,
    s_view: Vec<u32>,

    colls: Vec<Coll>,
    ncolls: usize,

    // objects
    pub live_objs: i64,
    pub objs_created: u64,

    // explorer
    path: Vec<Node>,
    pos: usize,
    cache: Cache,
    /// Incremented with every execution.
    pub beat: ::std::sync::Arc<::std::sync::atomic::AtomicU64>,
    stacks: Vec<DefaultStack>,
    pub divergence: bool,

    pub trace: Option<Vec<String>>,
    /// Debugging: take these choices (position, index) instead of the defaults.
    pub script: Vec<(usize, usize)>,
}

impl Rt {
    pub fn new() -> Box<Rt> {
        let _s = Sys::on();
        let lay = Layout::from_size_align(ARENA_SIZE, 4096).unwrap();
        let base = unsafe { System.alloc(lay) } as usize;
        assert!(base != 0);
        let gl = Layout::array::<u32>(ARENA_SIZE / GRAN).unwrap();
        let gran = unsafe { System.alloc_zeroed(gl) } as *mut u32;
        let sl = Layout::array::<u32>(ARENA_SIZE).unwrap();
        let shadow = unsafe { System.alloc_zeroed(sl) } as *mut u32;
        assert!(!gran.is_null() && !shadow.is_null());
        Box::new(Rt {
            base,
            bump: base,
            blocks: Vec::with_capacity(1 << 14),
            gran,
            shadow,
            live_blocks: 0,
            live_bytes: 0,
            live_tables: 0,
            table_allocs: 0,
            last_table_size: 0,
            max_live_tables: 0,
            refused_allocs: 0,
            freed_tables: 0,
            running: false,
            cfg: Config::default(),
            phase: Phase::Seq,
            cur: 0,
            next: 0,
            nth: 0,
            th: (0..MAXT).map(|_| Th::new()).collect(),
            yielders: [ptr::null(); MAXT],
            abort: None,
            violation: None,
            p_rem: 0,
            w_rem: 0,
            s_rem: 0,
            steps: 0,
            clock: 0,
            hist_lastw: 0,
            hist_readers: 0,
            nodes_new: 0,
            locs: Vec::new(),
            nlocs: 0,
            ext: Vec::new(),
            s_view: Vec::new(),
            colls: Vec::new(),
            ncolls: 0,
            live_objs: 0,
            objs_created: 0,
            path: Vec::new(),
            pos: 0,
            cache: Cache::new(),
            beat: Default::default(),
            stacks: (0..MAXT).map(|_| DefaultStack::new(STACK).unwrap()).collect(),
            divergence: false,
            trace: None,
            script: Vec::new(),
        })
    }

    /// Make this runtime the current OS thread's.
    pub fn install(self: &mut Box<Rt>) {
        RT.set(&mut **self as *mut Rt);
        ARENA.set((self.base, self.base + ARENA_SIZE));
    }

    // -------------------------------------------------------------------------- arena

    fn arena_alloc(&mut self, layout: Layout, zero: bool, table: bool) -> *mut u8 {
        let _s = Sys::on();
        // A block is aligned to what was asked for and to nothing more: an address that
        // happens to be a multiple of 8 or 16 would hide a type that asks for too little.
        let align = layout.align().max(GRAN);
        let mut start = (self.bump + align - 1) & !(align - 1);
        if layout.align() < GRAN {
            start += layout.align();
        }
        if self.running {
            self.th[self.cur].op_writes += 1;
        }
        let size = layout.size().max(1);
        let end = (start + size + GRAN - 1) & !(GRAN - 1);
        if end + 4096 > self.base + ARENA_SIZE {
            if self.running {
                self.fail("memory", "the execution allocates without bound".into());
            }
            return ptr::null_mut();
        }
        self.bump = end;
        let id = self.blocks.len() as u32 + 1;
        let th = &mut self.th[self.cur];
        th.allocs += 1;
        let ident = mix(mix(0xB10C, self.cur as u64), th.allocs as u64);
        self.blocks.push(Block {
            start,
            size,
            align: layout.align(),
            live: true,
            table,
            tid: self.cur as u8,
            epoch: th.vc[self.cur],
            ident,
            acc: [0; MAXT],
        });
        unsafe {
            let mut g = (start - self.base) / GRAN;
            let ge = (end - self.base) / GRAN;
            while g < ge {
                *self.gran.add(g) = id;
                g += 1;
            }
            if zero {
                ptr::write_bytes(start as *mut u8, 0, size);
            } else if size <= 1024 {
                ptr::write_bytes(start as *mut u8, 0xA5, size);
            }
        }
        self.live_blocks += 1;
        self.live_bytes += size;
        if table {
            self.live_tables += 1;
            self.table_allocs += 1;
            self.last_table_size = size;
            self.max_live_tables = self.max_live_tables.max(self.live_tables);
            if self.trace.is_some() {
                let s = format!("alloc table#{} of {} bytes", id, size);
                self.note(s);
            }
        }
        start as *mut u8
    }

    #[inline]
    fn block_of(&self, a: usize) -> Option<usize> {
        if a < self.base || a >= self.bump {
            return None;
        }
        let id = unsafe { *self.gran.add((a - self.base) / GRAN) };
        if id == 0 {
            None
        } else {
            Some(id as usize - 1)
        }
    }

    fn arena_free(&mut self, a: usize) {
        let _s = Sys::on();
        let Some(b) = self.block_of(a) else {
            self.fail("double-free", "dealloc of an address that was never allocated".into());
        };
        if self.blocks[b].start != a || !self.blocks[b].live {
            let d = self.describe(a);
            if self.running {
                self.fail("double-free", format!("dealloc of {d} which is not live"));
            }
            return;
        }
        self.blocks[b].live = false;
        self.live_blocks -= 1;
        self.live_bytes -= self.blocks[b].size;
        if self.blocks[b].table {
            self.live_tables -= 1;
            self.freed_tables += 1;
            if self.trace.is_some() {
                let d = self.describe(a);
                self.note(format!("free {d}"));
            }
        }
    }

    fn table_dealloc_check(&mut self, a: usize, layout: Layout) {
        let _s = Sys::on();
        if let Some(b) = self.block_of(a) {
            let bl = &self.blocks[b];
            if bl.start == a && bl.live && (bl.size != layout.size().max(1) || bl.align != layout.align()) {
                let m = format!(
                    "table allocated with size {} align {} is deallocated with size {} align {}",
                    bl.size,
                    bl.align,
                    layout.size(),
                    layout.align()
                );
                self.fail("bad-free", m);
            }
            if self.cfg.level >= 1 && self.phase == Phase::Par {
                let vc = self.th[self.cur].vc;
                let acc = self.blocks[b].acc;
                for t in 0..MAXT {
                    if acc[t] > vc[t] {
                        let d = self.describe(a);
                        let m = format!(
                            "{d} is freed by T{} without happening after an access by T{t}",
                            self.cur
                        );
                        self.fail("race", m);
                    }
                }
            }
        }
    }

    fn describe(&self, a: usize) -> String {
        match self.block_of(a) {
            Some(b) => format!(
                "{}#{}+{:#x}",
                if self.blocks[b].table { "table" } else { "block" },
                b + 1,
                a - self.blocks[b].start
            ),
            None => format!("static+{:#x}", a & 0xfff),
        }
    }

    fn note(&mut self, s: String) {
        let t = self.cur;
        if let Some(tr) = &mut self.trace {
            tr.push(format!("T{t}: {s}"));
        }
    }

    // ------------------------------------------------------------------------ failing

    #[cold]
    fn fail(&mut self, class: &'static str, msg: String) -> ! {
        let _s = Sys::on();
        // The text may live in the arena, which the execution does not outlive.
        let msg = {
            let copy = String::from(msg.as_str());
            std::mem::forget(msg);
            copy
        };
        if self.violation.is_none() {
            if self.trace.is_some() {
                let m = format!("!! {class}: {msg}");
                self.note(m);
            }
            self.violation = Some(Violation { class, msg });
        }
        self.stop(End::Failed)
    }

    #[cold]
    fn stop(&mut self, end: End) -> ! {
        if !self.running {
            panic!("mc: failure outside an execution: {:?}", self.violation);
        }
        if self.abort.is_none() {
            self.abort = Some(end);
        }
        let y = self.yielders[self.cur];
        loop {
            unsafe { (*y).suspend(()) };
        }
    }

    // --------------------------------------------------------------------- scheduling

    fn choose(&mut self, n: usize, tag: u32) -> usize {
        debug_assert!(n >= 2);
        if self.pos < self.path.len() {
            let nd = self.path[self.pos];
            if nd.n as usize != n || nd.tag != tag {
                self.divergence = true;
                let m = format!(
                    "replay divergence at choice {}: recorded {:?}, now n={} tag={:#x}",
                    self.pos, nd, n, tag
                );
                self.fail("divergence", m);
            }
            self.pos += 1;
            return nd.idx as usize;
        }
        let mut idx = 0;
        for (i, x) in &self.script {
            if *i == self.pos && *x < n {
                idx = *x;
            }
        }
        self.path.push(Node {
            n: n as u16,
            idx: idx as u16,
            tag,
        });
        self.pos += 1;
        self.nodes_new += 1;
        idx
    }

    #[inline]
    fn prune_check(&mut self, tag: u64) {
        if self.pos < self.path.len() || !self.cfg.cache {
            return;
        }
        let mut k = mix(tag, ((self.w_rem as u64) << 32) | self.s_rem as u64);
        for t in 0..=self.nth {
            k = mix(k, self.th[t].h);
        }
        if self.cache.seen(k, self.p_rem.min(250) as u8) {
            self.stop(End::Pruned);
        }
    }

    #[inline]
    fn runnable(&self, t: usize) -> bool {
        match self.th[t].status {
            Status::Run => true,
            Status::Join(u) => self.th[u].status == Status::Done,
            _ => false,
        }
    }

    /// Runnable threads other than `cur`, in rotation order.
    #[inline]
    fn others(&self, out: &mut [usize; MAXT]) -> usize {
        let mut n = 0;
        let mut t = self.cur;
        for _ in 1..self.nth {
            t += 1;
            if t > self.nth {
                t = 1;
            }
            if self.runnable(t) {
                out[n] = t;
                n += 1;
            }
        }
        n
    }

    fn switch(&mut self, to: usize) {
        if to == self.cur {
            return;
        }
        if self.trace.is_some() {
            let _s = Sys::on();
            self.note(format!("--> T{to}"));
        }
        let me = self.cur;
        self.th[me].consec = 0;
        self.next = to;
        let y = self.yielders[me];
        let on = ARENA_ON.get();
        unsafe { (*y).suspend(()) };
        ARENA_ON.set(on);
        // resumed: the scheduler has set `cur` to us again.
        debug_assert!(self.cur == me);
    }

    #[inline]
    fn step(&mut self) {
        self.steps += 1;
        let th = &mut self.th[self.cur];
        th.op_steps += 1;
        th.consec += 1;
        if self.steps > self.cfg.horizon {
            self.horizon();
        }
    }

    #[cold]
    fn horizon(&mut self) -> ! {
        let _s = Sys::on();
        let m = format!(
            "no termination after {} steps: T{} keeps running without completing",
            self.steps, self.cur
        );
        self.fail("livelock", m)
    }

    /// A scheduling point before an operation of the current thread.
    #[inline]
    fn point(&mut self) {
        self.step();
        if self.phase == Phase::Seq || self.th[self.cur].atomic > 0 {
            return;
        }
        self.point_slow();
    }

    fn point_slow(&mut self) {
        if ::std::thread::panicking() {
            return;
        }
        let mut o = [0; MAXT];
        let n = self.others(&mut o);
        if n == 0 {
            // A lone runnable thread has to finish by itself.
            return;
        }
        let _s = Sys::on();
        if self.th[self.cur].consec > self.cfg.fair {
            self.switch(o[0]);
            return;
        }
        self.prune_check(self.cur as u64);
        if self.p_rem == 0 {
            return;
        }
        let i = self.choose(n + 1, 0x100 | self.cur as u32);
        if i > 0 {
            self.p_rem -= 1;
            self.switch(o[i - 1]);
        }
    }

    /// The current thread cannot continue (its status says why) or is done: pick another.
    fn pick_blocked(&mut self) -> Option<usize> {
        let mut o = [0; MAXT];
        let n = self.others(&mut o);
        if n == 0 {
            return None;
        }
        self.prune_check(0x80 | self.cur as u64);
        let i = if n > 1 { self.choose(n, 0x200 | self.cur as u32) } else { 0 };
        Some(o[i])
    }

    fn block(&mut self, st: Status) {
        let _s = Sys::on();
        if self.phase == Phase::Seq {
            self.fail("deadlock", "the only thread blocks forever".into());
        }
        self.th[self.cur].status = st;
        self.th[self.cur].op_waits += 1;
        if self.trace.is_some() {
            self.note(format!("blocks ({st:?})"));
        }
        match self.pick_blocked() {
            Some(t) => self.switch(t),
            None => self.deadlock(),
        }
    }

    #[cold]
    fn deadlock(&mut self) -> ! {
        let _s = Sys::on();
        let mut m = String::from("no thread can run:");
        for t in 1..=self.nth {
            m += &format!(" T{t}={:?}", self.th[t].status);
        }
        self.fail("deadlock", m)
    }

    // -------------------------------------------------------------------- event hashes

    #[inline]
    fn ev_read(&mut self, l: usize, extra: u64) {
        let th = &mut self.th[self.cur];
        let loc = &mut self.locs[l];
        let e = mix(mix(th.h, loc.lastw), extra);
        th.h = e;
        loc.readers = loc.readers.wrapping_add(mix(e, 3));
    }

    #[inline]
    fn ev_write(&mut self, l: usize, extra: u64) -> u64 {
        let th = &mut self.th[self.cur];
        let loc = &mut self.locs[l];
        let e = mix(mix(th.h, loc.lastw), mix(loc.readers, extra));
        th.h = e;
        loc.lastw = e;
        loc.readers = 0;
        e
    }

    fn hist_ev(&mut self, write: bool) {
        let th = &mut self.th[self.cur];
        if write {
            let e = mix(mix(th.h, self.hist_lastw), mix(self.hist_readers, 0x71));
            th.h = e;
            self.hist_lastw = e;
            self.hist_readers = 0;
        } else {
            let e = mix(mix(th.h, self.hist_lastw), 0x72);
            th.h = e;
            self.hist_readers = self.hist_readers.wrapping_add(mix(e, 5));
        }
    }

    fn coll_ev(&mut self, c: usize, write: bool) {
        let th = &mut self.th[self.cur];
        let co = &mut self.colls[c];
        if write {
            let e = mix(mix(th.h, co.lastw), mix(co.readers, 0x81));
            th.h = e;
            co.lastw = e;
            co.readers = 0;
        } else {
            let e = mix(mix(th.h, co.lastw), 0x82);
            th.h = e;
            co.readers = co.readers.wrapping_add(mix(e, 9));
        }
    }

    // ---------------------------------------------------------------------- locations

    #[inline]
    fn loc(&mut self, a: usize, initial: u64) -> usize {
        if a >= self.base && a < self.bump {
            let s = unsafe { &mut *self.shadow.add(a - self.base) };
            if *s != 0 {
                return *s as usize - 1;
            }
            let b = self.block_of(a);
            let ident = match b {
                Some(b) => mix(self.blocks[b].ident, (a - self.blocks[b].start) as u64),
                None => 0,
            };
            let l = self.new_loc(a, ident, initial);
            unsafe { *self.shadow.add(a - self.base) = l as u32 + 1 };
            return l;
        }
        for (x, l) in &self.ext {
            if *x == a {
                return *l as usize;
            }
        }
        let ident = mix(0xE77, self.ext.len() as u64);
        let l = self.new_loc(a, ident, initial);
        self.ext.push((a, l as u32));
        l
    }

    fn new_loc(&mut self, addr: usize, ident: u64, initial: u64) -> usize {
        let l = self.nlocs;
        self.nlocs += 1;
        if l == self.locs.len() {
            self.locs.push(Loc::default());
        }
        let lo = &mut self.locs[l];
        lo.addr = addr;
        lo.ident = ident;
        lo.lastw = ident;
        lo.readers = 0;
        lo.sc_floor = 0;
        lo.vc = [0; MAXT];
        lo.msgs.clear();
        if self.cfg.level >= 2 {
            lo.msgs.push(Msg {
                val: initial,
                vc: [0; MAXT],
                view: Vec::new(),
                ev: ident,
            });
        }
        l
    }

    /// Returns true if the operation is to be tracked (a parallel phase is on).
    #[inline]
    fn pre(&mut self, a: usize, k: Kind) -> bool {
        if !matches!(k, Kind::Load) {
            self.th[self.cur].op_writes += 1;
        }
        if !self.cfg.coarse || self.is_coarse_point(a) {
            self.point();
        } else {
            self.step();
        }
        if let Some(b) = self.block_of(a) {
            if !self.blocks[b].live {
                let d = sys(|| format!("atomic access to {} after it was freed", self.describe(a)));
                self.fail("uaf", d);
            }
            if self.cfg.level >= 1 && self.phase == Phase::Par {
                let vc = &self.th[self.cur].vc;
                let bl = &mut self.blocks[b];
                if bl.table {
                    if vc[bl.tid as usize] < bl.epoch {
                        let d = sys(|| {
                            format!(
                                "T{} uses {} without happening after its initialisation by T{}",
                                self.cur,
                                self.describe(a),
                                self.blocks[b].tid
                            )
                        });
                        self.fail("race", d);
                    }
                    bl.acc[self.cur] = vc[self.cur];
                }
            }
        } else if a < 0x1000 {
            self.fail("uaf", "atomic access through a null or invalid pointer".into());
        }
        self.phase == Phase::Par
    }

    #[inline]
    fn is_coarse_point(&self, a: usize) -> bool {
        match self.block_of(a) {
            Some(b) => !self.blocks[b].table || a - self.blocks[b].start < 256,
            None => true,
        }
    }

    fn acquire(&mut self, order: Ordering, vc: &VC, view: &[u32]) {
        let lvl = self.cfg.level;
        let th = &mut self.th[self.cur];
        match order {
            Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst => {
                join(&mut th.vc, vc);
                if lvl >= 2 {
                    vjoin(&mut th.view, view);
                }
            }
            _ => {
                join(&mut th.acq_vc, vc);
                if lvl >= 2 {
                    vjoin(&mut th.acq_view, view);
                }
            }
        }
    }

    fn view_at(v: &mut Vec<u32>, l: usize) -> &mut u32 {
        if v.len() <= l {
            v.resize(l + 1, 0);
        }
        &mut v[l]
    }

    fn post_load(&mut self, a: usize, latest: u64, order: Ordering, must_latest: bool) -> u64 {
        let _s = Sys::on();
        let l = self.loc(a, latest);
        let mut out = latest;
        match self.cfg.level {
            0 => self.ev_read(l, 0x11),
            1 => {
                self.ev_read(l, 0x11);
                let vc = self.locs[l].vc;
                self.acquire(order, &vc, &[]);
            }
            _ => {
                let last = self.locs[l].msgs.len() - 1;
                if self.locs[l].msgs[last].val != latest {
                    self.locs[l].msgs[last].val = latest;
                }
                let mut lo = *Self::view_at(&mut self.th[self.cur].view, l) as usize;
                if order == Ordering::SeqCst {
                    let f = *Self::view_at(&mut self.s_view, l) as usize;
                    lo = lo.max(f);
                }
                let mut ts = last;
                if !must_latest && lo < last && self.w_rem > 0 && self.th[self.cur].atomic == 0 && !::std::thread::panicking() {
                    let k = self.choose(last - lo + 1, 0x300);
                    if k > 0 {
                        self.w_rem -= 1;
                        ts = last - k;
                    }
                }
                let m = ::std::mem::take(&mut self.locs[l].msgs[ts]);
                out = m.val;
                self.ev_read(l, mix(m.ev, ts as u64));
                *Self::view_at(&mut self.th[self.cur].view, l) = ts as u32;
                self.acquire(order, &m.vc, &m.view);
                if ts != last && self.trace.is_some() {
                    let s = format!("(stale read: {} of {} newer stores not seen)", last - ts, last);
                    self.note(s);
                }
                self.locs[l].msgs[ts] = m;
            }
        }
        if self.trace.is_some() {
            let d = self.describe(a);
            self.note(format!("load {d} {order:?} -> {}", self.show(out)));
        }
        out
    }

    fn show(&self, v: u64) -> String {
        let (lo, hi) = (self.base as u64, self.bump as u64);
        if v >= lo && v < hi {
            let mut s = self.describe((v & !7) as usize);
            if v & 7 != 0 {
                s += &format!("|tag{}", v & 7);
            }
            s
        } else {
            format!("{:#x}", v)
        }
    }

    fn post_write(&mut self, a: usize, old: u64, new: u64, order: Ordering, rmw: bool) {
        let _s = Sys::on();
        let l = self.loc(a, old);
        let ev = self.ev_write(l, if rmw { 0x22 } else { 0x21 });
        let cur = self.cur;
        let rel = matches!(order, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst);
        match self.cfg.level {
            0 => {}
            1 => {
                if rmw {
                    let vc = self.locs[l].vc;
                    self.acquire(order, &vc, &[]);
                }
                let mut vc = if rel { self.th[cur].vc } else { self.th[cur].rel_vc };
                if rmw {
                    join(&mut vc, &self.locs[l].vc);
                }
                self.locs[l].vc = vc;
                self.th[cur].vc[cur] += 1;
            }
            _ => {
                let last = self.locs[l].msgs.len() - 1;
                if self.locs[l].msgs[last].val != old {
                    self.locs[l].msgs[last].val = old;
                }
                let mut pvc = [0; MAXT];
                let mut pview: Vec<u32> = Vec::new();
                if rmw {
                    let m = ::std::mem::take(&mut self.locs[l].msgs[last]);
                    self.acquire(order, &m.vc, &m.view);
                    pvc = m.vc;
                    pview.extend_from_slice(&m.view);
                    self.locs[l].msgs[last] = m;
                }
                let ts = last as u32 + 1;
                let th = &mut self.th[cur];
                *Self::view_at(&mut th.view, l) = ts;
                if rel {
                    join(&mut pvc, &th.vc);
                    vjoin(&mut pview, &th.view);
                } else {
                    join(&mut pvc, &th.rel_vc);
                    let rv = ::std::mem::take(&mut th.rel_view);
                    vjoin(&mut pview, &rv);
                    th.rel_view = rv;
                    *Self::view_at(&mut pview, l) = ts;
                }
                if order == Ordering::SeqCst {
                    *Self::view_at(&mut self.s_view, l) = ts;
                }
                self.locs[l].msgs.push(Msg {
                    val: new,
                    vc: pvc,
                    view: pview,
                    ev,
                });
                self.th[cur].vc[cur] += 1;
            }
        }
        if self.trace.is_some() {
            let d = self.describe(a);
            let s = if rmw {
                format!("rmw {d} {order:?} {} -> {}", self.show(old), self.show(new))
            } else {
                format!("store {d} {order:?} = {}", self.show(new))
            };
            self.note(s);
        }
    }

    fn fence(&mut self, order: Ordering) {
        self.point();
        if self.phase == Phase::Seq {
            return;
        }
        let _s = Sys::on();
        let lvl = self.cfg.level;
        let cur = self.cur;
        let th = &mut self.th[cur];
        th.h = mix(th.h, 0x33);
        if matches!(order, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
            let v = th.acq_vc;
            join(&mut th.vc, &v);
            if lvl >= 2 {
                let v = ::std::mem::take(&mut th.acq_view);
                vjoin(&mut th.view, &v);
                th.acq_view = v;
            }
        }
        if order == Ordering::SeqCst && lvl >= 2 {
            vjoin(&mut self.s_view, &th.view);
            vjoin(&mut th.view, &self.s_view);
        }
        if matches!(order, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) {
            th.rel_vc = th.vc;
            if lvl >= 2 {
                th.rel_view.clear();
                th.rel_view.extend_from_slice(&th.view);
            }
            th.vc[cur] += 1;
        }
    }

    // ------------------------------------------------------------------- collector model

    fn reclaim(&mut self, c: &crate::Collector, mut r: Retired) {
        {
            let _s = Sys::on();
            let vc = r.vc;
            let cur = self.cur;
            join(&mut self.th[cur].vc, &vc);
            let view = ::std::mem::take(&mut r.view);
            vjoin(&mut self.th[cur].view, &view);
            drop(view);
            if self.trace.is_some() {
                let _s = Sys::on();
                let d = self.describe(r.ptr as usize);
                self.note(format!("reclaim {d}"));
            }
        }
        let t = self.cur;
        self.th[t].atomic += 1;
        unsafe { (r.f)(r.ptr, c) };
        self.th[t].atomic -= 1;
    }
}

// ---------------------------------------------------------------- facade entry points

#[inline]
pub fn pre(a: usize, k: Kind) -> bool {
    match rt() {
        Some(r) => r.pre(a, k),
        None => false,
    }
}

#[inline]
pub fn post_load(a: usize, v: u64, o: Ordering) -> u64 {
    unsafe { (*RT.get()).post_load(a, v, o, false) }
}

#[inline]
pub fn post_cas_fail(a: usize, v: u64, o: Ordering) {
    unsafe { (*RT.get()).post_load(a, v, o, true) };
}

#[inline]
pub fn post_store(a: usize, old: u64, new: u64, o: Ordering) {
    unsafe { (*RT.get()).post_write(a, old, new, o, false) }
}

#[inline]
pub fn post_rmw(a: usize, old: u64, new: u64, o: Ordering) {
    unsafe { (*RT.get()).post_write(a, old, new, o, true) }
}

pub fn spurious_cas(_a: usize) -> bool {
    let r = unsafe { &mut *RT.get() };
    if r.s_rem == 0 || r.th[r.cur].atomic > 0 {
        return false;
    }
    let _s = Sys::on();
    if r.choose(2, 0x400) == 1 {
        r.s_rem -= 1;
        let th = &mut r.th[r.cur];
        th.h = mix(th.h, 0x5A5A);
        true
    } else {
        false
    }
}

pub fn exclusive(a: usize) {
    if let Some(r) = rt() {
        if let Some(b) = r.block_of(a) {
            if !r.blocks[b].live {
                let d = sys(|| format!("exclusive access to {} after it was freed", r.describe(a)));
                r.fail("uaf", d);
            }
        }
    }
}

pub fn fence(o: Ordering) {
    match rt() {
        Some(r) => r.fence(o),
        None => ::std::sync::atomic::fence(o),
    }
}

pub fn current_tid() -> usize {
    match rt() {
        Some(r) => r.cur,
        None => 0,
    }
}

pub fn parallelism() -> usize {
    match rt() {
        Some(r) => r.cfg.parallelism,
        None => 2,
    }
}

/// A spin-loop hint: let the others run.
pub fn spin_hint() {
    let Some(r) = rt() else { return };
    r.step();
    if r.phase == Phase::Seq || r.th[r.cur].atomic > 0 || ::std::thread::panicking() {
        return;
    }
    r.th[r.cur].op_waits += 1;
    let mut o = [0; MAXT];
    let n = r.others(&mut o);
    let _s = Sys::on();
    let th = &mut r.th[r.cur];
    th.h = mix(th.h, 0x44);
    if n == 0 {
        return;
    }
    r.prune_check(0x40 | r.cur as u64);
    let stay = (r.p_rem > 0) as usize;
    let i = if n + stay > 1 { r.choose(n + stay, 0x500 | r.cur as u32) } else { 0 };
    if i < n {
        r.switch(o[i]);
    } else {
        r.p_rem -= 1;
    }
}

pub fn park() {
    let Some(r) = rt() else { return };
    r.point();
    let _s = Sys::on();
    let cur = r.cur;
    loop {
        let lw = r.th[cur].tok_lastw;
        r.th[cur].h = mix(mix(r.th[cur].h, lw), 0x61);
        if r.th[cur].token {
            r.th[cur].token = false;
            let vc = r.th[cur].tok_vc;
            join(&mut r.th[cur].vc, &vc);
            return;
        }
        if r.s_rem > 0 && r.phase == Phase::Par {
            if r.choose(2, 0x600) == 1 {
                r.s_rem -= 1;
                r.th[cur].h = mix(r.th[cur].h, 0x62);
                if r.trace.is_some() {
                    r.note("spurious wakeup".into());
                }
                return;
            }
        }
        r.block(Status::Parked);
    }
}

pub fn unpark(t: usize) {
    let Some(r) = rt() else { return };
    r.point();
    let _s = Sys::on();
    let cur = r.cur;
    let e = mix(mix(r.th[cur].h, r.th[t].tok_lastw), 0x63);
    r.th[cur].h = e;
    r.th[t].tok_lastw = e;
    r.th[t].token = true;
    let vc = r.th[cur].vc;
    join(&mut r.th[t].tok_vc, &vc);
    r.th[cur].vc[cur] += 1;
    if r.trace.is_some() {
        r.note(format!("unpark T{t}"));
    }
    if r.th[t].status == Status::Parked {
        r.th[t].status = Status::Run;
    }
}

pub fn lock_point(a: usize) {
    if let Some(r) = rt() {
        r.th[r.cur].op_writes += 1;
        r.point();
        if let Some(b) = r.block_of(a) {
            if !r.blocks[b].live {
                let d = sys(|| format!("lock operation on {} after it was freed", r.describe(a)));
                r.fail("uaf", d);
            }
        }
    }
}

pub fn lock_acquired(a: usize) {
    if let Some(r) = rt() {
        if r.phase == Phase::Seq {
            return;
        }
        let _s = Sys::on();
        let l = r.loc(a, 0);
        r.ev_write(l, 0x91);
        let vc = r.locs[l].vc;
        let cur = r.cur;
        join(&mut r.th[cur].vc, &vc);
        if r.cfg.level >= 2 {
            let m = ::std::mem::take(&mut r.locs[l].msgs[0]);
            vjoin(&mut r.th[cur].view, &m.view);
            r.locs[l].msgs[0] = m;
        }
        if r.trace.is_some() {
            let d = r.describe(a);
            r.note(format!("lock {d}"));
        }
    }
}

pub fn lock_failed(a: usize) {
    if let Some(r) = rt() {
        if r.phase == Phase::Seq {
            return;
        }
        let _s = Sys::on();
        let l = r.loc(a, 0);
        r.ev_read(l, 0x92);
    }
}

pub fn lock_block(a: usize) {
    if let Some(r) = rt() {
        let _s = Sys::on();
        if r.phase == Phase::Par {
            let l = r.loc(a, 0);
            r.ev_read(l, 0x93);
        }
        r.block(Status::Blocked(a));
    }
}

pub fn lock_released(a: usize) {
    if let Some(r) = rt() {
        if r.phase == Phase::Seq {
            return;
        }
        let _s = Sys::on();
        let l = r.loc(a, 0);
        r.ev_write(l, 0x94);
        let cur = r.cur;
        let vc = r.th[cur].vc;
        join(&mut r.locs[l].vc, &vc);
        if r.cfg.level >= 2 {
            let v = ::std::mem::take(&mut r.th[cur].view);
            vjoin(&mut r.locs[l].msgs[0].view, &v);
            r.th[cur].view = v;
        }
        r.th[cur].vc[cur] += 1;
        for t in 1..=r.nth {
            if r.th[t].status == Status::Blocked(a) {
                r.th[t].status = Status::Run;
            }
        }
        if r.trace.is_some() {
            let d = r.describe(a);
            r.note(format!("unlock {d}"));
        }
    }
}

// --- collector

fn need() -> &'static mut Rt {
    rt().expect("mc: collector used outside an execution")
}

pub fn coll_new() -> usize {
    let r = need();
    let _s = Sys::on();
    let id = r.ncolls;
    r.ncolls += 1;
    if id == r.colls.len() {
        r.colls.push(Coll::default());
    }
    let c = &mut r.colls[id];
    c.counts.clear();
    c.counts.resize(64, 0);
    c.active = 0;
    c.owned = 0;
    c.retired.clear();
    c.leave_vc = [0; MAXT];
    c.leave_view.clear();
    c.view.clear();
    c.lastw = mix(0xC0, id as u64);
    c.readers = 0;
    c.peak = 0;
    id
}

pub fn coll_enter(c: usize, slot: usize) {
    let r = need();
    if r.colls[c].counts[slot] == 0 {
        r.point();
        let _s = Sys::on();
        r.coll_ev(c, false);
        r.colls[c].active |= 1 << slot;
        if r.cfg.level >= 2 {
            let v = ::std::mem::take(&mut r.colls[c].view);
            vjoin(&mut r.th[r.cur].view, &v);
            r.colls[c].view = v;
        }
    }
    r.colls[c].counts[slot] += 1;
}

pub fn coll_enter_owned(c: usize) -> usize {
    let r = need();
    let mut slot = MAXT;
    while r.colls[c].owned & (1 << slot) != 0 {
        slot += 1;
    }
    r.colls[c].owned |= 1 << slot;
    coll_enter(c, slot);
    slot
}

pub fn coll_free_owned(c: usize, slot: usize) {
    need().colls[c].owned &= !(1 << slot);
}

pub fn coll_count(c: usize, slot: usize) -> u32 {
    need().colls[c].counts[slot]
}

pub fn coll_leave(coll: &crate::Collector, c: usize, slot: usize) {
    let r = need();
    r.colls[c].counts[slot] -= 1;
    if r.colls[c].counts[slot] > 0 {
        return;
    }
    r.point();
    let bit = 1u64 << slot;
    let cur = r.cur;
    let pending;
    {
        let _s = Sys::on();
        r.colls[c].active &= !bit;
        pending = r.colls[c].retired.iter().any(|x| x.mask & bit != 0);
        r.coll_ev(c, pending);
        let vc = r.th[cur].vc;
        join(&mut r.colls[c].leave_vc, &vc);
        r.th[cur].vc[cur] += 1;
        let weak = r.cfg.level >= 2;
        let view = ::std::mem::take(&mut r.th[cur].view);
        if weak {
            vjoin(&mut r.colls[c].leave_view, &view);
        }
        if pending {
            for x in r.colls[c].retired.iter_mut() {
                if x.mask & bit != 0 {
                    x.mask &= !bit;
                    join(&mut x.vc, &vc);
                    if weak {
                        vjoin(&mut x.view, &view);
                    }
                }
            }
        }
        r.th[cur].view = view;
    }
    if pending {
        coll_sweep(coll, c);
    }
}

fn coll_sweep(coll: &crate::Collector, c: usize) {
    let r = need();
    loop {
        let Some(i) = r.colls[c].retired.iter().position(|x| x.mask == 0) else {
            return;
        };
        let x = r.colls[c].retired.remove(i);
        r.reclaim(coll, x);
    }
}

pub fn coll_retire(
    coll: &crate::Collector,
    c: usize,
    ptr: *mut (),
    f: unsafe fn(*mut (), &crate::Collector),
    zst: Option<usize>,
) {
    let r = need();
    r.th[r.cur].op_writes += 1;
    r.point();
    // All objects without size are at the same address.
    let zst = zst == Some(ptr as usize);
    let x;
    {
        let _s = Sys::on();
        let a = ptr as usize;
        match r.block_of(a) {
            Some(b) if r.blocks[b].start == a => {
                if !r.blocks[b].live {
                    let d = r.describe(a);
                    r.fail("double-free", format!("{d} is retired after it was freed"));
                }
            }
            _ if zst => {}
            _ => {
                let d = r.show(a as u64);
                r.fail("bad-retire", format!("retired pointer {d} is not an allocation"));
            }
        }
        if !zst && r.colls[c].retired.iter().any(|x| x.ptr == ptr) {
            let d = r.describe(a);
            r.fail("double-free", format!("{d} is retired twice"));
        }
        r.coll_ev(c, true);
        let cur = r.cur;
        let mut vc = r.th[cur].vc;
        join(&mut vc, &r.colls[c].leave_vc);
        r.th[cur].vc[cur] += 1;
        let mut rview: Vec<u32> = Vec::new();
        if r.cfg.level >= 2 {
            rview.extend_from_slice(&r.th[cur].view);
            vjoin(&mut rview, &r.colls[c].leave_view);
            // The heavy barrier of the retiring thread: whoever enters later sees at least
            // what it saw.
            let v = ::std::mem::take(&mut r.th[cur].view);
            vjoin(&mut r.colls[c].view, &v);
            r.th[cur].view = v;
        }
        x = Retired {
            ptr,
            f,
            mask: r.colls[c].active,
            vc,
            view: rview,
        };
        if r.trace.is_some() {
            let d = r.describe(a);
            r.note(format!("retire {d}"));
        }
        if x.mask != 0 {
            r.colls[c].retired.push(x);
            let n = r.colls[c].retired.len();
            r.colls[c].peak = r.colls[c].peak.max(n);
            return;
        }
    }
    r.reclaim(coll, x);
}

pub fn coll_reclaim_all(coll: &crate::Collector, c: usize) {
    let r = need();
    loop {
        if r.colls[c].retired.is_empty() {
            return;
        }
        let x = r.colls[c].retired.remove(0);
        r.reclaim(coll, x);
    }
}

// -------------------------------------------------------------------------- harness API

/// Objects waiting for guards to be released, over all collectors.
pub fn garbage() -> usize {
    let r = need();
    r.colls[..r.ncolls].iter().map(|c| c.retired.len()).sum()
}

/// Run `f` as one step: no scheduling points inside.
pub fn atomically<T>(f: impl FnOnce() -> T) -> T {
    let r = need();
    let t = r.cur;
    r.th[t].atomic += 1;
    let x = f();
    need().th[t].atomic -= 1;
    x
}

/// A scheduling point of the harness.
pub fn yield_point() {
    if let Some(r) = rt() {
        r.point();
        let th = &mut r.th[r.cur];
        th.h = mix(th.h, 0x99);
    }
}

/// Wait until thread `t` is done (and acquire everything it did).
pub fn join_thread(t: usize) {
    let r = need();
    r.point();
    let cur = r.cur;
    if r.th[t].status != Status::Done {
        r.block(Status::Join(t));
        r.th[cur].status = Status::Run;
    }
    let (vc, h) = (r.th[t].vc, r.th[t].h);
    join(&mut r.th[cur].vc, &vc);
    r.th[cur].h = mix(mix(r.th[cur].h, h), 0x55);
    if r.cfg.level >= 2 {
        let _s = Sys::on();
        let v = ::std::mem::take(&mut r.th[t].view);
        vjoin(&mut r.th[cur].view, &v);
        r.th[t].view = v;
    }
}

/// A history event: logical time and the thread's clock. `ret` events are ordered with all
/// others, so that pruning preserves real-time order between returns and calls.
pub fn hist(ret: bool) -> (u32, VC) {
    let r = need();
    if r.phase == Phase::Par {
        r.hist_ev(ret);
    }
    r.clock += 1;
    let vc = r.th[r.cur].vc;
    let t = r.cur;
    r.th[t].vc[t] += 1;
    (r.clock, vc)
}

/// Start counting steps and waits of an operation.
pub fn op_begin() {
    let r = need();
    let t = r.cur;
    r.th[t].op_steps = 0;
    r.th[t].op_waits = 0;
    r.th[t].op_writes = 0;
}

/// Steps taken and waits since `op_begin`.
pub fn op_cost() -> (u32, u32) {
    let r = need();
    (r.th[r.cur].op_steps, r.th[r.cur].op_waits)
}

/// Stores, read-modify-writes, locks, allocations and retirements since `op_begin`.
pub fn op_writes() -> u32 {
    let r = need();
    r.th[r.cur].op_writes
}

pub fn tracing() -> bool {
    match rt() {
        Some(r) => r.trace.is_some(),
        None => false,
    }
}

pub fn trace(f: impl FnOnce() -> String) {
    if let Some(r) = rt() {
        if r.trace.is_some() {
            let _s = Sys::on();
            let s = f();
            r.note(s);
        }
    }
}

/// Report a violation and end the execution.
pub fn violation(class: &'static str, msg: String) -> ! {
    let r = need();
    if r.cfg.lenient && r.phase == Phase::Par {
        ::std::mem::forget(msg);
        ::std::panic::resume_unwind(Box::new(Soft));
    }
    r.fail(class, msg)
}
/// What ends an operation in lenient executions.
pub struct Soft;

/// Report a memory error.
pub fn fatal(class: &'static str, msg: String) -> ! {
    need().fail(class, msg)
}

/// (live blocks, live bytes, live tables, tables allocated so far, size of the last table)
pub fn mem() -> (usize, usize, usize, usize, usize) {
    let r = need();
    (
        r.live_blocks,
        r.live_bytes,
        r.live_tables,
        r.table_allocs,
        r.last_table_size,
    )
}

pub fn refused() -> usize {
    need().refused_allocs
}

pub fn max_live_tables() -> usize {
    need().max_live_tables
}

pub fn reset_max_live_tables() {
    let r = need();
    r.max_live_tables = r.live_tables;
}

pub fn live_objs() -> i64 {
    need().live_objs
}

pub fn level() -> u8 {
    need().cfg.level
}

// --- instrumented objects

const ALIVE: u32 = 0x600D_0B1E;
const DEAD: u32 = 0xDEAD_0B1E;

/// Header embedded in keys and values.
#[derive(Debug)]
pub struct Obj {
    magic: Cell<u32>,
    tid: u8,
    epoch: u32,
    reads: [Cell<u32>; MAXT],
}

unsafe impl Sync for Obj {}

impl Obj {
    #[inline]
    pub fn new() -> Obj {
        let (tid, epoch) = match rt() {
            Some(r) => {
                r.live_objs += 1;
                r.objs_created += 1;
                (r.cur as u8, r.th[r.cur].vc[r.cur])
            }
            None => (0, 0),
        };
        Obj {
            magic: Cell::new(ALIVE),
            tid,
            epoch,
            reads: [const { Cell::new(0) }; MAXT],
        }
    }

    /// A read of the object that contains this header.
    #[inline]
    pub fn read(&self, what: &'static str) {
        let Some(r) = rt() else { return };
        let a = self as *const Obj as usize;
        if let Some(b) = r.block_of(a) {
            if !r.blocks[b].live {
                let m = sys(|| format!("T{} reads a {what} in freed memory ({})", r.cur, r.describe(a)));
                r.fail("uaf", m);
            }
        }
        if self.magic.get() != ALIVE {
            let m = sys(|| {
                format!(
                    "T{} reads a {what} that {}",
                    r.cur,
                    if self.magic.get() == DEAD { "was dropped" } else { "is not initialised" }
                )
            });
            r.fail("uaf", m);
        }
        if r.cfg.level >= 1 && r.phase == Phase::Par {
            let vc = &r.th[r.cur].vc;
            if vc[self.tid as usize] < self.epoch {
                let m = sys(|| {
                    format!(
                        "T{} reads a {what} without happening after its creation by T{}",
                        r.cur, self.tid
                    )
                });
                r.fail("race", m);
            }
            self.reads[r.cur].set(vc[r.cur]);
        }
    }

    #[inline]
    pub fn dropped(&self, what: &'static str) {
        let Some(r) = rt() else { return };
        if self.magic.get() != ALIVE {
            let m = sys(|| {
                format!(
                    "T{} drops a {what} that {}",
                    r.cur,
                    if self.magic.get() == DEAD {
                        "was already dropped"
                    } else {
                        "is not initialised"
                    }
                )
            });
            r.fail("double-drop", m);
        }
        let a = self as *const Obj as usize;
        if let Some(b) = r.block_of(a) {
            if !r.blocks[b].live {
                let m = sys(|| format!("T{} drops a {what} in freed memory", r.cur));
                r.fail("uaf", m);
            }
        }
        if r.cfg.level >= 1 && r.phase == Phase::Par {
            let vc = &r.th[r.cur].vc;
            let mut bad = None;
            if vc[self.tid as usize] < self.epoch {
                bad = Some(self.tid as usize);
            }
            for t in 0..MAXT {
                if self.reads[t].get() > vc[t] {
                    bad = Some(t);
                }
            }
            if let Some(t) = bad {
                let m = sys(|| {
                    format!(
                        "T{} drops a {what} without happening after its use by T{t}",
                        r.cur
                    )
                });
                r.fail("race", m);
            }
        }
        self.magic.set(DEAD);
        r.live_objs -= 1;
    }
}

// ------------------------------------------------------------------------------ executor

struct BodyPtr(*mut dyn Body);

impl Rt {
    fn reset(&mut self, cfg: &Config) {
        // Clear shadow state touched by the previous execution.
        for l in 0..self.nlocs {
            let a = self.locs[l].addr;
            if a >= self.base && a < self.base + ARENA_SIZE {
                unsafe { *self.shadow.add(a - self.base) = 0 };
            }
        }
        let used = (self.bump - self.base) / GRAN;
        unsafe { ptr::write_bytes(self.gran, 0, used) };
        self.nlocs = 0;
        self.ext.clear();
        self.s_view.clear();
        self.bump = self.base;
        self.blocks.clear();
        self.live_blocks = 0;
        self.live_bytes = 0;
        self.live_tables = 0;
        self.table_allocs = 0;
        self.last_table_size = 0;
        self.max_live_tables = 0;
        self.refused_allocs = 0;
        self.freed_tables = 0;
        self.cfg = *cfg;
        self.phase = Phase::Seq;
        self.cur = 0;
        self.next = 0;
        self.nth = 0;
        for t in 0..MAXT {
            self.th[t].reset(t);
        }
        self.abort = None;
        self.violation = None;
        self.p_rem = cfg.p;
        self.w_rem = cfg.w;
        self.s_rem = cfg.s;
        self.steps = 0;
        self.clock = 0;
        self.hist_lastw = 0x4157;
        self.hist_readers = 0;
        self.ncolls = 0;
        self.live_objs = 0;
        self.objs_created = 0;
        self.pos = 0;
        self.nodes_new = 0;
        if let Some(t) = &mut self.trace {
            t.clear();
        }
    }

    /// Run one execution, replaying `self.path` and extending it.
    fn run_one(&mut self, cfg: &Config, body: &mut dyn Body) -> End {
        self.reset(cfg);
        let n = body.threads();
        assert!(n < MAXT);
        let me: *mut Rt = self;
        let bp: *mut dyn Body = unsafe { ::std::mem::transmute(body as *mut dyn Body) };
        let mut coros: Vec<Option<Coro>> = Vec::with_capacity(MAXT);
        for t in 0..=n {
            let stack = self.stacks.pop().unwrap_or_else(|| DefaultStack::new(STACK).unwrap());
            let bp = BodyPtr(bp);
            coros.push(Some(Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
                let bp = bp;
                unsafe { (*me).yielders[t] = y as *const _ };
                let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| {
                    let body = unsafe { &mut *bp.0 };
                    if t == 0 {
                        body.setup();
                        // Parallel phase.
                        unsafe {
                            (*me).start_par(n);
                            (*y).suspend(());
                            (*me).end_par(n);
                        }
                        body.finish();
                    } else {
                        body.thread(t);
                    }
                }));
                if let Err(e) = r {
                    let msg = sys(|| panic_msg(&e));
                    // The payload is arena memory; it is dropped with the arena.
                    ::std::mem::forget(e);
                    unsafe { (*me).fail("panic", sys(|| format!("T{t} panicked: {msg}"))) };
                }
            })));
        }
        self.running = true;
        let mut t = 0;
        let mut in_par = false;
        let mut finished = 0;
        let end;
        loop {
            self.cur = t;
            self.next = t;
            ARENA_ON.set(true);
            let r = coros[t].as_mut().unwrap().resume(());
            ARENA_ON.set(false);
            if let Some(a) = self.abort {
                end = a;
                break;
            }
            match r {
                CoroutineResult::Yield(()) => {
                    if t == 0 && !in_par {
                        // start of the parallel phase: free choice of the first thread
                        in_par = true;
                        if n == 0 {
                            t = 0;
                            continue;
                        }
                        t = if n > 1 { 1 + self.choose(n, 0x700) } else { 1 };
                        if let Some(a) = self.abort {
                            end = a;
                            break;
                        }
                        continue;
                    }
                    t = self.next;
                }
                CoroutineResult::Return(()) => {
                    if t == 0 {
                        end = End::Complete;
                        break;
                    }
                    self.th[t].status = Status::Done;
                    let h = self.th[t].h;
                    self.th[t].h = mix(h, 0xD0);
                    if self.trace.is_some() {
                        self.note("done".into());
                    }
                    finished += 1;
                    if finished == n {
                        t = 0;
                        continue;
                    }
                    self.cur = t;
                    match self.pick_done() {
                        Pick::Next(x) => t = x,
                        Pick::Stop(e) => {
                            end = e;
                            break;
                        }
                    }
                }
            }
        }
        self.running = false;
        ARENA_ON.set(false);
        for c in coros.iter_mut() {
            let mut c = c.take().unwrap();
            if c.started() && !c.done() {
                unsafe { c.force_reset() };
            } else if !c.done() {
                // Never started: resetting drops the closure, which owns nothing.
                unsafe { c.force_reset() };
            }
            self.stacks.push(c.into_stack());
        }
        end
    }

    fn pick_done(&mut self) -> Pick {
        let mut o = [0; MAXT];
        let n = self.others(&mut o);
        if n == 0 {
            let mut m = String::from("no thread can run:");
            for t in 1..=self.nth {
                m += &format!(" T{t}={:?}", self.th[t].status);
            }
            if self.violation.is_none() {
                self.violation = Some(Violation {
                    class: "deadlock",
                    msg: m,
                });
            }
            return Pick::Stop(End::Failed);
        }
        if self.pos >= self.path.len() && self.cfg.cache {
            let mut k = mix(0x20 | self.cur as u64, ((self.w_rem as u64) << 32) | self.s_rem as u64);
            for t in 0..=self.nth {
                k = mix(k, self.th[t].h);
            }
            if self.cache.seen(k, self.p_rem.min(250) as u8) {
                return Pick::Stop(End::Pruned);
            }
        }
        let i = if n > 1 { self.choose_nofail(n, 0x800 | self.cur as u32) } else { Some(0) };
        match i {
            Some(i) => Pick::Next(o[i]),
            None => Pick::Stop(End::Failed),
        }
    }

    fn choose_nofail(&mut self, n: usize, tag: u32) -> Option<usize> {
        if self.pos < self.path.len() {
            let nd = self.path[self.pos];
            if nd.n as usize != n || nd.tag != tag {
                self.divergence = true;
                self.violation = Some(Violation {
                    class: "divergence",
                    msg: format!("replay divergence at choice {}", self.pos),
                });
                return None;
            }
            self.pos += 1;
            return Some(nd.idx as usize);
        }
        Some(self.choose(n, tag))
    }

    unsafe fn start_par(&mut self, n: usize) {
        let _s = Sys::on();
        self.nth = n;
        let mvc = self.th[0].vc;
        self.th[0].vc[0] += 1;
        for t in 1..=n {
            self.th[t].status = Status::Run;
            join(&mut self.th[t].vc, &mvc);
        }
        self.phase = Phase::Par;
    }

    unsafe fn end_par(&mut self, n: usize) {
        self.phase = Phase::Seq;
        for t in 1..=n {
            let vc = self.th[t].vc;
            join(&mut self.th[0].vc, &vc);
        }
    }

    /// Whether the execution may end the way it did.
    fn tolerated(&self, cfg: &Config) -> bool {
        cfg.lenient
            && matches!(
                self.violation.as_ref().map(|v| v.class),
                Some("panic" | "deadlock" | "livelock" | "memory")
            )
    }

    /// Depth-first exploration of all executions within the bounds of `cfg`.
    ///
    /// `after` runs after each complete execution (outside the arena).
    pub fn explore(
        &mut self,
        cfg: &Config,
        body: &mut dyn Body,
        after: &mut dyn FnMut(&mut dyn Body) -> Option<Violation>,
        cap: u64,
        stop: &dyn Fn() -> bool,
    ) -> (Stats, Option<(Violation, Vec<Node>)>) {
        let mut st = Stats::default();
        self.path.clear();
        self.cache.clear();
        self.divergence = false;
        loop {
            let mut end = self.run_one(cfg, body);
            if end == End::Failed && self.tolerated(cfg) {
                end = End::Stopped;
            }
            st.states = self.cache.len as u64;
            self.beat.fetch_add(1, Ordering::Relaxed);
            st.execs += 1;
            st.steps += self.steps as u64;
            st.nodes += self.nodes_new;
            st.max_steps = st.max_steps.max(self.steps as u64);
            match end {
                End::Complete => {
                    st.complete += 1;
                    if let Some(v) = after(body) {
                        return (st, Some((v, self.path.clone())));
                    }
                }
                End::Pruned => st.pruned += 1,
                End::Stopped => self.violation = None,
                End::Failed => {
                    let v = self.violation.take().unwrap();
                    return (st, Some((v, self.path.clone())));
                }
            }
            // The execution must have consumed the whole path.
            if self.pos < self.path.len() {
                self.divergence = true;
                return (
                    st,
                    Some((
                        Violation {
                            class: "divergence",
                            msg: "execution ended before its recorded path".into(),
                        },
                        self.path.clone(),
                    )),
                );
            }
            // Backtrack.
            loop {
                match self.path.last_mut() {
                    None => return (st, None),
                    Some(nd) => {
                        if nd.idx + 1 < nd.n {
                            nd.idx += 1;
                            break;
                        }
                        self.path.pop();
                    }
                }
            }
            if st.execs >= cap || (st.execs % 64 == 0 && stop()) {
                st.capped = 1;
                return (st, None);
            }
        }
    }

    /// Replay one path with tracing; returns the trace and the outcome.
    pub fn replay(
        &mut self,
        cfg: &Config,
        body: &mut dyn Body,
        path: &[Node],
        after: &mut dyn FnMut(&mut dyn Body) -> Option<Violation>,
    ) -> (Vec<String>, Option<Violation>) {
        self.path.clear();
        self.path.extend_from_slice(path);
        self.trace = Some(Vec::new());
        let mut c = *cfg;
        c.cache = false;
        let end = self.run_one(&c, body);
        if self.tolerated(&c) {
            self.violation = None;
        }
        let mut v = self.violation.take();
        if end == End::Complete {
            v = after(body);
        }
        (self.trace.take().unwrap(), v)
    }

    /// Run a sequential body (no parallel phase) once.
    pub fn run_seq(&mut self, cfg: &Config, body: &mut dyn Body) -> Option<Violation> {
        self.beat.fetch_add(1, Ordering::Relaxed);
        self.path.clear();
        match self.run_one(cfg, body) {
            End::Failed => self.violation.take(),
            _ => None,
        }
    }

    pub fn last_steps(&self) -> u64 {
        self.steps as u64
    }
}

enum Pick {
    Next(usize),
    Stop(End),
}

pub fn panic_msg(e: &Box<dyn ::std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}
