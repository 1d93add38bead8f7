//! Sequential bodies: one thread, exhaustive operation sequences, arbitrary closures.
use crate::conc::{self, leak_check, new_map, new_set};
use crate::exec::{self, Cx, Flags};
use crate::prog::{Op, Prog, G};
use seize::rt::{self, Body, Config, Rt, Violation};

/// Runs `setup` and then `ops` with guard kind `g` on one thread against the model.
pub struct SeqBody {
    pub prog: Prog,
    pub g: G,
    pub ops: Vec<Op>,
    pub cx: Cx,
}

impl SeqBody {
    pub fn new(prog: &Prog, g: G, alphabet: &[Op], flags: Flags) -> SeqBody {
        let mut p = prog.clone();
        p.threads.push((g, alphabet.to_vec()));
        let cx = Cx::new(p.universe(), p.scheme, p.set, flags);
        SeqBody {
            prog: prog.clone(),
            g,
            ops: Vec::new(),
            cx,
        }
    }

    pub fn text(&self) -> String {
        let mut p = self.prog.clone();
        p.threads = vec![(self.g, self.ops.clone())];
        format!("seq {}", p.text())
    }
}

/// The map or set at rest: completed resizes leave exactly one table and the live entries.
pub fn tidy_check(cx: &Cx, present: usize) {
    let (_, _, tables, ..) = rt::mem();
    let objs = rt::live_objs();
    let want = (present * if cx.set { 1 } else { 2 }) as i64;
    if rt::garbage() != 0 {
        let s = rt::sys(|| format!("{} retired objects remain after all guards are gone", rt::garbage()));
        rt::violation("tidy", s);
    }
    if tables > 1 {
        let s = rt::sys(|| format!("{tables} tables are alive in a map at rest"));
        rt::violation("tidy", s);
    }
    if objs != want {
        let s = rt::sys(|| format!("{objs} keys and values are alive in a map at rest that has {present} keys"));
        rt::violation("tidy", s);
    }
}

impl Body for SeqBody {
    fn threads(&self) -> usize {
        0
    }
    fn setup(&mut self) {
        let cx = &mut self.cx;
        cx.reset();
        let p = &self.prog;
        if p.set {
            let m = new_set(p.mode, p.cap);
            exec::run_set(&m, None, cx, 0, G::L, &p.setup);
            let shared = if self.g == G::S { Some(m.owned_guard()) } else { None };
            exec::run_set(&m, shared.as_ref(), cx, 0, self.g, &self.ops);
            cx.recheck(0);
            drop(shared);
            conc::quiescent_set(cx, &m);
            cx.apply_reads();
            if cx.flags.tidy {
                tidy_check(cx, cx.present());
            }
            drop(m);
        } else {
            let m = new_map(p.mode, p.cap);
            exec::run_map(&m, None, cx, 0, G::L, &p.setup);
            let shared = if self.g == G::S { Some(m.owned_guard()) } else { None };
            exec::run_map(&m, shared.as_ref(), cx, 0, self.g, &self.ops);
            cx.recheck(0);
            drop(shared);
            conc::quiescent_map(cx, &m);
            cx.apply_reads();
            if cx.flags.tidy {
                tidy_check(cx, cx.present());
            }
            drop(m);
        }
        if cx.flags.leak {
            leak_check();
        }
    }
    fn thread(&mut self, _: usize) {}
    fn finish(&mut self) {}
}

/// Runs a closure in a sequential execution.
pub struct FnBody<'a>(pub &'a dyn Fn());
impl Body for FnBody<'_> {
    fn threads(&self) -> usize {
        0
    }
    fn setup(&mut self) {
        (self.0)()
    }
    fn thread(&mut self, _: usize) {}
    fn finish(&mut self) {}
}

#[derive(Default, Clone, Copy)]
pub struct SeqStats {
    pub runs: u64,
    pub steps: u64,
    pub ops: u64,
    pub ident: u64,
    pub capped: u64,
}

/// All sequences of up to `depth` operations of the alphabet that start with `first`.
pub fn enumerate(
    rt: &mut Rt,
    prog: &Prog,
    g: G,
    alphabet: &[Op],
    first: usize,
    depth: usize,
    flags: Flags,
    stop: &dyn Fn() -> bool,
) -> (SeqStats, Option<(Violation, String)>) {
    let cfg = Config {
        level: 0,
        ..Config::default()
    };
    let mut st = SeqStats::default();
    let mut b = SeqBody::new(prog, g, alphabet, flags);
    let mut idx = vec![first];
    loop {
        b.ops.clear();
        b.ops.extend(idx.iter().map(|i| alphabet[*i].clone()));
        st.runs += 1;
        st.ops += idx.len() as u64;
        let v = rt.run_seq(&cfg, &mut b);
        st.steps += rt.last_steps();
        if let Some(v) = v {
            return (st, Some((v, b.text())));
        }
        if st.runs % 64 == 0 && stop() {
            st.capped = 1;
            break;
        }
        // Next sequence: extend, else increment, keeping the first operation.
        if idx.len() < depth {
            idx.push(0);
            continue;
        }
        loop {
            if idx.len() == 1 {
                st.ident = b.cx.ident_finding;
                return (st, None);
            }
            let l = idx.last_mut().unwrap();
            *l += 1;
            if *l < alphabet.len() {
                break;
            }
            idx.pop();
        }
    }
    st.ident = b.cx.ident_finding;
    (st, None)
}

/// Run one sequence, for replay.
pub fn replay(rt: &mut Rt, text: &str, flags: Flags) -> (Vec<String>, Option<Violation>) {
    let mut p = Prog::parse(text.strip_prefix("seq ").unwrap());
    let (g, ops) = p.threads.pop().unwrap();
    let mut b = SeqBody::new(&p, g, &ops, flags);
    b.ops = ops;
    rt.trace = Some(Vec::new());
    let cfg = Config {
        level: 0,
        ..Config::default()
    };
    let v = rt.run_seq(&cfg, &mut b);
    (rt.trace.take().unwrap(), v)
}
