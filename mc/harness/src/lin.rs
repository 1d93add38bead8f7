//! Histories and the linearizability oracle: for each key, is there an order of the recorded
//! effects that respects real time (or happens-before) and explains every result?
use crate::types::reset_foreign_hashes;
use seize::rt::{self, Sys, MAXT, VC};
use std::collections::HashSet;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Act {
    /// The state is this.
    Get(Option<u64>),
    /// The state is present.
    Some,
    /// Exchange.
    Set { new: u64, prev: Option<u64> },
    /// Becomes this, whatever it was.
    Put(u64),
    /// Remove exactly this.
    Del(u64),
    /// Remove whatever is there.
    Kill,
    /// May remove whatever is there.
    OptKill,
    /// If this is the state, it is removed.
    CondDel(u64),
    /// If this is the state, it may be removed.
    MayDel(u64),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub key: u16,
    pub act: Act,
    pub call: u32,
    pub ret: u32,
    pub tid: u8,
    pub cvc: VC,
    pub rvc: u32,
    /// Index of an event that has to come before.
    pub after: i32,
}

/// A call in progress.
#[derive(Clone, Copy)]
pub struct Call {
    pub t: u32,
    pub vc: VC,
    pub tid: u8,
}

#[derive(Default)]
pub struct Hist {
    pub evs: Vec<Ev>,
}

impl Hist {
    pub fn clear(&mut self) {
        self.evs.clear();
    }
    pub fn push(&mut self, key: u16, act: Act, c: &Call, ret: (u32, VC), after: i32) -> i32 {
        let _s = Sys::on();
        self.evs.push(Ev {
            key,
            act,
            call: c.t,
            ret: ret.0,
            tid: c.tid,
            cvc: c.vc,
            rvc: ret.1[c.tid as usize],
            after,
        });
        self.evs.len() as i32 - 1
    }
}

pub fn begin(tid: usize) -> Call {
    rt::op_begin();
    let (t, vc) = rt::hist(false);
    reset_foreign_hashes();
    Call {
        t,
        vc,
        tid: tid as u8,
    }
}

pub fn end() -> (u32, VC) {
    rt::hist(true)
}

fn step(s: Option<u64>, a: Act, out: &mut [Option<u64>; 2]) -> usize {
    match a {
        Act::Get(x) => {
            if s == x {
                out[0] = s;
                1
            } else {
                0
            }
        }
        Act::Some => {
            if s.is_some() {
                out[0] = s;
                1
            } else {
                0
            }
        }
        Act::Set { new, prev } => {
            if s == prev {
                out[0] = Some(new);
                1
            } else {
                0
            }
        }
        Act::Put(v) => {
            out[0] = Some(v);
            1
        }
        Act::Del(v) => {
            if s == Some(v) {
                out[0] = None;
                1
            } else {
                0
            }
        }
        Act::Kill => {
            out[0] = None;
            1
        }
        Act::OptKill => {
            out[0] = s;
            if s.is_some() {
                out[1] = None;
                2
            } else {
                1
            }
        }
        Act::CondDel(v) => {
            out[0] = if s == Some(v) { None } else { s };
            1
        }
        Act::MayDel(v) => {
            out[0] = s;
            out[1] = None;
            1 + (s == Some(v)) as usize
        }
    }
}

/// Sequential application.
pub fn apply(s: Option<u64>, a: Act) -> Result<Option<u64>, ()> {
    let mut o = [None; 2];
    match a {
        Act::OptKill | Act::MayDel(_) => Ok(s),
        _ => {
            if step(s, a, &mut o) == 0 {
                Err(())
            } else {
                Ok(o[0])
            }
        }
    }
}

pub struct Lin {
    ok: HashSet<u64>,
    pub checked: u64,
    pub distinct: u64,
}

impl Lin {
    pub fn new() -> Lin {
        Lin {
            ok: HashSet::new(),
            checked: 0,
            distinct: 0,
        }
    }

    /// Check the history; `init` gives each key's state before it.
    pub fn check(&mut self, h: &Hist, init: &[(u16, Option<u64>)], hb: bool) -> Result<(), String> {
        let mut idx: Vec<usize> = Vec::new();
        let mut preds: Vec<u64> = Vec::new();
        // Group by key.
        let mut order: Vec<usize> = (0..h.evs.len()).collect();
        order.sort_by_key(|i| h.evs[*i].key);
        let mut a = 0;
        while a < order.len() {
            let key = h.evs[order[a]].key;
            let mut b = a;
            while b < order.len() && h.evs[order[b]].key == key {
                b += 1;
            }
            idx.clear();
            idx.extend_from_slice(&order[a..b]);
            a = b;
            let s0 = match init.iter().find(|x| x.0 == key) {
                Some(x) => x.1,
                None => None,
            };
            // All events just observe the initial state: nothing to do.
            if idx.iter().all(|i| {
                h.evs[*i].act == Act::Get(s0) || (h.evs[*i].act == Act::Some && s0.is_some())
            }) {
                continue;
            }
            let n = idx.len();
            if n > 60 {
                return Err(format!("key {key}: too many events for the oracle ({n})"));
            }
            preds.clear();
            let mut fp = rt::mix(0x51, s0.map_or(0, |x| x + 1));
            for (i, ei) in idx.iter().enumerate() {
                let e = &h.evs[*ei];
                let mut p = 0u64;
                for (j, ej) in idx.iter().enumerate() {
                    if i == j {
                        continue;
                    }
                    let f = &h.evs[*ej];
                    let before = if hb && f.tid != e.tid {
                        e.cvc[f.tid as usize] >= f.rvc
                    } else {
                        f.ret < e.call
                    };
                    if before || e.after == *ej as i32 {
                        p |= 1 << j;
                    }
                }
                preds.push(p);
                fp = rt::mix(fp, p);
                fp = rt::mix(
                    fp,
                    match e.act {
                        Act::Get(x) => rt::mix(1, x.map_or(0, |x| x + 1)),
                        Act::Some => 2,
                        Act::Set { new, prev } => rt::mix(rt::mix(3, new), prev.map_or(0, |x| x + 1)),
                        Act::Del(x) => rt::mix(4, x),
                        Act::Kill => 5,
                        Act::OptKill => 6,
                        Act::CondDel(x) => rt::mix(7, x),
                        Act::MayDel(x) => rt::mix(8, x),
                        Act::Put(x) => rt::mix(9, x),
                    },
                );
            }
            self.checked += 1;
            if self.ok.contains(&fp) {
                continue;
            }
            if !Self::search(h, &idx, &preds, s0) {
                let mut m = format!(
                    "no linearization explains the results for key {key} (initially {}):",
                    show(s0)
                );
                for i in &idx {
                    let e = &h.evs[*i];
                    m += &format!(" [T{} {}..{} {}]", e.tid, e.call, e.ret, show_act(e.act));
                }
                return Err(m);
            }
            self.distinct += 1;
            self.ok.insert(fp);
        }
        Ok(())
    }

    fn search(h: &Hist, idx: &[usize], preds: &[u64], s0: Option<u64>) -> bool {
        let n = idx.len();
        let full = if n == 64 { !0 } else { (1u64 << n) - 1 };
        let mut seen: HashSet<(u64, Option<u64>)> = HashSet::new();
        let mut stack = vec![(0u64, s0)];
        while let Some((m, s)) = stack.pop() {
            if m == full {
                return true;
            }
            if !seen.insert((m, s)) {
                continue;
            }
            for i in 0..n {
                if m & (1 << i) != 0 || preds[i] & !m != 0 {
                    continue;
                }
                let mut o = [None; 2];
                let k = step(s, h.evs[idx[i]].act, &mut o);
                for x in &o[..k] {
                    stack.push((m | 1 << i, *x));
                }
            }
        }
        false
    }
}

pub fn show(s: Option<u64>) -> String {
    match s {
        None => "absent".into(),
        Some(v) => format!("{v:#x}"),
    }
}

pub fn show_act(a: Act) -> String {
    match a {
        Act::Get(x) => format!("observes {}", show(x)),
        Act::Some => "observes presence".into(),
        Act::Set { new, prev } => format!("{} -> {:#x}", show(prev), new),
        Act::Put(v) => format!("becomes {v:#x}"),
        Act::Del(v) => format!("removes {v:#x}"),
        Act::Kill => "clears".into(),
        Act::OptKill => "may clear again".into(),
        Act::CondDel(v) => format!("rejected {v:#x}"),
        Act::MayDel(v) => format!("rejected {v:#x} before it panicked"),
    }
}

const _: () = assert!(MAXT >= 4);
