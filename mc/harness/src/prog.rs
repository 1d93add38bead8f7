//! Programs: operations, thread programs, configurations and their text form.
use crate::types::Scheme;
use std::fmt::Write;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pred {
    /// Always true / false.
    T,
    F,
    /// Value is even / odd.
    E,
    O,
}
impl Pred {
    pub fn eval(self, v: u64) -> bool {
        match self {
            Pred::T => true,
            Pred::F => false,
            Pred::E => v % 2 == 0,
            Pred::O => v % 2 == 1,
        }
    }
    fn c(self) -> char {
        match self {
            Pred::T => 't',
            Pred::F => 'f',
            Pred::E => 'e',
            Pred::O => 'o',
        }
    }
    fn p(c: char) -> Pred {
        match c {
            't' => Pred::T,
            'f' => Pred::F,
            'e' => Pred::E,
            'o' => Pred::O,
            _ => panic!("predicate {c}"),
        }
    }
}

/// What a compute closure does.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Pol {
    /// Update if present, else abort.
    U,
    /// Upsert.
    I,
    /// Remove if present, else abort.
    R,
    /// Remove if present, else insert.
    X,
    /// Abort always.
    A,
    /// Insert if absent, else abort.
    N,
    /// Odd value: update, even: remove, absent: insert.
    E,
    /// Remove always, which is a programming error if the key is absent.
    D,
}
impl Pol {
    fn c(self) -> char {
        match self {
            Pol::U => 'u',
            Pol::I => 'i',
            Pol::R => 'r',
            Pol::X => 'x',
            Pol::A => 'a',
            Pol::N => 'n',
            Pol::E => 'e',
            Pol::D => 'd',
        }
    }
    fn p(c: char) -> Pol {
        match c {
            'u' => Pol::U,
            'i' => Pol::I,
            'r' => Pol::R,
            'x' => Pol::X,
            'a' => Pol::A,
            'n' => Pol::N,
            'e' => Pol::E,
            'd' => Pol::D,
            _ => panic!("policy {c}"),
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Get(u16),
    Has(u16),
    Kv(u16),
    Ins(u16),
    Try(u16),
    TryW(u16),
    Goi(u16),
    GoiW(u16),
    Upd(u16),
    Uoi(u16),
    UoiW(u16),
    Rem(u16),
    RemE(u16),
    RemIf(u16, Pred),
    Comp(u16, Pol),
    Len,
    IsEmpty,
    Iter,
    Keys,
    Vals,
    /// Iterate; run the operations after `n` items.
    Nest(u8, Vec<Op>),
    Retain(Pred),
    Clear,
    Reserve(u16),
    /// Insert / remove a range of keys (half open).
    Fill(u16, u16),
    Drain(u16, u16),
    /// Insert a range as one step.
    AFill(u16, u16),
    ADrain(u16, u16),
    Join(u8),
    /// Clone, format, compare with itself, extend with a range of keys.
    Dup,
    Dbg,
    Same,
    Ext(u16, u16),
    Refresh,
    /// The closure of the operation panics at its n-th call.
    Boom(u8, Box<Op>),
    /// The closure of the operation runs operations at its n-th call.
    Back(u8, Vec<Op>, Box<Op>),
    /// Keys misbehave at the n-th evaluation of `Hash` or `Eq` during the operation.
    Odd(u8, u8, Box<Op>),
}

impl Op {
    pub fn show(&self, s: &mut String) {
        match self {
            Op::Get(k) => write!(s, "g{k}"),
            Op::Has(k) => write!(s, "h{k}"),
            Op::Kv(k) => write!(s, "kv{k}"),
            Op::Ins(k) => write!(s, "i{k}"),
            Op::Try(k) => write!(s, "t{k}"),
            Op::TryW(k) => write!(s, "tw{k}"),
            Op::Goi(k) => write!(s, "o{k}"),
            Op::GoiW(k) => write!(s, "ow{k}"),
            Op::Upd(k) => write!(s, "u{k}"),
            Op::Uoi(k) => write!(s, "uo{k}"),
            Op::UoiW(k) => write!(s, "uw{k}"),
            Op::Rem(k) => write!(s, "r{k}"),
            Op::RemE(k) => write!(s, "re{k}"),
            Op::RemIf(k, p) => write!(s, "rif{}.{}", k, p.c()),
            Op::Comp(k, p) => write!(s, "c{}.{}", k, p.c()),
            Op::Len => write!(s, "len"),
            Op::IsEmpty => write!(s, "empty"),
            Op::Iter => write!(s, "iter"),
            Op::Keys => write!(s, "keys"),
            Op::Vals => write!(s, "vals"),
            Op::Nest(n, v) => {
                write!(s, "nest{n}[").unwrap();
                for (i, o) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    o.show(s);
                }
                write!(s, "]")
            }
            Op::Retain(p) => write!(s, "retain.{}", p.c()),
            Op::Clear => write!(s, "clear"),
            Op::Reserve(n) => write!(s, "res{n}"),
            Op::Fill(a, b) => write!(s, "fill{a}.{b}"),
            Op::Drain(a, b) => write!(s, "drain{a}.{b}"),
            Op::AFill(a, b) => write!(s, "afill{a}.{b}"),
            Op::ADrain(a, b) => write!(s, "adrain{a}.{b}"),
            Op::Join(t) => write!(s, "join{t}"),
            Op::Dup => write!(s, "dup"),
            Op::Dbg => write!(s, "dbg"),
            Op::Same => write!(s, "same"),
            Op::Ext(a, b) => write!(s, "ext{a}.{b}"),
            Op::Refresh => write!(s, "refresh"),
            Op::Back(n, v, o) => {
                write!(s, "back{n}[").unwrap();
                for (i, o) in v.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    o.show(s);
                }
                s.push(']');
                o.show(s);
                Ok(())
            }
            Op::Odd(n, how, o) => {
                write!(s, "odd{n}{}!", *how as char).unwrap();
                o.show(s);
                Ok(())
            }
            Op::Boom(n, o) => {
                write!(s, "boom{n}!").unwrap();
                o.show(s);
                Ok(())
            }
        }
        .unwrap();
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.show(&mut s);
        s
    }

    pub fn parse(t: &str) -> Op {
        if let Some(r) = t.strip_prefix("back") {
            let (n, o) = r.split_once('[').expect("back");
            let mut depth = 1;
            let end = o
                .find(|c| {
                    depth += (c == '[') as i32 - (c == ']') as i32;
                    depth == 0
                })
                .expect("back");
            return Op::Back(n.parse().unwrap(), list(&o[..end]), Box::new(Op::parse(&o[end + 1..])));
        }
        if let Some(r) = t.strip_prefix("odd") {
            let (n, o) = r.split_once('!').expect("odd");
            let (n, how) = n.split_at(n.len() - 1);
            return Op::Odd(n.parse().unwrap(), how.as_bytes()[0], Box::new(Op::parse(o)));
        }
        if let Some(r) = t.strip_prefix("boom") {
            let (n, o) = r.split_once('!').expect("boom");
            return Op::Boom(n.parse().unwrap(), Box::new(Op::parse(o)));
        }
        if let Some(r) = t.strip_prefix("nest") {
            let (n, o) = r.split_once('[').expect("nest");
            let o = o.strip_suffix(']').expect("nest");
            return Op::Nest(n.parse().unwrap(), list(o));
        }
        let cut = t.find(|c: char| c.is_ascii_digit()).unwrap_or(t.len());
        let (name, rest) = t.split_at(cut);
        let (name, parg) = match name.split_once('.') {
            Some((n, p)) => (n, p.chars().next()),
            None => (name, None),
        };
        let (a, b) = match rest.split_once('.') {
            Some((a, b)) => (a, b),
            None => (rest, ""),
        };
        let k = || a.parse::<u16>().unwrap_or_else(|_| panic!("op {t}"));
        let c = || b.chars().next().unwrap();
        match name {
            "g" => Op::Get(k()),
            "h" => Op::Has(k()),
            "kv" => Op::Kv(k()),
            "i" => Op::Ins(k()),
            "t" => Op::Try(k()),
            "tw" => Op::TryW(k()),
            "o" => Op::Goi(k()),
            "ow" => Op::GoiW(k()),
            "u" => Op::Upd(k()),
            "uo" => Op::Uoi(k()),
            "uw" => Op::UoiW(k()),
            "r" => Op::Rem(k()),
            "re" => Op::RemE(k()),
            "rif" => Op::RemIf(k(), Pred::p(c())),
            "c" => Op::Comp(k(), Pol::p(c())),
            "len" => Op::Len,
            "empty" => Op::IsEmpty,
            "iter" => Op::Iter,
            "keys" => Op::Keys,
            "vals" => Op::Vals,
            "retain" => Op::Retain(Pred::p(parg.unwrap())),
            "clear" => Op::Clear,
            "res" => Op::Reserve(k()),
            "fill" => Op::Fill(k(), b.parse().unwrap()),
            "drain" => Op::Drain(k(), b.parse().unwrap()),
            "afill" => Op::AFill(k(), b.parse().unwrap()),
            "adrain" => Op::ADrain(k(), b.parse().unwrap()),
            "dup" => Op::Dup,
            "dbg" => Op::Dbg,
            "same" => Op::Same,
            "ext" => Op::Ext(k(), b.parse().unwrap()),
            "join" => Op::Join(k() as u8),
            "refresh" => Op::Refresh,
            _ => panic!("unknown operation {t}"),
        }
    }

    /// Keys the operation names.
    pub fn keys(&self, out: &mut Vec<u16>) {
        match self {
            Op::Get(k) | Op::Has(k) | Op::Kv(k) | Op::Ins(k) | Op::Try(k) | Op::TryW(k)
            | Op::Goi(k) | Op::GoiW(k) | Op::Upd(k) | Op::Uoi(k) | Op::UoiW(k) | Op::Rem(k)
            | Op::RemE(k) | Op::RemIf(k, _) | Op::Comp(k, _) => out.push(*k),
            Op::Fill(a, b) | Op::Drain(a, b) | Op::AFill(a, b) | Op::ADrain(a, b) | Op::Ext(a, b) => {
                out.extend(*a..*b)
            }
            Op::Nest(_, v) => v.iter().for_each(|o| o.keys(out)),
            Op::Boom(_, o) | Op::Odd(_, _, o) => o.keys(out),
            Op::Back(_, v, o) => {
                o.keys(out);
                v.iter().for_each(|o| o.keys(out));
            }
            _ => {}
        }
    }
}

/// Operations separated by commas, which may contain lists in brackets.
fn list(s: &str) -> Vec<Op> {
    let mut depth = 0;
    s.split(|c| {
        depth += (c == '[') as i32 - (c == ']') as i32;
        depth == 0 && c == ','
    })
    .filter(|x| !x.is_empty())
    .map(Op::parse)
    .collect()
}

pub fn ops(s: &str) -> Vec<Op> {
    s.split_whitespace().map(Op::parse).collect()
}

pub fn show_ops(v: &[Op]) -> String {
    let mut s = String::new();
    for (i, o) in v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        o.show(&mut s);
    }
    s
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Mode {
    B,
    I(usize),
}

/// How a thread obtains guards.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum G {
    /// A local guard per operation.
    L,
    /// One local guard for the whole thread, references held to its end.
    H,
    /// An owned guard per operation.
    O,
    /// The shared owned guard, references held until all threads are done.
    S,
    /// One pinned map reference for the whole thread.
    P,
    /// One pinned map reference with an owned guard per operation.
    Q,
    /// The shared owned guard, which moves into the thread and is dropped there.
    M,
    /// For each operation, a guard of the collector that the shared owned guard lends out; the map
    /// is not used.
    E,
    /// The thread is given an iterator made before, with the shared owned guard (maps only).
    N,
}
impl G {
    pub const ALL: [G; 9] = [G::L, G::H, G::O, G::S, G::P, G::Q, G::M, G::E, G::N];
    pub fn c(self) -> char {
        match self {
            G::L => 'L',
            G::H => 'H',
            G::O => 'O',
            G::S => 'S',
            G::P => 'P',
            G::Q => 'Q',
            G::M => 'M',
            G::E => 'E',
            G::N => 'N',
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Prog {
    pub set: bool,
    pub mode: Mode,
    pub cap: usize,
    pub scheme: Scheme,
    pub setup: Vec<Op>,
    pub threads: Vec<(G, Vec<Op>)>,
}

impl Prog {
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.set {
            s += "set ";
        }
        match self.mode {
            Mode::B => s += "B",
            Mode::I(n) => write!(s, "I{n}").unwrap(),
        }
        write!(s, " cap={} hash={} setup: {}", self.cap, self.scheme.name(), show_ops(&self.setup)).unwrap();
        for (g, v) in &self.threads {
            write!(s, " | {} {}", g.c(), show_ops(v)).unwrap();
        }
        s
    }

    pub fn parse(t: &str) -> Prog {
        let (head, rest) = t.split_once(" setup:").expect("setup:");
        let mut p = Prog {
            set: false,
            mode: Mode::B,
            cap: 0,
            scheme: Scheme::Ideal,
            setup: vec![],
            threads: vec![],
        };
        for w in head.split_whitespace() {
            if w == "set" {
                p.set = true;
            } else if w == "B" {
                p.mode = Mode::B;
            } else if let Some(c) = w.strip_prefix("cap=") {
                p.cap = c.parse().unwrap();
            } else if let Some(h) = w.strip_prefix("hash=") {
                p.scheme = Scheme::parse(h);
            } else if let Some(n) = w.strip_prefix('I') {
                p.mode = Mode::I(n.parse().unwrap());
            } else {
                panic!("program text: {w}");
            }
        }
        let mut parts = rest.split('|');
        p.setup = ops(parts.next().unwrap());
        for th in parts {
            let th = th.trim();
            let (g, o) = th.split_at(1);
            let g = *G::ALL.iter().find(|x| x.c() == g.chars().next().unwrap()).expect("guard mode");
            p.threads.push((g, ops(o)));
        }
        p
    }

    pub fn universe(&self) -> Vec<u16> {
        let mut k = Vec::new();
        self.setup.iter().for_each(|o| o.keys(&mut k));
        for (_, v) in &self.threads {
            v.iter().for_each(|o| o.keys(&mut k));
        }
        k.sort();
        k.dedup();
        k
    }
}
