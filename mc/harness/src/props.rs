//! What is explored for each property.
use crate::cases;
use crate::driver::{Check, Fam};
use crate::exec::Flags;
use crate::prog::{ops, Mode, Op, Prog, G};
use crate::types::Scheme;
use seize::rt::Config;
use Mode::{B, I};
use Scheme::*;

/// A configuration and a start state.
#[derive(Clone)]
pub struct World {
    pub mode: Mode,
    pub cap: usize,
    pub scheme: Scheme,
    pub setup: &'static str,
}

pub fn w(mode: Mode, cap: usize, scheme: Scheme, setup: &'static str) -> World {
    World {
        mode,
        cap,
        scheme,
        setup,
    }
}

impl World {
    pub fn prog(&self, set: bool) -> Prog {
        Prog {
            set,
            mode: self.mode,
            cap: self.cap,
            scheme: self.scheme,
            setup: ops(self.setup),
            threads: vec![],
        }
    }
}

type T = (G, Vec<Op>);

fn t(g: G, s: &str) -> T {
    (g, ops(s))
}

/// Every operation of the list as a thread of its own.
fn singles(g: G, list: &str) -> Vec<T> {
    ops(list).into_iter().map(|o| (g, vec![o])).collect()
}

/// All sequences of `n` operations of the list.
fn seqs(g: G, list: &str, n: usize) -> Vec<T> {
    let l = ops(list);
    let mut out: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|p| {
                l.iter().map(move |o| {
                    let mut q = p.clone();
                    q.push(o.clone());
                    q
                })
            })
            .collect();
    }
    out.into_iter().map(|v| (g, v)).collect()
}

/// Threads given as text, one per line element.
fn list(g: G, l: &[&str]) -> Vec<T> {
    l.iter().map(|s| t(g, s)).collect()
}

/// Unordered pairs.
fn pairs(ws: &[World], set: bool, a: &[T]) -> Vec<Prog> {
    let mut out = vec![];
    for w in ws {
        for i in 0..a.len() {
            for j in i..a.len() {
                let mut p = w.prog(set);
                p.threads = vec![a[i].clone(), a[j].clone()];
                out.push(p);
            }
        }
    }
    out
}

/// Unordered triples.
fn triples(ws: &[World], set: bool, a: &[T]) -> Vec<Prog> {
    let mut out = vec![];
    for w in ws {
        for i in 0..a.len() {
            for j in i..a.len() {
                for k in j..a.len() {
                    let mut p = w.prog(set);
                    p.threads = vec![a[i].clone(), a[j].clone(), a[k].clone()];
                    out.push(p);
                }
            }
        }
    }
    out
}

/// One thread of each list.
fn cross(ws: &[World], set: bool, lists: &[&[T]]) -> Vec<Prog> {
    let mut out = vec![];
    for w in ws {
        let mut acc: Vec<Vec<T>> = vec![vec![]];
        for l in lists {
            acc = acc
                .into_iter()
                .flat_map(|p| {
                    l.iter().map(move |o| {
                        let mut q = p.clone();
                        q.push(o.clone());
                        q
                    })
                })
                .collect();
        }
        for th in acc {
            let mut p = w.prog(set);
            p.threads = th;
            out.push(p);
        }
    }
    out
}

fn cfg(p: u32) -> Config {
    Config {
        p,
        ..Config::default()
    }
}


/// The operations on one key, `@` standing for the key.
const ALL: &str = "g@ h@ kv@ i@ t@ tw@ o@ ow@ u@ uo@ uw@ r@ re@ rif@.t rif@.f rif@.e rif@.o c@.u c@.i c@.r c@.x c@.a c@.n c@.e";
const WRITES: &str = "i@ t@ o@ u@ uo@ r@ rif@.e rif@.o c@.x c@.e";
const CORE: &str = "g@ i@ t@ u@ r@ rif@.e c@.x";
const RMW: &str = "t@ tw@ o@ ow@ u@ uo@ uw@ rif@.t rif@.e rif@.o c@.u c@.i c@.r c@.x c@.a c@.n c@.e";

fn on(k: u16, list: &str) -> String {
    list.replace('@', &k.to_string())
}

/// Operations of the list on every key.
fn ons(keys: &[u16], list: &str) -> String {
    keys.iter().map(|k| on(*k, list)).collect::<Vec<_>>().join(" ")
}

/// One key with up to one neighbour on the same probe sequence; no resize can happen.
fn plain() -> Vec<World> {
    vec![
        w(B, 1, Same, ""),
        w(B, 1, Same, "i1"),
        w(B, 1, Same, "i1 r1"),
        w(B, 1, Same, "i2 i1 r2"),
        w(I(1), 1, Slot, "i2 i1"),
        w(I(1), 1, Slot, "i2"),
    ]
}

/// The table is not allocated yet.
fn lazy() -> Vec<World> {
    vec![w(B, 0, Same, ""), w(I(64), 0, Slot, "")]
}

fn plain_lazy() -> Vec<World> {
    let mut v = plain();
    v.extend(lazy());
    v
}

/// Tables at the brink of, or in the middle of, a resize. Keys: 10 and 11 present, 1.. absent.
fn brink(schemes: &[Scheme], modes: &[Mode]) -> Vec<World> {
    let mut v = vec![];
    for &s in schemes {
        for &m in modes {
            // Full: the next insertion grows the table.
            v.push(w(m, 1, s, "fill10.18"));
            // Full of tombstones: the next insertion rebuilds at the same size.
            v.push(w(m, 1, s, "fill10.18 drain12.18"));
            // Sparse and big: the next insertion shrinks the table.
            v.push(w(m, 1, s, "fill10.26 drain12.26"));
            if let I(_) = m {
                // In the middle of growing, with more and less of it done.
                v.push(w(m, 1, s, "fill10.19"));
                v.push(w(m, 1, s, "fill10.21 r12"));
            }
        }
    }
    v
}

/// Incremental resizes whose next table is itself exhausted.
fn nested(chunks: &[usize]) -> Vec<World> {
    let mut v = vec![];
    for &c in chunks {
        // 16 slots shrink to 8 while 8 keys are inserted.
        v.push(w(I(c), 1, Lin, "fill10.26 drain11.26 fill30.37"));
        v.push(w(I(c), 1, Lin, "fill10.26 drain11.26 fill30.38"));
        v.push(w(I(c), 1, Slot, "fill10.26 drain11.26 fill30.38"));
    }
    v
}

/// A blocking resize that has to be abandoned because its table turns out too small: the
/// table of 64 slots is full of tombstones on the probe sequence of the keys below 100 and
/// halves, but before the copy is over the others have filled the smaller one.
fn abandoned() -> Vec<World> {
    vec![w(B, 0, Half, "res40 fill1.32 drain1.32")]
}

/// One slot left, or none, in the probe sequence that an insertion looks through.
fn last_slot(schemes: &[Scheme], modes: &[Mode]) -> Vec<World> {
    let mut v = vec![];
    for &m in modes {
        for &s in schemes {
            v.push(w(m, 1, s, "fill10.17"));
        }
        v.push(w(m, 24, Slot, "fill10.35"));
        v.push(w(m, 24, Slot, "fill10.36"));
        v.push(w(m, 24, Slot, "fill10.36 r35"));
    }
    v
}

/// Tables of 8192 slots, which blocking resizes copy in two chunks of 4096: the probe sequence
/// of the keys below 100 is used up by tombstones, that of the others is empty or has four keys.
fn wide() -> Vec<World> {
    vec![
        w(B, 6000, Far, "fill1.67 drain1.67 fill100.104"),
        w(I(4096), 6000, Far, "fill1.67 drain1.67 fill100.104"),
    ]
}

/// The same, but the tables halve, and the smaller ones can turn out too small.
fn wide_abandoned() -> Vec<World> {
    vec![w(B, 0, Far, "res6000 fill200.1200 fill1.67 drain1.67")]
}

/// Only the state and the first 256 bytes of a table are points where threads are switched.
fn coarse(c: Config) -> Config {
    Config {
        coarse: true,
        horizon: 1_000_000,
        fair: 200_000,
        ..c
    }
}

fn seq_starts(set: bool, thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let modes: &[Mode] = if thorough { &[B, I(1), I(2), I(64)] } else { &[B, I(1), I(64)] };
    for &m in modes {
        v.push(w(m, 0, Ideal, ""));
        v.push(w(m, 1, Same, ""));
        v.push(w(m, 1, Wrap, "i2 i1"));
        v.push(w(m, 5, Pair, "i1 r1"));
        v.push(w(m, 1, Slot, "fill10.18"));
        v.push(w(m, 1, Lin, "fill10.18 drain12.18"));
        v.push(w(m, 12, Lin, "fill10.26 drain11.26"));
        v.push(w(m, 1, Ideal, "fill10.26 drain11.26"));
        if let I(_) = m {
            v.push(w(m, 1, Lin, "fill10.21"));
            v.push(w(m, 1, Lin, "fill10.26 drain11.26 fill30.37"));
        }
    }
    v.iter().map(|w| w.prog(set)).collect()
}

/// Keys on one probe sequence that end up to a slot before or after its limit: 49 is the last one, 50 is absent.
fn limit_starts(set: bool, thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let modes: &[Mode] = if thorough { &[B, I(1), I(3), I(64)] } else { &[B, I(1), I(64)] };
    for &m in modes {
        for s in [Slot, Same] {
            for cap in [1, 12, 24, 48] {
                for n in [14, 15, 16, 17, 19, 20, 21, 22, 24, 25, 26, 27, 29, 30] {
                    let mut p = w(m, cap, s, "").prog(set);
                    p.setup = ops(&format!("fill{}.50", 50 - n));
                    v.push(p);
                }
            }
        }
    }
    v
}

/// The number of distinct keys a program mentions.
fn keys_of(p: &Prog) -> usize {
    let mut v = vec![];
    p.setup.iter().chain(p.threads.iter().flat_map(|t| t.1.iter())).for_each(|o| o.keys(&mut v));
    v.sort();
    v.dedup();
    v.len()
}

/// What a check explores at most per family before it gives up on a program.
pub fn check(id: &str) -> Option<Check> {
    let thorough = crate::driver::tier_name() == "thorough";
    let d = thorough as u32;
    let base = Flags::default();
    let quiet = Flags {
        iter: true,
        ..base
    };
    let clean = Flags {
        iter: true,
        leak: true,
        tidy: true,
        ..base
    };
    let leak = Flags {
        leak: true,
        ..base
    };
    let mut f: Vec<Fam> = vec![];
    let mut model = None;
    let mut assumptions: Vec<&'static str> = vec![
        "Threads are at most the stated number and deviate from run-to-completion at most as often as the stated preemption bound.",
        "The seize collector is replaced by a model of its contract that reclaims at the earliest moment the contract allows; seize's own code is not explored.",
    ];
    let modes = [B, I(1), I(3)];
    let both = [Slot, Lin];
    let nest: &[usize] = if thorough { &[1, 2] } else { &[1] };
    match id {
        "C01" => {
            let pl = plain_lazy();
            f.push(Fam::conc("pairs of all operations", pairs(&pl, false, &singles(G::L, &on(1, ALL))), cfg(5 + d), base));
            f.push(Fam::conc(
                "two operations against one",
                cross(&pl, false, &[&seqs(G::L, &on(1, CORE), 2), &singles(G::L, &on(1, ALL))]),
                cfg(4 + d),
                base,
            ));
            f.push(Fam::conc("three threads", triples(&pl, false, &singles(G::L, &on(1, WRITES))), cfg(3 + d), base));
            f.push(Fam::conc(
                "three threads and a reader of two",
                cross(&pl, false, &[
                    &singles(G::L, "i1 u1 r1 c1.x"),
                    &singles(G::L, "i1 t1 r1 rif1.e"),
                    &list(G::L, &["g1 g1", "g1 g2", "h1 kv1", "i1 g1", "r1 g1"]),
                ]),
                cfg(3 + d),
                base,
            ));
            f.push(Fam::conc(
                "two keys on one probe sequence",
                pairs(&pl, false, &singles(G::L, "g1 i1 t1 u1 r1 c1.x g2 i2 o2 u2 r2 c2.x i3 o3 g3")),
                cfg(4 + d),
                base,
            ));
            f.push(Fam::conc(
                "three keys, three threads",
                triples(&pl, false, &singles(G::L, "g1 i1 r1 g2 i2 r2 i3")),
                cfg(2 + d),
                base,
            ));
            f.push(Fam::conc(
                "two against two",
                pairs(&pl, false, &seqs(G::L, &on(1, if thorough { ALL } else { CORE }), 2)),
                cfg(3),
                base,
            ));
            f.push(Fam::conc(
                "three against one",
                cross(&pl[1..4], false, &[&seqs(G::L, "g1 i1 r1 u1", 3), &singles(G::L, &on(1, CORE))]),
                cfg(3 + d),
                base,
            ));
            f.push(Fam::conc(
                "other guards",
                cross(&pl, false, &[&singles(G::P, &on(1, WRITES)), &singles(G::O, &on(1, ALL))]),
                cfg(3 + d),
                base,
            ));
        }
        "C02" => {
            let ws = brink(&both, &modes);
            let few = brink(&[Lin], &[B, I(1)]);
            f.push(Fam::conc(
                "pairs around a resize",
                pairs(&ws, false, &singles(G::L, if thorough { "i1 i2 g10 i10 u10 r10 g11 t11 c11.x r11 res20" } else { "i1 i2 g10 i10 u10 r10 t11 c11.x res20" })),
                cfg(2 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "one thread copies all",
                cross(
                    &brink(&both, &[I(8)]),
                    false,
                    &[&list(G::L, &["i1"]), &list(G::L, &["i10 g10", "r10 g10", "u10 r10", "g10 g10", "i2 i1", "u11 u10", "r11 i1", "o10 t11"])],
                ),
                cfg(3),
                quiet,
            ));
            f.push(Fam::conc(
                "writer, writer, observer",
                cross(
                    &ws,
                    false,
                    &[
                        &list(G::L, &["i1", "r10 i1"]),
                        &list(G::L, &["i2 g2", "i10 g10", "r10 g10", "u10 g10"]),
                        &list(G::L, &["g10 g10", "g1 g1", "i3"]),
                    ],
                ),
                cfg(1 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "two operations each",
                cross(
                    if thorough { &ws } else { &few },
                    false,
                    &[
                        &list(G::L, &["i1 r1", "i1 i2", "i10 r10", "r10 i10", "u10 g11"]),
                        &list(G::L, &["i2 u10", "i3 r10", "g10 g1", "c10.x c10.x", "i1 i1", "r1 i1"]),
                    ],
                ),
                cfg(2),
                quiet,
            ));
            f.push(Fam::conc(
                "at the probe limit",
                pairs(&last_slot(&both, &[B, I(1)]), false, &singles(G::L, "i1 i2 g34 u34 r34 i10 r10 ow1 g1")),
                cfg(2 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "nested resizes",
                pairs(&nested(nest), false, &singles(G::L, if thorough { "i1 i2 g10 i10 u30 r31 t32 g30 c10.x res40" } else { "i1 g10 i10 u30 r31 g30 c10.x" })),
                cfg(2 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "abandoned resizes",
                cross(
                    &abandoned(),
                    false,
                    &[
                        &list(G::L, &["i50", "i50 g50", "res60"]),
                        &list(G::L, &["afill100.127", "afill100.127 r101", "afill100.128 i51"]),
                        &list(G::L, &["i51", "g101 g101", "u101 g50"]),
                    ],
                ),
                cfg(1 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "wide tables",
                cross(&wide(), false, &[&list(G::L, &["i1", "i1 i1"]), &list(G::L, &["i2", "r100 i2", "u101"]), &list(G::L, &["g100 g101", "i3", "r102"])]),
                coarse(cfg(1)),
                quiet,
            ));
            f.push(Fam::conc(
                "wide tables, abandoned resizes",
                cross(&wide_abandoned(), false, &[&list(G::L, &["i70"]), &list(G::L, &["afill1200.2400 afill100.162", "afill1200.2400 afill100.162 r101"]), &list(G::L, &["i71", "g101 g101", "u101 g70"])]),
                coarse(cfg(1)),
                quiet,
            ));
            f.push(Fam::seq(
                "long histories, sequential",
                seq_macro_starts(thorough),
                vec![G::L],
                ops(MACROS),
                if thorough { 5 } else { 4 },
                quiet,
            ));
        }
        "C03" => {
            f.push(Fam::conc("pairs", pairs(&plain_lazy(), false, &singles(G::L, &on(1, RMW))), cfg(5 + d), base));
            f.push(Fam::conc(
                "pairs against plain operations",
                cross(&plain_lazy(), false, &[&singles(G::L, &on(1, RMW)), &seqs(G::L, "i1 r1 u1 re1", 2)]),
                cfg(4 + d),
                base,
            ));
            f.push(Fam::conc("three threads", triples(&plain(), false, &singles(G::L, &on(1, "tw@ ow@ u@ uo@ uw@ rif@.e c@.i c@.x c@.e c@.n"))), cfg(3 + d), base));
            f.push(Fam::conc(
                "counters",
                cross(
                    &plain(),
                    false,
                    &[
                        &list(G::L, &["u1 u1", "uo1 uo1", "c1.i c1.i", "uw1 u1"]),
                        &list(G::P, &["u1 u1", "uo1 uo1", "c1.i c1.i", "uw1 u1"]),
                        &list(G::L, &["u1", "uo1", "r1", "i1"]),
                    ],
                ),
                cfg(3 + d),
                base,
            ));
            f.push(Fam::conc(
                "around a resize",
                cross(
                    &brink(&both, &modes),
                    false,
                    &[
                        &singles(G::L, &ons(&[1, 10], "ow@ tw@ u@ uw@ rif@.o rif@.e c@.i c@.x c@.n")),
                        &singles(G::L, "i1 i2 i10 r10 u10 uo10 c10.x"),
                    ],
                ),
                cfg(2),
                base,
            ));
            f.push(Fam::conc(
                "twice around a resize",
                cross(
                    &brink(&both, &modes),
                    false,
                    &[
                        &list(G::L, &["u10 u10", "c10.x c10.x", "uo1 uo1", "i2 u10", "rif10.e ow10"]),
                        &list(G::L, &["u10 i1", "i1 u10", "r10 uo10"]),
                    ],
                ),
                cfg(2),
                base,
            ));
            f.push(Fam::conc(
                "counters around a resize",
                cross(
                    &brink(&[Lin], &modes),
                    false,
                    &[
                        &list(G::L, &["u10", "uo1", "c10.i"]),
                        &list(G::L, &["u10", "uo1", "c10.x"]),
                        &list(G::L, &["i2", "u10", "ow1", "r10"]),
                    ],
                ),
                cfg(1 + d),
                base,
            ));
            f.push(Fam::conc(
                "at the probe limit",
                pairs(&last_slot(&both, &[B, I(1)]), false, &singles(G::L, "tw1 ow1 uo1 c1.x u34 r34 tw2 uw34")),
                cfg(2 + d),
                base,
            ));
            f.push(Fam::conc(
                "nested resizes",
                cross(&nested(&[1]), false, &[&singles(G::L, "u10 uo1 c30.x tw1 rif30.t"), &singles(G::L, "i1 u10 c30.e r30")]),
                cfg(2),
                base,
            ));
        }
        "C04" => {
            let hb = |p| Config {
                level: 1,
                ..cfg(p)
            };
            let readers = |g: G| -> Vec<T> {
                list(g, &["g10 g11", "kv10 g10", "iter", "nest1[g11]", "i10 u10 g10", "re10 i10", "keys vals", "c10.x g11"])
            };
            let writers: Vec<T> = list(
                G::L,
                &["r10 i10", "i1", "u10 u10", "clear", "retain.f", "retain.e", "re10 re11", "i1 r10", "c10.r t10", "res20", "uo10 rif11.t"],
            );
            let mut rd = vec![];
            for g in [G::H, G::S, G::P] {
                rd.extend(readers(g));
            }
            let few: Vec<T> = [G::H, G::S]
                .iter()
                .flat_map(|g| list(*g, &["g10 iter", "nest1[g11]", "i1 g10", "r10 g11"]))
                .collect();
            let pl = vec![w(B, 1, Same, "i10 i11"), w(I(1), 1, Slot, "i10 i11")];
            f.push(Fam::conc("without resize", cross(&pl, false, &[&rd, &writers]), hb(3 + d), base));
            f.push(Fam::conc(
                "two writers",
                cross(&pl, false, &[&few, &writers[..6], &list(G::L, &["r10", "u10", "i10", "clear", "g10"])]),
                hb(2 + d),
                base,
            ));
            f.push(Fam::conc(
                "around a resize",
                cross(&brink(&both, &modes), false, &[&rd, &writers]),
                hb(1),
                base,
            ));
            f.push(Fam::conc(
                "around a resize, deeper",
                cross(&brink(&[Lin], &[B, I(1)]), false, &[&few, &list(G::L, &["i1 r10", "u10", "r10 i1", "clear"])]),
                hb(2),
                base,
            ));
            f.push(Fam::conc(
                "copied entries removed before the copy is over",
                cross(
                    &brink(&[Lin], &[I(1)]),
                    false,
                    &[
                        &list(G::H, &["g10", "g11", "kv12"]),
                        &list(G::L, &["i1 r10", "u10 u10", "r11 i11"]),
                        &list(G::L, &["i2 i3", "r10 i2", "u11 i2", "iter"]),
                    ],
                ),
                hb(1 + d),
                base,
            ));
            f.push(Fam::conc("nested resizes", cross(&nested(nest), false, &[&few, &list(G::L, &["i1 r10", "r30 u31", "clear", "iter"])]), hb(1 + d), base));
            f.push(Fam::conc(
                "abandoned resizes",
                cross(
                    &abandoned(),
                    false,
                    &[&list(G::H, &["i50 g50"]), &list(G::L, &["afill100.127 r101"]), &list(G::H, &["g101 i51", "u101 g50"])],
                ),
                hb(1 + d),
                base,
            ));
            f.push(Fam::conc(
                "shared guard used by two threads",
                cross(
                    &[pl[0].clone(), w(I(1), 1, Lin, "fill10.19")],
                    false,
                    &[&list(G::S, &["g10 r10", "u10 g10", "iter"]), &list(G::S, &["g10 u10", "r10", "i1"]), &list(G::L, &["r10", "u11", "i10"])],
                ),
                hb(2),
                base,
            ));
            f.push(Fam::conc(
                "refreshed guards",
                cross(&pl, false, &[&list(G::H, &["g10 refresh g10", "kv11 refresh iter"]), &writers]),
                hb(2 + d),
                base,
            ));
            f.push(Fam::conc(
                "sets",
                cross(
                    &[w(B, 1, Same, "i10 i11"), w(I(1), 1, Lin, "fill10.19"), w(B, 1, Lin, "fill10.18")],
                    true,
                    &[&list(G::H, &["g10 iter", "i1 g10", "nest1[g11]"]), &list(G::L, &["r10 i10", "clear", "i1 r11", "retain.f", "res20"])],
                ),
                hb(2),
                base,
            ));
        }
        "C05" => {
            f.push(Fam::conc("pairs", pairs(&plain_lazy(), false, &singles(G::L, &on(1, ALL))), cfg(4 + d), clean));
            f.push(Fam::conc("three threads", triples(&plain_lazy(), false, &singles(G::L, &on(1, "i@ t@ o@ uo@ r@ c@.x c@.e"))), cfg(2 + d), clean));
            f.push(Fam::conc(
                "pairs around a resize",
                pairs(&brink(&both, &modes), false, &singles(G::L, "i1 i10 u10 r10 tw11 c11.x clear retain.e res20")),
                cfg(2),
                clean,
            ));
            f.push(Fam::conc(
                "dropped in the middle of a resize",
                pairs(&brink(&both, &[I(1), I(3)]), false, &singles(G::L, "i1 i10 u10 r10 r11 c11.x")),
                cfg(2),
                leak,
            ));
            f.push(Fam::conc(
                "removed while being copied",
                cross(
                    &brink(&[Lin], &[I(1), I(3)]),
                    false,
                    &[&list(G::L, &["i1 r10", "u10 u10", "r10 i10", "i1 i2"]), &list(G::L, &["r11 r10", "u10 i2", "r10 i3", "c10.x c10.x"])],
                ),
                cfg(2),
                leak,
            ));
            f.push(Fam::conc(
                "at the probe limit",
                pairs(&last_slot(&both, &[B, I(1)]), false, &singles(G::L, "i1 i2 t1 uo1 u34 r34 r10")),
                cfg(2),
                clean,
            ));
            f.push(Fam::conc("nested resizes", pairs(&nested(nest), false, &singles(G::L, "i1 u30 r31 r10 c10.x clear res40")), cfg(2), clean));
            f.push(Fam::conc("nested resizes, dropped", pairs(&nested(nest), false, &singles(G::L, "i1 u30 r31 r10 c10.x")), cfg(2), leak));
            f.push(Fam::conc(
                "abandoned resizes",
                cross(
                    &abandoned(),
                    false,
                    &[&list(G::L, &["i50", "res60"]), &list(G::L, &["afill100.127", "afill100.127 r101"]), &list(G::L, &["i51", "u101"])],
                ),
                cfg(1 + d),
                clean,
            ));
            f.push(Fam::conc(
                "wide tables",
                cross(&wide(), false, &[&list(G::L, &["i1"]), &list(G::L, &["i2", "r100 i2"]), &list(G::L, &["i3", "u101"])]),
                coarse(cfg(1)),
                clean,
            ));
            f.push(Fam::conc(
                "wide tables, abandoned resizes",
                cross(&wide_abandoned(), false, &[&list(G::L, &["i70"]), &list(G::L, &["afill1200.2400 afill100.162"]), &list(G::L, &["i71", "u101"])]),
                coarse(cfg(1)),
                clean,
            ));
            f.push(Fam::conc(
                "held guards",
                cross(
                    &brink(&[Lin], &[B, I(1)]),
                    false,
                    &[&list(G::H, &["g10 i1", "r10 i2"]), &list(G::S, &["u10 r11", "i1 i2"])],
                ),
                cfg(2),
                clean,
            ));
            f.push(Fam::conc(
                "sets",
                pairs(&[w(B, 1, Same, "i10"), w(I(1), 1, Lin, "fill10.19"), w(B, 1, Lin, "fill10.18")], true, &singles(G::L, "i1 i10 r10 clear retain.o res20")),
                cfg(2 + d),
                clean,
            ));
            f.push(Fam::seq(
                "sequential",
                seq_starts(false, thorough),
                vec![G::L, G::H],
                ops(&(ons(&[1], ALL) + " i10 r10 u10 iter clear retain.e res20")),
                if thorough { 4 } else { 3 },
                leak,
            ));
            f.push(Fam::seq("long histories, sequential", seq_macro_starts(thorough), vec![G::L], ops(MACROS), 4 + thorough as usize, clean));
            f.push(Fam::seq("long histories, dropped anywhere", seq_macro_starts(thorough), vec![G::H], ops(MACROS_RAW), 4 + thorough as usize, leak));
        }
        "C06" => {
            let weak = |p, w| Config {
                level: 2,
                w,
                ..cfg(p)
            };
            let pl = plain_lazy();
            f.push(Fam::conc("pairs", pairs(&pl, false, &singles(G::L, &on(1, "g@ kv@ i@ t@ o@ u@ r@ rif@.e c@.x c@.e"))), weak(4 + d, 2), base));
            f.push(Fam::conc(
                "two against two",
                pairs(&pl, false, &seqs(G::L, &on(1, "g@ i@ u@ r@"), 2)),
                weak(3, 2),
                base,
            ));
            f.push(Fam::conc("three threads", triples(&pl[..4], false, &singles(G::L, &on(1, "g@ i@ t@ u@ r@ c@.x"))), weak(2 + d, 2), base));
            f.push(Fam::conc("bulk operations", pairs(&pl, false, &singles(G::L, "g1 i1 u1 r1 iter keys clear retain.e")), weak(3 + d, 2), base));
            f.push(Fam::conc(
                "after a completed write",
                cross(
                    &pl,
                    false,
                    &[
                        &list(G::L, &["i1", "u1", "r1", "i2", "c1.x"]),
                        &list(G::L, &["join1 g1 g1", "join1 i1", "join1 u1 g1", "join1 r1"]),
                        &list(G::L, &["g1", "i1", "r1", "i2"]),
                    ],
                ),
                weak(2, 2),
                base,
            ));
            f.push(Fam::conc(
                "after a completed write, around a resize",
                cross(
                    &brink(&both, &[B, I(1)]),
                    false,
                    &[
                        &list(G::L, &["u10", "r10", "i1"]),
                        &list(G::L, &["join1 g10 g1", "join1 u10"]),
                        &list(G::L, &["i2"]),
                    ],
                ),
                weak(1, 1),
                base,
            ));
            f.push(Fam::conc(
                "pairs around a resize",
                pairs(&brink(&both, &[B, I(1)]), false, &singles(G::L, "i1 i2 g10 i10 u10 r10 c11.x res20 iter")),
                weak(1 + d, 2),
                base,
            ));
            f.push(Fam::conc(
                "pairs around a resize, deeper",
                pairs(&brink(&[Slot], &[B, I(1)]), false, &singles(G::L, "i1 g10 u10 r10 iter")),
                weak(2 + d, 2),
                base,
            ));
            f.push(Fam::conc("nested resizes", pairs(&nested(&[1]), false, &singles(G::L, "i1 g10 u30 r31 g30")), weak(1 + d, 2), base));
            f.push(Fam::conc(
                "abandoned resizes",
                cross(
                    &abandoned(),
                    false,
                    &[&list(G::L, &["i50"]), &list(G::L, &["afill100.127"]), &list(G::L, &["i51", "g101"])],
                ),
                weak(1 + d, 1),
                base,
            ));
            assumptions.push("Memory model: release/acquire views with per-location modification order, coherence and stale reads bounded per execution; load buffering and out-of-thin-air behaviours are not modelled.");
        }
        "C07" => {
            let sp = |p, s| Config {
                s,
                ..cfg(p)
            };
            let weak = |p, w| Config {
                level: 2,
                w,
                ..cfg(p)
            };
            f.push(Fam::conc(
                "weak memory, abandoned resizes",
                cross(&abandoned(), false, &[&list(G::L, &["i50"]), &list(G::L, &["afill100.127"]), &list(G::L, &["i51"])]),
                weak(1, 2),
                quiet,
            ));
            let ws = brink(&both, &modes);
            f.push(Fam::conc(
                "three writers around a resize",
                cross(&ws, false, &[&list(G::L, &["i1", "u10"]), &list(G::L, &["i2", "r10", "u10"]), &list(G::L, &["i3", "u10", "r11", "iter"])]),
                sp(1 + d, 1),
                base,
            ));
            f.push(Fam::conc(
                "pairs",
                pairs(&ws, false, &singles(G::L, if thorough { "i1 i10 u10 r10 c11.x iter clear retain.e res20" } else { "i1 u10 r10 c11.x iter clear res20" })),
                sp(2, 1),
                base,
            ));
            f.push(Fam::conc(
                "two operations each",
                cross(&ws, false, &[&list(G::L, &["i1 i2", "u10 i1", "r10 iter"]), &list(G::L, &["i3 i4", "u10 u11", "clear i3", "res20 i3"])]),
                sp(2, 0),
                base,
            ));
            f.push(Fam::conc("nested resizes", pairs(&nested(nest), false, &singles(G::L, "i1 i2 i10 u30 r31 iter clear res40")), sp(2, 1), base));
            f.push(Fam::conc(
                "nested resizes, three threads",
                cross(&nested(&[1, 3]), false, &[&list(G::L, &["i1", "u30"]), &list(G::L, &["i2", "u10"]), &list(G::L, &["iter", "u30", "res40"])]),
                sp(1, 0),
                base,
            ));
            f.push(Fam::conc(
                "abandoned resizes",
                cross(
                    &abandoned(),
                    false,
                    &[
                        &list(G::L, &["i50", "i50 i52"]),
                        &list(G::L, &["afill100.127"]),
                        &list(G::L, &["i51", "u101", "res60"]),
                    ],
                ),
                sp(1 + d, 1),
                base,
            ));
            f.push(Fam::conc(
                "abandoned resizes, four threads",
                cross(
                    &abandoned(),
                    false,
                    &[&list(G::L, &["i50"]), &list(G::L, &["afill100.127"]), &list(G::L, &["i51"]), &list(G::L, &["i52"])],
                ),
                sp(1, 0),
                base,
            ));
            f.push(Fam::conc(
                "wide tables",
                cross(&wide(), false, &[&list(G::L, &["i1"]), &list(G::L, &["i2", "r100 i2"]), &list(G::L, &["i3", "u101"])]),
                coarse(sp(1, 1)),
                base,
            ));
            f.push(Fam::conc(
                "wide tables, abandoned resizes",
                cross(&wide_abandoned(), false, &[&list(G::L, &["i70"]), &list(G::L, &["afill1200.2400 afill100.162"]), &list(G::L, &["i71", "u101"])]),
                coarse(sp(1, 1)),
                base,
            ));
            f.push(Fam::conc(
                "four threads",
                cross(&brink(&[Lin], &[B, I(3), I(8)]), false, &[&list(G::L, &["i1"]), &list(G::L, &["i2"]), &list(G::L, &["u10"]), &list(G::L, &["u11", "iter"])]),
                sp(1, 0),
                base,
            ));
            f.push(Fam::conc(
                "two threads copying and two waiting",
                cross(
                    &[w(I(1), 1, Slot, "fill10.19")],
                    false,
                    &[&list(G::L, &["i1"]), &list(G::L, &["i2"]), &list(G::L, &["u11"]), &list(G::L, &["u14", "r14"])],
                ),
                sp(2, 0),
                quiet,
            ));
            f.push(Fam::conc(
                "waiting twice",
                cross(
                    &[w(I(8), 1, Lin, "fill10.18"), w(I(8), 1, Slot, "fill10.18"), w(I(3), 1, Slot, "fill10.18"), w(I(8), 1, Lin, "fill10.18 drain12.18")],
                    false,
                    &[&list(G::L, &["i1"]), &list(G::L, &["u10 u11", "u11 r10", "r12 u13", "u14 u15", "u16 r17", "c11.x u14"])],
                ),
                sp(3, 0),
                quiet,
            ));
            f.push(Fam::conc(
                "odd chunk sizes",
                pairs(&brink(&[Lin], &[I(0), I(7), I(usize::MAX), I(1 << 63)]), false, &singles(G::L, "i1 u10 r10 iter clear res20")),
                sp(2, 0),
                base,
            ));
            f.push(Fam::conc(
                "huge chunks, three threads",
                cross(&brink(&[Lin], &[I(1 << 63), I(0)]), false, &[&list(G::L, &["i1"]), &list(G::L, &["i2"]), &list(G::L, &["iter", "i3"])]),
                sp(2, 0),
                quiet,
            ));
            f.push(Fam::conc("first table", triples(&lazy(), false, &singles(G::L, "i1 t2 u1 uo1 res20 iter")), sp(3, 1), base));
            f.push(Fam::conc(
                "weak memory, pairs",
                pairs(&brink(&[Slot], &[B, I(1), I(8)]), false, &singles(G::L, "i1 u10 r11 iter clear res20")),
                weak(1 + d, 2),
                quiet,
            ));
            f.push(Fam::conc(
                "weak memory, pairs, deeper",
                pairs(&brink(&[Slot], &[B, I(1)]), false, &singles(G::L, "i1 u10 iter")),
                weak(2, 2),
                quiet,
            ));
            f.push(Fam::conc("weak memory, nested resizes", pairs(&nested(&[1]), false, &singles(G::L, "i1 u30 r31 iter res40")), weak(1 + d, 1), quiet));
            f.push(cases::equal_hashes());
            assumptions.push("Fairness: a thread that spins is descheduled until another thread has run; executions longer than the horizon are reported as livelocks.");
        }
        "C08" => {
            let rd = Flags {
                reads: true,
                ..base
            };
            let nw = Flags {
                reads: true,
                nowait: true,
                ..base
            };
            let ws = brink(&both, &modes);
            let readers: Vec<T> = list(G::L, &["g10 g1", "h10 g12", "kv11 len", "empty g1", "g10 g10"]);
            f.push(Fam::conc(
                "reads against a resize",
                cross(&ws, false, &[&readers, &list(G::L, &["i1", "i1 i2", "u10", "r10 i1", "c11.x", "clear", "retain.e", "iter", "res20"])]),
                cfg(2 + d),
                rd,
            ));
            f.push(Fam::conc(
                "reads against two writers",
                cross(&ws, false, &[&readers[..3], &list(G::L, &["i1", "u10", "clear"]), &list(G::L, &["i2", "r10", "iter"])]),
                cfg(1 + d),
                rd,
            ));
            f.push(Fam::conc(
                "reads against nested resizes",
                cross(&nested(nest), false, &[&readers, &list(G::L, &["i1", "u30", "r10", "iter", "res40", "clear"])]),
                cfg(2),
                rd,
            ));
            f.push(Fam::conc(
                "reads against abandoned resizes",
                cross(&abandoned(), false, &[&list(G::L, &["i50"]), &list(G::L, &["afill100.127"]), &list(G::L, &["g101 h50 len", "kv1 empty"])]),
                cfg(2),
                rd,
            ));
            f.push(Fam::conc("writes without a resize", pairs(&plain_lazy(), false, &singles(G::L, &on(1, ALL))), cfg(4 + d), nw));
            f.push(Fam::conc(
                "writes without a resize, three threads",
                triples(&plain_lazy(), false, &singles(G::L, "i1 t1 u1 r1 c1.x i2 r2 g1 len")),
                cfg(2 + d),
                nw,
            ));
            f.push(Fam::conc(
                "two writes against two",
                pairs(&plain_lazy(), false, &seqs(G::L, "i1 u1 r1 c1.e", 2)),
                cfg(3),
                nw,
            ));
            f.push(Fam::conc(
                "sets",
                cross(
                    &[w(B, 1, Lin, "fill10.18"), w(I(1), 1, Lin, "fill10.19"), w(I(3), 1, Slot, "fill10.18")],
                    true,
                    &[&list(G::L, &["g10 h1", "len empty"]), &list(G::L, &["i1", "r10 i2", "clear", "res20"]), &list(G::L, &["i3", "r10"])],
                ),
                cfg(1 + d),
                rd,
            ));
        }
        "C09" => {
            let pl = vec![
                w(B, 1, Same, "i10 i11"),
                w(I(1), 1, Slot, "i10 i11 i12"),
                w(B, 1, Lin, "i10 i11 i12 r11"),
                w(B, 0, Lin, ""),
                w(I(64), 0, Lin, ""),
            ];
            let its: Vec<T> = list(G::L, &["iter", "keys", "vals"]);
            let its2: Vec<T> = list(G::H, &["iter", "nest1[r11,i11]", "nest1[i1]", "nest0[i1,i2]", "nest2[u10,r10]"]);
            let wr: Vec<T> = list(G::L, &["i1", "r10", "u10", "i10", "r10 i10", "r11 i1", "i1 r1", "clear", "c11.x c11.x", "retain.e"]);
            f.push(Fam::conc("without a resize", cross(&pl, false, &[&its, &wr]), cfg(4 + d), quiet));
            f.push(Fam::conc("two writers", cross(&pl, false, &[&its[..2], &wr[..6], &wr[..6]]), cfg(2 + d), quiet));
            f.push(Fam::conc("with a guard held and writes inside", cross(&pl, false, &[&its2, &wr]), cfg(3), quiet));
            let ws = brink(&both, &modes);
            f.push(Fam::conc("around a resize", cross(&ws, false, &[&its, &wr]), cfg(2), quiet));
            f.push(Fam::conc("around a resize, two writers", cross(&ws, false, &[&its[..1], &list(G::L, &["i1", "r10", "u10"]), &list(G::L, &["i2", "r10 i10", "u11"])]), cfg(1 + d), quiet));
            f.push(Fam::conc(
                "at the probe limit",
                pairs(&last_slot(&both, &[B, I(1)]), false, &list(G::L, &["iter", "i1", "i2", "r34", "u34", "i34"])),
                cfg(2),
                quiet,
            ));
            f.push(Fam::conc("nested resizes", cross(&nested(nest), false, &[&its, &list(G::L, &["i1", "u30", "r10", "r10 i10", "clear"])]), cfg(2), quiet));
            f.push(Fam::conc("sets", cross(&[w(B, 1, Same, "i10 i11"), w(I(1), 1, Lin, "fill10.19"), w(B, 1, Lin, "fill10.18"), w(I(2), 1, Slot, "fill10.18")], true, &[&list(G::L, &["iter", "nest1[r11,i11]"]), &list(G::L, &["i1", "r10 i10", "r11 i1", "clear"])]), cfg(2 + d), quiet));
            let mut nests: Vec<Op> = vec![];
            for n in 0..3u8 {
                for a in ["i1", "i2", "r10", "u10", "i10", "clear", "res20", "fill30.40", "iter"] {
                    for b in ["i3", "r11", "i10", "drain10.26"] {
                        nests.push(Op::Nest(n, ops(&format!("{a} {b}"))));
                    }
                }
            }
            let ncount = nests.len();
            let _ = ncount;
            let mut progs = vec![];
            for w in plain_lazy().iter().chain(pl.iter()).chain(ws.iter()).chain(nested(nest).iter()) {
                for n in &nests {
                    for g in [G::H, G::P] {
                        let mut p = w.prog(false);
                        p.threads = vec![(g, vec![n.clone()])];
                        progs.push(p);
                    }
                }
            }
            f.push(Fam::conc("writes and resizes inside an iteration", progs, cfg(0), quiet));
            f.push(Fam::seq(
                "sequential",
                seq_starts(false, thorough),
                vec![G::L, G::P],
                ops("iter keys vals i1 i2 r10 r11 u10 clear retain.e res20 fill30.40 drain10.26"),
                if thorough { 4 } else { 3 },
                quiet,
            ));
        }
        "C10" => {
            let pl = vec![
                w(B, 1, Same, "i10 i11"),
                w(I(1), 1, Slot, "i10 i11 i12"),
                w(B, 1, Lin, "i10 i11 i12 r11"),
                w(B, 0, Lin, ""),
            ];
            let rm: Vec<T> = list(G::L, &["clear", "retain.t", "retain.f", "retain.e", "retain.o"]);
            let wr: Vec<T> = list(G::L, &["i1", "r10", "u10", "i10", "r10 i10", "r11 i1", "t10", "c11.x c11.x", "rif10.e", "iter", "clear", "retain.e"]);
            f.push(Fam::conc("without a resize", cross(&pl, false, &[&rm, &wr]), cfg(4 + d), quiet));
            f.push(Fam::conc("two writers", cross(&pl, false, &[&rm, &wr[..6], &wr[..6]]), cfg(2 + d), quiet));
            let ws = brink(&both, &modes);
            f.push(Fam::conc("around a resize", cross(&ws, false, &[&rm, &wr[..10]]), cfg(2), quiet));
            f.push(Fam::conc(
                "around a resize, two writers",
                cross(&ws, false, &[&list(G::L, &["clear", "retain.e"]), &list(G::L, &["i1", "u10"]), &list(G::L, &["i2", "r10 i10", "u11"])]),
                cfg(1 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "at the probe limit",
                pairs(&last_slot(&both, &[B, I(1)]), false, &list(G::L, &["clear", "retain.e", "i1", "i2", "r34", "i34"])),
                cfg(2),
                quiet,
            ));
            f.push(Fam::conc("nested resizes", cross(&nested(nest), false, &[&rm, &list(G::L, &["i1", "u30", "r10", "r10 i10"])]), cfg(2), quiet));
            f.push(Fam::conc(
                "sets",
                cross(&[w(B, 1, Same, "i10 i11"), w(I(1), 1, Lin, "fill10.19"), w(B, 1, Lin, "fill10.18"), w(I(2), 1, Slot, "fill10.18")], true, &[&list(G::L, &["clear", "retain.e", "retain.f"]), &list(G::L, &["i1", "r10 i10", "r11 i1", "i10"])]),
                cfg(2 + d),
                quiet,
            ));
            f.push(Fam::conc("two removals at once", pairs(&ws, false, &rm), cfg(2), quiet));
            f.push(Fam::seq(
                "sequential",
                seq_starts(false, thorough),
                vec![G::L, G::H, G::P],
                ops("clear retain.t retain.f retain.e retain.o i1 i2 r10 u10 u11 res20 fill30.40 drain10.26 iter"),
                if thorough { 4 } else { 3 },
                quiet,
            ));
        }
        "C11" => {
            let len = Flags {
                len: true,
                ..base
            };
            let pl = plain_lazy();
            f.push(Fam::conc("pairs", pairs(&pl, false, &singles(G::L, &(on(1, ALL) + " clear retain.e retain.f"))), cfg(4 + d), len));
            f.push(Fam::conc("two against two", pairs(&pl, false, &seqs(G::L, "i1 u1 r1 c1.x t1 clear", 2)), cfg(2 + d), len));
            f.push(Fam::conc("three threads", triples(&pl, false, &singles(G::L, "i1 t1 r1 rif1.e c1.x u1 clear retain.f i2 r2")), cfg(2 + d), len));
            let ws = brink(&both, &modes);
            f.push(Fam::conc(
                "pairs around a resize",
                pairs(&ws, false, &singles(G::L, "i1 i2 i10 u10 r10 t11 c11.x c1.e rif11.t clear retain.e res20")),
                cfg(2),
                len,
            ));
            f.push(Fam::conc(
                "three threads around a resize",
                cross(&ws, false, &[&list(G::L, &["i1", "r10"]), &list(G::L, &["i2", "clear", "c10.x"]), &list(G::L, &["i1", "r10", "retain.f"])]),
                cfg(1 + d),
                len,
            ));
            f.push(Fam::conc(
                "at the probe limit",
                pairs(&last_slot(&both, &[B, I(1)]), false, &singles(G::L, "i1 i2 t1 c1.x r34 r10 rif34.t c34.x clear")),
                cfg(2),
                len,
            ));
            f.push(Fam::conc("nested resizes", pairs(&nested(nest), false, &singles(G::L, "i1 i10 u30 r31 t32 c10.x clear retain.e")), cfg(2), len));
            f.push(Fam::conc(
                "abandoned resizes",
                cross(&abandoned(), false, &[&list(G::L, &["i50"]), &list(G::L, &["afill100.127", "afill100.127 r101"]), &list(G::L, &["i51", "r101"])]),
                cfg(1 + d),
                len,
            ));
            f.push(Fam::conc(
                "wide tables",
                cross(&wide(), false, &[&list(G::L, &["i1"]), &list(G::L, &["i2", "r100 i2"]), &list(G::L, &["i3", "u101"])]),
                coarse(cfg(1)),
                len,
            ));
            f.push(Fam::conc(
                "wide tables, abandoned resizes",
                cross(&wide_abandoned(), false, &[&list(G::L, &["i70"]), &list(G::L, &["afill1200.2400 afill100.162"]), &list(G::L, &["i71", "u101"])]),
                coarse(cfg(1)),
                len,
            ));
            f.push(Fam::conc(
                "sets",
                triples(&[w(B, 1, Same, ""), w(B, 0, Same, ""), w(I(1), 1, Lin, "fill10.19"), w(B, 1, Lin, "fill10.18"), w(I(2), 1, Slot, "fill10.18")], true, &singles(G::L, "i1 r1 i10 r10 clear retain.o")),
                cfg(1 + d),
                len,
            ));
            f.push(Fam::conc("set pairs", pairs(&[w(B, 1, Same, ""), w(B, 1, Same, "i1"), w(I(1), 1, Slot, "i1 i10 r1"), w(I(64), 0, Same, "")], true, &seqs(G::L, "i1 r1 i10 r10 clear", 2)), cfg(3), len));
            f.push(Fam::seq(
                "sequential",
                seq_starts(false, thorough),
                vec![G::L, G::Q],
                ops(&(on(1, "i@ t@ o@ u@ uo@ r@ rif@.e rif@.o c@.x c@.e c@.r c@.n") + " len empty i10 r10 r11 clear retain.e retain.f res20 fill30.40 drain10.26")),
                3,
                len,
            ));
            f.push(Fam::seq("sequential sets", seq_starts(true, thorough), vec![G::L, G::P], ops("i1 i2 r1 i10 r10 r11 clear retain.e len empty res20 fill30.40 drain10.26"), 3 + thorough as usize, len));
        }
        "C12" => {
            let fl = Flags {
                iter: true,
                len: true,
                ident: true,
                leak: true,
                ..base
            };
            f.push(Fam::seq(
                "all operations, all guards",
                seq_starts(false, thorough),
                G::ALL.to_vec(),
                ops(&(on(1, ALL) + " g10 i10 u10 r10 re10 kv10 g2 i2 r2 len iter keys vals clear retain.e retain.o res20")),
                3,
                fl,
            ));
            f.push(Fam::seq(
                "deeper",
                seq_starts(false, thorough),
                vec![G::L],
                ops(&(on(1, "i@ tw@ uo@ r@ c@.x rif@.e") + " i2 r2 u10 r10 i10 clear retain.e")),
                if thorough { 5 } else { 4 },
                fl,
            ));
            f.push(Fam::seq("long histories", seq_macro_starts(thorough), vec![G::L, G::P], ops(MACROS), 4 + thorough as usize, fl));
            f.push(Fam::seq(
                "long probe sequences",
                limit_starts(false, thorough),
                vec![G::L],
                ops(&(on(49, ALL) + " " + &on(50, "g@ i@ t@ ow@ u@ uo@ r@ c@.x c@.i") + " g48 u48 r48 iter retain.e")),
                2 + thorough as usize,
                fl,
            ));
            f.push(cases::big_histories(thorough));
            assumptions.push("The reference is a plain association list with the documented results; seven keys beyond the filling ones.");
        }
        "C13" => {
            let fl = Flags {
                iter: true,
                len: true,
                ident: true,
                leak: true,
                ..base
            };
            f.push(Fam::seq(
                "all operations, all guards",
                seq_starts(true, thorough),
                G::ALL.to_vec(),
                ops("g1 h1 i1 r1 g2 h2 i2 r2 g10 i10 r10 len empty iter clear retain.e retain.o res20 fill30.40"),
                if thorough { 4 } else { 3 },
                fl,
            ));
            f.push(Fam::seq("long histories", seq_macro_starts_set(thorough), vec![G::L, G::P], ops(MACROS_SET), 4 + thorough as usize, fl));
            f.push(Fam::seq(
                "long probe sequences",
                limit_starts(true, thorough),
                vec![G::L],
                ops("g49 h49 i49 r49 g50 h50 i50 r50 g48 i48 r48 iter retain.e"),
                2 + thorough as usize,
                fl,
            ));
            let pl = plain_lazy();
            f.push(Fam::conc("pairs", pairs(&pl, true, &seqs(G::L, "g1 h1 i1 r1 i2", 2)), cfg(4 + d), quiet));
            f.push(Fam::conc("three threads", triples(&pl, true, &singles(G::L, "g1 i1 r1 i2 r2 h2")), cfg(3 + d), quiet));
            f.push(Fam::conc("other guards", cross(&pl, true, &[&singles(G::P, "i1 r1 g1"), &singles(G::O, "i1 r1 h1"), &list(G::Q, &["i1 g1", "r1 h1"])]), cfg(3), quiet));
            let ws = brink(&both, &modes);
            f.push(Fam::conc("pairs around a resize", pairs(&ws, true, &singles(G::L, "i1 i2 g10 i10 r10 r11 iter clear retain.e res20")), cfg(2), quiet));
            f.push(Fam::conc(
                "three threads around a resize",
                cross(&ws, true, &[&list(G::L, &["i1", "r10"]), &list(G::L, &["i1 g1", "i2", "r10 i10"]), &list(G::L, &["g10 g10", "r10", "h1"])]),
                cfg(1 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "at the probe limit",
                pairs(&last_slot(&both, &[B, I(1)]), true, &singles(G::L, "i1 i2 g34 r34 g1 i34")),
                cfg(2),
                quiet,
            ));
            f.push(Fam::conc("nested resizes", pairs(&nested(&[1]), true, &singles(G::L, "i1 i2 g10 r31 g30 iter clear")), cfg(2), quiet));
            f.push(Fam::conc("removals", cross(&pl, true, &[&list(G::L, &["clear", "retain.e", "retain.f", "iter"]), &list(G::L, &["i1", "r1 i1", "i2 r1"]), &list(G::L, &["i1", "r1"])]), cfg(3), quiet));
        }
        "C14" => {
            f.push(cases::capacities(thorough));
            f.push(cases::shrinking(thorough));
            f.push(cases::reserving(thorough));
            f.push(cases::too_large());
            let caps: &[usize] = if thorough { &[0, 1, 2, 3, 5, 6, 7, 9, 11, 12, 13, 17, 20, 24, 25, 33, 48] } else { &[0, 1, 3, 6, 7, 12, 13, 24, 33] };
            let mut starts = vec![];
            for &c in caps {
                for m in [B, I(1), I(64)] {
                    for s in [Lin, Ideal] {
                        starts.push(w(m, c, s, "").prog(false));
                    }
                }
            }
            f.push(Fam::seq("histories at every capacity", starts, vec![G::L], ops("fill1.9 fill9.40 drain1.20 drain5.40 fill50.62 res20 clear i1 r1"), 4 + thorough as usize, quiet));
            let mut ws = vec![];
            for c in [5, 12, 13] {
                for m in [B, I(1)] {
                    ws.push(w(m, c, Lin, "fill10.34 drain11.34"));
                    ws.push(w(m, c, Lin, "fill10.26 drain11.26"));
                }
            }
            f.push(Fam::conc(
                "too large, two threads",
                cross(
                    &[w(B, 1, Lin, "fill10.18"), w(I(1), 1, Lin, "fill10.18"), w(B, 1, Lin, "fill10.12"), w(I(1), 1, Lin, "fill10.19"), w(B, 0, Lin, "")],
                    false,
                    &[&list(G::L, &["res65535", "res65535 i1", "i3 res65535"]), &list(G::L, &["i1", "res20 i1", "iter i2", "res65535 i2"])],
                ),
                cfg(2 + d),
                quiet,
            ));
            f.push(Fam::conc(
                "too large, concurrently",
                cross(
                    &[w(B, 1, Lin, "fill10.18"), w(I(1), 1, Lin, "fill10.18"), w(B, 1, Lin, "fill10.12"), w(I(1), 1, Lin, "fill10.19"), w(B, 0, Lin, "")],
                    false,
                    &[&list(G::L, &["res65535", "res65535 i1", "i3 res65535"]), &list(G::L, &["i1", "i1 i2", "res20 i1", "res65535 i2"]), &list(G::L, &["i3", "u10 i3", "iter i3"])],
                ),
                cfg(1),
                quiet,
            ));
            f.push(Fam::conc("concurrent shrinking", pairs(&ws, false, &singles(G::L, "i1 i10 r10 fill40.60 res20 clear")), cfg(1 + d), quiet));
        }
        "C15" => {
            f.push(cases::churn(thorough));
            f.push(cases::churn_set(thorough));
            f.push(cases::hot_keys(thorough));
            let ws = brink(&both, &modes);
            f.push(Fam::conc(
                "at rest after concurrent churn",
                cross(&ws, false, &[&list(G::L, &["i1 r1", "r10 i1", "i1 i2"]), &list(G::L, &["i2 r2", "u10 u10", "r10 i10", "r11 i3", "clear"])]),
                cfg(2),
                clean,
            ));
            f.push(Fam::conc("nested resizes", pairs(&nested(nest), false, &singles(G::L, "i1 u30 r31 r10 c10.x clear")), cfg(2), clean));
            f.push(Fam::conc(
                "abandoned resizes",
                cross(&abandoned(), false, &[&list(G::L, &["i50"]), &list(G::L, &["afill100.127"]), &list(G::L, &["i51", "u101"])]),
                cfg(1 + d),
                clean,
            ));
            f.push(Fam::conc(
                "held guards",
                cross(&ws, false, &[&list(G::H, &["g10 i1", "r10 r11"]), &list(G::H, &["i2 r10", "u10 i3"]), &list(G::L, &["i1"])]),
                cfg(1),
                clean,
            ));
        }
        "C16" => {
            f.push(cases::foreign(false));
            f.push(cases::foreign(true));
        }
        "C17" => {
            f.push(cases::clones());
            f.push(cases::equality());
            f.push(cases::conversions());
            f.push(cases::serde_trips());
            let still = Flags {
                still: true,
                leak: true,
                ..quiet
            };
            let quiet = Flags {
                leak: true,
                len: true,
                ..quiet
            };
            let pl = vec![
                w(B, 1, Same, "i10 i11"),
                w(I(1), 1, Slot, "i10 i11 i12"),
                w(B, 1, Lin, "i10 i11 i12 r11"),
                w(B, 0, Lin, ""),
                w(I(64), 0, Lin, ""),
            ];
            let wh: Vec<T> = list(G::L, &["dup", "dbg", "ext1.3", "ext10.12"]);
            let wr: Vec<T> = list(G::L, &["i1", "r10", "u10", "i10", "r10 i10", "r11 i1", "i1 r1", "clear", "c11.x c11.x", "retain.e", "ext1.2"]);
            f.push(Fam::conc("whole maps against writers", cross(&pl, false, &[&wh, &wr]), cfg(3 + d), quiet));
            f.push(Fam::conc("whole maps against two writers", cross(&pl, false, &[&list(G::L, &["dup", "ext1.3"]), &wr[..6], &wr[..6]]), cfg(2), quiet));
            let ws = brink(&both, &modes);
            f.push(Fam::conc("around a resize", cross(&ws, false, &[&wh, &wr]), cfg(1 + d), quiet));
            f.push(Fam::conc(
                "around a resize, deeper",
                cross(&brink(&[Lin], &[B, I(1)]), false, &[&list(G::L, &["dup", "ext1.3"]), &list(G::L, &["i1", "u10", "r10 i10"])]),
                cfg(2),
                quiet,
            ));
            f.push(Fam::conc("nested resizes", cross(&nested(nest), false, &[&wh, &list(G::L, &["i1", "u30", "r10 i10"])]), cfg(1 + d), quiet));
            let calm: Vec<T> = list(G::L, &["same", "dup", "dbg", "res20", "iter g10", "kv10 r99", "res40 same"]);
            let mut starts = pl.clone();
            starts.extend(ws.iter().cloned());
            starts.extend(nested(nest));
            f.push(Fam::conc("nobody changes it", cross(&starts, false, &[&calm[..3], &calm]), cfg(1 + d), still));
            let sp = [w(B, 1, Same, "i10 i11"), w(I(1), 1, Lin, "fill10.19"), w(B, 1, Lin, "fill10.18"), w(I(2), 1, Slot, "fill10.18")];
            f.push(Fam::conc("sets", cross(&sp, true, &[&wh, &list(G::L, &["i1", "r10 i10", "r11 i1", "clear", "ext1.2"])]), cfg(2), quiet));
            f.push(Fam::conc("sets that nobody changes", cross(&sp, true, &[&calm[..3], &list(G::L, &["same", "dup", "dbg", "res20", "iter g10", "r99"])]), cfg(1 + d), still));
            for set in [false, true] {
                f.push(Fam::seq(
                    if set { "histories of sets" } else { "histories of maps" },
                    seq_starts(set, thorough),
                    vec![G::L, G::P],
                    ops("dup dbg same ext1.3 ext10.12 ext30.40 i1 r10 i10 clear retain.e res20 drain10.26"),
                    if thorough { 4 } else { 3 },
                    quiet,
                ));
            }
        }
        "C18" => {
            let fl = Flags {
                iter: true,
                len: true,
                leak: true,
                ..base
            };
            let boom = |k: u16| -> String {
                on(k, "boom1!tw@ boom1!ow@ boom1!u@ boom2!u@ boom1!uo@ boom1!uw@ boom2!uw@ boom1!rif@.t boom2!rif@.t boom1!c@.i boom2!c@.i boom3!c@.i boom1!c@.u boom2!c@.u boom1!c@.x boom2!c@.x boom1!c@.d")
            };
            let rb = "boom1!retain.f boom2!retain.f boom3!retain.f boom2!retain.e";
            f.push(Fam::seq(
                "sequential",
                seq_starts(false, thorough),
                vec![G::L, G::P],
                ops(&(boom(1) + " " + rb + " " + &boom(10) + " i1 r1 u1 i10 r10 iter clear")),
                if thorough { 3 } else { 2 },
                fl,
            ));
            f.push(Fam::seq(
                "sequential, deeper",
                seq_starts(false, thorough),
                vec![G::L],
                ops("boom1!ow1 boom1!u1 boom1!c1.i boom1!c1.x boom1!rif1.t boom2!retain.f boom1!uw10 i1 r1 i2 fill30.40"),
                4,
                fl,
            ));
            f.push(Fam::conc("pairs", cross(&plain_lazy(), false, &[&singles(G::L, &boom(1)), &singles(G::L, &on(1, ALL))]), cfg(4 + d), fl));
            f.push(Fam::conc("two against one", cross(&plain_lazy(), false, &[&singles(G::L, &boom(1)), &seqs(G::L, "i1 r1 u1 c1.x", 2)]), cfg(3 + d), fl));
            f.push(Fam::conc("two panics", pairs(&plain_lazy(), false, &singles(G::L, &boom(1))), cfg(3 + d), fl));
            f.push(Fam::conc("retain", cross(&[w(B, 1, Same, "i1 i2"), w(I(1), 1, Lin, "i1 i2 i3")], false, &[&singles(G::L, rb), &singles(G::L, &on(1, ALL))]), cfg(3 + d), fl));
            let ws = brink(&both, &modes);
            f.push(Fam::conc(
                "around a resize",
                cross(
                    &ws,
                    false,
                    &[
                        &singles(G::L, "boom1!ow1 boom1!u10 boom2!u10 boom1!c1.i boom2!c10.x boom2!uw10 boom1!rif10.t boom2!retain.f"),
                        &list(G::L, &["i1", "u10", "r10", "i2 i3", "r10 i10", "iter"]),
                    ],
                ),
                cfg(2),
                fl,
            ));
            f.push(Fam::conc(
                "panics and goes on around a resize",
                cross(&ws, false, &[&list(G::L, &["boom1!ow1 i1", "boom2!u10 i1", "boom1!uw10 r10"]), &list(G::L, &["u10 i2", "i1 r10"])]),
                cfg(1 + d),
                fl,
            ));
            f.push(Fam::conc(
                "nested resizes",
                cross(&nested(&[1]), false, &[&singles(G::L, "boom1!ow1 boom2!u30 boom1!c10.x boom2!retain.e"), &singles(G::L, "i1 u30 r31 iter")]),
                cfg(2),
                fl,
            ));
        }
        "C20" => {
            f.push(cases::chunk_work(thorough));
            f.push(cases::nested_work(thorough));
            f.push(cases::resize_progress(thorough));
            f.push(cases::blocking_work(thorough));
            for c in [1u32, 2, 3] {
                // Each of the two other threads can make an insertion hash one more key per entry it adds.
                let fl = Flags {
                    hashes: Some(c + 1 + 2),
                    ..base
                };
                let name = ["chunk 1, concurrent", "chunk 2, concurrent", "chunk 3, concurrent"][c as usize - 1];
                let mut ws = vec![];
                for s in [Slot, Lin] {
                    ws.push(w(I(c as usize), 1, s, "fill10.26"));
                    ws.push(w(I(c as usize), 1, s, "fill10.26 r12"));
                    ws.push(w(I(c as usize), 1, s, "fill10.27"));
                    ws.push(w(I(c as usize), 1, s, "fill10.28 r12"));
                }
                f.push(Fam::conc(name, pairs(&ws, false, &singles(G::L, "i1 i10 u10 r10 c11.x r11 t25 u25")), cfg(2), fl));
            }
        }
        "C21" => {
            f.push(crate::settings::distinguishable());
            f.push(crate::settings::builders(thorough));
            f.push(crate::settings::constructors(thorough));
        }
        "C24" => {
            let fl = Flags { lenient: true, ..base };
            let odd_cfg = |p: u32| Config {
                lenient: true,
                level: 1,
                horizon: 12_000,
                ..cfg(p)
            };
            // Every operation of the list with a key that misbehaves at its n-th evaluation.
            let odd = |list: &str, ns: u8, hows: &str, then: &str| -> Vec<T> {
                let mut v = vec![];
                for o in list.split_whitespace() {
                    for n in 1..=ns {
                        for how in hows.chars() {
                            v.push((G::L, ops(&format!("odd{n}{how}!{o} {then}"))));
                        }
                    }
                }
                v
            };
            let ws = brink(&both, &modes);
            let mut all = plain_lazy();
            all.extend([w(B, 1, Same, "i1 i10"), w(I(1), 1, Slot, "i1 i10"), w(B, 1, Same, "fill10.18"), w(I(1), 1, Same, "fill10.18")]);
            all.extend(ws.iter().cloned());
            all.extend(nested(&[1, 4]));
            all.extend(last_slot(&both, &[B, I(1)]));
            let hows = "plmLNY";
            let bulk = "clear retain.f retain.o iter res20 res100 ext10.14 ext30.34 dup same fill30.40 drain10.14";
            let each = format!("{} {} {} {bulk}", on(1, ALL), on(10, ALL), on(17, ALL));
            for (name, g) in [("a key that misbehaves once or from then on", G::L), ("the same with one guard throughout", G::H)] {
                let mut t = odd(&each, if thorough { 12 } else { 9 }, hows, "i1 r10 g17 i2 u11 retain.o fill40.50 iter");
                t.iter_mut().for_each(|x| x.0 = g);
                f.push(Fam::conc(name, cross(&all, false, &[&t]), odd_cfg(0), fl));
            }
            f.push(Fam::conc(
                "a key of a set that misbehaves",
                cross(
                    &all,
                    true,
                    &[&odd("i1 r1 g1 i10 r10 re10 h10 clear retain.o iter res20 res100 fill30.40", 9, hows, "i1 r10 g17 i2 retain.o fill40.50 iter")],
                ),
                odd_cfg(0),
                fl,
            ));
            let mut twice = vec![];
            for a in odd(&on(10, "i@ t@ u@ r@ c@.x res20"), 3, "pl", "") {
                for b in odd("i10 u11 r10 i1 iter clear", 3, "pl", "i2 fill40.50 r10") {
                    let mut o = a.1.clone();
                    o.extend(b.1);
                    twice.push((G::L, o));
                }
            }
            f.push(Fam::conc("two keys that misbehave", cross(&all, false, &[&twice]), odd_cfg(0), fl));
            let some: Vec<World> = plain_lazy();
            f.push(Fam::conc(
                "a key that misbehaves against others",
                cross(&some, false, &[&odd(&on(1, "i@ t@ u@ uo@ r@ rif@.t c@.x c@.e g@"), 2, "plLNY", "i1 r1"), &singles(G::L, "g1 i1 u1 r1 c1.x retain.o clear iter")]),
                odd_cfg(2 + 2 * d),
                fl,
            ));
            f.push(Fam::conc(
                "a key that misbehaves during a resize",
                cross(
                    &ws,
                    false,
                    &[&odd("i1 r10 u10 c17.x clear res60", if thorough { 9 } else { 5 }, "plL", "i2 r11"), &list(G::L, &["i1 r11", "r10 u11", "g10 iter"])],
                ),
                odd_cfg(1 + d),
                fl,
            ));
            f.push(Fam::conc(
                "both keys misbehave during a resize",
                cross(
                    &ws,
                    false,
                    &[&odd("i1 r10 u10", 3, "pl", "i2 r11"), &odd("i1 u10 r10 clear", 3, "pl", "r11 i2")],
                ),
                odd_cfg(1 + d),
                fl,
            ));
            f.push(Fam::conc(
                "a key that misbehaves amid nested resizes",
                cross(
                    &nested(&[1]),
                    false,
                    &[&odd("i1 u30 r31 c10.x clear", 6, "plL", "i2 r10"), &singles(G::L, "i1 u30 r31 iter clear")],
                ),
                odd_cfg(1 + d),
                fl,
            ));
        }
        "C25" => {
            let pure = Flags { pure: true, ..base };
            let still = Flags {
                pure: true,
                pure_iter: true,
                ..base
            };
            let ws = brink(&both, &modes);
            let readers: Vec<T> = list(G::L, &["g10 g1 h10", "kv10 kv1 h1", "len empty g12", "h12 g11 kv17"]);
            let mut readers2 = readers.clone();
            for g in [G::H, G::P, G::Q, G::O] {
                readers2.extend(list(g, &["g10 g1 h10 len kv11", "kv10 kv1 h1 empty g12"]));
            }
            let mut all = plain_lazy();
            all.extend([w(B, 1, Same, "i1 i10"), w(I(1), 1, Slot, "i1 i10"), w(B, 1, Same, "fill10.18"), w(I(1), 1, Same, "fill10.18")]);
            all.extend(ws.iter().cloned());
            all.extend(nested(nest));
            all.extend(last_slot(&both, &[B, I(1)]));
            f.push(Fam::conc("lookups in every situation", cross(&all, false, &[&readers2]), cfg(0), pure));
            f.push(Fam::conc(
                "lookups against a resize",
                cross(&ws, false, &[&readers, &list(G::L, &["i1", "i1 i2", "u10", "r10 i1", "c11.x", "clear", "retain.e", "iter", "res20", "fill20.40"])]),
                cfg(1 + d),
                pure,
            ));
            f.push(Fam::conc(
                "lookups against two writers",
                cross(&ws, false, &[&readers[..3], &list(G::L, &["i1", "u10", "clear"]), &list(G::L, &["i2", "r10", "iter"])]),
                cfg(1 + d),
                pure,
            ));
            f.push(Fam::conc(
                "lookups against nested resizes",
                cross(&nested(nest), false, &[&readers, &list(G::L, &["i1", "u30", "r10", "iter", "res40", "clear"])]),
                cfg(1 + d),
                pure,
            ));
            f.push(Fam::conc(
                "lookups against abandoned resizes",
                cross(&abandoned(), false, &[&list(G::L, &["i50"]), &list(G::L, &["afill100.127"]), &list(G::L, &["g101 h50 len", "kv1 empty"])]),
                cfg(1 + d),
                pure,
            ));
            f.push(Fam::conc(
                "lookups among writes to the same keys",
                cross(&plain_lazy(), false, &[&singles(G::L, "g1 h1 kv1 len empty"), &singles(G::L, &on(1, ALL)), &singles(G::L, "i1 r1 u1 clear")]),
                cfg(3 + d),
                pure,
            ));
            f.push(Fam::conc(
                "lookups in sets",
                cross(
                    &[w(B, 1, Lin, "fill10.18"), w(I(1), 1, Lin, "fill10.19"), w(I(3), 1, Slot, "fill10.18"), w(B, 0, Lin, "")],
                    true,
                    &[&list(G::L, &["g10 h1 h10 g1", "len empty"]), &list(G::L, &["i1", "r10 i2", "clear", "res20", "iter"]), &list(G::L, &["i3", "r10"])],
                ),
                cfg(1 + d),
                pure,
            ));
            // No table is resized here.
            let rest = [w(B, 0, Lin, ""), w(I(64), 0, Lin, ""), w(B, 1, Slot, "i10 i11 i12 r11"), w(I(1), 1, Slot, "i10 i11 i12 r11"), w(I(64), 1, Lin, "fill10.14"), w(B, 48, Same, "fill10.14")];
            for set in [false, true] {
                f.push(Fam::conc(
                    if set { "iteration over a set without a resize" } else { "iteration without a resize" },
                    cross(
                        &rest,
                        set,
                        &[&singles(G::L, if set { "iter" } else { "iter keys vals" }), &list(G::L, if set { &["i1", "r10", "clear", "retain.f", "i1 r10 i1"] } else { &["i1", "u10", "r10", "clear", "c11.x", "retain.e", "i1 u1 r10 i1"] })],
                    ),
                    cfg(3 + d),
                    still,
                ));
            }
        }
        "C23" => {
            let fl = Flags {
                iter: true,
                len: true,
                leak: true,
                ..base
            };
            // Operations with closures on key k, or all keys, whose closure runs these operations.
            let back = |k: u16, inner: &[String]| -> Vec<T> {
                let outer = on(k, "1]tw@ 1]ow@ 1]u@ 1]uo@ 1]uw@ 1]rif@.t 1]rif@.f 1]rif@.o 1]c@.u 1]c@.i 1]c@.r 1]c@.x 1]c@.a 1]c@.n 1]c@.e 2]u@ 2]c@.x 1]retain.e 2]retain.f 2]retain.o");
                let mut v = vec![];
                for o in outer.split_whitespace() {
                    let (n, o) = o.split_once(']').unwrap();
                    for i in inner {
                        v.push((G::L, ops(&format!("back{n}[{i}]{o}"))));
                    }
                }
                v
            };
            let words = |s: &str| -> Vec<String> { s.split_whitespace().map(|x| x.to_string()).collect() };
            let inner = words(&format!(
                "{} {} len empty iter retain.f retain.o clear res20 res100 fill30.50 drain10.30 ext30.34 dup dbg same nest1[r11,i12]",
                on(1, ALL),
                on(10, ALL)
            ));
            let mut inner2 = vec![];
            for a in words("i1 r1 u1 i10 r10 u10 clear fill30.50 drain10.20") {
                for b in words("i1 r1 c1.x i10 r10 c10.x retain.f res50 back1[r1,i10]u1 back1[i1,r10]ow10") {
                    inner2.push(format!("{a},{b}"));
                }
            }
            let ws = brink(&both, &modes);
            let mut all = plain_lazy();
            all.extend([w(B, 1, Same, "i1 i10"), w(I(1), 1, Slot, "i1 i10")]);
            all.extend(ws.iter().cloned());
            all.extend(nested(&[1, 4]));
            all.extend(last_slot(&both, &[B, I(1)]));
            for (name, inner) in [("every operation within every closure", &inner), ("two operations within every closure", &inner2)] {
                let mut t = back(1, inner);
                t.extend(back(10, inner));
                // The thread goes on afterwards.
                t.iter_mut().for_each(|x| x.1.extend(ops("i2 r10 g1")));
                f.push(Fam::conc(name, cross(&all, false, &[&t]), cfg(0), fl));
            }
            // What a closure does at its first, second and third call.
            let adversary = |inner: &[&str], outer: &str, booms: &[u8]| -> Vec<T> {
                let mut v = vec![];
                for o in outer.split_whitespace() {
                    for a in inner {
                        for b in inner {
                            for c in inner {
                                let plan: String = [a, b, c]
                                    .iter()
                                    .enumerate()
                                    .filter(|x| **x.1 != "-")
                                    .map(|(i, x)| format!("back{}[{x}]", i + 1))
                                    .collect();
                                v.push((G::L, ops(&format!("{plan}{o}"))));
                                for n in booms {
                                    v.push((G::L, ops(&format!("{plan}boom{n}!{o}"))));
                                }
                            }
                        }
                    }
                }
                v
            };
            let mut t = vec![];
            for k in [1, 10] {
                let inner: Vec<String> = words(&on(k, "- i@ r@ fill30.40 clear i@,fill30.40 r@,drain11.30"));
                let inner: Vec<&str> = inner.iter().map(|x| &x[..]).collect();
                t.extend(adversary(&inner, &on(k, "tw@ ow@ u@ uo@ uw@ rif@.t c@.u c@.i c@.r c@.x c@.a"), &[1, 2, 3]));
            }
            t.extend(adversary(&["-", "i10", "i11", "r11", "r10,r12", "fill30.40", "clear", "res60"], "retain.e retain.f retain.o", &[2, 4]));
            f.push(Fam::conc("closures that interfere at each of their calls", cross(&all, false, &[&t]), cfg(0), fl));
            let short = words("i1 r1 u1 i10 r10 clear fill30.40");
            f.push(Fam::conc(
                "within a closure of a set",
                cross(
                    &all,
                    true,
                    &[&list(
                        G::L,
                        &[
                            "back1[i1]retain.f", "back1[r10]retain.f", "back2[i1,r11]retain.e", "back1[clear]retain.o", "back1[fill30.50]retain.f",
                            "back1[retain.f]retain.f", "back2[drain10.30]retain.e", "nest1[i1,r10]", "nest1[retain.f]", "nest0[fill30.50]",
                        ],
                    )],
                ),
                cfg(0),
                fl,
            ));
            f.push(Fam::conc(
                "closures that use the map against others",
                cross(&plain_lazy(), false, &[&back(1, &words("i1 r1 u1 c1.x clear")), &singles(G::L, "g1 i1 t1 u1 r1 c1.x retain.o clear iter")]),
                cfg(2 + 2 * d),
                fl,
            ));
            f.push(Fam::conc(
                "both use the map in their closures",
                pairs(
                    &plain(),
                    false,
                    &list(
                        G::L,
                        &[
                            "back1[i1]u1", "back1[r1]c1.x", "back1[r1,i1]uw1", "back1[u1]ow1", "back1[i1]rif1.t", "back1[c1.x]c1.i", "back1[clear]uo1",
                            "back1[i2]retain.f",
                        ],
                    ),
                ),
                cfg(3 + 2 * d),
                fl,
            ));
            let list10 = back(10, &short);
            let some: Vec<T> = list10.into_iter().enumerate().filter(|(i, _)| thorough || i % 3 == 0).map(|x| x.1).collect();
            f.push(Fam::conc(
                "closures that use the map around a resize",
                cross(&ws, false, &[&some, &list(G::L, &["i1", "r10", "u10 i2", "iter"])]),
                cfg(1 + d),
                fl,
            ));
            f.push(Fam::conc(
                "closures that resize the map",
                cross(
                    &ws,
                    false,
                    &[
                        &list(
                            G::L,
                            &["back1[i1,i2]u10", "back1[fill30.40]ow3", "back1[drain10.30,i1]c10.x", "back1[res60]uw10", "back2[i1,r11]retain.f", "nest1[i1,r11]"],
                        ),
                        &list(G::L, &["i1", "r10", "u10", "i4 i5"]),
                    ],
                ),
                cfg(1 + 2 * d),
                fl,
            ));
            f.push(Fam::conc(
                "closures that use the map amid nested resizes",
                cross(
                    &nested(&[1]),
                    false,
                    &[&list(G::L, &["back1[i1]u30", "back1[r31,i2]c30.x", "back2[i1]retain.e", "back1[i1]uw1"]), &singles(G::L, "i1 u30 r31 iter clear")],
                ),
                cfg(1 + 2 * d),
                fl,
            ));
            f.push(Fam::conc(
                "closures that use the map amid an abandoned resize",
                cross(&abandoned(), false, &[&list(G::L, &["back1[i51]ow50", "back1[afill100.127]ow50", "back1[i50,i51]ow52"]), &list(G::L, &["afill100.127 r101", "i53"])]),
                cfg(1 + d),
                fl,
            ));
            // More keys with equal hashes than a table probes for never fit (see the findings of C07).
            for fam in &mut f {
                if let crate::driver::Kind::Conc { progs, .. } = &mut fam.kind {
                    progs.retain(|p| matches!(p.scheme, Lin) || keys_of(p) <= 30);
                }
            }
            f.push(crate::anytype::destructors());
        }
        "C22" => {
            f.push(crate::anytype::sequences(thorough));
            f.push(crate::anytype::schedules(thorough, 2 + thorough as u32));
        }
        "C19" => {
            use crate::caps::{self, DYN};
            let m = caps::explore(caps::Bounds {
                guards: 3 + d as usize,
                retired: 2 + d as usize,
            });
            let _ = crate::conc::ALLOWED.set(DYN.iter().map(|d| caps::bits(&m.facts[&d.0])).collect());
            let probes = match caps::probes(&m, &crate::driver::root()) {
                Ok(p) => p,
                Err(e) => {
                    println!("{e}");
                    std::process::exit(2);
                }
            };
            model = Some((m.states, m.transitions));
            f.push(cases::capabilities(probes));
            let facts = |i: u8| Flags { facts: Some(i), ..base };
            let ws = plain_lazy();
            let br = brink(&[Slot], &[B, I(1)]);
            let writers = seqs(G::L, "i1 u1 r1 c1.x clear", 2);
            let more = singles(G::L, "i1 i10 u10 r10 c10.x retain.e clear res20");
            f.push(Fam::conc("with a reference to the map", pairs(&ws, false, &seqs(G::L, "g1 i1 u1 r1", 1 + d as usize)), cfg(3 + d), facts(0)));
            f.push(Fam::conc("with a reference to a map being resized", pairs(&br, false, &more), cfg(1 + d), facts(0)));
            let its = list(G::N, &["iter"]);
            f.push(Fam::conc("with an iterator", cross(&ws, false, &[&writers, &its]), cfg(3 + d), facts(1)));
            f.push(Fam::conc("with an iterator of a map being resized", cross(&br, false, &[&more, &its]), cfg(3 + d), facts(1)));
            let own = list(G::M, &[""]);
            f.push(Fam::conc("with an owned guard", cross(&ws, false, &[&writers, &own]), cfg(3 + d), facts(2)));
            f.push(Fam::conc("with an owned guard of a map being resized", cross(&br, false, &[&more, &own]), cfg(3 + d), facts(2)));
            let ent = list(G::E, &["g1 g1"]);
            f.push(Fam::conc("with the collector of a guard", cross(&ws, false, &[&writers, &ent]), cfg(3 + d), facts(3)));
            f.push(Fam::conc("with the collector of a guard, map being resized", cross(&br, false, &[&more, &ent]), cfg(3 + d), facts(3)));
            assumptions.push("Safe code can do with a handle what the model in caps.rs lets a thread do: the actions are those of the public API; guards are the ones seize provides.");
            assumptions.push("The type checker's verdict on a capability does not depend on anything about the type parameters but whether they are Send and Sync.");
        }
        _ => return None,
    }
    let id = crate::IDS.iter().find(|x| **x == id)?;
    Some(Check {
        id,
        model,
        fams: f,
        assumptions,
    })
}

/// Steps of long histories: they grow, shrink and rebuild tables of up to 128 slots.
const MACROS: &str = "fill1.9 fill9.40 fill40.70 drain1.20 drain5.40 drain1.70 res20 clear retain.e iter i1 r1 u1";
const MACROS_RAW: &str = "fill1.9 fill9.40 fill40.70 drain1.20 drain5.40 drain1.70 res20 i1 r1 u1 u30 fill41.46";
const MACROS_SET: &str = "fill1.9 fill9.40 fill40.70 drain1.20 drain5.40 drain1.70 res20 clear retain.e iter i1 r1";

fn seq_macro_starts(thorough: bool) -> Vec<Prog> {
    macro_starts(false, thorough)
}
fn seq_macro_starts_set(thorough: bool) -> Vec<Prog> {
    macro_starts(true, thorough)
}
fn macro_starts(set: bool, thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let modes: &[Mode] = if thorough { &[B, I(1), I(3), I(16), I(64)] } else { &[B, I(2), I(64)] };
    for &m in modes {
        for s in [Lin, Ideal] {
            v.push(w(m, 0, s, "").prog(set));
            v.push(w(m, 5, s, "").prog(set));
        }
    }
    v
}
