//! Runs the families of a property on all cores, reports and records.
use crate::anytype::{self, AnyBody};
use crate::conc;
use crate::exec::Flags;
use crate::prog::{Op, Prog, G};
use crate::seq;
use seize::rt::{Body, Config, Node, Rt, Violation};
use serde_json::{json, Value};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Kind {
    /// All schedules of each program.
    Conc {
        progs: Vec<Prog>,
        cfg: Config,
        flags: Flags,
        cap: u64,
    },
    /// All operation sequences up to a depth from each start state and with each kind of guard.
    Seq {
        starts: Vec<Prog>,
        guards: Vec<G>,
        alphabet: Vec<Op>,
        depth: usize,
        flags: Flags,
    },
    /// All schedules of programs over keys and values of other types.
    Typed { progs: Vec<anytype::Prog>, cfg: Config },
    /// Enumerated cases.
    Case {
        cases: Vec<Case>,
        horizon: u32,
        /// Each case in a process of its own (it may crash).
        isolated: bool,
    },
}

pub type Case = (String, Box<dyn Fn() + Send + Sync>);

pub struct Fam {
    pub name: &'static str,
    pub kind: Kind,
}

impl Fam {
    pub fn conc(name: &'static str, progs: Vec<Prog>, cfg: Config, flags: Flags) -> Fam {
        Fam {
            name,
            kind: Kind::Conc {
                progs,
                cfg,
                flags,
                cap: 4_000_000,
            },
        }
    }
    pub fn seq(
        name: &'static str,
        starts: Vec<Prog>,
        guards: Vec<G>,
        alphabet: Vec<Op>,
        depth: usize,
        flags: Flags,
    ) -> Fam {
        Fam {
            name,
            kind: Kind::Seq {
                starts,
                guards,
                alphabet,
                depth,
                flags,
            },
        }
    }
    pub fn cases(name: &'static str, cases: Vec<Case>, horizon: u32) -> Fam {
        Fam {
            name,
            kind: Kind::Case {
                cases,
                horizon,
                isolated: false,
            },
        }
    }
    fn jobs(&self) -> usize {
        match &self.kind {
            Kind::Conc { progs, .. } => progs.len(),
            Kind::Seq {
                starts,
                guards,
                alphabet,
                ..
            } => starts.len() * guards.len() * alphabet.len(),
            Kind::Typed { progs, .. } => progs.len(),
            Kind::Case { cases, .. } => cases.len(),
        }
    }
}

/// One line on a family.
pub fn describe(f: &Fam) -> String {
    match &f.kind {
        Kind::Conc { progs, cfg, .. } => {
            let t = progs.iter().map(|p| p.threads.len()).max().unwrap_or(0);
            let mut s = format!("{} programs, {t} threads, p={}", progs.len(), cfg.p);
            if cfg.w > 0 {
                s += &format!(", w={}", cfg.w);
            }
            if cfg.s > 0 {
                s += &format!(", s={}", cfg.s);
            }
            if cfg.coarse {
                s += ", coarse";
            }
            s
        }
        Kind::Seq { starts, guards, alphabet, depth, .. } => format!(
            "sequences of {depth} of {} operations, {} start states, {} kinds of guard",
            alphabet.len(),
            starts.len(),
            guards.len()
        ),
        Kind::Typed { progs, cfg } => {
            let t = progs.iter().map(|p| p.threads()).max().unwrap_or(0);
            format!("{} programs, {t} threads, p={}", progs.len(), cfg.p)
        }
        Kind::Case { cases, .. } => format!("{} cases", cases.len()),
    }
}

pub struct Check {
    pub id: &'static str,
    /// States and transitions of the explicit-state model, if the check has one.
    pub model: Option<(u64, u64)>,
    pub fams: Vec<Fam>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Clone)]
pub struct Found {
    pub fam: usize,
    pub job: usize,
    pub text: String,
    pub class: String,
    pub msg: String,
    pub path: Vec<Node>,
    pub p: u32,
}

#[derive(Default, Clone)]
pub struct FamStats {
    pub jobs: u64,
    pub execs: u64,
    pub complete: u64,
    pub pruned: u64,
    pub states: u64,
    pub transitions: u64,
    pub max_steps: u64,
    pub capped: u64,
    pub diverged: u64,
    pub lin_checked: u64,
    pub lin_distinct: u64,
    pub ident: u64,
    pub max_read_steps: u64,
    pub ms: u64,
}

pub enum JobOut {
    Done(FamStats),
    Found(Found, FamStats),
}

pub fn run_job(rt: &mut Rt, c: &Check, fam: usize, job: usize, stop: &dyn Fn() -> bool) -> JobOut {
    let mut s = FamStats {
        jobs: 1,
        ..Default::default()
    };
    match &c.fams[fam].kind {
        Kind::Conc {
            progs,
            cfg,
            flags,
            cap,
        } => {
            let o = conc::explore(rt, &progs[job], *flags, cfg, *cap, stop);
            s.execs = o.stats.execs;
            s.complete = o.stats.complete;
            s.pruned = o.stats.pruned;
            s.states = o.stats.states;
            s.transitions = o.stats.steps;
            s.max_steps = o.stats.max_steps;
            s.capped = o.stats.capped;
            s.lin_checked = o.lin_checked;
            s.lin_distinct = o.lin_distinct;
            s.max_read_steps = o.max_read_steps as u64;
            if let Some((v, path)) = o.violation {
                if v.class == "divergence" {
                    s.diverged = 1;
                    return JobOut::Done(s);
                }
                return JobOut::Found(
                    Found {
                        fam,
                        job,
                        text: progs[job].text(),
                        class: v.class.into(),
                        msg: v.msg,
                        path,
                        p: cfg.p,
                    },
                    s,
                );
            }
        }
        Kind::Seq {
            starts,
            guards,
            alphabet,
            depth,
            flags,
        } => {
            let a = job % alphabet.len();
            let r = job / alphabet.len();
            let g = guards[r % guards.len()];
            let p = &starts[r / guards.len()];
            let (q, v) = seq::enumerate(rt, p, g, alphabet, a, *depth, *flags, stop);
            s.execs = q.runs;
            s.complete = q.runs - v.is_some() as u64;
            s.states = q.ops;
            s.transitions = q.steps;
            s.capped = q.capped;
            s.ident = q.ident;
            if let Some((v, text)) = v {
                return JobOut::Found(
                    Found {
                        fam,
                        job,
                        text,
                        class: v.class.into(),
                        msg: v.msg,
                        path: vec![],
                        p: 0,
                    },
                    s,
                );
            }
        }
        Kind::Typed { progs, cfg } => {
            let mut body = AnyBody::new(&progs[job]);
            let (stats, violation) = rt.explore(cfg, &mut body, &mut |b| as_any(b).check(), 4_000_000, stop);
            s.execs = stats.execs;
            s.complete = stats.complete;
            s.pruned = stats.pruned;
            s.states = stats.states;
            s.transitions = stats.steps;
            s.max_steps = stats.max_steps;
            s.capped = stats.capped;
            s.lin_checked = body.lin.checked;
            s.lin_distinct = body.lin.distinct;
            if let Some((v, path)) = violation {
                if v.class == "divergence" {
                    s.diverged = 1;
                    return JobOut::Done(s);
                }
                return JobOut::Found(
                    Found {
                        fam,
                        job,
                        text: progs[job].text(),
                        class: v.class.into(),
                        msg: v.msg,
                        path,
                        p: cfg.p,
                    },
                    s,
                );
            }
        }
        Kind::Case {
            cases,
            horizon,
            isolated,
        } => {
            let v = if *isolated {
                isolated_case(c.id, fam, job)
            } else {
                run_case(rt, &cases[job], *horizon)
            };
            s.execs = 1;
            s.states = 1;
            s.transitions = if *isolated { 1 } else { rt.last_steps() };
            s.complete = v.is_none() as u64;
            if let Some(v) = v {
                return JobOut::Found(
                    Found {
                        fam,
                        job,
                        text: cases[job].0.clone(),
                        class: v.class.into(),
                        msg: v.msg,
                        path: vec![],
                        p: 0,
                    },
                    s,
                );
            }
        }
    }
    JobOut::Done(s)
}

fn as_any(b: &mut dyn Body) -> &mut AnyBody {
    // Only `AnyBody` is ever explored with these callbacks.
    unsafe { &mut *(b as *mut dyn Body as *mut AnyBody) }
}

fn replay_any(rt: &mut Rt, p: &anytype::Prog, cfg: &Config, path: &[Node]) -> (Vec<String>, Option<Violation>) {
    let mut body = AnyBody::new(p);
    rt.replay(cfg, &mut body, path, &mut |b| as_any(b).check())
}

fn run_case(rt: &mut Rt, c: &Case, horizon: u32) -> Option<Violation> {
    let cfg = Config {
        horizon,
        ..Config::default()
    };
    rt.run_seq(&cfg, &mut seq::FnBody(&*c.1))
}

/// Run one case in a child process; dying counts as a violation.
fn isolated_case(id: &str, fam: usize, job: usize) -> Option<Violation> {
    let child = std::process::Command::new(std::env::current_exe().unwrap())
        .args(["case", id, &fam.to_string(), &job.to_string()])
        .env("PMC_TIER", tier_name())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null())
        .spawn();
    let Ok(mut child) = child else { return None };
    let Some(st) = wait_for(&mut child, 120) else {
        return Some(Violation {
            class: "livelock",
            msg: "the case has not finished within 120 s".into(),
        });
    };
    let mut text = String::new();
    if let Some(o) = &mut child.stdout {
        use std::io::Read;
        let _ = o.read_to_string(&mut text);
    }
    match st.code() {
        Some(0) => None,
        Some(1) => Some(Violation {
            class: "case",
            msg: text.trim().to_string(),
        }),
        _ => Some(Violation {
            class: "crash",
            msg: format!("the process died: {st}"),
        }),
    }
}

/// Wait for a child for at most `secs`, then end it.
fn wait_for(child: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if t.elapsed() < Duration::from_secs(secs) => {
                std::thread::sleep(Duration::from_millis(2))
            }
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
        }
    }
}

pub fn tier_name() -> String {
    std::env::var("PMC_TIER").unwrap_or_else(|_| "quick".into())
}

pub fn root() -> PathBuf {
    std::env::var("PMC_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

struct Shared {
    check: Check,
    starts: Vec<usize>,
    total: usize,
    next: AtomicUsize,
    best: AtomicUsize,
    deadline: Instant,
    late: AtomicBool,
    found: Mutex<Vec<(usize, Found)>>,
    stats: Mutex<Vec<FamStats>>,
    beats: Mutex<Vec<(Arc<AtomicU64>, Arc<AtomicUsize>)>>,
    inflight: Option<Inflight>,
    known: Vec<Value>,
    known_hits: Mutex<Vec<bool>>,
}

/// Jobs in flight, in a file the parent process can read if this one dies.
struct Inflight(*mut u64);
unsafe impl Send for Inflight {}
unsafe impl Sync for Inflight {}
const SLOTS: usize = 64;

impl Inflight {
    fn open(p: &Path, create: bool) -> Option<Inflight> {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(create)
            .open(p)
            .ok()?;
        f.set_len((SLOTS * 8) as u64).ok()?;
        let m = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        (m != libc::MAP_FAILED).then(|| Inflight(m as *mut u64))
    }
    fn set(&self, slot: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(slot % SLOTS), v) }
    }
    fn get(&self, slot: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(slot)) }
    }
}

fn locate(starts: &[usize], i: usize) -> (usize, usize) {
    let f = starts.partition_point(|s| *s <= i) - 1;
    (f, i - starts[f])
}

fn job_starts(c: &Check) -> (Vec<usize>, usize) {
    let mut starts = vec![];
    let mut total = 0;
    for f in &c.fams {
        starts.push(total);
        total += f.jobs();
    }
    (starts, total)
}

/// Returns whether to go on in a new thread.
fn worker(sh: &Arc<Shared>, slot: usize) -> bool {
    let mut again = false;
    let mut rt = Rt::new();
    rt.install();
    let cur = Arc::new(AtomicUsize::new(usize::MAX));
    sh.beats.lock().unwrap().push((rt.beat.clone(), cur.clone()));
    loop {
        let i = sh.next.fetch_add(1, Relaxed);
        if i >= sh.total || i > sh.best.load(Relaxed) {
            break;
        }
        if Instant::now() > sh.deadline {
            sh.late.store(true, Relaxed);
            break;
        }
        cur.store(i, Relaxed);
        if let Some(f) = &sh.inflight {
            f.set(slot, i as u64 + 1);
        }
        let (fam, job) = locate(&sh.starts, i);
        let t = Instant::now();
        let out = run_job(&mut rt, &sh.check, fam, job, &|| {
            i > sh.best.load(Relaxed) || Instant::now() > sh.deadline
        });
        cur.store(usize::MAX, Relaxed);
        let took = t.elapsed().as_millis() as u64;
        let (st, f) = match out {
            JobOut::Done(s) => (s, None),
            JobOut::Found(f, s) => (s, Some(f)),
        };
        {
            let mut all = sh.stats.lock().unwrap();
            let a = &mut all[fam];
            a.jobs += st.jobs;
            a.execs += st.execs;
            a.complete += st.complete;
            a.pruned += st.pruned;
            a.states += st.states;
            a.transitions += st.transitions;
            a.max_steps = a.max_steps.max(st.max_steps);
            a.capped += st.capped;
            a.diverged += st.diverged;
            a.lin_checked += st.lin_checked;
            a.lin_distinct += st.lin_distinct;
            a.ident += st.ident;
            a.ms += took;
            a.max_read_steps = a.max_read_steps.max(st.max_read_steps);
        }
        if let Some(f) = f {
            let hit = sh.known.iter().position(|k| {
                (k["text"] == f.text.as_str()
                    || k["texts"].as_array().is_some_and(|a| a.iter().any(|t| t == f.text.as_str())))
                    && (k["class"].is_null() || k["class"] == f.class.as_str())
            });
            if let Some(h) = hit {
                // Listed: go on with a runtime that has not seen a failure.
                sh.known_hits.lock().unwrap()[h] = true;
                again = true;
            } else {
                sh.best.fetch_min(i, Relaxed);
                sh.found.lock().unwrap().push((i, f));
            }
            break;
        }
    }
    if let Some(f) = &sh.inflight {
        f.set(slot, 0);
    }
    cur.store(usize::MAX, Relaxed);
    if !again {
        // The runtime's big tables go with the process.
        std::mem::forget(rt);
    }
    again
}

fn on_fresh_thread<T: Send + 'static>(f: impl FnOnce(&mut Rt) -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut rt = Rt::new();
            rt.install();
            let r = f(&mut rt);
            std::mem::forget(rt);
            r
        })
        .unwrap()
        .join()
        .unwrap()
}

/// Find a violation of the same program with fewer preemptions and record how to replay it.
fn minimise(sh: &Arc<Shared>, f: Found) -> (Found, Vec<String>) {
    let mut best = f.clone();
    if let Kind::Typed { progs, cfg } = &sh.check.fams[f.fam].kind {
        let (prog, cfg, path) = (progs[f.job].clone(), *cfg, f.path.clone());
        let lines = on_fresh_thread(move |rt| replay_any(rt, &prog, &cfg, &path).0);
        return (best, lines);
    }
    let Kind::Conc { progs, cfg, flags, .. } = &sh.check.fams[f.fam].kind else {
        let fl = match &sh.check.fams[f.fam].kind {
            Kind::Seq { flags, .. } => Some(*flags),
            _ => None,
        };
        let mut lines = vec![];
        if let Some(fl) = fl {
            let text = f.text.clone();
            lines = on_fresh_thread(move |rt| seq::replay(rt, &text, fl).0);
        }
        return (best, lines);
    };
    let prog = progs[f.job].clone();
    let (cfg, flags) = (*cfg, *flags);
    for p in 0..cfg.p {
        let prog = prog.clone();
        let r = on_fresh_thread(move |rt| {
            let t = Instant::now();
            conc::explore(rt, &prog, flags, &Config { p, ..cfg }, 1_000_000, &|| {
                t.elapsed() > Duration::from_secs(10)
            })
            .violation
        });
        if let Some((v, path)) = r {
            if v.class != "divergence" {
                best.class = v.class.into();
                best.msg = v.msg;
                best.path = path;
                best.p = p;
                break;
            }
        }
    }
    let (path, p) = (best.path.clone(), best.p);
    let lines = on_fresh_thread(move |rt| {
        conc::replay(rt, &prog, flags, &Config { p, ..cfg }, &path).0
    });
    (best, lines)
}

fn path_json(p: &[Node]) -> Value {
    Value::Array(p.iter().map(|n| json!([n.n, n.idx, n.tag])).collect())
}

fn emit_violation(id: &str, fam_name: &str, f: &Found, lines: &[String]) {
    let dir = root().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{id}.json"));
    let v = json!({
        "property": id, "tier": tier_name(), "family": fam_name, "fam": f.fam, "job": f.job,
        "text": f.text, "class": f.class, "message": f.msg, "p": f.p,
        "path": path_json(&f.path), "trace": lines,
    });
    let _ = std::fs::write(&file, serde_json::to_string_pretty(&v).unwrap());
    println!("property {id}, family {fam_name}: {}", f.text);
    println!("  {}: {}", f.class, f.msg);
    let n = lines.len();
    for (i, l) in lines.iter().enumerate() {
        if i < 60 || i + 60 > n {
            println!("    {l}");
        } else if i == 60 {
            println!("    ... ({} lines, see the replay file)", n - 120);
        }
    }
    println!("VIOLATION property={id} replay={}", file.display());
    let _ = std::io::stdout().flush();
}

fn known(id: &str) -> Vec<Value> {
    let Ok(s) = std::fs::read_to_string(root().join("known_findings.jsonl")) else {
        return vec![];
    };
    s.lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .filter(|v| v["property"] == id && v["status"] == "known")
        .collect()
}

fn write_evidence(sh: &Shared, t0: Instant, violations: u64) {
    let st = sh.stats.lock().unwrap();
    let mut fams = vec![];
    let mut tot = FamStats::default();
    let mut exhaustive = !sh.late.load(Relaxed) && violations == 0;
    for (i, f) in sh.check.fams.iter().enumerate() {
        let s = &st[i];
        tot.execs += s.execs;
        tot.complete += s.complete;
        tot.states += s.states;
        tot.transitions += s.transitions;
        if s.capped > 0 || s.diverged > 0 || (s.jobs as usize) < f.jobs() {
            exhaustive = false;
        }
        let (kind, bounds) = match &f.kind {
            Kind::Conc { cfg, .. } | Kind::Typed { cfg, .. } => (
                "all schedules",
                json!({"preemptions": cfg.p, "stale_reads": cfg.w, "spurious_wakeups": cfg.s,
                       "memory_model": match cfg.level {0 => "SC", 1 => "SC with happens-before clocks", _ => "view-based release/acquire"}}),
            ),
            Kind::Seq { depth, alphabet, guards, starts, .. } => (
                "all operation sequences",
                json!({"depth": depth, "alphabet": alphabet.iter().map(|o| o.text()).collect::<Vec<_>>(),
                       "start_states": starts.len(), "guard_kinds": guards.len()}),
            ),
            Kind::Case { .. } => ("all cases", json!({})),
        };
        fams.push(json!({
            "family": f.name, "kind": kind, "bounds": bounds, "jobs": f.jobs(), "jobs_done": s.jobs,
            "executions": s.execs, "completed": s.complete, "pruned_as_equivalent": s.pruned,
            "states": s.states, "steps": s.transitions, "longest_execution": s.max_steps,
            "histories_checked": s.lin_checked, "distinct_histories": s.lin_distinct,
            "capped_jobs": s.capped, "inconclusive_jobs": s.diverged,
            "max_steps_of_a_read": s.max_read_steps,
        }));
    }
    let mut samples = vec![];
    for f in &sh.check.fams {
        match &f.kind {
            Kind::Conc { progs, .. } => {
                if let Some(p) = progs.get(progs.len() / 2) {
                    samples.push(json!(p.text()));
                }
            }
            Kind::Seq { starts, alphabet, guards, .. } => {
                let mut p = starts[starts.len() / 2].clone();
                p.threads = vec![(guards[0], alphabet.iter().take(2).cloned().collect())];
                samples.push(json!(format!("seq {}", p.text())));
            }
            Kind::Typed { progs, .. } => {
                if let Some(p) = progs.get(progs.len() / 2) {
                    samples.push(json!(p.text()));
                }
            }
            Kind::Case { cases, .. } => {
                if let Some(c) = cases.get(cases.len() / 2) {
                    samples.push(json!(c.0));
                }
            }
        }
    }
    let model = sh.check.model.map(|(states, transitions)| {
        tot.states += states;
        tot.transitions += transitions;
        let seen: Vec<Value> = crate::caps::DYN
            .iter()
            .enumerate()
            .map(|(i, d)| {
                let w = conc::WITNESS[i].load(Relaxed) as u8;
                let a = conc::ALLOWED.get().map_or(0, |v| v[i]);
                json!({"thread_2_has": d.1, "model": crate::caps::bit_names(a), "seen_on_the_code": crate::caps::bit_names(w)})
            })
            .collect();
        json!({"states": states, "transitions": transitions, "exhaustive": true, "facts": seen})
    });
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let v = json!({
        "property": sh.check.id, "tier": tier_name(), "seed": seed, "level": "model_checking",
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "assumptions": sh.check.assumptions,
        "coverage": {
            "states": tot.states,
            "transitions": tot.transitions,
            "traces_validated_against_impl": tot.complete,
            "executions": tot.execs,
            "exhaustive": exhaustive,
            "explanation": "Every explored execution runs the code of /repo/src itself under the controlled scheduler; states are distinct happens-before histories at scheduling points (concurrent families), operations executed (sequence families) or cases; transitions are hooked operations executed; traces validated are executions that ran to completion and whose results the oracle accepted.",
            "families": fams,
            "model": model,
            "samples": samples,
        }
    });
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(
        dir.join(format!("{}.json", sh.check.id)),
        serde_json::to_string_pretty(&v).unwrap() + "\n",
    );
}

/// Explore everything; returns the exit code.
pub fn run_check(mut check: Check, inflight: Option<&Path>) -> i32 {
    let t0 = Instant::now();
    // For experiments: only the families whose name contains the text.
    if let Ok(only) = std::env::var("PMC_ONLY") {
        check.fams.retain(|f| f.name.contains(&only));
    }
    let quick = tier_name() == "quick";
    let (starts, total) = job_starts(&check);
    let limit: u64 = std::env::var("PMC_LIMIT")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if quick { 420 } else { 3000 });
    let nf = check.fams.len();
    let kn = known(check.id);
    let sh = Arc::new(Shared {
        check,
        starts,
        total,
        next: AtomicUsize::new(0),
        best: AtomicUsize::new(usize::MAX),
        deadline: t0 + Duration::from_secs(limit),
        late: AtomicBool::new(false),
        found: Mutex::new(vec![]),
        stats: Mutex::new(vec![FamStats::default(); nf]),
        beats: Mutex::new(vec![]),
        inflight: inflight.and_then(|p| Inflight::open(p, true)),
        known_hits: Mutex::new(vec![false; kn.len()]),
        known: kn,
    });
    let n = std::env::var("PMC_WORKERS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()).min(16));
    let ths: Vec<_> = (0..n)
        .map(|slot| {
            let sh = sh.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || loop {
                    let sh = sh.clone();
                    let again = std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn(move || worker(&sh, slot))
                        .unwrap()
                        .join();
                    if !matches!(again, Ok(true)) {
                        break;
                    }
                })
                .unwrap()
        })
        .collect();
    // Watch for executions that stop making steps.
    let mut last: Vec<(u64, usize, Instant)> = vec![];
    while !ths.iter().all(|t| t.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        let b = sh.beats.lock().unwrap();
        last.resize(b.len(), (0, usize::MAX, Instant::now()));
        for (i, (beat, cur)) in b.iter().enumerate() {
            let now = (beat.load(Relaxed), cur.load(Relaxed));
            if now != (last[i].0, last[i].1) || now.1 == usize::MAX {
                last[i] = (now.0, now.1, Instant::now());
            } else if last[i].2.elapsed() > Duration::from_secs(90) {
                let (fam, job) = locate(&sh.starts, now.1);
                let f = Found {
                    fam,
                    job,
                    text: job_text(&sh.check, fam, job),
                    class: "livelock".into(),
                    msg: "an execution has not finished within 90 s: a loop without synchronisation never ends".into(),
                    path: vec![],
                    p: 0,
                };
                write_evidence(&sh, t0, 1);
                emit_violation(sh.check.id, sh.check.fams[fam].name, &f, &[]);
                std::process::exit(1);
            }
        }
    }
    for t in ths {
        let _ = t.join();
    }
    let mut found = std::mem::take(&mut *sh.found.lock().unwrap());
    found.sort_by_key(|x| x.0);
    let violations = found.len() as u64;
    let ident: u64 = sh.stats.lock().unwrap().iter().map(|s| s.ident).sum();
    let mut code = 0;
    if let Some((_, f)) = found.into_iter().next() {
        write_evidence(&sh, t0, violations);
        {
            let (sh, f) = (sh.clone(), f.clone());
            std::thread::spawn(move || {
                std::thread::sleep(Duration::from_secs(100));
                emit_violation(sh.check.id, sh.check.fams[f.fam].name, &f, &[]);
                std::process::exit(1);
            });
        }
        let (f, lines) = minimise(&sh, f);
        emit_violation(sh.check.id, sh.check.fams[f.fam].name, &f, &lines);
        code = 1;
    } else {
        let kn = &sh.known;
        let hits = sh.known_hits.lock().unwrap();
        for (k, hit) in kn.iter().zip(hits.iter()) {
            if *hit || k["match"] == "key-identity" && ident > 0 {
                println!("KNOWN-FINDING: property={} {}", sh.check.id, k["what"].as_str().unwrap_or(""));
            }
        }
        drop(hits);
        if ident > 0 && !kn.iter().any(|k| k["match"] == "key-identity") {
            let f = Found {
                fam: 0,
                job: 0,
                text: "sequential histories".into(),
                class: "ident".into(),
                msg: format!("{ident} times an update of an existing key replaced the stored key"),
                path: vec![],
                p: 0,
            };
            write_evidence(&sh, t0, 1);
            emit_violation(sh.check.id, sh.check.fams[0].name, &f, &[]);
            return 1;
        }
        write_evidence(&sh, t0, 0);
    }
    let st = sh.stats.lock().unwrap();
    for (i, f) in sh.check.fams.iter().enumerate() {
        let s = &st[i];
        println!(
            "  {:<34} jobs {}/{} executions {} complete {} states {} steps {} longest {}{}{}{} cpu {:.1}s",
            f.name,
            s.jobs,
            f.jobs(),
            s.execs,
            s.complete,
            s.states,
            s.transitions,
            s.max_steps,
            if s.max_read_steps > 0 { format!(" read<={}", s.max_read_steps) } else { String::new() },
            if s.capped > 0 { format!(" CAPPED {}", s.capped) } else { String::new() },
            if s.diverged > 0 { format!(" INCONCLUSIVE {}", s.diverged) } else { String::new() },
            s.ms as f64 / 1000.0,
        );
    }
    println!(
        "{}: {} in {:.1}s{}",
        sh.check.id,
        if code == 0 { "held on everything explored" } else { "VIOLATED" },
        t0.elapsed().as_secs_f64(),
        if sh.late.load(Relaxed) { " (time limit reached)" } else { "" }
    );
    code
}

pub fn job_text(c: &Check, fam: usize, job: usize) -> String {
    match &c.fams[fam].kind {
        Kind::Conc { progs, .. } => progs[job].text(),
        Kind::Seq {
            starts,
            guards,
            alphabet,
            ..
        } => {
            let a = job % alphabet.len();
            let r = job / alphabet.len();
            let mut p = starts[r / guards.len()].clone();
            p.threads = vec![(guards[r % guards.len()], vec![alphabet[a].clone()])];
            format!("seq {} ...", p.text())
        }
        Kind::Typed { progs, .. } => progs[job].text(),
        Kind::Case { cases, .. } => cases[job].0.clone(),
    }
}

/// Run the check in a child process; if that dies, find out which job killed it.
pub fn supervise(id: &str) -> i32 {
    let dir = root().join("out");
    let _ = std::fs::create_dir_all(&dir);
    let inflight = dir.join(format!("{id}.inflight"));
    let _ = std::fs::remove_file(&inflight);
    let exe = std::env::current_exe().unwrap();
    let mut workers = None;
    let died = loop {
        let mut cmd = std::process::Command::new(&exe);
        cmd.args(["child", id]).arg(&inflight);
        if let Some(n) = workers {
            cmd.env("PMC_WORKERS", n);
        }
        match cmd.status() {
            Ok(s) => match s.code() {
                Some(c @ (0 | 1)) => {
                    let _ = std::fs::remove_file(&inflight);
                    return c;
                }
                None if std::os::unix::process::ExitStatusExt::signal(&s) == Some(9) && workers.is_none() => {
                    // Memory ran out: once more with less of it.
                    println!("the exploring process was killed; trying again with fewer workers");
                    workers = Some("3");
                }
                _ => {
                    println!("the exploring process died ({s}); looking for the culprit");
                    break s;
                }
            },
            Err(e) => {
                println!("cannot run the checker: {e}");
                return 2;
            }
        }
    };
    let Some(check) = crate::props::check(id) else { return 2 };
    let (starts, total) = job_starts(&check);
    let fl = Inflight::open(&inflight, false);
    let mut jobs: Vec<usize> = vec![];
    if let Some(f) = &fl {
        for i in 0..SLOTS {
            let v = f.get(i);
            if v > 0 && (v as usize) <= total {
                jobs.push(v as usize - 1);
            }
        }
    }
    let _ = std::fs::remove_file(&inflight);
    jobs.sort();
    // Even if no job dies alone, a crash is the doing of the code under test.
    let signal = std::os::unix::process::ExitStatusExt::signal(&died);
    let last = matches!(signal, Some(4 | 6 | 7 | 8 | 11)).then(|| jobs.first().copied()).flatten();
    let tries: Vec<(usize, bool)> = jobs.iter().map(|j| (*j, false)).chain(last.map(|j| (j, true))).collect();
    for (j, given) in tries {
        if given {
            let (fam, job) = locate(&starts, j);
            let f = Found {
                fam,
                job,
                text: job_text(&check, fam, job),
                class: "crash".into(),
                msg: format!("the process died ({died}) while this and other jobs ran"),
                path: vec![],
                p: 0,
            };
            emit_violation(id, check.fams[fam].name, &f, &[]);
            return 1;
        }
        let c = std::process::Command::new(&exe)
            .args(["job", id, &j.to_string()])
            .stdout(std::process::Stdio::null())
            .spawn();
        let bad = match c.ok().and_then(|mut c| wait_for(&mut c, 60)) {
            Some(s) => match s.code() {
                Some(0) => None,
                Some(_) => Some("violated".to_string()),
                None => Some(format!("the code under test crashed the process: {s}")),
            },
            None => None,
        };
        if let Some(msg) = bad {
            let (fam, job) = locate(&starts, j);
            let f = Found {
                fam,
                job,
                text: job_text(&check, fam, job),
                class: "crash".into(),
                msg,
                path: vec![],
                p: 0,
            };
            emit_violation(id, check.fams[fam].name, &f, &[]);
            let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let v = json!({
                "property": id, "tier": tier_name(), "seed": seed, "level": "model_checking",
                "wall_s": 0.0, "violations": 1,
                "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [f.text]}
            });
            let _ = std::fs::create_dir_all(root().join("evidence"));
            let _ = std::fs::write(root().join("evidence").join(format!("{id}.json")), v.to_string());
            return 1;
        }
    }
    println!("could not reproduce the crash in isolation");
    2
}

/// `pmc job ID INDEX`: one job alone.
pub fn one_job(check: Check, index: usize) -> i32 {
    let (starts, _) = job_starts(&check);
    let (fam, job) = locate(&starts, index);
    let r = on_fresh_thread(move |rt| match run_job(rt, &check, fam, job, &|| false) {
        JobOut::Done(s) => {
            println!("{}: {} executions", job_text(&check, fam, job), s.execs);
            0
        }
        JobOut::Found(f, _) => {
            println!("{}: {} {}", f.text, f.class, f.msg);
            1
        }
    });
    r
}

/// `pmc case ID FAM JOB`: one isolated case, in this process.
pub fn one_case(check: Check, fam: usize, job: usize) -> i32 {
    on_fresh_thread(move |rt| {
        let Kind::Case { cases, horizon, .. } = &check.fams[fam].kind else { return 2 };
        match run_case(rt, &cases[job], *horizon) {
            None => 0,
            Some(v) => {
                println!("{}: {}", v.class, v.msg);
                1
            }
        }
    })
}

/// `pmc replay FILE`: show the recorded violation again.
pub fn replay_file(file: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("replay file");
    let id = v["property"].as_str().unwrap().to_string();
    unsafe { std::env::set_var("PMC_TIER", v["tier"].as_str().unwrap()) };
    let check = crate::props::check(&id).expect("property");
    let (fam, job) = (v["fam"].as_u64().unwrap() as usize, v["job"].as_u64().unwrap() as usize);
    let fam = check.fams.iter().position(|f| Some(f.name) == v["family"].as_str()).unwrap_or(fam);
    println!("{}", v["text"].as_str().unwrap());
    let path: Vec<Node> = v["path"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| Node {
            n: x[0].as_u64().unwrap() as u16,
            idx: x[1].as_u64().unwrap() as u16,
            tag: x[2].as_u64().unwrap() as u32,
        })
        .collect();
    match &check.fams[fam].kind {
        Kind::Typed { progs, cfg } => {
            let (prog, cfg) = (progs[job].clone(), *cfg);
            let (lines, r) = on_fresh_thread(move |rt| replay_any(rt, &prog, &cfg, &path));
            lines.iter().for_each(|l| println!("  {l}"));
            println!("{r:?}");
            r.is_some() as i32
        }
        Kind::Conc { cfg, flags, .. } => {
            let prog = Prog::parse(v["text"].as_str().unwrap());
            let cfg = Config {
                p: v["p"].as_u64().unwrap() as u32,
                ..*cfg
            };
            let flags = *flags;
            let (lines, r) = on_fresh_thread(move |rt| conc::replay(rt, &prog, flags, &cfg, &path));
            lines.iter().for_each(|l| println!("  {l}"));
            println!("{r:?}");
            r.is_some() as i32
        }
        Kind::Seq { flags, .. } => {
            let (text, flags) = (v["text"].as_str().unwrap().to_string(), *flags);
            let (lines, r) = on_fresh_thread(move |rt| seq::replay(rt, &text, flags));
            lines.iter().for_each(|l| println!("  {l}"));
            println!("{r:?}");
            r.is_some() as i32
        }
        Kind::Case { .. } => {
            let (starts, _) = job_starts(&check);
            let i = starts[fam] + job;
            one_job(check, i)
        }
    }
}
