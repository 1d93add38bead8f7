//! C19: which objects can a thread reach through a handle it was given? An explicit-state model of
//! what safe code can do with each handle, the requirements on Send and Sync that follow, and what
//! the type checker says about the real crate.
use std::collections::{BTreeMap, HashMap, VecDeque};
use std::fmt::Write as _;
use std::path::PathBuf;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Obj {
    K,
    V,
    S,
    G,
}
use Obj::*;

/// How a thread came by an object that another thread made.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum How {
    /// By reference, while another thread can reach it as well.
    Shared,
    /// By reference, and no other thread can reach it any more.
    Moved,
    /// It ran the destructor.
    Dropped,
}

/// The facts of a handle, each with a shortest history.
pub type Facts = BTreeMap<(Obj, How), String>;

/// What is given to thread 1. Thread 0 made everything.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Handle {
    /// The map itself.
    Map,
    /// A reference to the map.
    MapShared,
    /// A pinned reference to the map.
    Ref,
    /// A reference to a pinned reference.
    RefShared,
    /// An iterator, or a reference to one.
    Iter,
    Keys,
    Values,
    /// An owned guard.
    Guard,
    /// A reference to a guard, and through it one to the collector.
    GuardShared,
    /// A map builder and a reference to one.
    Builder,
    BuilderShared,
}

impl Handle {
    pub const ALL: [Handle; 11] = [
        Handle::Map,
        Handle::MapShared,
        Handle::Ref,
        Handle::RefShared,
        Handle::Iter,
        Handle::Keys,
        Handle::Values,
        Handle::Guard,
        Handle::GuardShared,
        Handle::Builder,
        Handle::BuilderShared,
    ];
}

/// Array size; the bounds are those of `Bounds`.
const GUARDS: usize = 4;

#[derive(Clone, Copy)]
pub struct Bounds {
    pub guards: usize,
    pub retired: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Gd {
    owner: u8,
    /// Entered through the collector another guard lends out: that guard must outlive this one.
    parent: u8,
    /// The guard the handle consists of (thread 0 made it).
    special: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
struct Ret {
    /// Who made the key and the value.
    home: u8,
    /// The guards that must leave first; 0: still in the batch of a thread.
    pending: u8,
}

#[derive(Clone, PartialEq, Eq, Hash)]
struct St {
    /// Who owns the map, if it is still there.
    owner: Option<u8>,
    /// Who has a reference to it.
    map: [bool; 2],
    /// Who has the iterator (the key and value halves of it).
    iter: [bool; 2],
    entry: Option<u8>,
    retired: Vec<Ret>,
    guards: [Option<Gd>; GUARDS],
    /// Who can use the special guard by reference, besides its owner.
    lent: [bool; 2],
    /// Who has the builder and who a reference to it.
    builder: Option<u8>,
}

fn init(h: Handle) -> St {
    let mut s = St {
        owner: Some(0),
        map: [true, false],
        iter: [false; 2],
        entry: Some(0),
        retired: vec![],
        guards: [None; GUARDS],
        lent: [false; 2],
        builder: None,
    };
    let special = |owner| {
        Some(Gd {
            owner,
            parent: 9,
            special: true,
        })
    };
    match h {
        Handle::Map => {
            s.owner = Some(1);
            s.map = [false, true];
        }
        Handle::MapShared => s.map = [true, true],
        Handle::Ref => {
            s.map = [true, true];
            s.guards[0] = special(1);
        }
        Handle::RefShared => {
            s.map = [true, true];
            s.guards[0] = special(0);
            s.lent = [false, true];
        }
        Handle::Iter | Handle::Keys | Handle::Values => {
            s.guards[0] = special(0);
            s.iter = [false, true];
        }
        Handle::Guard => s.guards[0] = special(1),
        Handle::GuardShared => {
            s.guards[0] = special(0);
            s.lent = [false, true];
        }
        Handle::Builder | Handle::BuilderShared => {
            s.owner = None;
            s.map = [false; 2];
            s.entry = None;
            s.builder = Some((h == Handle::Builder) as u8);
        }
    }
    s
}

struct Step {
    to: St,
    what: String,
    facts: Vec<(Obj, How)>,
}

impl St {
    fn alone(&self, t: u8) -> bool {
        let o = 1 - t as usize;
        !(self.map[o] || self.iter[o] || self.owner == Some(o as u8))
    }
    fn active(&self) -> u8 {
        (0..GUARDS).fold(0, |m, i| m | (self.guards[i].is_some() as u8) << i)
    }
    /// Thread t can use guard i by reference or owns it.
    fn can_use(&self, t: u8, i: usize) -> bool {
        self.guards[i].is_some_and(|g| g.owner == t || (g.special && self.lent[t as usize]))
    }
    fn guard_access(&self, t: u8, i: usize, f: &mut Vec<(Obj, How)>) {
        let g = self.guards[i].unwrap();
        if g.special && t == 1 {
            f.push((G, if g.owner == 1 { How::Moved } else { How::Shared }));
        }
    }
    fn entry_access(&self, t: u8, k: bool, v: bool, f: &mut Vec<(Obj, How)>) {
        if self.entry.is_some_and(|h| h != t) {
            let how = if self.alone(t) { How::Moved } else { How::Shared };
            k.then(|| f.push((K, how)));
            v.then(|| f.push((V, how)));
        }
    }
    fn drop_entry(home: u8, t: u8, f: &mut Vec<(Obj, How)>) {
        if home != t {
            f.push((K, How::Dropped));
            f.push((V, How::Dropped));
        }
    }
    /// Guard i leaves on thread t.
    fn leave(&mut self, i: usize, t: u8, f: &mut Vec<(Obj, How)>) {
        let mut keep = vec![];
        for mut r in self.retired.drain(..) {
            if r.pending != 0 {
                r.pending &= !(1 << i);
                if r.pending == 0 {
                    Self::drop_entry(r.home, t, f);
                    continue;
                }
            }
            keep.push(r);
        }
        self.retired = keep;
    }
    fn retire(&mut self, home: u8, b: Bounds) -> bool {
        if self.retired.len() == b.retired {
            return false;
        }
        self.retired.push(Ret { home, pending: 0 });
        true
    }

    fn steps(&self, h: Handle, b: Bounds) -> Vec<Step> {
        let mut out = vec![];
        let mut add = |mut to: St, what: String, facts: Vec<(Obj, How)>| {
            to.retired.sort();
            out.push(Step { to, what, facts });
        };
        for t in 0..2u8 {
            let ti = t as usize;
            // The builder.
            if self.builder == Some(t) {
                let mut s = self.clone();
                s.builder = None;
                s.owner = Some(t);
                s.map[ti] = true;
                let f = if t == 1 { vec![(S, How::Moved)] } else { vec![] };
                add(s, format!("thread {t} builds the map"), f);
                let mut s = self.clone();
                s.builder = None;
                let f = if t == 1 { vec![(S, How::Dropped)] } else { vec![] };
                add(s, format!("thread {t} drops the builder"), f);
            }
            // Guards.
            let free = self.guards[..b.guards].iter().position(|g| g.is_none());
            if let (Some(i), true) = (free, self.map[ti]) {
                let mut s = self.clone();
                s.guards[i] = Some(Gd {
                    owner: t,
                    parent: 9,
                    special: false,
                });
                add(s, format!("thread {t} enters a guard of the map"), vec![]);
            }
            for i in 0..GUARDS {
                if !self.can_use(t, i) {
                    continue;
                }
                if let Some(j) = free {
                    let mut s = self.clone();
                    let mut f = vec![];
                    self.guard_access(t, i, &mut f);
                    s.guards[j] = Some(Gd {
                        owner: t,
                        parent: i as u8,
                        special: false,
                    });
                    add(s, format!("thread {t} enters a guard of the collector that guard {i} lends"), f);
                }
                // Reclamation only starts when a batch is flushed, by any thread.
                for (r, x) in self.retired.iter().enumerate() {
                    if x.pending == 0 {
                        let mut s = self.clone();
                        let mut f = vec![];
                        self.guard_access(t, i, &mut f);
                        s.retired[r].pending = self.active();
                        add(s, format!("thread {t} flushes a batch through guard {i}"), f);
                    }
                }
                let g = self.guards[i].unwrap();
                let children = self.guards.iter().flatten().any(|c| c.parent == i as u8);
                let borrowed = g.special && (self.lent[1] || self.iter[1]);
                if g.owner == t && !children && !borrowed {
                    for gone in [true, false] {
                        let mut s = self.clone();
                        let mut f = vec![];
                        if g.special && t == 1 {
                            f.push((G, if gone { How::Dropped } else { How::Moved }));
                        }
                        s.leave(i, t, &mut f);
                        if gone {
                            s.guards[i] = None;
                        }
                        let what = if gone { "drops" } else { "refreshes" };
                        add(s, format!("thread {t} {what} guard {i}"), f);
                    }
                }
                // Operations.
                if self.map[ti] {
                    let mut f = vec![];
                    self.guard_access(t, i, &mut f);
                    if t == 1 {
                        f.push((S, if self.alone(1) { How::Moved } else { How::Shared }));
                    }
                    self.entry_access(t, true, true, &mut f);
                    add(self.clone(), format!("thread {t} looks the key up"), f.clone());
                    let mut s = self.clone();
                    if self.entry.map_or(true, |e| s.retire(e, b)) {
                        s.entry = Some(t);
                        add(s, format!("thread {t} inserts an entry of its own"), f.clone());
                    }
                    let mut s = self.clone();
                    if self.entry.is_some_and(|e| s.retire(e, b)) {
                        s.entry = None;
                        add(s, format!("thread {t} removes the entry"), f);
                    }
                }
            }
            if self.iter[ti] {
                let mut f = vec![];
                self.guard_access(t, 0, &mut f);
                // The key-only and value-only iterators yield one half.
                self.entry_access(t, h != Handle::Values, h != Handle::Keys, &mut f);
                add(self.clone(), format!("thread {t} advances the iterator"), f);
            }
            // Thread 1 gives back what it borrowed.
            if t == 1 && !self.guards.iter().flatten().any(|g| g.owner == 1) {
                if self.iter[1] || self.lent[1] || (self.map[1] && self.owner != Some(1)) {
                    let mut s = self.clone();
                    s.iter[1] = false;
                    s.lent[1] = false;
                    if s.owner != Some(1) {
                        s.map[1] = false;
                    }
                    add(s, "thread 1 is done".into(), vec![]);
                }
            }
            // Drop the map.
            let borrowed = self.guards.iter().any(|g| g.is_some())
                || self.iter.contains(&true)
                || self.map[1 - ti];
            if self.owner == Some(t) && !borrowed {
                let mut s = self.clone();
                let mut f = vec![];
                if let Some(e) = self.entry {
                    Self::drop_entry(e, t, &mut f);
                }
                for r in &self.retired {
                    Self::drop_entry(r.home, t, &mut f);
                }
                if t == 1 {
                    f.push((S, How::Dropped));
                }
                s.owner = None;
                s.map = [false; 2];
                s.entry = None;
                s.retired.clear();
                add(s, format!("thread {t} drops the map"), f);
            }
        }
        out
    }
}

pub struct Model {
    pub facts: BTreeMap<Handle, Facts>,
    pub states: u64,
    pub transitions: u64,
}

/// All reachable states of every handle.
pub fn explore(b: Bounds) -> Model {
    let mut m = Model {
        facts: BTreeMap::new(),
        states: 0,
        transitions: 0,
    };
    for h in Handle::ALL {
        let mut facts = Facts::new();
        let mut seen: HashMap<St, u32> = HashMap::new();
        let mut from: Vec<(u32, String)> = vec![(0, String::new())];
        let mut queue: VecDeque<(u32, St)> = VecDeque::new();
        let s0 = init(h);
        seen.insert(s0.clone(), 0);
        queue.push_back((0, s0));
        while let Some((id, s)) = queue.pop_front() {
            for st in s.steps(h, b) {
                m.transitions += 1;
                for f in &st.facts {
                    facts.entry(*f).or_insert_with(|| {
                        let mut v = vec![st.what.clone()];
                        let mut i = id;
                        while i != 0 {
                            v.push(from[i as usize].1.clone());
                            i = from[i as usize].0;
                        }
                        v.reverse();
                        v.join(", then ")
                    });
                }
                let n = from.len() as u32;
                if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(st.to.clone()) {
                    e.insert(n);
                    from.push((id, st.what));
                    queue.push_back((n, st.to));
                }
            }
        }
        m.states += seen.len() as u64;
        m.facts.insert(h, facts);
    }
    m
}

/// Capabilities: bit 0 Send, bit 1 Sync.
pub type Caps = u8;
const NAMES: [&str; 4] = ["neither", "Send", "Sync", "Send+Sync"];

/// What an object must be capable of.
pub fn need(f: &Facts, o: Obj) -> (Caps, String) {
    let mut c = 0;
    let mut why = String::new();
    for ((x, how), w) in f {
        if *x != o {
            continue;
        }
        let bit = if *how == How::Shared { 2 } else { 1 };
        if c & bit == 0 {
            c |= bit;
            let _ = write!(why, "{o:?} must be {}: {w}. ", NAMES[bit as usize]);
        }
    }
    (c, why)
}

/// One question to the type checker.
pub struct Probe {
    pub text: String,
    /// What follows from the model.
    pub allowed: bool,
    pub why: String,
    /// Whether the code must allow it if the model does.
    pub exact: bool,
    /// What the type checker says about the code.
    pub actual: bool,
    line: String,
}

struct Shape {
    name: &'static str,
    /// A type, or an expression of a function whose parameters are (m: &Map).
    ty: &'static str,
    of: &'static [Obj],
    send: Handle,
    sync: Handle,
    exact: [bool; 2],
    /// Capabilities of the guard if its type is fixed.
    guard: Option<Caps>,
}

const KVS: &[Obj] = &[K, V, S];
const KS: &[Obj] = &[K, S];

fn shapes() -> Vec<Shape> {
    let sh = |name, ty, of, send, sync, exact, guard| Shape {
        name,
        ty,
        of,
        send,
        sync,
        exact,
        guard,
    };
    use Handle::*;
    let yes = [true, true];
    let no = [false, false];
    let mut v = vec![
        sh("HashMap", "HashMap<K, V, S>", KVS, Map, MapShared, yes, None),
        sh("HashSet", "HashSet<K, S>", KS, Map, MapShared, yes, None),
        sh("HashMapRef", "HashMapRef<'static, K, V, S, G>", &[K, V, S, G], Ref, RefShared, yes, None),
        sh("HashSetRef", "HashSetRef<'static, K, S, G>", &[K, S, G], Ref, RefShared, yes, None),
        sh("Iter", "Iter<'static, K, V, G>", &[K, V, G], Iter, Iter, yes, None),
        sh(
            "set Iter",
            "<&'static HashSetRef<'static, K, S, G> as IntoIterator>::IntoIter",
            &[K, S, G],
            Iter,
            Iter,
            yes,
            None,
        ),
        sh("Keys", "Keys<'static, K, V, G>", &[K, V, G], Keys, Keys, no, None),
        sh("Values", "Values<'static, K, V, G>", &[K, V, G], Values, Values, no, None),
        sh("HashMapBuilder", "HashMapBuilder<K, V, S>", KVS, Builder, BuilderShared, no, None),
        sh("HashSetBuilder", "HashSetBuilder<K, S>", KS, Builder, BuilderShared, no, None),
    ];
    let calls = [
        ("owned_guard()", "owned_guard()", Guard, GuardShared, [true, false], None),
        ("guard().collector()", "guard().collector()", GuardShared, GuardShared, [false, false], None),
        ("pin_owned()", "pin_owned()", Ref, RefShared, yes, Some(3)),
        ("pin()", "pin()", Ref, RefShared, no, Some(0)),
        ("pin_owned().iter()", "pin_owned().iter()", Iter, Iter, yes, Some(3)),
        ("pin().iter()", "pin().iter()", Iter, Iter, no, Some(0)),
        ("iter(&owned_guard)", "iter(&*m.own())", Iter, Iter, yes, Some(3)),
        ("iter(&guard)", "iter(&m.guard())", Iter, Iter, no, Some(0)),
    ];
    for (name, call, a, b, exact, guard) in calls {
        v.push(sh(name, Box::leak(format!("m.{call}").into_boxed_str()), KVS, a, b, exact, guard));
        v.push(sh(name, Box::leak(format!("s.{call}").into_boxed_str()), KS, a, b, exact, guard));
    }
    v
}

const PRELUDE: &str = "#![allow(unused)]
use papaya::*;
use std::marker::PhantomData;
macro_rules! marker { ($n:ident, $p:ty) => {
    pub struct $n(PhantomData<$p>);
    impl PartialEq for $n { fn eq(&self, _: &$n) -> bool { true } }
    impl Eq for $n {}
    impl std::hash::Hash for $n { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
    impl std::hash::BuildHasher for $n { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { Default::default() } }
    impl Guard for $n {
        fn refresh(&mut self) { todo!() }
        fn flush(&self) { todo!() }
        fn collector(&self) -> &seize::Collector { todo!() }
        fn thread_id(&self) -> usize { todo!() }
        unsafe fn defer_retire<T>(&self, _: *mut T, _: unsafe fn(*mut T, &seize::Collector)) { todo!() }
    }
}}
marker!(M0, *mut u8);
marker!(M1, std::cell::Cell<u8>);
marker!(M2, std::sync::MutexGuard<'static, u8>);
marker!(M3, u8);
pub fn send<T: Send>(_: &T) {}
pub fn sync<T: Sync>(_: &T) {}
pub fn tsend<T: Send>() {}
pub fn tsync<T: Sync>() {}
pub trait Own { fn own(&self) -> &'static OwnedGuard<'static> { todo!() } }
impl<T> Own for T {}
";

fn source(probes: &[Probe]) -> (String, usize) {
    let mut s = String::from(PRELUDE);
    let first = s.lines().count() + 1;
    for p in probes {
        s += &p.line;
        s.push('\n');
    }
    (s, first)
}

/// The path of the crate under check.
fn crate_path(root: &std::path::Path) -> Option<String> {
    let t = std::fs::read_to_string(root.join("mc/harness/Cargo.toml")).ok()?;
    let l = t.lines().find(|l| l.starts_with("papaya"))?;
    Some(l.split('"').nth(1)?.to_string())
}

fn ask(probes: &mut [Probe], root: &std::path::Path) -> Result<(), String> {
    let repo = crate_path(root).ok_or("no path of the crate")?;
    let dir: PathBuf = root.join("mc/target/caps");
    let e = |e: std::io::Error| e.to_string();
    std::fs::create_dir_all(dir.join("src")).map_err(e)?;
    std::fs::write(
        dir.join("Cargo.toml"),
        format!(
            "[package]\nname = \"caps\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[workspace]\n[dependencies]\npapaya = {{ path = \"{repo}\" }}\nseize = \"0.5\"\n"
        ),
    )
    .map_err(e)?;
    let (src, first) = source(probes);
    std::fs::write(dir.join("src/lib.rs"), src).map_err(e)?;
    let out = std::process::Command::new("cargo")
        .args(["check", "--offline", "--message-format=json"])
        .current_dir(&dir)
        .env(
            "PATH",
            format!(
                "{}:/usr/local/cargo/bin:{}/.cargo/bin",
                std::env::var("PATH").unwrap_or_default(),
                std::env::var("HOME").unwrap_or_default()
            ),
        )
        .env_remove("RUSTC_WRAPPER")
        .env_remove("CARGO_BUILD_TARGET")
        .env("CARGO_TARGET_DIR", dir.join("target"))
        .env("RUSTUP_TOOLCHAIN", "1.90.0")
        .env("RUSTFLAGS", "--cap-lints warn")
        .output()
        .map_err(e)?;
    let text = String::from_utf8_lossy(&out.stdout);
    let mut ours = 0;
    for l in text.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        if v["reason"] != "compiler-message" || v["message"]["level"] != "error" {
            continue;
        }
        let Some(sp) = v["message"]["spans"].as_array() else { continue };
        if sp.is_empty() {
            continue;
        }
        let main = sp.iter().find(|s| s["is_primary"] == true);
        let (file, line) = match main {
            Some(s) => (s["file_name"].as_str().unwrap_or(""), s["line_start"].as_u64().unwrap_or(0)),
            None => continue,
        };
        let code = v["message"]["code"]["code"].as_str().unwrap_or("");
        let i = line as usize;
        if !file.ends_with("src/lib.rs") || i < first || i >= first + probes.len() || v["target"]["name"] != "caps" {
            return Err(format!("the probes do not build: {}", v["message"]["rendered"].as_str().unwrap_or("")));
        }
        if code != "E0277" && code != "E0599" {
            return Err(format!("a probe does not build: {}", v["message"]["rendered"].as_str().unwrap_or("")));
        }
        probes[i - first].actual = false;
        ours += 1;
    }
    if ours == 0 {
        return Err(format!("no answer from the type checker: {}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(())
}

pub fn probes(m: &Model, root: &std::path::Path) -> Result<Vec<Probe>, String> {
    let mut out = vec![];
    // The type checker must answer these two as everyone knows.
    for (line, allowed) in [("u8", true), ("std::rc::Rc<u8>", false)] {
        out.push(Probe {
            text: format!("{line}: Send"),
            allowed,
            why: String::new(),
            exact: true,
            actual: true,
            line: format!("pub fn p{}() {{ tsend::<{line}>() }}", out.len()),
        });
    }
    for s in shapes() {
        let n = s.of.len() as u32;
        for a in 0..4usize.pow(n) {
            let caps: Vec<Caps> = (0..n).map(|i| (a >> (2 * i) & 3) as Caps).collect();
            for sync in [false, true] {
                let facts = &m.facts[if sync { &s.sync } else { &s.send }];
                let mut missing = String::new();
                for o in [K, V, S, G] {
                    let have = match (s.of.iter().position(|x| *x == o), o, s.guard) {
                        (Some(i), ..) => caps[i],
                        (None, G, Some(c)) => c,
                        _ => continue,
                    };
                    let (c, why) = need(facts, o);
                    if c & !have != 0 {
                        missing += &why;
                    }
                }
                let call = s.ty.starts_with("m.") || s.ty.starts_with("s.");
                let sub = |o: Obj| {
                    let i = s.of.iter().position(|x| *x == o);
                    format!("M{}", i.map_or(3, |i| caps[i]))
                };
                let tr = if sync { "sync" } else { "send" };
                let i = out.len();
                let line = if call {
                    format!(
                        "pub fn p{i}(m: &'static HashMap<{k}, {v}, {h}>, s: &'static HashSet<{k}, {h}>) {{ {tr}(&{}) }}",
                        s.ty,
                        k = sub(K),
                        v = sub(V),
                        h = sub(S)
                    )
                } else {
                    // Parameters are upper-case letters of their own.
                    let mut t = String::new();
                    let b = s.ty.as_bytes();
                    for (j, ch) in s.ty.char_indices() {
                        let near = |x: Option<&u8>| x.is_some_and(|c| c.is_ascii_alphanumeric());
                        let alone = !near(b.get(j + 1)) && !(j > 0 && near(b.get(j - 1)));
                        match ch {
                            'K' if alone => t += &sub(K),
                            'V' if alone => t += &sub(V),
                            'S' if alone => t += &sub(S),
                            'G' if alone => t += &sub(G),
                            _ => t.push(ch),
                        }
                    }
                    format!("pub fn p{i}() {{ t{tr}::<{t}>() }}")
                };
                let params: Vec<String> = s
                    .of
                    .iter()
                    .zip(&caps)
                    .map(|(o, c)| format!("{o:?}: {}", NAMES[*c as usize]))
                    .collect();
                let set = if s.ty.starts_with("s.") { "set " } else { "" };
                out.push(Probe {
                    text: format!("{set}{} with {} is {}", s.name, params.join(", "), if sync { "Sync" } else { "Send" }),
                    allowed: missing.is_empty(),
                    why: missing,
                    exact: s.exact[sync as usize],
                    actual: true,
                    line,
                });
            }
        }
    }
    ask(&mut out, root)?;
    if !out[0].actual || out[1].actual {
        return Err("the type checker gives wrong answers".into());
    }
    Ok(out)
}

/// The handles that are exercised on the code.
pub const DYN: [(Handle, &str); 4] = [
    (Handle::MapShared, "a reference to the map"),
    (Handle::Iter, "an iterator"),
    (Handle::Guard, "an owned guard"),
    (Handle::GuardShared, "the collector of a guard"),
];

/// Facts as seen by thread 2 of a program (see `types::FACTS`).
pub fn bits(f: &Facts) -> u8 {
    f.keys().fold(0, |b, (o, how)| {
        let drop = *how == How::Dropped;
        b | match (o, drop) {
            (K, false) => 1,
            (K, true) => 2,
            (V, false) => 4,
            (V, true) => 8,
            (S, false) => 16,
            _ => 0,
        }
    })
}

pub fn bit_names(b: u8) -> String {
    let n = ["key used", "key dropped", "value used", "value dropped", "hasher used"];
    let v: Vec<&str> = (0..5).filter(|i| b >> i & 1 == 1).map(|i| n[i]).collect();
    if v.is_empty() {
        "nothing".into()
    } else {
        v.join(", ")
    }
}
