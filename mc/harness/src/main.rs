mod anytype;
mod caps;
mod cases;
mod conc;
mod driver;
mod exec;
mod lin;
mod prog;
mod props;
mod seq;
mod settings;
mod types;

use seize::rt::{self, Config, Rt};

#[global_allocator]
static ALLOC: rt::ArenaAlloc = rt::ArenaAlloc;

pub const IDS: [&str; 25] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25",
];

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    // Let the panic machinery allocate what it keeps.
    let _ = std::panic::catch_unwind(|| panic!("{}", 1));
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => driver::supervise(arg(2)),
        "child" => match props::check(arg(2)) {
            Some(c) => driver::run_check(c, Some(std::path::Path::new(arg(3)))),
            None => {
                println!("no check for {}", arg(2));
                2
            }
        },
        "job" => driver::one_job(props::check(arg(2)).unwrap(), arg(3).parse().unwrap()),
        "case" => driver::one_case(
            props::check(arg(2)).unwrap(),
            arg(3).parse().unwrap(),
            arg(4).parse().unwrap(),
        ),
        "list" => {
            let c = props::check(arg(2)).unwrap();
            for f in &c.fams {
                if let driver::Kind::Case { cases, .. } = &f.kind {
                    cases.iter().enumerate().for_each(|(i, x)| println!("{}\t{i}\t{}", f.name, x.0));
                }
            }
            0
        }
        "families" => {
            // A table of what each check explores in this tier.
            for id in IDS {
                let c = props::check(id).unwrap();
                for f in &c.fams {
                    println!("| {id} | {} | {} |", f.name, driver::describe(f));
                }
            }
            0
        }
        "replay" => driver::replay_file(arg(2)),
        "run" => {
            // pmc run "<program>" p level w s
            let n = |i: usize| a.get(i).map_or(0, |x| x.parse::<u32>().unwrap());
            let prog = prog::Prog::parse(&a[2]);
            let cfg = Config {
                p: n(3),
                level: n(4) as u8,
                w: n(5),
                s: n(6),
                ..Config::default()
            };
            let fl = arg(7);
            let flags = exec::Flags {
                len: fl.contains("len"),
                leak: fl.contains("leak"),
                iter: fl.contains("iter"),
                tidy: fl.contains("tidy"),
                ..Default::default()
            };
            let mut rt = Rt::new();
            rt.install();
            let t = std::time::Instant::now();
            let o = conc::explore(&mut rt, &prog, flags, &cfg, u64::MAX, &|| false);
            println!(
                "{} {:?} {:?} lin {} {} reads {}",
                prog.text(),
                t.elapsed(),
                o.stats,
                o.lin_checked,
                o.lin_distinct,
                o.max_read_steps
            );
            if let Some((v, path)) = o.violation {
                println!("VIOLATION {v:?} path {}", path.len());
                let (tr, v2) = conc::replay(&mut rt, &prog, flags, &cfg, &path);
                for l in tr {
                    println!("  {l}");
                }
                println!("replayed: {v2:?}");
            }
            0
        }
        "probe" => {
            // pmc probe "<program>" p "i:x,j:y": one schedule
            let prog = prog::Prog::parse(&a[2]);
            let cfg = Config {
                p: arg(3).parse().unwrap(),
                cache: false,
                ..Config::default()
            };
            let mut rt = Rt::new();
            rt.install();
            rt.script = arg(4)
                .split(',')
                .filter(|x| !x.is_empty())
                .map(|x| {
                    let (i, j) = x.split_once(':').unwrap();
                    (i.parse().unwrap(), j.parse().unwrap())
                })
                .collect();
            let (tr, v) = conc::replay(&mut rt, &prog, exec::Flags::default(), &cfg, &[]);
            if arg(5) == "v" {
                for l in tr {
                    println!("  {l}");
                }
            }
            println!("{:?} tables {}", v, rt.table_allocs);
            0
        }
        _ => 2,
    };
    std::process::exit(code);
}
