//! Monitors over the real reductionml-core: `vmon <property> --seed S --tier quick|thorough --out FILE [--case N] [--cases N] [--secs T] [--threads N]`
mod common;
mod ex;
mod gen;
mod hist;
mod p_conc;
mod p_explore;
mod p_feat;
mod p_misc;
mod p_model;
mod p_parse;
mod p_run;
mod p_weights;
use common::*;
use serde_json::json;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: p_run::Counting = p_run::Counting;

type Prop = fn(&mut Rng, &mut Ctx);
/// name, function, cases at quick
const PROPS: &[(&str, Prop, u64)] = &[
    ("C02", p_conc::c02, 6000),
    ("C03", p_parse::c03, 48000),
    ("C04", p_model::c04, 48000),
    ("C05", p_model::c05, 48000),
    ("C06", p_model::c06, 48000),
    ("C07", p_model::c07, 16000),
    ("C08", p_model::c08, 120000),
    ("C09", p_model::c09, 500000),
    ("C10", p_model::c10, 120000),
    ("C11", p_model::c11, 160000),
    ("C12", p_explore::c12, 700000),
    ("C13", p_explore::c13, 160000),
    ("C14", p_parse::c14, 320000),
    ("C15", p_parse::c15, 320000),
    ("C16", p_parse::c16, 320000),
    ("C17", p_parse::c17, 80000),
    ("C18", p_parse::c18, 160000),
    ("C19", p_misc::c19, 250000),
    ("C21", p_misc::c21, 300000),
    ("C23", p_model::c23, 120000),
    ("C24", p_parse::c24, 300000),
    ("C25", p_misc::c25, 1500000),
    ("C26", p_parse::c26, 400000),
    ("C27", p_model::c27, 120000),
    ("C29", p_feat::c29, 200000),
    ("C30", p_run::c30, 1200),
    ("C31", p_weights::c31, 150000),
];

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str| get(k).map(|v| v.parse::<u64>().expect("number"));
    if args.get(1).map(|s| s.as_str()) == Some("gen") {
        return gen::run(&args);
    }
    if args.get(1).map(|s| s.as_str()) == Some("hist") {
        return hist::run(&args);
    }
    if args.get(1).map(|s| s.as_str()) == Some("check") {
        return gen::check(&args[2]);
    }
    if args.get(1).map(|s| s.as_str()) == Some("list") {
        for p in PROPS {
            println!("{}", p.0);
        }
        return;
    }
    let id = args.get(1).expect("property").clone();
    let (_, f, quick) = *PROPS.iter().find(|p| p.0 == id).expect("known property");
    let seed = num("--seed").unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let one = num("--case");
    let cases = num("--cases").unwrap_or(if thorough { quick * 40 } else { quick });
    let secs = num("--secs").unwrap_or(if thorough { 300 } else { 100 });
    let threads = num("--threads").unwrap_or(8);
    install_hook();
    if let Some(n) = one {
        let mut c = Ctx { case: n, verbose: true, thorough, sample_now: true, ..Default::default() };
        run_case(f, &id, seed, n, &mut c);
        println!("case {n}: {} evaluations, {} failures, stats {:?}\n{:?}", c.evaluations, c.fails.len(), c.stats, c.samples);
        std::process::exit(if c.fails.is_empty() { 0 } else { 1 });
    }
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let bad = AtomicU64::new(0);
    let started = Instant::now();
    let mut total = Ctx::default();
    let ran = AtomicU64::new(0);
    let watched: Vec<Mutex<Option<Watched>>> = (0..threads).map(|_| Mutex::new(None)).collect();
    let done = AtomicBool::new(false);
    let out_path = get("--out");
    std::thread::scope(|s| {
        s.spawn(|| watchdog(&watched, &done, &id, seed, out_path.as_deref()));
        let hs: Vec<_> = (0..threads)
            .map(|slot| {
                let (watched, next, stop, bad, ran, id) = (&watched, &next, &stop, &bad, &ran, &id);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let tid = std::fs::read_link("/proc/thread-self").map(|p| p.display().to_string()).unwrap_or_default();
                        let tid = tid.rsplit('/').next().unwrap_or("0").parse().unwrap_or(0);
                        let mut c = Ctx { thorough, ..Default::default() };
                        while !stop.load(Ordering::Relaxed) {
                            let n = next.fetch_add(1, Ordering::Relaxed);
                            if n >= cases || started.elapsed() > Duration::from_secs(secs) {
                                break;
                            }
                            c.case = n;
                            c.sample_now = n < 40 && n % 9 == 0;
                            let before = c.fails.len();
                            *watched[slot as usize].lock().unwrap() = Some(Watched { case: n, tid, since: Instant::now(), cpu: thread_cpu(tid).0 });
                            run_case(f, id, seed, n, &mut c);
                            *watched[slot as usize].lock().unwrap() = None;
                            ran.fetch_add(1, Ordering::Relaxed);
                            if c.fails.len() > before && bad.fetch_add(1, Ordering::Relaxed) >= 30 {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                        c
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            total.merge(h.join().unwrap());
        }
        done.store(true, Ordering::Relaxed);
    });
    total.fails.sort_by_key(|f| f.case);
    let out = json!({
        "property": id, "seed": seed, "cases": ran.load(Ordering::Relaxed), "planned": cases,
        "evaluations": total.evaluations, "distinct": total.distinct.len(), "samples": total.samples,
        "stats": total.stats, "debug_assertions": cfg!(debug_assertions), "seconds": started.elapsed().as_secs_f64(),
        "fails": total.fails.iter().map(|f| json!({"sig": f.sig, "msg": f.msg, "case": f.case})).collect::<Vec<_>>(),
    });
    match out_path {
        Some(p) => std::fs::write(p, out.to_string()).unwrap(),
        None => println!("{}", serde_json::to_string_pretty(&out).unwrap()),
    }
}

struct Watched {
    case: u64,
    tid: u64,
    since: Instant,
    cpu: f64,
}

/// CPU seconds used by one of our threads, and its scheduler state.
fn thread_cpu(tid: u64) -> (f64, char) {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).unwrap_or_default();
    let rest: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    let n = |i: usize| rest.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
    ((n(11) + n(12)) / 100.0, rest.first().and_then(|v| v.chars().next()).unwrap_or('?'))
}

/// A case takes milliseconds. One that burns a minute of its own CPU time, or sleeps without using
/// any for two minutes, does not terminate. (Slowness of the machine is neither.)
fn watchdog(watched: &[Mutex<Option<Watched>>], done: &AtomicBool, id: &str, seed: u64, out: Option<&str>) {
    while !done.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(50));
        for w in watched {
            let guard = w.lock().unwrap();
            if let Some(x) = guard.as_ref() {
                if x.since.elapsed() < Duration::from_secs(60) {
                    continue;
                }
                let (cpu, state) = thread_cpu(x.tid);
                let used = cpu - x.cpu;
                let spin = used > 60.0;
                let asleep = x.since.elapsed() > Duration::from_secs(120) && used < 1.0 && state == 'S';
                if spin || asleep {
                    let msg = if spin { format!("the case is still running after {used:.0} s of CPU time") } else { "the case has been waiting for two minutes without using the CPU".to_string() };
                    let j = json!({"property": id, "seed": seed, "cases": 1, "planned": 1, "evaluations": 1, "distinct": 0, "samples": [], "stats": {},
                        "debug_assertions": cfg!(debug_assertions), "seconds": x.since.elapsed().as_secs_f64(),
                        "fails": [{"sig": "no-termination", "msg": msg, "case": x.case}]});
                    match out {
                        Some(p) => std::fs::write(p, j.to_string()).unwrap(),
                        None => println!("{j}"),
                    }
                    std::process::exit(0);
                }
            }
        }
    }
}

fn run_case(f: Prop, id: &str, seed: u64, n: u64, c: &mut Ctx) {
    let mut r = Rng::new(seed, id, n);
    if let Err((sig, msg)) = guard(|| f(&mut r, c)) {
        c.fail(&sig, msg);
    }
}
