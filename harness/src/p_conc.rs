//! C02: concurrent use of parsers, pools, models and global state. The verdict about races and undefined behaviour is the
//! sanitizer's (this runs under ThreadSanitizer, AddressSanitizer and Miri); values are checked as well.
use crate::common::*;
use crate::ex::*;
use crate::p_parse::*;
use reductionml_core::object_pool::PoolReturnable;
use reductionml_core::*;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::mpsc;
use std::sync::Mutex;

pub fn c02(r: &mut Rng, c: &mut Ctx) {
    let small = cfg!(miri);
    let cb = r.pct(50);
    let f = if cb { *r.pick(&[Fmt::Vw, Fmt::Json, Fmt::Ds]) } else { *r.pick(&[Fmt::Vw, Fmt::Json]) };
    let kind = if cb { *r.pick(&[Kind::Scores, Kind::Probs]) } else { Kind::Scalar };
    let mut g = gen_global(r);
    g.bits = g.bits.min(if small { 5 } else { 12 });
    let cfg = cfg_json(&g, &crate::p_model::stack_of(r, kind));
    let n = if small { r.range(3, 6) } else { r.range(10, 60) };
    let mut exs: Vec<(String, Feats, Option<(usize, f32, f32)>)> = vec![];
    for _ in 0..n {
        let e = crate::gen::tame_ex(r, cb, if g.interactions.is_empty() { 40 } else { 8 });
        let text = render(r, f, &e, true);
        exs.push((text, meaning(&e, g.seed, g.bits), label_meaning(&e.label)));
    }
    let mut w = make(&cfg).expect("valid configuration");
    let pl = w.features_pool().clone();
    let p = AnyParser::new(f, cb, g.seed, g.bits, pl.clone());
    let parsers = if small { 2 } else { r.range(2, 6) };
    let drainers = r.range(0, 2);
    let rounds = if small { 1 } else { r.range(1, 4) };
    let next = AtomicUsize::new(0);
    let total = n * rounds;
    let recycled = AtomicU64::new(0);
    let bad: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let (tx, rx) = mpsc::sync_channel::<(usize, Features<'static>, Option<Label>)>(r.range(0, 8));
    let (dtx, drx) = mpsc::channel::<(usize, Features<'static>)>();
    let drx = Mutex::new(drx);
    let seed = r.next();
    let mut got: Vec<u32> = vec![0; n];
    let others: Vec<_> = (0..2).map(|_| cfg_json(&gen_global(r), &crate::p_model::stack_of(r, *r.clone().pick(&[Kind::Scalar, Kind::Probs])))).collect();
    let judge = |k: usize, x: &Features, who: &str| {
        let d = dump_features(x);
        if !feats_same_multiset(&d, &exs[k].1) {
            bad.lock().unwrap().push(("concurrent-parse-differs".into(), format!("{who}: {f:?} {:?}\n got {d:?}\nwant {:?}", exs[k].0, exs[k].1)));
        }
    };
    std::thread::scope(|s| {
        let (p, exs, pl, next, recycled, bad, drx, judge) = (&p, &exs, &pl, &next, &recycled, &bad, &drx, &judge);
        for t in 0..parsers {
            let tx = tx.clone();
            s.spawn(move || {
                let mut r = Rng::new(seed, "c02", t as u64);
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= total {
                        break;
                    }
                    let k = i % n;
                    match guard(|| p.parse(&exs[k].0)) {
                        Ok(Ok((x, l))) => {
                            if !label_eq(label_nums(&l), exs[k].2) {
                                bad.lock().unwrap().push(("concurrent-label-differs".into(), format!("{:?}: {:?}", exs[k].0, label_nums(&l))));
                            }
                            if r.pct(60) {
                                if tx.send((k, x, l)).is_err() {
                                    break;
                                }
                            } else {
                                judge(k, &x, "parsing thread");
                                if pl.len() > 0 {
                                    recycled.fetch_add(1, Ordering::Relaxed);
                                }
                                x.clear_and_return_object(pl);
                            }
                        }
                        Ok(Err(e)) => bad.lock().unwrap().push(("valid-example-rejected".into(), format!("{:?}: {e}", exs[k].0))),
                        Err((sig, m)) => bad.lock().unwrap().push((sig, format!("{:?}: {m}", exs[k].0))),
                    }
                }
            });
        }
        drop(tx);
        for _ in 0..drainers {
            s.spawn(move || loop {
                let m = drx.lock().unwrap().recv();
                match m {
                    Ok((k, x)) => {
                        judge(k, &x, "third thread");
                        x.clear_and_return_object(pl);
                    }
                    Err(_) => break,
                }
            });
        }
        // Other models are configured, trained and saved at the same time: global state is shared.
        for cfg in &others {
            s.spawn(move || {
                let done = guard(|| {
                    for _ in 0..rounds {
                        let w = make(cfg).expect("valid configuration");
                        let m = model_of(&w);
                        drop(workspace::Workspace::create_from_model(&m).expect("own model"));
                    }
                });
                if let Err((sig, m)) = done {
                    bad.lock().unwrap().push((sig, format!("model created beside: {m}")));
                }
            });
        }
        // This thread learns, like the tool's main thread.
        let dtx = dtx;
        for (k, mut x, l) in rx {
            got[k] += 1;
            judge(k, &x, "learning thread");
            if let Some(l) = &l {
                w.predict_then_learn(&mut x, l);
            }
            if drainers > 0 && seed >> (k % 60) & 1 == 1 {
                judge(k, &x, "learning thread, afterwards");
                let _ = dtx.send((k, x));
            } else {
                x.clear_and_return_object(pl);
            }
        }
    });
    c.eval(total as u64);
    c.stat("examples parsed concurrently", total as u64);
    c.stat("examples passed between threads", got.iter().map(|x| *x as u64).sum());
    c.stat("containers recycled while others parse", recycled.load(Ordering::Relaxed));
    c.distinct_of(&format!("{cfg}{f:?}{parsers}{:?}", exs.iter().map(|e| &e.0).collect::<Vec<_>>()));
    c.sample(|| format!("{f:?}, {n} examples x {rounds}, {parsers} parsing threads, {drainers} draining, {cfg}"));
    for (sig, msg) in bad.into_inner().unwrap() {
        c.fail(&sig, msg);
    }
}
