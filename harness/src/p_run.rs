//! What training costs: C30.
use crate::common::*;
use crate::ex::*;
use crate::p_model::any_stack;
use crate::p_parse::{dsable, jsonable, pool, render, AnyParser, Fmt, COMMON};
use reductionml_core::metrics::get_metric;
use reductionml_core::object_pool::PoolReturnable;
use reductionml_core::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts the bytes each thread holds.
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
fn count(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}

#[repr(C)]
struct Timespec {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(id: i32, t: *mut Timespec) -> i32;
}
/// CPU time of this thread.
fn cpu() -> f64 {
    let mut t = Timespec { s: 0, n: 0 };
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

/// The same example with other names.
fn renamed(e: &Ex, ns: bool, names: bool, values: bool, k: usize) -> Ex {
    let mut e = e.clone();
    let fix = |p: &mut Part, which: usize| {
        for (i, n) in p.iter_mut().enumerate() {
            if ns && !is_default_name(&n.name) {
                n.name = format!("n{which}.{i}.{k:09}");
            }
            for (j, f) in n.feats.iter_mut().enumerate() {
                match f {
                    F::Num(a, _) | F::One(a) if names => *a = format!("f{j}.{k:09}"),
                    F::Str(_, v) if values => *v = format!("v{k:09}"),
                    _ => {}
                }
            }
        }
    };
    for (i, p) in e.parts.iter_mut().enumerate() {
        fix(p, if ns { i } else { 0 });
    }
    if let Some(s) = e.shared.as_mut() {
        fix(s, 99);
    }
    e
}

pub fn c30(r: &mut Rng, c: &mut Ctx) {
    let mut g = gen_global(r);
    g.bits = g.bits.min(14);
    let (_, st) = any_stack(r, true);
    let cfg = cfg_json(&g, &st);
    let mut ws = match make(&cfg) {
        Ok(w) => w,
        Err(e) => return c.fail("valid-config-rejected", format!("{cfg}: {e}")),
    };
    if label_type(&ws) == LabelType::Binary {
        return; // no text format carries binary labels
    }
    let cb = is_cb(&ws);
    let fmt = if cb { *r.pick(&[Fmt::Vw, Fmt::Json, Fmt::Ds]) } else { *r.pick(&[Fmt::Vw, Fmt::Json]) };
    // a few shapes, repeated with other names
    let mut shapes: Vec<Ex> = vec![];
    for _ in 0..r.range(1, 4) {
        let mut e = gen_ex(r, cb, COMMON);
        jsonable(&mut e);
        dsable(&mut e);
        e.parts.truncate(6);
        for p in e.parts.iter_mut().chain(e.shared.iter_mut()) {
            p.iter_mut().for_each(|n| n.feats.truncate(12));
        }
        e.label = Some(if cb { Lab::Cb(r.below(e.parts.len()), "0.5".into(), "0.25".into()) } else { Lab::Simple("0.5".into(), None) });
        shapes.push(e);
    }
    let (ns, names, values) = (r.pct(70), r.pct(60), r.pct(60));
    let pl = if r.pct(70) { ws.features_pool().clone() } else { pool() };
    let parser = AnyParser::new(fmt, cb, g.seed, g.bits, pl.clone());
    let mut metrics: Vec<_> = ["example_number", "parsed_features"].iter().filter_map(|m| get_metric(m)).collect();
    let mode = r.below(3);
    let held = *r.pick(&[0usize, 0, 1, 5]); // examples parsed ahead
    let style = r.next();
    let mut ahead = std::collections::VecDeque::new();
    let block = if c.thorough { 1500 } else { 400 };
    let mut at = vec![];
    let mut cost = vec![];
    for b in 0..6 {
        let t = cpu();
        for k in b * block..(b + 1) * block {
            let e = renamed(&shapes[k % shapes.len()], ns, names, values, k);
            let text = render(&mut Rng::new(style, "shape", (k % shapes.len()) as u64), fmt, &e, true);
            match parser.parse(&text) {
                Ok(x) => ahead.push_back(x),
                Err(m) => return c.fail("valid-text-rejected", format!("{fmt:?} {text:?}: {m}")),
            }
            if ahead.len() > held {
                let (mut f, l) = ahead.pop_front().unwrap();
                let l = l.unwrap_or_else(|| gen_label(&mut Rng::new(1, "l", 1), ws_label(cb), 1));
                match mode {
                    0 => ws.learn(&mut f, &l),
                    1 => {
                        let p = ws.predict_then_learn(&mut f, &l);
                        metrics.iter_mut().for_each(|m| m.add_point(&f, &l, &p));
                    }
                    _ => {
                        let p = ws.predict(&mut f);
                        metrics.iter_mut().for_each(|m| m.add_point(&f, &l, &p));
                        ws.learn(&mut f, &l);
                    }
                }
                f.clear_and_return_object(&pl);
            }
        }
        at.push(live());
        cost.push(cpu() - t);
        c.eval(1);
        // An example holds some KB; what is kept for good shows as growth in every block.
        let grown = at[b] - at[0];
        if b >= 2 && grown > 8_192 + 2 * (at[1] - at[0]).clamp(0, 8_192) && at[b] > at[b - 1] && at[b - 1] > at[b - 2] {
            return c.fail("memory-grows", format!("{cfg} {fmt:?}, {block} examples at a time like {:?}, other names (namespaces {ns}, features {names}, values {values}): bytes held after each {at:?}", shapes[0]));
        }
        if b >= 2 && cost[b] > 5.0 * cost[0] && cost[b] - cost[0] > 0.2 && cost[b - 1] > 2.0 * cost[0] {
            return c.fail("time-grows", format!("{cfg} {fmt:?}, {block} examples at a time like {:?}, other names (namespaces {ns}, features {names}, values {values}): CPU seconds {cost:?}", shapes[0]));
        }
    }
    let grown = (at[5] - at[1]).max(0) as u64;
    c.stat("examples", 6 * block as u64);
    c.stat(if grown < 1024 { "growth under 1 KB" } else { "growth of 1 KB to the limit" }, 1);
    c.stat("bytes grown, sum", grown);
    c.distinct_of(&format!("{cfg}{fmt:?}{style}"));
    c.sample(|| format!("{cfg} {fmt:?} bytes held {at:?} CPU seconds {cost:?}"));
}
fn ws_label(cb: bool) -> LabelType {
    if cb {
        LabelType::CB
    } else {
        LabelType::Simple
    }
}
