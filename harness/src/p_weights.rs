//! The weight table as a value, and the walk over the weights of an example: C31.
use crate::common::*;
use crate::p_model::expand;
use approx::AbsDiffEq;
use reductionml_core::dense_weights::{DenseWeights, DenseWeightsWithNDArray};
use reductionml_core::sparse_namespaced_features::Namespace;
use reductionml_core::weights::{foreach_feature, foreach_feature_with_state, foreach_feature_with_state_mut, Weights};
use serde_json::{json, Value};
use std::collections::BTreeMap;

type Sizes = (u32, u8, u8);

#[derive(Clone, PartialEq, Default)]
struct Model(BTreeMap<(u32, u8), Vec<f32>>);
impl Model {
    fn get(&self, s: Sizes, f: u32, m: u8) -> Vec<f32> {
        self.0.get(&(f, m)).cloned().unwrap_or_else(|| vec![0.0; s.2 as usize])
    }
    fn at(&mut self, s: Sizes, f: u32, m: u8) -> &mut Vec<f32> {
        self.0.entry((f, m)).or_insert_with(|| vec![0.0; s.2 as usize])
    }
    fn trim(&self) -> BTreeMap<(u32, u8), Vec<u32>> {
        self.0.iter().filter(|(_, v)| v.iter().any(|x| *x != 0.0)).map(|(k, v)| (*k, v.iter().map(|x| x.to_bits()).collect())).collect()
    }
}
fn new(s: Sizes) -> Result<DenseWeights, String> {
    DenseWeights::new(s.0.into(), s.1.into(), s.2.into()).map_err(|e| e.to_string())
}
fn value(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1 => f32::MAX,
        2 => f32::MIN_POSITIVE,
        3 => f32::from_bits(1),
        4 => -1.0,
        _ => {
            let x = f32::from_bits(r.next() as u32);
            if x.is_finite() && x != 0.0 {
                x
            } else {
                2.5
            }
        }
    }
}
/// Every cell of the table.
fn observe(w: &DenseWeights, m: &Model, s: Sizes) -> Result<(), String> {
    for f in 0..s.0 {
        for k in 0..s.1 {
            let (got, want) = (w.state_at(f.into(), k.into()), m.get(s, f, k));
            if got.len() != want.len() || got.iter().zip(&want).any(|(x, y)| x.to_bits() != y.to_bits()) {
                return Err(format!("feature {f} model {k}: {got:?} instead of {want:?}"));
            }
            if w.weight_at(f.into(), k.into()).to_bits() != want[0].to_bits() {
                return Err(format!("feature {f} model {k}: weight is not the first value of {want:?}"));
            }
        }
    }
    Ok(())
}
/// Through one of the stored forms and back.
fn stored(r: &mut Rng, w: &DenseWeights) -> Result<(&'static str, DenseWeights), String> {
    let e = |e: &dyn std::fmt::Debug| format!("{e:?}");
    Ok(match r.below(4) {
        0 => ("binary", flexbuffers::from_slice(&flexbuffers::to_vec(w).map_err(|x| e(&x))?).map_err(|x| e(&x))?),
        1 => ("text", serde_json::from_str(&serde_json::to_string(w).map_err(|x| e(&x))?).map_err(|x| e(&x))?),
        2 => ("listing", DenseWeightsWithNDArray::from_dense_weights(w.clone()).to_dense_weights()),
        _ => {
            let t = serde_json::to_string(&DenseWeightsWithNDArray::from_dense_weights(w.clone())).map_err(|x| e(&x))?;
            ("listing through text", serde_json::from_str::<DenseWeightsWithNDArray>(&t).map_err(|x| e(&x))?.to_dense_weights())
        }
    })
}

fn table(r: &mut Rng, c: &mut Ctx) {
    let mut s: Sizes = (
        match r.below(4) {
            0 => r.range(1, 9) as u32,
            1 => r.range(10, 300) as u32,
            2 => 1 << r.range(0, 10),
            _ => (1 << r.range(1, 10)) + 1 - 2 * r.below(2) as u32,
        },
        *r.pick(&[1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 128, 129, 255]),
        *r.pick(&[1, 2, 3, 4, 5, 6, 6, 6, 7, 8, 9, 128, 129, 255]),
    );
    while s.0 as u64 * s.1 as u64 * s.2 as u64 > 40_000 && s.0 > 1 {
        s.0 = (s.0 / 2).max(1);
    }
    let mut w = match new(s) {
        Ok(w) => w,
        Err(e) => return c.fail("sizes-refused", format!("{s:?}: {e}")),
    };
    let mut m = Model::default();
    let mut log = vec![];
    let pos = |r: &mut Rng| {
        let f = match r.below(4) {
            0 => 0,
            1 => s.0 - 1,
            _ => r.below(s.0 as usize) as u32,
        };
        let k = match r.below(4) {
            0 => 0,
            1 => s.1 - 1,
            _ => r.below(s.1 as usize) as u8,
        };
        (f, k)
    };
    for step in 0..r.steps(2, 40) {
        let (f, k) = pos(r);
        match r.below(10) {
            0..=2 => {
                let x = value(r);
                *w.weight_at_mut(f.into(), k.into()) = x;
                m.at(s, f, k)[0] = x;
                log.push(format!("weight({f},{k})={x:e}"));
            }
            3..=5 => {
                let i = r.below(s.2 as usize);
                let x = value(r);
                w.state_at_mut(f.into(), k.into())[i] = x;
                m.at(s, f, k)[i] = x;
                log.push(format!("state({f},{k})[{i}]={x:e}"));
            }
            6 => {
                let v: Vec<f32> = (0..s.2).map(|_| value(r)).collect();
                let st = w.state_at_mut(f.into(), k.into());
                if st.len() != v.len() {
                    return c.fail("state-size", format!("{s:?}: state of {} values", st.len()));
                }
                st.copy_from_slice(&v);
                *m.at(s, f, k) = v;
                log.push(format!("state({f},{k})=.."));
            }
            7 => {
                let before = w.clone();
                let (n, x) = match stored(r, &w) {
                    Ok(x) => x,
                    Err(e) => return c.fail("not-stored", format!("{s:?} {log:?}: {e}")),
                };
                c.stat("tables stored and loaded", 1);
                log.push(n.into());
                if x != w || before != w {
                    return c.fail("stored-differs", format!("{s:?} {log:?}: {n}"));
                }
                w = x;
            }
            8 => {
                // a copy is its own
                let mut copy = w.clone();
                if copy != w || !copy.abs_diff_eq(&w, f32::EPSILON) {
                    return c.fail("copy-differs", format!("{s:?} {log:?}"));
                }
                let i = r.below(s.2 as usize);
                copy.state_at_mut(f.into(), k.into())[i] = if m.get(s, f, k)[i] == 77.0 { 78.0 } else { 77.0 };
                if copy == w || copy.abs_diff_eq(&w, f32::EPSILON) {
                    return c.fail("difference-missed", format!("{s:?} {log:?}: copy changed at ({f},{k})[{i}] is equal"));
                }
                log.push("copy".into());
            }
            _ => {
                let mut t = new(s).unwrap();
                for ((f, k), v) in &m.0 {
                    t.state_at_mut((*f).into(), (*k).into()).copy_from_slice(v);
                }
                if t != w || w != t {
                    return c.fail("equal-differs", format!("{s:?} {log:?}"));
                }
            }
        }
        c.eval(1);
        let (f, k) = pos(r);
        let (got, want) = (w.state_at(f.into(), k.into()), m.get(s, f, k));
        if got != want {
            return c.fail("cell", format!("{s:?} step {step} {log:?}: feature {f} model {k}: {got:?} instead of {want:?}"));
        }
    }
    if let Err(e) = observe(&w, &m, s) {
        return c.fail("table", format!("{s:?} {log:?}: {e}"));
    }
    // the listing names exactly the features with something in them
    let l = serde_json::to_value(DenseWeightsWithNDArray::from_dense_weights(w.clone())).unwrap();
    if let Some(o) = l["weights"].as_object() {
        let mut listed: Vec<u32> = o.keys().map(|k| k.parse().unwrap_or(u32::MAX)).collect();
        listed.sort();
        let mut want: Vec<u32> = m.trim().keys().map(|k| k.0).collect();
        want.dedup();
        if listed != want {
            return c.fail("listing", format!("{s:?} {log:?}: {listed:?} instead of {want:?}"));
        }
        c.stat("listings compared", 1);
    }
    c.distinct_of(&format!("{s:?} {log:?}"));
    c.sample(|| format!("{s:?} {log:?}"));
}

/// A stored table whose parts do not fit is refused.
fn foreign(r: &mut Rng, c: &mut Ctx) {
    let s: Sizes = (r.range(1, 20) as u32, r.range(1, 4) as u8, r.range(1, 6) as u8);
    let mut w = new(s).unwrap();
    for _ in 0..r.range(0, 4) {
        w.state_at_mut((r.below(s.0 as usize) as u32).into(), (r.below(s.1 as usize) as u8).into())[0] = value(r);
    }
    let bits = |n: u32| 32 - (n - 1).leading_zeros();
    let len = 1u64 << (bits(s.0) + bits(s.1 as u32) + bits(s.2 as u32));
    let mut v: Value = serde_json::to_value(&w).unwrap();
    let at = *r.pick(&["len", "feature_index_size", "model_index_size", "feature_state_size", "model_index_size_shift", "feature_state_size_shift", "index"]);
    let mut still = false;
    let known = match at {
        "len" => v["weights"]["len"].is_u64(),
        "index" => v["weights"]["non_zero_value_and_index_pairs"].is_array(),
        _ => v[at].is_u64(),
    };
    if !known {
        return c.stat("stored tables of another form", 1);
    }
    match at {
        "len" => v["weights"]["len"] = json!(*r.pick(&[0, len - 1, len + 1, len * 2, u64::MAX])),
        "index" => v["weights"]["non_zero_value_and_index_pairs"].as_array_mut().unwrap().push(json!([*r.pick(&[len, len + 1, len * 2, u32::MAX as u64, u64::MAX]), 1.0])),
        _ => {
            let old = v[at].as_u64().unwrap();
            let max = if at == "feature_index_size" { u32::MAX as u64 } else { 255 };
            let new = *r.pick(&[0, old.wrapping_sub(1).min(max), old + 1, old * 2, max]);
            v[at] = json!(new);
            // a size that needs as many bits still fits
            still = new == old || (!at.ends_with("shift") && new > 0 && bits(new as u32) == bits(old as u32));
        }
    }
    let text = v.to_string();
    let got: Result<DenseWeights, _> = serde_json::from_str(&text);
    let bin = flexbuffers::to_vec(&v).unwrap();
    let got2: Result<DenseWeights, _> = flexbuffers::from_slice(&bin);
    c.eval(2);
    c.stat("stored tables changed", 1);
    if !still && (got.is_ok() || got2.is_ok()) {
        c.fail("misfit-accepted", format!("{s:?} with {at} changed: {text}"));
    }
    c.distinct_of(&text);
}

fn refused_sizes(r: &mut Rng, c: &mut Ctx) {
    let mut s: Sizes = (*r.pick(&[0, 1, 5, u32::MAX]), *r.pick(&[0, 1, 3, 255]), *r.pick(&[0, 1, 6, 255]));
    if s.0 != 0 && s.1 != 0 && s.2 != 0 {
        // beyond any address space
        s = (u32::MAX, 255, 255);
    }
    c.eval(1);
    c.stat("impossible sizes", 1);
    if new(s).is_ok() {
        c.fail("impossible-sizes", format!("{s:?}"));
    }
    c.distinct_of(&format!("{s:?}"));
}

/// Every feature, product and the constant is visited once, with its value and the weight that belongs to it.
fn walk(r: &mut Rng, c: &mut Ctx) {
    let mut g = gen_global(r);
    g.bits = r.range(1, 9) as u8;
    let s: Sizes = (1 << g.bits, r.range(1, 5) as u8, r.range(1, 6) as u8);
    let mut w = new(s).unwrap();
    // each value of the table is unique
    let id = |f: u32, k: u8, i: usize| 1.0 + ((f * s.1 as u32 + k as u32) * s.2 as u32 + i as u32) as f32;
    for f in 0..s.0 {
        for k in 0..s.1 {
            for (i, x) in w.state_at_mut(f.into(), k.into()).iter_mut().enumerate() {
                *x = id(f, k, i);
            }
        }
    }
    let original = w.clone();
    let ns = |n: &String| -> Namespace { to_ns(key_of(n, g.seed)) };
    let pairs: Vec<_> = g.interactions.iter().filter(|i| i.len() == 2).map(|i| (ns(&i[0]), ns(&i[1]))).collect();
    let triples: Vec<_> = g.interactions.iter().filter(|i| i.len() == 3).map(|i| (ns(&i[0]), ns(&i[1]), ns(&i[2]))).collect();
    let mut t = Terms::new();
    for n in NS_NAMES {
        if r.pct(50) {
            t.insert(key_of(n, g.seed), (0..r.range(0, 5)).map(|_| (r.next() as u32 & mask(g.bits), val(r))).collect());
        }
    }
    let k = r.below(s.1 as usize) as u8;
    let feats = build(&t);
    let want = expand(&t, &g);
    let (mut one, mut all, mut changed) = (vec![], vec![], vec![]);
    foreach_feature(k.into(), &feats, &w, &pairs, &triples, g.bits, g.constant, |v, x| one.push((v.to_bits(), x)));
    foreach_feature_with_state(k.into(), &feats, &w, &pairs, &triples, g.bits, g.constant, |v, x: &[f32]| all.push((v.to_bits(), x.to_vec())));
    if w != original {
        return c.fail("walk-changes", format!("{g:?} {t:?}"));
    }
    foreach_feature_with_state_mut(k.into(), &feats, &mut w, &pairs, &triples, g.bits, g.constant, |v, x: &mut [f32]| {
        changed.push(v.to_bits());
        for y in x {
            *y += 4194304.0;
        }
    });
    let show = |x: &dyn std::fmt::Debug| format!("{g:?} model {k} of {s:?} {t:?}: {x:?}");
    let sort = |mut v: Vec<(u32, f32)>| {
        v.sort_by(|a, b| a.partial_cmp(b).unwrap());
        v
    };
    let expect = sort(want.iter().map(|(f, v)| (v.to_bits(), id(*f, k, 0))).collect());
    let got = sort(one);
    if got != expect {
        return c.fail("walk", show(&got));
    }
    if sort(all.iter().map(|(v, x)| (*v, x[0])).collect()) != expect {
        return c.fail("walk-states", show(&all));
    }
    for (_, x) in &all {
        if x.len() != s.2 as usize || x.windows(2).any(|y| y[1] != y[0] + 1.0) {
            return c.fail("walk-states", show(&x));
        }
    }
    let sortu = |mut v: Vec<u32>| {
        v.sort();
        v
    };
    if sortu(changed) != sortu(want.iter().map(|x| x.1.to_bits()).collect()) {
        return c.fail("walk-mut", show(&want));
    }
    // each place changed as often as it was to be visited, other models not at all
    let mut visits: BTreeMap<u32, u32> = BTreeMap::new();
    for (f, _) in &want {
        *visits.entry(*f).or_default() += 1;
    }
    for f in 0..s.0 {
        for m in 0..s.1 {
            let n = if m == k { visits.get(&f).copied().unwrap_or(0) } else { 0 };
            for (i, x) in w.state_at(f.into(), m.into()).iter().enumerate() {
                let mut y = id(f, m, i);
                for _ in 0..n {
                    y += 4194304.0;
                }
                if *x != y {
                    return c.fail("walk-mut", show(&format!("feature {f} model {m} value {i}: {x} instead of {y} ({n} visits)")));
                }
            }
        }
    }
    c.eval(3);
    c.stat("weights visited", want.len() as u64);
    c.stat("walks over products", (!pairs.is_empty() || !triples.is_empty()) as u64);
    c.stat("walks in a table of several models", (s.1 > 1) as u64);
    c.distinct_of(&format!("{g:?} {k} {s:?} {t:?}"));
    c.sample(|| format!("{g:?} model {k} of {s:?} {t:?}"));
}

pub fn c31(r: &mut Rng, c: &mut Ctx) {
    match r.below(100) {
        0..=44 => table(r, c),
        45..=54 => foreign(r, c),
        55 => refused_sizes(r, c),
        _ => walk(r, c),
    }
}
