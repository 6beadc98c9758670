//! Model behaviour: C04 C05 C06 C07 C08 C09 C10 C11 C23 C27.
use crate::common::*;
use reductionml_core::workspace::Workspace;
use reductionml_core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const KINDS: &[Kind] = &[Kind::Scalar, Kind::Scalar, Kind::Binary, Kind::Scores, Kind::Probs];

/// A random stack of any kind, sometimes with an elementwise reduction at the bottom.
pub fn any_stack(r: &mut Rng, debug: bool) -> (Kind, Value) {
    let k = *r.pick(KINDS);
    let mut s = gen_stack(r, k, debug);
    if r.pct(15) {
        s = wrap_bottom(r, s);
    }
    (k, s)
}
pub fn stack_of(r: &mut Rng, k: Kind) -> Value {
    let s = gen_stack(r, k, false);
    if r.pct(15) {
        return wrap_bottom(r, s);
    }
    s
}
fn child_key(t: &str) -> Option<&'static str> {
    match t {
        "Debug" => Some("next"),
        "Binary" | "CbAdf" | "ElementwiseInteraction" => Some("regressor"),
        "CbExploreAdfGreedy" | "CbExploreAdfSoftmax" | "CbExploreAdfSquareCb" => Some("cbAdf"),
        _ => None,
    }
}
fn wrap_bottom(r: &mut Rng, mut s: Value) -> Value {
    let t = s["typename"].as_str().unwrap().to_string();
    match child_key(&t) {
        None => elementwise(r, s),
        Some(k) => {
            let c = s["config"][k].clone();
            s["config"][k] = wrap_bottom(r, c);
            s
        }
    }
}

pub struct Hist {
    pub g: Global,
    pub cfg: Value,
    pub cb: bool,
    pub lt: LabelType,
    pub ws: Workspace,
}
fn start(r: &mut Rng, c: &mut Ctx, debug: bool) -> Option<Hist> {
    let g = gen_global(r);
    let (_, st) = any_stack(r, debug);
    let cfg = cfg_json(&g, &st);
    match make(&cfg) {
        Ok(ws) => Some(Hist { cb: is_cb(&ws), lt: label_type(&ws), g, cfg, ws }),
        Err(e) => {
            c.fail("valid-config-rejected", format!("{cfg}: {e}"));
            None
        }
    }
}
impl Hist {
    fn feats(&self, r: &mut Rng, v: &dyn Fn(&mut Rng) -> f32) -> Feats {
        gen_feats(r, self.cb, self.g.bits, self.g.seed, v)
    }
}

fn extend(t: &mut Terms, e: &Terms) {
    for (k, v) in e {
        t.entry(*k).or_default().extend(v.iter().copied());
    }
}

/// Predict is pure.
pub fn c04(r: &mut Rng, c: &mut Ctx) {
    let Some(mut h) = start(r, c, true) else { return };
    let mut twin = make(&h.cfg).unwrap();
    let steps = r.steps(2, 10);
    let hostile = r.pct(10);
    let vf: &dyn Fn(&mut Rng) -> f32 = if hostile { &hostile_val } else { &val };
    for s in 0..steps {
        let mut f = h.feats(r, vf);
        let before = model_of(&h.ws);
        let mut owned = f.build();
        let mut start_dump = dump_features(&owned);
        let mut first = String::new();
        for k in 0..r.range(1, 3) {
            // owned and borrowed handles
            let p = if r.pct(50) {
                h.ws.predict(&mut owned)
            } else {
                match &mut owned {
                    Features::SparseSimple(x) => h.ws.predict(&mut Features::SparseSimpleRef(x)),
                    Features::SparseCBAdf(x) => h.ws.predict(&mut Features::SparseCBAdfRef(x)),
                    _ => unreachable!(),
                }
            };
            c.eval(1);
            let b = pbits(&p);
            if k == 0 {
                first = b;
            } else if b != first {
                c.fail("repeat-predict-differs", format!("cfg {} step {s}: {first} then {b}", h.cfg));
                return;
            }
            let d = dump_features(&owned);
            if !feats_same_bits(&d, &start_dump) {
                c.fail("features-changed", format!("cfg {} step {s}: {:?} became {:?}", h.cfg, start_dump, d));
                return;
            }
        }
        if model_of(&h.ws) != before {
            c.fail("model-changed", format!("cfg {} step {s} feats {:?}", h.cfg, f));
            return;
        }
        // the features are still the caller's: they are extended, get another shared part
        // or another order of actions, and mean the same as fresh ones built that way
        if r.pct(40) {
            let extra = h.feats(r, vf);
            match (&mut f, &mut owned, extra) {
                (Feats::Simple(t), Features::SparseSimple(o), Feats::Simple(e)) => {
                    fill(o, &e);
                    extend(t, &e);
                }
                (Feats::Cb(s, a), Features::SparseCBAdf(o), Feats::Cb(es, ea)) => {
                    if r.pct(60) {
                        o.shared = es.as_ref().map(build);
                        *s = es;
                    }
                    if r.pct(60) && !ea.is_empty() && !a.is_empty() {
                        let k = r.below(a.len());
                        fill(&mut o.actions[k], &ea[0]);
                        extend(&mut a[k], &ea[0]);
                    }
                    if r.pct(40) {
                        o.actions.reverse();
                        a.reverse();
                    }
                }
                _ => unreachable!(),
            }
            start_dump = dump_features(&owned);
            let (p, q) = (pbits(&h.ws.predict(&mut owned)), pbits(&twin.predict(&mut f.build())));
            c.stat("features changed between uses", 1);
            if p != q || !feats_same_bits(&start_dump, &f) {
                c.fail("reused-features-differ", format!("cfg {} step {s}: {:?} predicts {p}, fresh features {q}", h.cfg, f));
                return;
            }
        }
        let l = gen_label(r, h.lt, f.n_actions());
        // the features that were predicted on are then learned on; the twin sees fresh ones
        h.ws.learn(&mut owned, &l);
        if !feats_same_bits(&dump_features(&owned), &start_dump) {
            c.fail("features-changed-by-learn", format!("cfg {} step {s}: {:?}", h.cfg, f));
            return;
        }
        twin.learn(&mut f.build(), &l);
    }
    c.distinct_of(&format!("{} {}", h.cfg, steps));
    if model_of(&h.ws) != model_of(&twin) {
        c.fail("later-learning-differs", format!("cfg {}", h.cfg));
    }
    let f = h.feats(r, vf);
    if pbits(&h.ws.predict(&mut f.build())) != pbits(&twin.predict(&mut f.build())) {
        c.fail("later-predict-differs", format!("cfg {}", h.cfg));
    }
    c.sample(|| format!("cfg {} steps {steps} features e.g. {:?}", h.cfg, f));
}

/// predict_then_learn == predict ; learn == (model) learn.
pub fn c05(r: &mut Rng, c: &mut Ctx) {
    let Some(mut a) = start(r, c, true) else { return };
    let mut b = make(&a.cfg).unwrap();
    let mut l_only = make(&a.cfg).unwrap();
    let steps = r.steps(2, 12);
    for s in 0..steps {
        let f = a.feats(r, &val);
        let l = gen_label(r, a.lt, f.n_actions());
        let mut fa = f.build();
        let pa = pbits(&a.ws.predict_then_learn(&mut fa, &l));
        if !feats_same_bits(&dump_features(&fa), &f) {
            c.fail("features-changed", format!("cfg {} step {s} {:?}", a.cfg, f));
            return;
        }
        let mut fb = f.build();
        let pb = pbits(&b.predict(&mut fb));
        b.learn(&mut fb, &l);
        l_only.learn(&mut f.build(), &l);
        c.eval(1);
        if pa != pb {
            c.fail("prediction-differs", format!("cfg {} step {s} feats {:?} label {}: combined {pa}, predict {pb}", a.cfg, f, label_text(&l)));
            return;
        }
        if s % 3 == 2 || s + 1 == steps {
            let m = model_of(&a.ws);
            if m != model_of(&b) {
                c.fail("model-differs", format!("cfg {} step {s}: combined vs predict+learn, last feats {:?}", a.cfg, f));
                return;
            }
            if m != model_of(&l_only) {
                c.fail("model-differs-learn-only", format!("cfg {} step {s}", a.cfg));
                return;
            }
        }
    }
    c.distinct_of(&a.cfg.to_string());
    c.sample(|| format!("cfg {} {steps} steps", a.cfg));
}

/// Binary save/load.
pub fn c06(r: &mut Rng, c: &mut Ctx) {
    let Some(mut a) = start(r, c, true) else { return };
    let steps = r.steps(1, 14);
    let hostile = r.pct(15);
    let vf: &dyn Fn(&mut Rng) -> f32 = if hostile { &hostile_val } else { &val };
    let mut copies: Vec<Workspace> = vec![];
    for s in 0..=steps {
        if s == 0 || s == steps || r.pct(25) {
            let bytes = model_of(&a.ws);
            c.eval(1);
            match Workspace::create_from_model(&bytes) {
                Ok(w) => {
                    if model_of(&w) != bytes {
                        c.fail("resave-differs", format!("cfg {} after {s} steps", a.cfg));
                        return;
                    }
                    copies.push(w);
                    if copies.len() > 2 {
                        copies.remove(0);
                    }
                }
                Err(e) => {
                    c.fail("own-model-rejected", format!("cfg {} after {s} steps: {e}", a.cfg));
                    return;
                }
            }
        }
        let f = a.feats(r, vf);
        let l = gen_label(r, a.lt, f.n_actions());
        let p = pbits(&a.ws.predict(&mut f.build()));
        let ptl = r.pct(50);
        if ptl {
            a.ws.predict_then_learn(&mut f.build(), &l);
        } else {
            a.ws.learn(&mut f.build(), &l);
        }
        for w in copies.iter_mut() {
            let q = pbits(&w.predict(&mut f.build()));
            if p != q {
                c.fail("loaded-predicts-differently", format!("cfg {} step {s} {:?}: original {p}, loaded {q}", a.cfg, f));
                return;
            }
            if ptl {
                w.predict_then_learn(&mut f.build(), &l);
            } else {
                w.learn(&mut f.build(), &l);
            }
        }
    }
    let m = model_of(&a.ws);
    for w in &copies {
        if model_of(w) != m {
            c.fail("loaded-learns-differently", format!("cfg {}", a.cfg));
            return;
        }
    }
    c.distinct_of(&a.cfg.to_string());
    c.sample(|| format!("cfg {} {steps} steps, hostile values {hostile}", a.cfg));
}

fn find_weights(v: &Value) -> Option<&serde_json::Map<String, Value>> {
    match v {
        Value::Object(m) => {
            if m.contains_key("feature_index_size") {
                return m.get("weights").and_then(|w| w.as_object());
            }
            m.values().find_map(find_weights)
        }
        Value::Array(a) => a.iter().find_map(find_weights),
        _ => None,
    }
}
/// JSON export/import through text.
pub fn c07(r: &mut Rng, c: &mut Ctx) {
    let Some(mut a) = start(r, c, true) else { return };
    let steps = r.steps(0, 12);
    let mut touched: BTreeSet<u32> = BTreeSet::new();
    let mut must: BTreeSet<u32> = BTreeSet::new();
    let mut copy: Option<Workspace> = None;
    let coin = a.cfg["entryReduction"]["typename"] == "Coin";
    let wide = r.pct(35);
    let vf: &dyn Fn(&mut Rng) -> f32 = if wide { &small_val } else { &val };
    for s in 0..=steps {
        if s == steps || r.pct(20) {
            c.eval(1);
            let v = match a.ws.serialize_to_json() {
                Ok(v) => v,
                Err(e) => {
                    c.fail("export-failed", format!("cfg {} after {s} steps: {e}", a.cfg));
                    return;
                }
            };
            let text = if r.pct(50) { v.to_string() } else { serde_json::to_string_pretty(&v).unwrap() };
            let back: Value = serde_json::from_str(&text).unwrap();
            match Workspace::deserialize_from_json(&back) {
                Ok(w) => {
                    let again = model_json(&w);
                    if again != v {
                        c.fail("reexport-differs", format!("cfg {} after {s} steps", a.cfg));
                        return;
                    }
                    if model_of(&w) != model_of(&a.ws) {
                        c.fail("imported-state-differs", format!("cfg {} after {s} steps", a.cfg));
                        return;
                    }
                    copy = Some(w);
                }
                Err(e) => {
                    c.fail("own-json-rejected", format!("cfg {} after {s} steps: {e}", a.cfg));
                    return;
                }
            }
            if coin {
                if let Some(w) = find_weights(&v) {
                    let listed: BTreeSet<u32> = w.keys().map(|k| k.parse().unwrap()).collect();
                    c.stat("weight listings compared", 1);
                    if !must.is_subset(&listed) || !listed.is_subset(&touched) {
                        c.fail("weight-listing", format!("cfg {} after {s} steps: listed {listed:?}, learned with non-zero value {must:?}, ever present {touched:?}", a.cfg));
                        return;
                    }
                }
            }
        }
        let f = a.feats(r, vf);
        let l = gen_label(r, a.lt, f.n_actions());
        if let (true, Feats::Simple(t)) = (coin, &f) {
            for (i, x) in expand(t, &a.g) {
                touched.insert(i);
                if x != 0.0 {
                    must.insert(i);
                }
            }
        }
        let p = pbits(&a.ws.predict_then_learn(&mut f.build(), &l));
        if let Some(w) = copy.as_mut() {
            let q = pbits(&w.predict_then_learn(&mut f.build(), &l));
            if p != q {
                c.fail("imported-predicts-differently", format!("cfg {} step {s} {:?}: {p} vs {q}", a.cfg, f));
                return;
            }
        }
    }
    c.stat(if wide { "histories with tiny values" } else { "histories with moderate values" }, 1);
    c.distinct_of(&a.cfg.to_string());
    c.sample(|| format!("cfg {} {steps} steps", a.cfg));
}

/// Every (index, value) the model must use for these features.
pub fn expand(t: &Terms, g: &Global) -> Vec<(u32, f32)> {
    let m = mask(g.bits);
    let mut out: Vec<(u32, f32)> = t.values().flatten().cloned().collect();
    let empty = vec![];
    let get = |n: &String| t.get(&key_of(n, g.seed)).unwrap_or(&empty);
    for ia in g.interactions.iter().filter(|i| i.len() == 2) {
        let (a, b) = (get(&ia[0]), get(&ia[1]));
        let same = key_of(&ia[0], g.seed) == key_of(&ia[1], g.seed);
        for i in 0..a.len() {
            for j in (if same { i } else { 0 })..b.len() {
                out.push(((FNV.wrapping_mul(a[i].0) ^ b[j].0) & m, a[i].1 * b[j].1));
            }
        }
    }
    for ia in g.interactions.iter().filter(|i| i.len() == 3) {
        let (a, b, d) = (get(&ia[0]), get(&ia[1]), get(&ia[2]));
        let ab = key_of(&ia[0], g.seed) == key_of(&ia[1], g.seed);
        let bd = key_of(&ia[1], g.seed) == key_of(&ia[2], g.seed);
        for i in 0..a.len() {
            for j in (if ab { i } else { 0 })..b.len() {
                for k in (if bd { j } else { 0 })..d.len() {
                    let h = FNV.wrapping_mul(FNV.wrapping_mul(a[i].0) ^ b[j].0) ^ d[k].0;
                    out.push((h & m, a[i].1 * b[j].1 * d[k].1));
                }
            }
        }
    }
    if g.constant {
        out.push(((1u32 << g.bits) / 2, 1.0));
    }
    out
}

// ---------------------------------------------------------------- coin reference
macro_rules! coin_ref {
    ($name:ident, $t:ty) => {
        #[derive(Clone, Default)]
        pub struct $name {
            pub w: BTreeMap<u32, [$t; 6]>,
            norm: $t,
            total: $t,
            min: $t,
            max: $t,
            alpha: $t,
            beta: $t,
        }
        impl $name {
            pub fn new(alpha: f32, beta: f32) -> Self {
                $name { alpha: alpha as $t, beta: beta as $t, ..Default::default() }
            }
            pub fn predict(&self, x: &[(u32, f32)]) -> $t {
                x.iter().map(|(i, v)| self.w.get(i).map(|s| s[0]).unwrap_or(0.0) * (*v as $t)).sum()
            }
            /// seen label range
            pub fn range(&self) -> ($t, $t) {
                (self.min, self.max)
            }
            pub fn learn(&mut self, x: &[(u32, f32)], y: f32, weight: f32) {
                let (y, weight) = (y as $t, weight as $t);
                self.min = self.min.min(y);
                self.max = self.max.max(y);
                let (mut pred, mut nn): ($t, $t) = (0.0, 0.0);
                for (i, v) in x {
                    let v = *v as $t;
                    let s = self.w.get(i).copied().unwrap_or_default();
                    let mx = s[3].max(v.abs());
                    let gm = s[5] * mx;
                    let w = if gm > 0.0 { (self.alpha + s[4]) / (gm * (gm + s[2])) * s[1] } else { 0.0 };
                    pred += w * v;
                    if mx > 0.0 {
                        nn += (v / mx) * (v / mx);
                    }
                }
                self.norm += nn * weight;
                self.total += weight;
                let avg = (self.norm + 1e-6) / self.total;
                let p = (pred / avg).max(self.min).min(self.max);
                let upd = 2.0 * (p - y) * weight;
                for (i, v) in x {
                    let v = *v as $t;
                    let s = self.w.entry(*i).or_default();
                    let grad = upd * v;
                    s[3] = s[3].max(v.abs());
                    if upd.abs() > s[5] {
                        s[5] = upd.abs().max(self.beta);
                    }
                    let gm = s[5] * s[3];
                    let w = if gm > 0.0 { (self.alpha + s[4]) / (gm * (gm + s[2])) * s[1] } else { 0.0 };
                    s[1] -= grad;
                    s[2] += grad.abs();
                    s[4] -= grad * w;
                    s[0] = w / avg;
                }
            }
        }
    };
}
coin_ref!(Coin32, f32);
coin_ref!(Coin64, f64);

pub fn c08(r: &mut Rng, c: &mut Ctx) {
    let bits = match r.below(300) {
        // The weights are zero pages until they are used
        0 if r.pct(10) => r.range(21, 26),
        0 => r.range(15, 20),
        1..=10 => r.range(9, 14),
        _ => r.range(3, 8),
    } as u8;
    let g = Global { bits, seed: 0, constant: r.pct(60), interactions: vec![] };
    let alpha = *r.pick(&[0.1f32, 1.0, 4.0, 4.0, 12.0]);
    let beta = *r.pick(&[0.05f32, 0.5, 1.0, 1.0, 4.0]);
    let logistic = r.pct(20);
    let explicit = r.pct(60);
    let mut conf = serde_json::Map::new();
    if explicit || alpha != 4.0 {
        conf.insert("alpha".into(), json!(alpha));
    }
    if explicit || beta != 1.0 {
        conf.insert("beta".into(), json!(beta));
    }
    if logistic {
        conf.insert("linkFunction".into(), json!("Logistic"));
    }
    let cfg = cfg_json(&g, &json!({"typename": "Coin", "config": conf}));
    let mut w = match make(&cfg) {
        Ok(w) => w,
        Err(e) => return c.fail("valid-config-rejected", format!("{cfg}: {e}")),
    };
    let (mut r32, mut r64) = (Coin32::new(alpha, beta), Coin64::new(alpha, beta));
    let steps = r.steps(1, 30);
    let mut log = vec![];
    let mut seen: BTreeSet<u32> = BTreeSet::new();
    let scale = *r.pick(&[1.0f32, 1.0, 5.0, 0.1]);
    for s in 0..=steps {
        // probe every index on its own (in a namespace of its own), except the constant's contribution
        let probe = s == steps || r.pct(15);
        let mut tests: Vec<Terms> = vec![gen_terms(r, bits, 0, 3, 3, &val)];
        if probe {
            let all: Vec<u32> = if bits <= 8 { (0..=mask(bits)).collect() } else { seen.iter().copied().chain((0..40).map(|_| r.next() as u32 & mask(bits))).collect() };
            for i in all {
                tests.push(Terms::from([(Key::Named(77), vec![(i, 1.0)])]));
            }
        }
        for (n, t) in tests.iter().enumerate() {
            let x = expand(t, &g);
            let (a, b) = (r32.predict(&x) as f64, r64.predict(&x));
            let mag: f64 = x.iter().map(|(i, v)| (r64.w.get(i).map(|s| s[0]).unwrap_or(0.0) * *v as f64).abs()).sum();
            let tol = 1e-4 * (1.0 + mag) + 30.0 * (a - b).abs();
            if !tol.is_finite() || (a - b).abs() > 0.02 * (1.0 + mag) {
                c.stat("ill-conditioned history dropped", 1);
                return;
            }
            let p = w.predict(&mut build(t).into());
            let Prediction::Scalar(p) = p else { return c.fail("prediction-type", format!("{p:?}")) };
            c.eval(1);
            if n > 0 && !seen.contains(&tests[n].values().next().unwrap()[0].0) {
                c.stat("untouched weights probed", 1);
            }
            if ((p.raw_prediction as f64) - b).abs() > tol {
                c.fail("raw-prediction", format!("cfg {cfg} after {s} examples, features {t:?}: got {}, reference {b} (f32 {a}, tolerance {tol})\nhistory (features, label, weight): {log:?}", p.raw_prediction));
                return;
            }
            let (lo, hi) = r64.range();
            let cl = (p.raw_prediction as f64).max(lo).min(hi);
            let want = if logistic { 1.0 / (1.0 + (-cl).exp()) } else { cl };
            if ((p.prediction as f64) - want).abs() > 1e-5 * (1.0 + want.abs()) {
                c.fail("reported-prediction", format!("cfg {cfg} after {s} examples: raw {} range [{lo},{hi}] reported {} expected {want}\nhistory: {log:?}", p.raw_prediction, p.prediction));
                return;
            }
        }
        let mut t = gen_terms(r, bits, 0, 3, 4, &val);
        if r.pct(20) {
            // a growing feature value
            for v in t.values_mut().flatten() {
                v.1 *= s as f32;
            }
        }
        let label = val(r) * scale;
        let weight = match r.below(20) {
            0 => 0.0,
            1..=12 => 1.0,
            _ => r.uni(0.05, 5.0),
        };
        let x = expand(&t, &g);
        for (i, _) in &x {
            seen.insert(*i);
        }
        // features of other indices must not move
        let before = if bits <= 20 && r.pct(if bits <= 8 { 20 } else { 1 }) { Some(model_json(&w)) } else { None };
        let l = Label::Simple(SimpleLabel::new(label, weight));
        w.learn(&mut build(&t).into(), &l);
        if let Some(b) = before {
            let after = model_json(&w);
            if let (Some(p), Some(q)) = (find_weights(&b), find_weights(&after)) {
                let keys: BTreeSet<&String> = p.keys().chain(q.keys()).collect();
                for k in keys {
                    if p.get(k) != q.get(k) && !x.iter().any(|(i, _)| i.to_string() == **k) {
                        c.fail("absent-feature-moved", format!("cfg {cfg} step {s}: index {k} changed but is not in {x:?}"));
                        return;
                    }
                }
            }
        }
        r32.learn(&x, label, weight);
        r64.learn(&x, label, weight);
        log.push((x, label, weight));
    }
    c.distinct_of(&format!("{cfg}{log:?}"));
    c.sample(|| format!("cfg {cfg} history (index,value) {log:?}"));
}

/// Range of reported predictions under extreme values.
pub fn c09(r: &mut Rng, c: &mut Ctx) {
    let g = gen_global(r);
    let logistic = r.pct(30);
    let mut conf = json!({"linkFunction": if logistic {"Logistic"} else {"Identity"}});
    if r.pct(30) {
        conf["alpha"] = json!(*r.pick(&[1e-3, 1.0, 1e6]));
        conf["beta"] = json!(*r.pick(&[1e-6, 1.0, 1e6]));
    }
    let cfg = cfg_json(&g, &json!({"typename": "Coin", "config": conf}));
    let mut w = match make(&cfg) {
        Ok(w) => w,
        Err(e) => return c.fail("valid-config-rejected", format!("{cfg}: {e}")),
    };
    let (mut lo, mut hi) = (0f32, 0f32);
    let mode = r.below(3);
    let vf: &dyn Fn(&mut Rng) -> f32 = if mode == 0 { &small_val } else { &hostile_val };
    let mut log = vec![];
    for s in 0..r.steps(2, 25) {
        let plain = r.pct(30);
        let t = gen_terms(r, g.bits, g.seed, 3, 4, if plain { &val } else { vf });
        let y = if mode == 2 { hostile_val(r) } else { val(r) };
        let wt = match r.below(6) {
            0 => 0.0,
            1 => hostile_val(r).abs(),
            2 => r.uni(0.0, 10.0),
            _ => 1.0,
        };
        let ck = |p: Prediction, lo: f32, hi: f32, what: &str, c: &mut Ctx| -> bool {
            let Prediction::Scalar(p) = p else { return false };
            c.eval(1);
            let v = p.prediction;
            let ok = if logistic { v.is_finite() && (0.0..=1.0).contains(&v) } else { v.is_finite() && v >= lo && v <= hi };
            if !ok {
                c.fail("out-of-range", format!("cfg {cfg} {what} step {s}: prediction {v} (raw {}), labels so far within [{lo},{hi}], features {t:?}, history {log:?}", p.raw_prediction));
            }
            ok
        };
        if !ck(w.predict(&mut build(&t).into()), lo, hi, "predict", c) {
            return;
        }
        let l = Label::Simple(SimpleLabel::new(y, wt));
        if r.pct(50) {
            if !ck(w.predict_then_learn(&mut build(&t).into(), &l), lo, hi, "predict_then_learn", c) {
                return;
            }
        } else {
            w.learn(&mut build(&t).into(), &l);
        }
        lo = lo.min(y);
        hi = hi.max(y);
        if !ck(w.predict(&mut build(&t).into()), lo, hi, "predict after learn", c) {
            return;
        }
        log.push((t, y, wt));
    }
    c.stat(["moderate", "extreme features", "extreme features and labels"][mode], 1);
    c.distinct_of(&format!("{cfg}{log:?}"));
    c.sample(|| format!("cfg {cfg} history {log:?}"));
}

fn scalar(p: Prediction) -> (f32, f32) {
    match p {
        Prediction::Scalar(s) => (s.prediction, s.raw_prediction),
        _ => (f32::NAN, f32::NAN),
    }
}

/// Interactions == explicit expansion.
pub fn c10(r: &mut Rng, c: &mut Ctx) {
    let names = &NS_NAMES[..r.range(2, NS_NAMES.len())];
    let seed = if r.pct(50) { 0 } else { r.next() as u32 };
    let bits = if r.pct(10) { 16 } else { r.range(4, 8) as u8 };
    let n = r.range(1, 4);
    let interactions: Vec<Vec<String>> = (0..n)
        .map(|_| {
            let k = r.range(2, 3);
            let f = r.pick(names).to_string();
            match r.below(5) {
                0 => vec![f; k],
                1 if k == 3 => {
                    let mut v = vec![f; 3];
                    v[r.below(3)] = r.pick(names).to_string();
                    v
                }
                _ => (0..k).map(|_| r.pick(names).to_string()).collect(),
            }
        })
        .collect();
    let g = Global { bits, seed, constant: r.pct(50), interactions };
    let plain = Global { bits, seed, constant: g.constant, interactions: vec![] };
    let coin = json!({"typename": "Coin"});
    let cfg = cfg_json(&g, &coin);
    let (mut a, mut b) = match (make(&cfg), make(&cfg_json(&plain, &coin))) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return c.fail("valid-config-rejected", format!("{cfg}: {:?} {:?}", x.err(), y.err())),
    };
    let mut combos = 0;
    for s in 0..r.steps(2, 10) {
        let mut t = Terms::new();
        for nm in names {
            if r.pct(75) {
                let m = r.range(0, 4);
                let e = t.entry(key_of(nm, seed)).or_default();
                for _ in 0..m {
                    e.push((r.next() as u32 & mask(bits), if r.pct(50) { 1.0 } else { r.uni(-2.0, 2.0) }));
                }
            }
        }
        // all terms but the constant, in a namespace of no interaction
        let noconst = Global { bits, seed, constant: false, interactions: g.interactions.clone() };
        let x = expand(&t, &noconst);
        combos += x.len() - t.values().map(|v| v.len()).sum::<usize>();
        // the products as SparseFeatures lists them, for different namespaces
        if r.pct(20) {
            let mut k: Vec<String> = names.iter().map(|n| n.to_string()).filter(|n| t.contains_key(&key_of(n, seed))).collect();
            k.dedup_by_key(|n| key_of(n, seed));
            if k.len() >= 3 {
                let by = r.below(k.len());
                k.rotate_left(by);
                let f = build(&t);
                let ns = |i: usize| to_ns(key_of(&k[i], seed));
                let distinct = (0..3).map(|i| key_of(&k[i], seed)).collect::<BTreeSet<_>>().len() == 3;
                let got = [
                    f.quadratic_features(ns(0), ns(1), bits).map(|i| i.map(|(i, v)| (*i, v.to_bits())).collect::<Vec<_>>()),
                    f.cubic_features(ns(0), ns(1), ns(2), bits).map(|i| i.map(|(i, v)| (*i, v.to_bits())).collect::<Vec<_>>()),
                ];
                for n in [2, 3] {
                    let only = Global { bits, seed, constant: false, interactions: vec![k[..n].to_vec()] };
                    let mut want: Vec<(u32, u32)> = expand(&t, &only).into_iter().skip(t.values().map(|v| v.len()).sum()).map(|(i, v)| (i, v.to_bits())).collect();
                    let mut got = got[n - 2].clone().unwrap_or_default();
                    want.sort();
                    got.sort();
                    c.eval(1);
                    if distinct && got != want {
                        return c.fail("products-listed", format!("{:?} of {t:?}, bits {bits}: listed {got:?}, defined {want:?}", &k[..n]));
                    }
                }
            }
        }
        let e = Terms::from([(Key::Raw(1), x.clone())]);
        let l = gen_label(r, LabelType::Simple, 0);
        let (pa, ra) = scalar(a.predict(&mut build(&t).into()));
        let (pb, rb) = scalar(b.predict(&mut build(&e).into()));
        c.eval(1);
        if !rb.is_finite() || rb.abs() > 1e6 {
            c.stat("diverged history dropped", 1);
            return;
        }
        if !close(ra, rb, 1e-3, 1e-3) || !close(pa, pb, 1e-3, 1e-3) {
            c.fail("interaction-predict", format!("interactions {:?} bits {bits} step {s} features {t:?}: with interactions {ra}, explicit products {rb}\nexplicit terms {x:?}", g.interactions));
            return;
        }
        a.learn(&mut build(&t).into(), &l);
        b.learn(&mut build(&e).into(), &l);
        if bits <= 8 {
            for i in 0..=mask(bits) {
                let probe = Terms::from([(Key::Raw(1), vec![(i, 1.0)])]);
                let (_, ra) = scalar(a.predict(&mut build(&probe).into()));
                let (_, rb) = scalar(b.predict(&mut build(&probe).into()));
                if !close(ra, rb, 1e-3, 1e-3) && rb.is_finite() && rb.abs() < 1e5 {
                    c.fail("interaction-weights", format!("interactions {:?} bits {bits} step {s} features {t:?}: weight at {i}: {ra}, explicit products {rb}\nexplicit terms {x:?}", g.interactions));
                    return;
                }
            }
        }
    }
    c.stat("product features", combos as u64);
    c.distinct_of(&cfg.to_string());
    c.sample(|| format!("{cfg}, {combos} product features"));
}

fn union(a: &Terms, b: &Terms) -> Terms {
    let mut t = a.clone();
    for (k, v) in b {
        t.entry(*k).or_default().extend(v.iter().cloned());
    }
    t
}
pub fn c11(r: &mut Rng, c: &mut Ctx) {
    let g = gen_global(r);
    let mut reg = coin_cfg(r);
    if let Some(o) = reg["config"].as_object_mut() {
        o.remove("lossFunction");
    }
    if r.pct(15) {
        reg = elementwise(r, reg);
    }
    let cbtype = match r.below(5) {
        0 | 1 => Some("ips"),
        2 | 3 => Some("mtr"),
        _ => None,
    };
    let mut conf = json!({"regressor": reg});
    if let Some(t) = cbtype {
        conf["cbType"] = json!(t);
    }
    let cfg = cfg_json(&g, &json!({"typename": "CbAdf", "config": conf}));
    let (mut a, mut b) = match (make(&cfg), make(&cfg_json(&g, &reg))) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return c.fail("valid-config-rejected", format!("{cfg}: {:?} {:?}", x.err(), y.err())),
    };
    let (mut events, mut actions_sum) = (0f32, 0f32);
    let shared_mode = r.below(3);
    for s in 0..r.steps(2, 14) {
        let n = if r.below(1000) == 0 { r.range(250, 270) } else { r.range(1, 6) };
        let shared = match shared_mode {
            0 => None,
            1 => Some(gen_terms(r, g.bits, g.seed, 3, 3, &val)),
            _ => r.pct(50).then(|| gen_terms(r, g.bits, g.seed, 3, 3, &val)),
        };
        let acts: Vec<Terms> = (0..n).map(|_| gen_terms(r, g.bits, g.seed, 3, 3, &val)).collect();
        let f = Feats::Cb(shared.clone(), acts.clone());
        let empty = Terms::new();
        let u: Vec<Terms> = acts.iter().map(|x| union(x, shared.as_ref().unwrap_or(&empty))).collect();
        let Prediction::ActionScores(p) = a.predict(&mut f.build()) else { return c.fail("prediction-type", cfg.to_string()) };
        let want: Vec<f32> = u.iter().map(|t| scalar(b.predict(&mut build(t).into())).1).collect();
        c.eval(1);
        if want.iter().any(|x| !x.is_finite() || x.abs() > 1e5) {
            c.stat("diverged history dropped", 1);
            return;
        }
        if p.0.len() != n || p.0.iter().enumerate().any(|(i, x)| x.0 != i) {
            c.fail("action-list", format!("cfg {cfg} {n} actions: {:?}", p.0));
            return;
        }
        if p.0.iter().zip(&want).any(|(x, y)| !close(x.1, *y, 1e-3, 1e-4)) {
            c.fail("scores", format!("cfg {cfg} step {s} features {f:?}: scores {:?}, regressor on the unions {want:?}", p.0));
            return;
        }
        // independent of the other actions
        let k = r.below(n);
        let Prediction::ActionScores(one) = a.predict(&mut Feats::Cb(shared.clone(), vec![acts[k].clone()]).build()) else { return };
        if !close(one.0[0].1, p.0[k].1, 1e-5, 1e-6) {
            c.fail("depends-on-others", format!("cfg {cfg} step {s} action {k} alone scores {} but {} among {n}", one.0[0].1, p.0[k].1));
            return;
        }
        let chosen = r.below(n);
        let (cost, prob) = (r.uni(-2.0, 2.0), *r.pick(&[1.0f32, 0.5, 0.25, 0.1, 0.05, 0.004, 0.0003, 0.00002]));
        let l = Label::CB(CBLabel::new(chosen, cost, prob));
        if r.pct(50) {
            a.learn(&mut f.build(), &l);
        } else {
            a.predict_then_learn(&mut f.build(), &l);
        }
        if cbtype == Some("ips") {
            for (i, t) in u.iter().enumerate() {
                let y = if i == chosen { cost / prob } else { 0.0 };
                b.learn(&mut build(t).into(), &Label::Simple(SimpleLabel::new(y, 1.0)));
            }
        } else {
            events += 1.0;
            actions_sum += n as f32;
            b.learn(&mut build(&u[chosen]).into(), &Label::Simple(SimpleLabel::new(cost, 1.0 / prob * (events / actions_sum))));
        }
        // every weight of the regressor, through single-feature probes
        if g.bits <= 6 && r.pct(30) {
            for i in 0..=mask(g.bits) {
                let probe = Terms::from([(Key::Raw(12345), vec![(i, 1.0)])]);
                let Prediction::ActionScores(p) = a.predict(&mut Feats::Cb(None, vec![probe.clone()]).build()) else { return };
                let q = scalar(b.predict(&mut build(&probe).into())).1;
                c.stat("weights probed", 1);
                if !close(p.0[0].1, q, 1e-3, 1e-3) && q.is_finite() && q.abs() < 1e5 {
                    c.fail("learned-weights", format!("cfg {cfg} step {s} weight at {i}: {} vs prescribed {q}; last features {f:?} label {}", p.0[0].1, label_text(&l)));
                    return;
                }
            }
        }
    }
    c.stat(["no shared", "shared", "mixed shared"][shared_mode], 1);
    c.distinct_of(&cfg.to_string());
    c.sample(|| cfg.to_string());
}

type Level<'a> = (&'a str, &'a str, bool);

/// What the learner below a stack of elementwise interactions is to see; number of products, and how often they joined
/// others of the same name.
fn with_products(t: &Terms, levels: &[Level], seed: u32, m: u32) -> (Terms, usize, u64) {
    let (mut e, mut products, mut same_name) = (t.clone(), 0, 0);
    for (one, two, keep) in levels {
        let ((h1, h2), (k1, k2)) = ((ns_hash(one, seed), ns_hash(two, seed)), (key_of(one, seed), key_of(two, seed)));
        let comp = h1.wrapping_mul(h2);
        let mut prod = vec![];
        if let (Some(d1), Some(d2)) = (e.get(&k1), e.get(&k2)) {
            for (i, v) in d1 {
                let at = i.wrapping_sub(h1) & m;
                for (j, v2) in d2 {
                    if at == j.wrapping_sub(h2) & m {
                        prod.push((comp.wrapping_add(at) & m, v * v2));
                    }
                }
            }
        }
        products += prod.len();
        if !keep {
            e.remove(&k1);
            e.remove(&k2);
        }
        let all = e.entry(Key::Raw(comp)).or_default();
        if !all.is_empty() && !prod.is_empty() {
            same_name += 1;
        }
        all.extend(prod);
    }
    (e, products, same_name)
}

/// Dense lists, possibly of different length, some missing or with gaps.
fn dense_lists(r: &mut Rng, names: &[&str], levels: &[Level], seed: u32, m: u32) -> Terms {
    let mut t = Terms::new();
    for nm in names {
        if !r.pct(if levels.iter().any(|l| l.0 == *nm || l.1 == *nm) { 90 } else { 30 }) {
            continue;
        }
        let (h, n, gaps) = (ns_hash(nm, seed), r.range(0, 6) as u32, r.pct(15));
        let mut v = vec![];
        for i in 0..n {
            if !gaps || r.pct(60) {
                v.push((h.wrapping_add(i) & m, r.uni(-2.0, 2.0)));
            }
        }
        t.insert(key_of(nm, seed), v);
    }
    t
}

/// Below the contextual bandit: products are of an action together with the shared context.
fn c23_actions(r: &mut Rng, c: &mut Ctx, g: &Global, levels: &[Level], stack: &Value, reg: &Value) {
    let cb = |s: &Value, t: &str| cfg_json(g, &json!({"typename": "CbAdf", "config": {"cbType": t, "regressor": s}}));
    let t = *r.pick(&["ips", "mtr"]);
    let cfg = cb(stack, t);
    let (mut a, mut b) = match (make(&cfg), make(&cb(reg, t))) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return c.fail("valid-config-rejected", format!("{cfg}: {:?} {:?}", x.err(), y.err())),
    };
    let m = mask(g.bits);
    let (of_shared, of_action): (Vec<&str>, Vec<&str>) = NS_NAMES.iter().partition(|_| r.pct(40));
    let scores = |p: Prediction| match p {
        Prediction::ActionScores(s) => {
            let mut s: Vec<_> = s.0.iter().map(|x| (x.0, x.1)).collect();
            s.sort_by_key(|x| x.0);
            s.into_iter().map(|x| x.1).collect()
        }
        _ => vec![],
    };
    let mut products = 0;
    for s in 0..r.steps(2, 8) {
        let shared = dense_lists(r, &of_shared, levels, g.seed, m);
        let n = r.range(1, 5);
        let acts: Vec<Terms> = (0..n).map(|_| dense_lists(r, &of_action, levels, g.seed, m)).collect();
        let explicit: Vec<Terms> = acts
            .iter()
            .map(|x| {
                let mut u = x.clone();
                u.extend(shared.clone());
                let (e, np, _) = with_products(&u, levels, g.seed, m);
                products += np;
                e
            })
            .collect();
        let (fa, fb) = (Feats::Cb(Some(shared), acts), Feats::Cb(None, explicit));
        let l = gen_label(r, LabelType::CB, n);
        let mut ft = fa.build();
        let combined = r.pct(50);
        let mut got = vec![scores(a.predict(&mut ft))];
        let mut want = vec![scores(b.predict(&mut fb.build()))];
        want.push(scores(b.predict_then_learn(&mut fb.build(), &l)));
        if combined {
            got.push(scores(a.predict_then_learn(&mut ft, &l)));
        } else {
            a.learn(&mut ft, &l);
        }
        c.eval(1);
        if want.iter().flatten().any(|x| !x.is_finite() || x.abs() > 1e5) {
            c.stat("diverged history dropped", 1);
            return;
        }
        if !feats_same_bits(&dump_features(&ft), &fa) {
            c.fail("features-not-restored", format!("cfg {cfg} step {s} {fa:?} became {:?}", dump_features(&ft)));
            return;
        }
        for (x, y) in got.iter().zip(&want) {
            if x.len() != n || y.len() != n || x.iter().zip(y).any(|(x, y)| !close(*x, *y, 1e-3, 1e-3)) {
                c.fail("elementwise-actions", format!("cfg {cfg} step {s} features {fa:?}: {x:?}, explicit products {y:?}"));
                return;
            }
        }
    }
    c.stat("products", products as u64);
    c.stat("products of an action and the shared context", (products > 0) as u64);
    c.distinct_of(&cfg.to_string());
    c.sample(|| cfg.to_string());
}

pub fn c23(r: &mut Rng, c: &mut Ctx) {
    let mut g = gen_global(r);
    g.bits = r.range(5, 12) as u8;
    // a stack of interactions, outermost first
    let n = *r.pick(&[1, 1, 1, 2, 2, 3]);
    let levels: Vec<(&str, &str, bool)> = (0..n).map(|_| (*r.pick(NS_NAMES), *r.pick(NS_NAMES), r.pct(if n == 1 { 50 } else { 75 }))).collect();
    let nd = |n: &str| if n == " " { json!("Default") } else { json!({"Name": n}) };
    let reg = json!({"typename": "Coin"});
    let mut stack = reg.clone();
    for (one, two, keep) in levels.iter().rev() {
        let mut conf = json!({"regressor": stack, "one": nd(one), "two": nd(two)});
        if *keep || r.pct(50) {
            conf["keepOriginalFeatures"] = json!(keep);
        }
        stack = json!({"typename": "ElementwiseInteraction", "config": conf});
    }
    if r.pct(20) {
        return c23_actions(r, c, &g, &levels, &stack, &reg);
    }
    let cfg = cfg_json(&g, &stack);
    let (mut a, mut b) = match (make(&cfg), make(&cfg_json(&g, &reg))) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return c.fail("valid-config-rejected", format!("{cfg}: {:?} {:?}", x.err(), y.err())),
    };
    let m = mask(g.bits);
    let comps: Vec<u32> = levels.iter().map(|l| ns_hash(l.0, g.seed).wrapping_mul(ns_hash(l.1, g.seed))).collect();
    let (mut products, mut same_name) = (0, 0);
    for s in 0..r.steps(2, 10) {
        // dense lists, possibly of different length, some missing or with gaps
        let mut t = dense_lists(r, NS_NAMES, &levels, g.seed, m);
        if r.pct(10) {
            // a namespace of the name that products get
            t.insert(Key::Raw(*r.pick(&comps)), (0..r.range(0, 3)).map(|_| (r.next() as u32 & m, r.uni(-2.0, 2.0))).collect());
        }
        let (e, np, ns) = with_products(&t, &levels, g.seed, m);
        products += np;
        same_name += ns;
        let mut ft: Features = build(&t).into();
        let (_, ra) = scalar(a.predict(&mut ft));
        let (_, rb) = scalar(b.predict(&mut build(&e).into()));
        c.eval(1);
        if !rb.is_finite() || rb.abs() > 1e5 {
            c.stat("diverged history dropped", 1);
            return;
        }
        if !feats_same_bits(&dump_features(&ft), &Feats::Simple(t.clone())) {
            c.fail("features-not-restored", format!("cfg {cfg} step {s} {t:?} became {:?}", dump_features(&ft)));
            return;
        }
        if !close(ra, rb, 1e-3, 1e-3) {
            c.fail("elementwise-predict", format!("cfg {cfg} step {s} features {t:?}: {ra}, explicit products {rb}; explicit {e:?}"));
            return;
        }
        let l = gen_label(r, LabelType::Simple, 0);
        let bp = scalar(b.predict_then_learn(&mut build(&e).into(), &l)).1;
        if r.pct(50) {
            a.learn(&mut ft, &l);
        } else {
            let q = scalar(a.predict_then_learn(&mut ft, &l)).1;
            if !close(q, bp, 1e-3, 1e-3) {
                c.fail("elementwise-combined", format!("cfg {cfg} step {s} features {t:?}: {q}, explicit products {bp}"));
                return;
            }
        }
        if !feats_same_bits(&dump_features(&ft), &Feats::Simple(t.clone())) {
            c.fail("features-not-restored", format!("cfg {cfg} step {s} learn: {t:?} became {:?}", dump_features(&ft)));
            return;
        }
        if g.bits <= 8 {
            for i in 0..=m {
                let probe = Terms::from([(Key::Raw(0xABCD), vec![(i, 1.0)])]);
                let (x, y) = (scalar(a.predict(&mut build(&probe).into())).1, scalar(b.predict(&mut build(&probe).into())).1);
                if !close(x, y, 1e-3, 1e-3) && y.is_finite() && y.abs() < 1e5 {
                    c.fail("elementwise-weights", format!("cfg {cfg} step {s} features {t:?}: weight at {i} is {x}, explicit products give {y}"));
                    return;
                }
            }
        }
    }
    c.stat("products", products as u64);
    c.stat("products that join others of the same name", same_name);
    c.stat("interactions inside interactions", (n > 1) as u64);
    if levels.iter().any(|l| l.0 == l.1) {
        c.stat("both namespaces equal", 1);
    }
    c.distinct_of(&cfg.to_string());
    c.sample(|| cfg.to_string());
}

fn with_debug(r: &mut Rng, s: &Value, placed: &mut u32) -> Value {
    let mut s = s.clone();
    let t = s["typename"].as_str().unwrap().to_string();
    if let Some(k) = child_key(&t) {
        if let Some(ch) = s["config"].get(k).cloned() {
            s["config"][k] = with_debug(r, &ch, placed);
        }
    }
    if r.pct(50) {
        *placed += 1;
        let mut conf = json!({"next": s});
        for k in ["prediction", "label", "features"] {
            if r.pct(60) {
                conf[k] = json!(r.pct(80));
            }
        }
        if r.pct(30) {
            conf["indent"] = json!(r.below(6));
            conf["id"] = json!("x");
        }
        return json!({"typename": "Debug", "config": conf});
    }
    s
}
pub fn c27(r: &mut Rng, c: &mut Ctx) {
    if r.pct(50) {
        let g = gen_global(r);
        let (_, st) = any_stack(r, false);
        let mut placed = 0;
        let dbg = with_debug(r, &st, &mut placed);
        if placed == 0 {
            return;
        }
        c.stat("debug layers inserted", placed as u64);
        let (ca, cb) = (cfg_json(&g, &st), cfg_json(&g, &dbg));
        let (mut a, mut b) = match (make(&ca), make(&cb)) {
            (Ok(a), Ok(b)) => (a, b),
            (x, y) => return c.fail("valid-config-rejected", format!("{cb}: {:?} {:?}", x.err(), y.err())),
        };
        if label_type(&a) != label_type(&b) || is_cb(&a) != is_cb(&b) {
            return c.fail("debug-changes-types", cb.to_string());
        }
        for s in 0..r.steps(2, 8) {
            let f = gen_feats(r, is_cb(&a), g.bits, g.seed, &val);
            let l = gen_label(r, label_type(&a), f.n_actions());
            let (mut fa, mut fb) = (f.build(), f.build());
            let (p, q) = match r.below(3) {
                0 => {
                    a.learn(&mut fa, &l);
                    b.learn(&mut fb, &l);
                    (a.predict(&mut fa), b.predict(&mut fb))
                }
                1 => (a.predict_then_learn(&mut fa, &l), b.predict_then_learn(&mut fb, &l)),
                _ => (a.predict(&mut fa), b.predict(&mut fb)),
            };
            c.eval(1);
            if pbits(&p) != pbits(&q) {
                c.fail("debug-changes-prediction", format!("{cb} step {s}: without {} with {}", pbits(&p), pbits(&q)));
                return;
            }
            if !feats_same_bits(&dump_features(&fb), &f) {
                c.fail("debug-changes-features", format!("{cb} step {s}"));
                return;
            }
        }
        let probe = gen_feats(r, is_cb(&a), g.bits, g.seed, &val);
        if pbits(&a.predict(&mut probe.build())) != pbits(&b.predict(&mut probe.build())) {
            c.fail("debug-changes-learning", cb.to_string());
        }
        c.distinct_of(&cb.to_string());
        c.sample(|| cb.to_string());
    } else {
        let g = gen_global(r);
        let mut reg = coin_cfg(r);
        if r.pct(15) {
            reg = elementwise(r, reg);
        }
        let cfg = cfg_json(&g, &json!({"typename": "Binary", "config": {"regressor": reg}}));
        let (mut a, mut b) = match (make(&cfg), make(&cfg_json(&g, &reg))) {
            (Ok(a), Ok(b)) => (a, b),
            (x, y) => return c.fail("valid-config-rejected", format!("{cfg}: {:?} {:?}", x.err(), y.err())),
        };
        for s in 0..r.steps(2, 14) {
            let f = gen_feats(r, false, g.bits, g.seed, &val);
            let y = r.pct(50);
            let l = Label::Binary(y.into());
            let sl = Label::Simple(SimpleLabel::new(if y { 1.0 } else { -1.0 }, 1.0));
            let want = scalar(b.predict(&mut f.build())).0 > 0.0;
            let mut fa = f.build();
            let got = a.predict(&mut fa);
            c.eval(1);
            c.stat(if want { "predicted true" } else { "predicted false" }, 1);
            if got != Prediction::Binary(want.into()) {
                c.fail("binary-predict", format!("{cfg} step {s}: {got:?}, regressor says {want}"));
                return;
            }
            if r.pct(50) {
                a.learn(&mut fa, &l);
            } else if a.predict_then_learn(&mut fa, &l) != Prediction::Binary(want.into()) {
                c.fail("binary-combined", format!("{cfg} step {s}"));
                return;
            }
            b.learn(&mut f.build(), &sl);
        }
        // what was learned, exactly: the model's JSON carries the regressor's state
        let (ma, mb) = (model_json(&a), model_json(&b));
        if find_weights(&ma) != find_weights(&mb) {
            c.fail("binary-learns", format!("{cfg}: weights differ from the regressor's"));
        }
        c.distinct_of(&cfg.to_string());
        c.sample(|| cfg.to_string());
    }
}
