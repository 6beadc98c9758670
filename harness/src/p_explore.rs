//! Exploration: C12 C13.
use crate::common::*;
use reductionml_core::explore::enforce_min_prob;
use reductionml_core::workspace::Workspace;
use reductionml_core::*;
use serde_json::{json, Value};

/// Exact mixing: p_i -> max(p_i - tau, floor) over the support, tau so that the sum stays one.
pub fn waterfill(p: &[f64], eps: f64, zeros_too: bool) -> Vec<f64> {
    let support: Vec<usize> = (0..p.len()).filter(|&i| zeros_too || p[i] > 0.0).collect();
    if eps <= 0.0 || support.is_empty() {
        return p.to_vec();
    }
    let floor = eps / support.len() as f64;
    let total: f64 = 1.0;
    let f = |tau: f64| support.iter().map(|&i| (p[i] - tau).max(floor)).sum::<f64>();
    let (mut lo, mut hi) = (-2.0, 2.0);
    for _ in 0..200 {
        let mid = (lo + hi) / 2.0;
        if f(mid) > total {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let mut out = p.to_vec();
    // when the floor is met by all and the sum is one nothing moves
    for &i in &support {
        out[i] = (p[i] - hi).max(floor);
    }
    out
}

pub fn gen_dist(r: &mut Rng) -> Vec<f32> {
    let n = match r.below(10) {
        0 => 1,
        1 if r.pct(5) => r.range(80, 600),
        1 => r.range(30, 80),
        _ => r.range(2, 10),
    };
    let mode = r.below(6);
    let mut w: Vec<f64> = (0..n)
        .map(|_| match mode {
            0 => r.unit(),
            1 => if r.pct(40) { 0.0 } else { r.unit() },
            2 => 10f64.powf(-8.0 * r.unit()),
            3 => (r.below(4)) as f64,
            4 => 1.0,
            _ => if r.pct(10) { 1.0 } else { 1e-6 },
        })
        .collect();
    if mode == 0 && r.pct(20) {
        let k = r.below(n);
        for (i, x) in w.iter_mut().enumerate() {
            *x = (i == k) as u8 as f64;
        }
    }
    let s: f64 = w.iter().sum();
    if s == 0.0 {
        let k = r.below(n);
        w[k] = 1.0;
        return w.iter().map(|x| *x as f32).collect();
    }
    w.iter().map(|x| (x / s) as f32).collect()
}

pub fn c12(r: &mut Rng, c: &mut Ctx) {
    if r.pct(70) {
        let p = gen_dist(r);
        let n = p.len();
        let zeros = r.pct(50);
        let eps = match r.below(12) {
            0 => 0.0,
            1 => 1.0,
            2 => 0.9995,
            3 => 0.9985,
            4 => 1e-6,
            5 => 0.5,
            6 => *r.pick(&[0.05f32, 0.1, 0.2, 0.3]),
            _ => r.uni(0.0, 1.0),
        };
        // action numbers need not be sorted
        let off = r.below(3);
        let mut e: Vec<(usize, f32)> = p.iter().enumerate().map(|(i, x)| ((i * 7 + off) % (7 * n + 3), *x)).collect();
        let ids: Vec<usize> = e.iter().map(|x| x.0).collect();
        let what = format!("enforce_min_prob(eps {eps}, zeros {zeros}, {p:?})");
        c.eval(1);
        c.distinct_of(&what);
        c.sample(|| what.clone());
        if let Err(er) = enforce_min_prob(eps, zeros, &mut e) {
            return c.fail("rejected", format!("{what}: {er}"));
        }
        let q: Vec<f32> = e.iter().map(|x| x.1).collect();
        if e.iter().map(|x| x.0).collect::<Vec<_>>() != ids {
            return c.fail("order", format!("{what}: actions {ids:?} became {:?}", e));
        }
        let loose = eps > 0.999;
        let tol = if loose { 2e-3 } else { 2e-5 };
        let sum: f64 = q.iter().map(|x| *x as f64).sum();
        if (sum - 1.0).abs() > 1e-4 {
            return c.fail("sum", format!("{what}: sums to {sum}: {q:?}"));
        }
        let support = p.iter().filter(|x| zeros || **x > 0.0).count();
        let floor = eps as f64 / support as f64;
        let mut met = true;
        for i in 0..n {
            if q[i].is_nan() || q[i] < 0.0 {
                return c.fail("negative", format!("{what}: {q:?}"));
            }
            if zeros || p[i] > 0.0 {
                if (q[i] as f64) < floor * (1.0 - 1e-5) - 1e-7 {
                    return c.fail("floor", format!("{what}: action at {i} gets {} < {floor}: {q:?}", q[i]));
                }
                if (p[i] as f64) < floor {
                    met = false;
                }
            } else if q[i] != 0.0 {
                return c.fail("zero-raised", format!("{what}: {q:?}"));
            }
            for j in 0..n {
                if p[i] < p[j] && q[i] as f64 > q[j] as f64 + 1e-6 {
                    return c.fail("rank", format!("{what}: rank of {i} and {j} swapped: {q:?}"));
                }
            }
        }
        if met {
            c.stat("floor already met", 1);
            if (0..n).any(|i| (p[i] as f64 - q[i] as f64).abs() > tol) {
                return c.fail("changed-although-met", format!("{what}: {q:?}"));
            }
        } else {
            c.stat("floor enforced", 1);
        }
        let w = waterfill(&p.iter().map(|x| *x as f64).collect::<Vec<_>>(), eps as f64, zeros);
        if (0..n).any(|i| (w[i] - q[i] as f64).abs() > tol) {
            return c.fail("mixing", format!("{what}: got {q:?}, expected {w:?}"));
        }
    } else {
        // whole policies after random training
        let mut g = gen_global(r);
        g.interactions.truncate(1);
        let (st, eps) = policy(r, true);
        let cfg = cfg_json(&g, &st);
        let mut w = match make(&cfg) {
            Ok(w) => w,
            Err(e) => return c.fail("valid-config-rejected", format!("{cfg}: {e}")),
        };
        let big = *r.pick(&[1.0f32, 1.0, 100.0, 1e6, 1e36]);
        let extreme = r.pct(25);
        let vf: &dyn Fn(&mut Rng) -> f32 = if extreme { &hostile_val } else { &val };
        c.stat(if extreme { "policy histories with extreme values" } else { "policy histories with moderate values" }, 1);
        for s in 0..r.steps(1, 12) {
            let f = gen_feats(r, true, g.bits, g.seed, vf);
            let n = f.n_actions();
            let Prediction::ActionProbs(p) = w.predict(&mut f.build()) else { return c.fail("prediction-type", cfg.to_string()) };
            c.eval(1);
            if let Err(e) = distribution(&p.0, n) {
                return c.fail("not-a-distribution", format!("{cfg} step {s}: {e}: {:?}", p.0));
            }
            // a zero probability can only come from a policy whose own probability underflows
            let support = p.0.iter().filter(|x| x.1 > 0.0).count();
            let greedy = cfg["entryReduction"]["typename"] == "CbExploreAdfGreedy";
            let floor = eps as f64 / if greedy { n } else { support } as f64;
            for (a, q) in &p.0 {
                if (greedy || *q > 0.0) && (*q as f64) < floor * (1.0 - 1e-5) - 1e-7 {
                    return c.fail("policy-floor", format!("{cfg} step {s}: action {a} gets {q} < {floor}: {:?}", p.0));
                }
            }
            let mut l = gen_label(r, LabelType::CB, n);
            if let Label::CB(x) = &mut l {
                x.cost *= big;
            }
            let q = w.predict_then_learn(&mut f.build(), &l);
            if let Prediction::ActionProbs(q) = q {
                if let Err(e) = distribution(&q.0, n) {
                    return c.fail("not-a-distribution", format!("{cfg} combined step {s}: {e}: {:?}", q.0));
                }
            }
        }
        c.distinct_of(&cfg.to_string());
        c.sample(|| cfg.to_string());
    }
}
fn distribution(p: &[(usize, f32)], n: usize) -> Result<(), String> {
    if p.len() != n {
        return Err(format!("{} entries for {n} actions", p.len()));
    }
    let mut seen = vec![false; n];
    let mut sum = 0f64;
    for (a, q) in p {
        if *a >= n || seen[*a] {
            return Err(format!("action {a} out of range or repeated"));
        }
        seen[*a] = true;
        if !(*q >= 0.0) || *q > 1.0 + 1e-5 {
            return Err(format!("probability {q}"));
        }
        sum += *q as f64;
    }
    if (sum - 1.0).abs() > 1e-4 {
        return Err(format!("sums to {sum}"));
    }
    Ok(())
}
fn policy(r: &mut Rng, wide: bool) -> (Value, f32) {
    let mut cbc = serde_json::Map::new();
    let k = r.below(3);
    if k != 2 && r.pct(50) {
        cbc.insert("cbType".into(), json!(*r.pick(&["ips", "mtr"])));
    }
    if r.pct(30) {
        cbc.insert("regressor".into(), json!({"typename": "Coin", "config": {"alpha": 2.0}}));
    }
    let cb = json!({"typename": "CbAdf", "config": cbc});
    let mut conf = serde_json::Map::new();
    let mut eps = 0.0;
    conf.insert("cbAdf".into(), cb);
    let name = match k {
        0 => {
            eps = 0.05;
            if r.pct(80) {
                eps = *r.pick(&[0.0f32, 0.05, 0.2, 0.5, 1.0]);
                conf.insert("epsilon".into(), json!(eps));
            }
            "CbExploreAdfGreedy"
        }
        1 => {
            if r.pct(80) {
                conf.insert("lambda".into(), json!(if wide { *r.pick(&[0.0, 0.5, 1.0, 10.0, 200.0]) } else { *r.pick(&[0.0, 0.5, 1.0, 3.0, 10.0]) }));
            }
            "CbExploreAdfSoftmax"
        }
        _ => {
            if r.pct(70) {
                conf.insert("gammaScale".into(), json!(*r.pick(&[0.5, 1.0, 10.0, 100.0, 1000.0])));
            }
            if r.pct(60) {
                conf.insert("gammaExponent".into(), json!(*r.pick(&[0.0, 0.25, 0.5, 1.0, 2.0])));
            }
            "CbExploreAdfSquareCb"
        }
    };
    if k > 0 && r.pct(60) {
        eps = *r.pick(&[0.0f32, 0.05, 0.3, 0.8]);
        conf.insert("uniformEpsilon".into(), json!(eps));
    }
    (json!({"typename": name, "config": conf}), eps)
}

pub fn c13(r: &mut Rng, c: &mut Ctx) {
    let mut g = gen_global(r);
    g.interactions.truncate(1);
    let (st, eps) = policy(r, false);
    let cfg = cfg_json(&g, &st);
    let inner_cfg = cfg_json(&g, &st["config"]["cbAdf"]);
    let (mut w, mut inner): (Workspace, Workspace) = match (make(&cfg), make(&inner_cfg)) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return c.fail("valid-config-rejected", format!("{cfg}: {:?} {:?}", x.err(), y.err())),
    };
    let name = st["typename"].as_str().unwrap().to_string();
    let cf = &st["config"];
    let mut events = 0u32;
    let steps = if r.pct(20) { r.range(20, 60) } else { r.steps(1, 14) };
    for s in 0..steps {
        let f = gen_feats(r, true, g.bits, g.seed, &val);
        let n = f.n_actions();
        let Prediction::ActionScores(sc) = inner.predict(&mut f.build()) else { return c.fail("prediction-type", inner_cfg.to_string()) };
        let scores: Vec<f64> = sc.0.iter().map(|x| x.1 as f64).collect();
        if scores.iter().any(|x| !x.is_finite() || x.abs() > 1e6) {
            c.stat("diverged history dropped", 1);
            return;
        }
        let combined = r.pct(40);
        let l = gen_label(r, LabelType::CB, n);
        let p = if combined { w.predict_then_learn(&mut f.build(), &l) } else { w.predict(&mut f.build()) };
        let Prediction::ActionProbs(p) = p else { return c.fail("prediction-type", cfg.to_string()) };
        c.eval(1);
        let mut got = vec![f64::NAN; n];
        for (a, q) in &p.0 {
            if *a < n {
                got[*a] = *q as f64;
            }
        }
        let min = scores.iter().cloned().fold(f64::INFINITY, f64::min);
        let best: Vec<usize> = (0..n).filter(|&i| scores[i] - min <= 1e-6 * (1.0 + min.abs())).collect();
        let mut ok = false;
        let mut wants = vec![];
        let mut zero = false;
        for &b in &best {
            let want: Vec<f64> = match name.as_str() {
                "CbExploreAdfGreedy" => (0..n).map(|i| eps as f64 / n as f64 + if i == b { 1.0 - eps as f64 } else { 0.0 }).collect(),
                "CbExploreAdfSoftmax" => {
                    let la = cf["lambda"].as_f64().unwrap_or(1.0);
                    let e: Vec<f64> = scores.iter().map(|x| (-la * (x - min)).exp()).collect();
                    let t: f64 = e.iter().sum();
                    let d: Vec<f64> = e.iter().map(|x| x / t).collect();
                    zero = zero || d.iter().any(|x| *x < 1e-36);
                    waterfill(&d, eps as f64, false)
                }
                _ => {
                    let gamma = cf["gammaScale"].as_f64().unwrap_or(10.0) * (events as f64).powf(cf["gammaExponent"].as_f64().unwrap_or(0.5));
                    let mut d: Vec<f64> = (0..n).map(|i| if i == b { 0.0 } else { 1.0 / (n as f64 + gamma * (scores[i] - scores[b])) }).collect();
                    d[b] = 1.0 - d.iter().sum::<f64>();
                    waterfill(&d, eps as f64, false)
                }
            };
            if (0..n).all(|i| (want[i] - got[i]).abs() <= 2e-4) {
                ok = true;
            }
            wants.push(want);
        }
        if !ok && zero && eps > 0.0 {
            c.stat("underflowing softmax with mixing not compared", 1);
        } else if !ok {
            return c.fail("probabilities", format!("{cfg} after {events} events, scores {scores:?}: got {got:?}, algorithm gives {:?}", wants[0]));
        }
        if s % 2 == 0 && scores.iter().any(|x| (x - scores[0]).abs() > 1e-3) {
            c.stat("distinct scores", 1);
        }
        if combined || r.pct(70) {
            if !combined {
                w.learn(&mut f.build(), &l);
            }
            let mut l2 = l;
            if name == "CbExploreAdfSquareCb" {
                if let Label::CB(x) = &mut l2 {
                    x.probability = 1.0;
                }
            }
            inner.learn(&mut f.build(), &l2);
            events += 1;
        }
    }
    c.stat(&name, 1);
    c.distinct_of(&cfg.to_string());
    c.sample(|| format!("{cfg} {steps} steps"));
}
