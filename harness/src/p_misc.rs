//! Configuration, metrics, losses: C19 C21 C25.
use crate::common::*;
use crate::p_model::any_stack;
use reductionml_core::loss_function::{LossFunction, LossFunctionImpl};
use reductionml_core::metrics::{get_metric, MetricValue};
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::*;
use serde_json::{json, Map, Value};

pub const TYPES: &[&str] = &["Coin", "Binary", "CbAdf", "CbExploreAdfGreedy", "CbExploreAdfSoftmax", "CbExploreAdfSquareCb", "Debug", "ElementwiseInteraction"];
pub fn child_key(t: &str) -> Option<&'static str> {
    match t {
        "Debug" => Some("next"),
        "Binary" | "CbAdf" | "ElementwiseInteraction" => Some("regressor"),
        "CbExploreAdfGreedy" | "CbExploreAdfSoftmax" | "CbExploreAdfSquareCb" => Some("cbAdf"),
        _ => None,
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum T {
    // label, features, prediction
    Simple,
    Binary,
    Scores,
    Probs,
}
/// What a chain of reduction names (outermost first, Coin last) offers, if it is a valid stack.
fn offers(chain: &[&str]) -> Option<T> {
    let (t, rest) = (chain[0], &chain[1..]);
    if t == "Coin" {
        return Some(T::Simple);
    }
    let below = offers(rest)?;
    match (t, below) {
        ("Debug", b) => Some(b),
        ("Binary", T::Simple) => Some(T::Binary),
        ("CbAdf", T::Simple) => Some(T::Scores),
        ("ElementwiseInteraction", T::Simple | T::Binary) => Some(below),
        ("CbExploreAdfGreedy" | "CbExploreAdfSoftmax" | "CbExploreAdfSquareCb", T::Scores) => Some(T::Probs),
        _ => None,
    }
}
fn chain_json(chain: &[&str]) -> Value {
    let mut v = Value::Null;
    for t in chain.iter().rev() {
        let mut o = Map::new();
        o.insert("typename".into(), json!(t));
        if let Some(k) = child_key(t) {
            let mut c = Map::new();
            c.insert(k.into(), v);
            o.insert("config".into(), Value::Object(c));
        }
        v = Value::Object(o);
    }
    v
}
fn coin_default() -> Value {
    json!({"typename": "Coin", "config": {"alpha": 4.0, "beta": 1.0, "l1Lambda": 0.0, "l2Lambda": 0.0, "lossFunction": {"Squared": {}}, "linkFunction": "Identity"}})
}
fn cb_default() -> Value {
    json!({"typename": "CbAdf", "config": {"cbType": "mtr", "regressor": coin_default()}})
}
/// The documented defaults of a reduction.
pub fn defaults(t: &str) -> Value {
    match t {
        "Coin" => coin_default()["config"].clone(),
        "Binary" => json!({"regressor": coin_default()}),
        "CbAdf" => cb_default()["config"].clone(),
        "CbExploreAdfGreedy" => json!({"epsilon": 0.05, "cbAdf": cb_default()}),
        "CbExploreAdfSoftmax" => json!({"lambda": 1.0, "uniformEpsilon": 0.0, "cbAdf": cb_default()}),
        "CbExploreAdfSquareCb" => json!({"uniformEpsilon": 0.0, "gammaScale": 10.0, "gammaExponent": 0.5, "cbAdf": cb_default()}),
        "ElementwiseInteraction" => json!({"regressor": coin_default(), "one": "Default", "two": "Default", "keepOriginalFeatures": false}),
        _ => json!({"id": "", "prediction": false, "label": false, "features": false}),
    }
}
/// Every omitted setting written out.
fn explicit(s: &Value) -> Value {
    let t = s["typename"].as_str().unwrap();
    let mut c = s.get("config").cloned().unwrap_or(json!({}));
    if c.is_null() {
        c = json!({});
    }
    let d = defaults(t);
    for (k, v) in d.as_object().unwrap() {
        if c.get(k).is_none() {
            c[k] = v.clone();
        }
    }
    if let Some(k) = child_key(t) {
        c[k] = explicit(&c[k].clone());
    }
    json!({"typename": t, "config": c})
}
/// Settings equal to their default left out at random.
fn sparse(r: &mut Rng, s: &Value) -> Value {
    let t = s["typename"].as_str().unwrap().to_string();
    let d = defaults(&t);
    let mut c = s["config"].as_object().cloned().unwrap_or_default();
    if let Some(k) = child_key(&t) {
        if let Some(ch) = c.get(k).cloned() {
            let same = ch == d[k];
            if same && t != "Debug" && r.pct(60) {
                c.remove(k);
            } else {
                c.insert(k.into(), sparse(r, &ch));
            }
        }
    }
    for k in c.keys().cloned().collect::<Vec<_>>() {
        if Some(k.as_str()) != child_key(&t) && d.get(&k) == c.get(&k) && r.pct(70) {
            c.remove(&k);
        }
    }
    if c.is_empty() && t != "Debug" && r.pct(60) {
        return if r.pct(80) { json!({"typename": t}) } else { json!({"typename": t, "config": null}) };
    }
    json!({"typename": t, "config": c})
}
fn same_model(r: &mut Rng, c: &mut Ctx, what: &str, bits: u8, seed: u32, mut a: Workspace, mut b: Workspace, desc: &str) -> bool {
    if label_type(&a) != label_type(&b) || is_cb(&a) != is_cb(&b) {
        c.fail(what, format!("{desc}: different types"));
        return false;
    }
    let (g1, g2) = (a.global_config(), b.global_config());
    if g1.num_bits() != g2.num_bits() || g1.hash_seed() != g2.hash_seed() || g1.constant_feature_enabled() != g2.constant_feature_enabled() || g1.interactions().len() != g2.interactions().len() {
        c.fail(what, format!("{desc}: different global settings"));
        return false;
    }
    for s in 0..5 {
        let f = gen_feats(r, is_cb(&a), bits, seed, &val);
        let l = gen_label(r, label_type(&a), f.n_actions());
        let (p, q) = (pbits(&a.predict_then_learn(&mut f.build(), &l)), pbits(&b.predict_then_learn(&mut f.build(), &l)));
        c.eval(1);
        if p != q {
            c.fail(what, format!("{desc}: step {s}: {p} vs {q}"));
            return false;
        }
    }
    let f = gen_feats(r, is_cb(&a), bits, seed, &val);
    let (p, q) = (pbits(&a.predict(&mut f.build())), pbits(&b.predict(&mut f.build())));
    if p != q {
        c.fail(what, format!("{desc}: after training: {p} vs {q}"));
        return false;
    }
    true
}

/// Paths of all objects of a configuration whose keys are settings (not the loss tagging object).
fn objects(v: &Value, path: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            out.push(path.clone());
            for (k, x) in m {
                objects(x, format!("{path}/{k}"), out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                objects(x, format!("{path}/{i}"), out);
            }
        }
        _ => (),
    }
}
fn leaves(v: &Value, path: String, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, format!("{path}/{k}"), out)),
        Value::Array(a) => {
            out.push(path.clone());
            a.iter().enumerate().for_each(|(i, x)| leaves(x, format!("{path}/{i}"), out))
        }
        _ => out.push(path),
    }
}
pub fn misspell(r: &mut Rng, k: &str) -> String {
    let mut c: Vec<char> = k.chars().collect();
    match r.below(5) {
        0 => {
            c.remove(r.below(c.len()));
        }
        1 => {
            let i = r.below(c.len());
            c.insert(i, c[i]);
        }
        2 => {
            // snake case
            return if k.chars().any(|x| x.is_uppercase()) {
                k.chars().flat_map(|x| if x.is_uppercase() { vec!['_', x.to_ascii_lowercase()] } else { vec![x] }).collect()
            } else {
                k.to_uppercase()
            };
        }
        3 => c.push('s'),
        _ => {
            let i = r.below(c.len());
            c[i] = 'z';
        }
    }
    c.into_iter().collect()
}
fn builds(cfg: &Value) -> Result<Result<Workspace, String>, (String, String)> {
    guard(|| make(cfg))
}

pub fn c19(r: &mut Rng, c: &mut Ctx) {
    match r.below(10) {
        0..=2 => {
            // any chain of reductions
            let n = if r.pct(70) { r.range(1, 4) } else { r.range(4, 7) };
            let mut ch: Vec<&str> = (0..n).map(|_| TYPES[r.range(1, 7)]).collect();
            if r.pct(60) {
                // plausible order, so that long valid stacks occur
                ch = vec![];
                if r.pct(60) {
                    let x = TYPES[r.range(3, 5)];
                    ch.push(x);
                }
                if r.pct(80) {
                    ch.push(if r.pct(70) { "CbAdf" } else { "Binary" });
                }
                if r.pct(40) {
                    ch.push("ElementwiseInteraction");
                }
                let mut k = 0;
                while k <= ch.len() {
                    if r.pct(20) {
                        ch.insert(k, "Debug");
                        k += 1;
                    }
                    k += 1;
                }
                if ch.len() > 1 && r.pct(30) {
                    let (a, b) = (r.below(ch.len()), r.below(ch.len()));
                    ch.swap(a, b);
                }
            }
            ch.push("Coin");
            let ok = offers(&ch);
            let cfg = json!({"globalConfig": {"numBits": 6}, "entryReduction": chain_json(&ch)});
            c.eval(1);
            c.distinct_of(&format!("{ch:?}"));
            c.sample(|| format!("{ch:?} valid: {ok:?}"));
            match (builds(&cfg), ok) {
                (Err((s, m)), _) => return c.fail(&s, format!("{cfg}: {m}")),
                (Ok(Ok(mut w)), Some(t)) => {
                    c.stat("valid stacks", 1);
                    let (cb, lt) = (matches!(t, T::Scores | T::Probs), if t == T::Simple { LabelType::Simple } else if t == T::Binary { LabelType::Binary } else { LabelType::CB });
                    if is_cb(&w) != cb || label_type(&w) != lt {
                        return c.fail("stack-types", format!("{ch:?}"));
                    }
                    let res = guard(|| {
                        for _ in 0..3 {
                            let f = gen_feats(r, cb, 6, 0, &val);
                            let l = gen_label(r, lt, f.n_actions());
                            let p = w.predict_then_learn(&mut f.build(), &l);
                            let right = match t {
                                T::Simple => matches!(p, Prediction::Scalar(_)),
                                T::Binary => matches!(p, Prediction::Binary(_)),
                                T::Scores => matches!(p, Prediction::ActionScores(_)),
                                T::Probs => matches!(p, Prediction::ActionProbs(_)),
                            };
                            if !right {
                                return Err(format!("{p:?}"));
                            }
                        }
                        Ok(())
                    });
                    match res {
                        Err((s, m)) => c.fail(&s, format!("valid stack {ch:?}: {m}")),
                        Ok(Err(p)) => c.fail("stack-prediction", format!("{ch:?} predicts {p}")),
                        _ => (),
                    }
                }
                (Ok(Err(_)), None) => c.stat("mismatched stacks", 1),
                (Ok(Ok(_)), None) => c.fail("mismatched-stack-accepted", format!("{ch:?}")),
                (Ok(Err(e)), Some(_)) => c.fail("valid-stack-rejected", format!("{ch:?}: {e}")),
            }
        }
        3..=5 => {
            // defaults, and YAML
            let g = gen_global(r);
            let (_, st) = any_stack(r, true);
            let full = explicit(&st);
            let few = sparse(r, &full);
            let mut gj = g.json();
            let mut gs = gj.as_object().unwrap().clone();
            if g.seed == 0 {
                gs.remove("hashSeed");
            }
            if g.constant {
                gs.remove("constantFeatureEnabled");
            }
            if g.interactions.is_empty() {
                gs.remove("interactions");
            }
            if r.pct(5) {
                gj["numBits"] = json!(18);
                gs.remove("numBits");
            }
            let (ca, mut cb) = (json!({"globalConfig": gj, "entryReduction": full}), json!({"globalConfig": gs, "entryReduction": few}));
            if r.pct(20) {
                cb["$schema"] = json!("https://example.com/schema.json");
            }
            c.distinct_of(&cb.to_string());
            c.sample(|| format!("{cb} vs {ca}"));
            let a = match builds(&ca) {
                Ok(Ok(a)) => a,
                Ok(Err(e)) => return c.fail("valid-config-rejected", format!("{ca}: {e}")),
                Err((s, m)) => return c.fail(&s, format!("{ca}: {m}")),
            };
            let (b, how) = match r.below(4) {
                0 => {
                    let y = serde_yaml::to_string(&cb).unwrap();
                    (Configuration::from_yaml_str(&y).map_err(|e| e.to_string()).and_then(|c| Workspace::new(c).map_err(|e| e.to_string())), "block YAML")
                }
                1 => (Configuration::from_yaml_str(&cb.to_string()).map_err(|e| e.to_string()).and_then(|c| Workspace::new(c).map_err(|e| e.to_string())), "flow YAML"),
                _ => (make(&cb), "JSON"),
            };
            match b {
                Ok(b) => {
                    c.stat(how, 1);
                    same_model(r, c, "defaults-differ", g.bits, g.seed, a, b, &format!("{how} {cb} vs {ca}"));
                }
                Err(e) => c.fail("valid-config-rejected", format!("{how} {cb}: {e}")),
            }
        }
        _ => {
            // one thing wrong
            let g = gen_global(r);
            let (_, st) = any_stack(r, true);
            let mut st = if r.pct(60) { explicit(&st) } else { st };
            if r.pct(10) {
                if let Some(l) = st.pointer_mut("/config/lossFunction") {
                    *l = json!({"Logistic": {"min_label": 0.0, "max_label": 1.0}});
                }
            }
            let mut cfg = json!({"globalConfig": g.json(), "entryReduction": st});
            let mut objs = vec![];
            objects(&cfg, String::new(), &mut objs);
            let what;
            match r.below(6) {
                0 => {
                    let p = r.pick(&objs).clone();
                    let k = *r.pick(&["foo", "Alpha", "learningRate", "configs", "type", "epsilonn", "", "_schema"]);
                    cfg.pointer_mut(&p).unwrap()[k] = json!(1);
                    what = format!("unknown setting {p}/{k}");
                }
                1 => {
                    // misspell one existing key
                    let with: Vec<&String> = objs.iter().filter(|p| !cfg.pointer(p).unwrap().as_object().unwrap().is_empty()).collect();
                    let p = r.pick(&with).to_string();
                    let o = cfg.pointer_mut(&p).unwrap().as_object_mut().unwrap();
                    let ks: Vec<String> = o.keys().cloned().collect();
                    let k = r.pick(&ks).clone();
                    let bad = misspell(r, &k);
                    if o.contains_key(&bad) || ["typename", "config", "alpha", "beta", "id", "one", "two", "label"].contains(&bad.as_str()) {
                        return;
                    }
                    let v = o.remove(&k).unwrap();
                    o.insert(bad.clone(), v);
                    what = format!("{p}/{k} misspelled {bad}");
                }
                2 => {
                    // wrong type
                    let mut ls = vec![];
                    leaves(&cfg, String::new(), &mut ls);
                    let p = r.pick(&ls).clone();
                    let v = cfg.pointer_mut(&p).unwrap();
                    let bad = match v {
                        Value::Number(_) => r.pick(&[json!("1"), json!(true), json!([1]), json!({"a": 1}), json!(null)]).clone(),
                        Value::Bool(_) => r.pick(&[json!("true"), json!(1), json!([true]), json!(null)]).clone(),
                        Value::String(_) => r.pick(&[json!(1), json!(false), json!(["a"]), json!(null)]).clone(),
                        Value::Array(_) => r.pick(&[json!("a"), json!(1), json!({"Name": "a"}), json!(null)]).clone(),
                        _ => return,
                    };
                    *v = bad.clone();
                    what = format!("{p} of wrong type {bad}");
                }
                3 => {
                    let names: Vec<String> = objs.iter().filter(|p| cfg.pointer(p).unwrap().get("typename").is_some()).cloned().collect();
                    let p = r.pick(&names).clone();
                    let t = *r.pick(&["coin", "COIN", "Foo", "", "Cb_Adf", "CBAdf", "Coin ", "ElementWiseInteraction", "CbExploreAdfSquareCB", "Regressor"]);
                    cfg.pointer_mut(&p).unwrap()["typename"] = json!(t);
                    what = format!("{p} of unknown reduction {t:?}");
                }
                4 => {
                    let names: Vec<String> = objs.iter().filter(|p| cfg.pointer(p).unwrap().get("typename").is_some()).cloned().collect();
                    let p = r.pick(&names).clone();
                    let o = cfg.pointer_mut(&p).unwrap();
                    let bad = match o["typename"].as_str().unwrap() {
                        "CbExploreAdfGreedy" => ("epsilon", r.pick(&[json!(-0.1), json!(1.5), json!(-1e-3), json!(2)]).clone()),
                        "CbExploreAdfSoftmax" | "CbExploreAdfSquareCb" => ("uniformEpsilon", r.pick(&[json!(-0.1), json!(1.01), json!(7)]).clone()),
                        "CbAdf" => ("cbType", r.pick(&[json!("dr"), json!("MTR"), json!("")]).clone()),
                        "Coin" => {
                            if r.pct(50) {
                                ("linkFunction", r.pick(&[json!("Probit"), json!("identity")]).clone())
                            } else {
                                ("lossFunction", r.pick(&[json!({"Hinge": {}}), json!({}), json!("squared"), json!({"Squared": {}, "Logistic": {}})]).clone())
                            }
                        }
                        "Debug" => ("indent", json!(-1)),
                        "ElementwiseInteraction" => ("one", r.pick(&[json!("default"), json!({"name": "a"}), json!({"Name": 1})]).clone()),
                        _ => return,
                    };
                    if o.get("config").map(|c| c.is_object()) != Some(true) {
                        o["config"] = json!({});
                    }
                    o["config"][bad.0] = bad.1.clone();
                    what = format!("{p}/config/{} = {}", bad.0, bad.1);
                }
                _ => {
                    let (k, v) = match r.below(3) {
                        0 => ("numBits", json!(*r.pick(&[32, 33, 40, 63, 64, 255, 256, -1, 100000]))),
                        1 => ("hashSeed", r.pick(&[json!(-1), json!(4294967296u64), json!(1.5)]).clone()),
                        _ => ("interactions", r.pick(&[json!([["Default"]]), json!([[]]), json!([["Default", "Default", "Default", "Default"]]), json!([["Default", "Other"]]), json!([[{"Name": "a"}, {"Name": "b"}], [{"Name": "a"}]]), json!(["Default", "Default"])]).clone()),
                    };
                    cfg["globalConfig"][k] = v.clone();
                    what = format!("globalConfig {k} = {v}");
                }
            }
            c.eval(1);
            c.distinct_of(&cfg.to_string());
            c.sample(|| format!("{what}: {cfg}"));
            match builds(&cfg) {
                Ok(Ok(_)) => c.fail("bad-config-accepted", format!("{what}: {cfg}")),
                Ok(Err(_)) => c.stat("bad configurations rejected", 1),
                Err((s, m)) => c.fail(&s, format!("{what}: {cfg}: {m}")),
            }
        }
    }
}

// ---------------------------------------------------------------- metrics
fn mval(m: &MetricValue) -> f64 {
    match m {
        MetricValue::Float(f) => *f as f64,
        MetricValue::Int(i) => *i as f64,
        MetricValue::Bool(b) => *b as u8 as f64,
        MetricValue::String(s) => s.parse().unwrap_or(f64::NAN),
    }
}
pub fn count(f: &Feats) -> u64 {
    let n = |t: &Terms| t.values().map(|v| v.len()).sum::<usize>();
    match f {
        Feats::Simple(t) => n(t) as u64,
        Feats::Cb(s, a) => (s.as_ref().map(n).unwrap_or(0) + a.iter().map(n).sum::<usize>()) as u64,
    }
}
pub fn c21(r: &mut Rng, c: &mut Ctx) {
    let cb = if c.case < 2 { c.case == 1 } else { r.pct(50) };
    let n = if r.pct(5) { r.range(500, 3000) } else { r.range(1, 60) };
    let main = if cb { "ips" } else { "mse" };
    let mut ms: Vec<_> = ["example_number", main, "parsed_features"].iter().map(|m| get_metric(m).expect("documented metric")).collect();
    for m in ["", "MSE", "foo", "mse "] {
        if get_metric(m).is_some() {
            return c.fail("unknown-metric-accepted", m);
        }
    }
    let (mut sum, mut mag, mut feats) = (0f64, 0f64, 0u64);
    let scale = *r.pick(&[1.0f64, 1.0, 100.0, 1e-3]);
    for i in 0..n {
        let f = gen_feats(r, cb, 10, 0, &val);
        feats += count(&f);
        let (l, p, x) = if cb {
            let k = f.n_actions();
            let mut w: Vec<f64> = (0..k).map(|_| r.unit() + 0.01).collect();
            let s: f64 = w.iter().sum();
            w.iter_mut().for_each(|x| *x /= s);
            // listed in any order
            let mut order: Vec<usize> = (0..k).collect();
            for j in (1..k).rev() {
                order.swap(j, r.below(j + 1));
            }
            let pr: Vec<(usize, f32)> = order.iter().map(|&a| (a, w[a] as f32)).collect();
            let (a, cost, p) = (r.below(k), r.uni(-scale, scale), r.uni(0.05, 1.0));
            let x = -(cost as f64) * (w[a] as f32) as f64 / p as f64;
            (Label::CB(CBLabel::new(a, cost, p)), Prediction::ActionProbs(ActionProbsPrediction(pr)), x)
        } else {
            let (y, w, q, raw) = (r.uni(-scale, scale), r.uni(0.1, 3.0), r.uni(-scale, scale), r.uni(-scale, scale));
            let x = (y as f64 - q as f64).powi(2);
            (Label::Simple(SimpleLabel::new(y, w)), Prediction::Scalar(ScalarPrediction { prediction: q, raw_prediction: raw }), x)
        };
        sum += x;
        mag += x.abs();
        if let (Feats::Cb(s, _), true) = (&f, r.pct(5)) {
            // an example to which no action is left
            let (none, mut m) = (Feats::Cb(s.clone(), vec![]), get_metric("parsed_features").unwrap());
            m.add_point(&none.build(), &l, &p);
            let got = mval(&m.get_value());
            if got != count(&none) as f64 {
                return c.fail("features-of-no-actions", format!("{none:?}: {got}, not {}", count(&none)));
            }
        }
        let mut ff = f.build();
        let by_ref = r.pct(50);
        for m in ms.iter_mut() {
            if by_ref {
                match &mut ff {
                    Features::SparseSimple(x) => m.add_point(&Features::SparseSimpleRef(x), &l, &p),
                    Features::SparseCBAdf(x) => m.add_point(&Features::SparseCBAdfRef(x), &l, &p),
                    _ => unreachable!(),
                }
            } else {
                m.add_point(&ff, &l, &p);
            }
        }
        if i % 7 == 0 || i + 1 == n {
            c.eval(1);
            let v: Vec<f64> = ms.iter().map(|m| mval(&m.get_value())).collect();
            let want = sum / (i + 1) as f64;
            // every term in single precision, and the result
            let tol = 2e-6 * mag / (i + 1) as f64 + 1e-12;
            if v[0] != i as f64 {
                return c.fail("example-number", format!("{} after {} examples", v[0], i + 1));
            }
            if (v[1] - want).abs() > tol {
                return c.fail(main, format!("{} after {} examples, definition gives {want}", v[1], i + 1));
            }
            if v[2] != feats as f64 {
                return c.fail("parsed-features", format!("{} after {} examples, {feats} were there", v[2], i + 1));
            }
        }
    }
    if c.case < 2 {
        // A long run of the same point: the value of one point, for ever.
        let many = 30_000_000u64;
        let (mut m, f) = (get_metric(main).expect("documented metric"), build(&Terms::new()).into());
        let (l, p, want) = match c.case {
            _ if !cb => (Label::Simple(SimpleLabel::new(1.0, 1.0)), Prediction::Scalar(ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 }), 1.0),
            _ => (Label::CB(CBLabel::new(0, -0.5, 0.5)), Prediction::ActionProbs(ActionProbsPrediction(vec![(0, 1.0)])), 1.0),
        };
        (0..many).for_each(|_| m.add_point(&f, &l, &p));
        c.eval(1);
        c.stat("points of long runs", many);
        let got = mval(&m.get_value());
        if (got - want).abs() > 1e-5 {
            return c.fail("long-run", format!("{main}: {got} after {many} points that are {want} each"));
        }
    }
    if (c.case == 2 || c.case == 3) && !cfg!(debug_assertions) {
        // Counts that do not fit into 32 bits with a sign
        let name = ["example_number", "parsed_features"][c.case as usize - 2];
        let (many, each) = if c.case == 2 { (2_200_000_000u64, 0) } else { (2_200, 1_000_000) };
        let (mut m, f) = (get_metric(name).expect("documented metric"), build(&Terms::from([(Key::Named(5), vec![(1, 1.0); each])])).into());
        let (l, p) = (Label::Simple(SimpleLabel::new(1.0, 1.0)), Prediction::Scalar(ScalarPrediction { prediction: 0.0, raw_prediction: 0.0 }));
        (0..many).for_each(|_| m.add_point(&f, &l, &p));
        c.eval(1);
        let (got, want) = (mval(&m.get_value()), if c.case == 2 { many - 1 } else { many * each as u64 });
        if got != want as f64 {
            return c.fail("long-run", format!("{name}: {got} after {many} points, {want} expected"));
        }
    }
    c.stat(main, 1);
    c.stat("points", n as u64);
    c.distinct_of(&format!("{n} {sum} {feats}"));
    c.sample(|| format!("{main} over {n} examples"));
}

// ---------------------------------------------------------------- losses
fn simpson(f: &dyn Fn(f32) -> f32, a: f32, b: f32) -> f64 {
    let n = 64;
    let (a, b) = (a as f64, b as f64);
    let h = (b - a) / n as f64;
    let mut s = 0.0;
    for i in 0..=n {
        let w = if i == 0 || i == n { 1.0 } else if i % 2 == 1 { 4.0 } else { 2.0 };
        s += w * f((a + i as f64 * h) as f32) as f64;
    }
    s * h / 3.0
}
pub fn c25(r: &mut Rng, c: &mut Ctx) {
    let logistic = r.pct(50);
    let (lo, hi, loss): (f32, f32, LossFunction) = if logistic {
        let (lo, hi, j) = match r.below(4) {
            0 => (-1.0, 1.0, json!({"Logistic": {}})),
            1 => (0.0, 1.0, json!({"Logistic": {"min_label": 0.0, "max_label": 1.0}})),
            2 => (-3.0, 5.0, json!({"Logistic": {"min_label": -3.0, "max_label": 5.0}})),
            _ => (-1.0, 1.0, json!({"Logistic": {"min_label": -1.0, "max_label": 1.0}})),
        };
        (lo, hi, serde_json::from_value(j).unwrap())
    } else {
        let lo = r.uni(-5.0, 1.0);
        (lo, lo + r.uni(0.01, 6.0), serde_json::from_value(json!({"Squared": {}})).unwrap())
    };
    for _ in 0..8 {
        let y = match r.below(4) {
            0 => lo,
            1 => hi,
            _ => r.uni(lo as f64, hi as f64).clamp(lo, hi),
        };
        let span = (hi - lo) as f64;
        let p = match r.below(6) {
            0 => y,
            1 if !logistic => r.uni(lo as f64 - 3.0, lo as f64),
            2 if !logistic => r.uni(hi as f64, hi as f64 + 3.0),
            _ if logistic => r.uni(-8.0, 8.0),
            _ => r.uni(lo as f64, lo as f64 + span).clamp(lo, hi),
        };
        let d = |x: f32| loss.first_derivative(lo, hi, x, y);
        let d2 = |x: f32| loss.second_derivative(lo, hi, x, y);
        let l = |x: f32| loss.get_loss(lo, hi, x, y);
        c.eval(1);
        let what = format!("{} min {lo} max {hi} prediction {p} label {y}", if logistic { "logistic" } else { "squared" });
        c.distinct_of(&what);
        c.sample(|| what.clone());
        // the loss has a derivative everywhere, so it makes no jump where the pieces meet
        if !logistic {
            for (b, o) in [(lo, lo - 1e-6 * (1.0 + lo.abs())), (hi, hi + 1e-6 * (1.0 + hi.abs()))] {
                if (l(b) - l(o)).abs() > 1e-4 * (1.0 + l(b).abs()) {
                    return c.fail("loss-jumps", format!("{what}: {} at {b}, {} at {o}", l(b), l(o)));
                }
            }
        }
        // finite interval inside one smooth piece
        let mut q = p + r.uni(0.02, 0.5);
        if !logistic {
            for b in [lo, hi] {
                if p < b && q > b {
                    q = b;
                }
            }
        }
        if q > p + 1e-4 {
            let (i1, i2) = (simpson(&d, p, q), simpson(&d2, p, q));
            let (dl, dd) = (l(q) as f64 - l(p) as f64, d(q) as f64 - d(p) as f64);
            let tol = 2e-5 * (1.0 + (l(p).abs() + l(q).abs()) as f64);
            if (i1 - dl).abs() > tol {
                return c.fail("first-derivative", format!("{what}: the loss grows by {dl} up to {q}, its derivative integrates to {i1}"));
            }
            // the pieces' end points belong to the inside
            let edge = if logistic { 0.0 } else { 2.0 * (q - p) as f64 / 64.0 };
            let tol2 = 2e-5 * (1.0 + (d(p).abs() + d(q).abs()) as f64) + edge;
            if (i2 - dd).abs() > tol2 {
                return c.fail("second-derivative", format!("{what}: the derivative grows by {dd} up to {q}, the second derivative integrates to {i2}"));
            }
            if l(p) < -1e-6 || l(p).is_nan() {
                return c.fail("negative-loss", what);
            }
        }
        if logistic || (p >= lo && p <= hi) {
            let (g, dd) = (loss.get_square_grad(p, y), d(p));
            if !close(g, dd * dd, 1e-5, 1e-10) {
                return c.fail("square-gradient", format!("{what}: {g}, derivative {dd}"));
            }
            let us = 10f64.powf(-6.0 + 7.0 * r.unit()) as f32;
            let u = loss.get_unsafe_update(p, y, us);
            if !close(u, -us * dd, 1e-4, 1e-6 * us as f64) {
                return c.fail("simple-update", format!("{what}: scale {us}: {u}, derivative {dd}"));
            }
            if logistic && y != lo && y != hi {
                continue;
            }
            c.stat("invariant updates", 1);
            // invariant update, measured as the change of prediction
            let ppu = 10f64.powf(-2.0 + 3.0 * r.unit()) as f32;
            let us = (10f64.powf(-7.0 + 8.5 * r.unit()) / ppu as f64) as f32;
            let step = us * ppu;
            let upd = |x: f32, us: f32| loss.get_update(x, y, us, ppu) * ppu;
            let m = upd(p, us);
            let simple = loss.get_unsafe_update(p, y, us) * ppu;
            let tol = if logistic { 3e-4 } else { 2e-6 * (1.0 + p.abs() + y.abs()) };
            let what = format!("{what} scale {us} per-update {ppu} (step {step}): moves by {m}, simple update by {simple}");
            if !m.is_finite() {
                return c.fail("invariant-update", what);
            }
            let dir = if logistic { if y == hi { 1.0 } else { -1.0 } } else { (y - p).signum() };
            if m * dir < -tol {
                return c.fail("update-sign", what);
            }
            if !logistic && (m * dir) > (y - p).abs() + tol {
                return c.fail("update-overshoots", what);
            }
            if m * dir > simple * dir * 1.0001 + tol {
                return c.fail("update-larger-than-simple", what);
            }
            if step < 1e-2 {
                c.stat("small steps", 1);
                let rel = 3.0 * step + 1e-3;
                if (m - simple).abs() > rel * simple.abs() + tol {
                    return c.fail("small-step", what);
                }
            }
            // two half steps are one step
            let half = upd(p, us / 2.0);
            let both = half + upd(p + half, us / 2.0);
            if (both - m).abs() > 4.0 * tol + 1e-4 * m.abs() {
                return c.fail("update-not-invariant", format!("{what}; two half steps move by {both}"));
            }
        }
    }
    c.stat(if logistic { "logistic" } else { "squared" }, 1);
}
