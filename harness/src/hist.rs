//! `vmon hist --seed S --count K --file F [--first N]`: histories of calls with what the core library makes of them (every example in
//! a container of its own). drivers/play.py repeats them through the Python package. One history per line: {"ops": [...]}.
use crate::common::*;
use crate::gen::tame_ex;
use crate::p_parse::*;
use reductionml_core::workspace::Workspace;
use reductionml_core::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Exact on both sides; JSON has no infinities.
fn x(v: f32) -> Value {
    if v.is_finite() {
        json!(v as f64)
    } else {
        json!(format!("{v}"))
    }
}
fn pred(p: &Prediction) -> Value {
    match p {
        Prediction::Scalar(s) => json!(["ScalarPred", x(s.prediction), x(s.raw_prediction)]),
        Prediction::ActionScores(v) => json!(["ActionScoresPred", v.0.iter().map(|(a, s)| json!([a, x(*s)])).collect::<Vec<_>>()]),
        Prediction::ActionProbs(v) => json!(["ActionProbsPred", v.0.iter().map(|(a, s)| json!([a, x(*s)])).collect::<Vec<_>>()]),
        _ => json!(["other"]),
    }
}
fn label(l: &Label) -> Value {
    match l {
        Label::Simple(s) => json!(["SimpleLabel", x(s.value()), x(s.weight())]),
        Label::CB(c) => json!(["CbLabel", c.action(), x(c.cost()), x(c.probability())]),
        _ => json!(["other"]),
    }
}
fn types(w: &Workspace) -> Value {
    let t = w.get_entry_reduction().types();
    json!([
        format!("{:?}", t.input_label_type()),
        t.output_label_type().map(|v| format!("{v:?}")),
        t.input_prediction_type().map(|v| format!("{v:?}")),
        format!("{:?}", t.output_prediction_type()),
        format!("{:?}", t.input_features_type()).replace("SparseCBAdf", "SparseCbAdf"),
        t.output_features_type().map(|v| format!("{v:?}").replace("SparseCBAdf", "SparseCbAdf"))
    ])
}

struct W {
    cfg: Value,
    g: Global,
    cb: bool,
    ws: Workspace,
}
struct X {
    feats: Features<'static>,
    label: Option<Label>,
    actions: usize,
    /// Which settings of a parser it needs.
    key: String,
    exact: bool,
}

fn history(r: &mut Rng, len: usize) -> Vec<Value> {
    let mut ops = vec![];
    let (mut ws, mut xs): (BTreeMap<usize, W>, BTreeMap<usize, X>) = Default::default();
    let mut next = 0;
    let shared = gen_global(r);
    let dicts = r.pct(25);
    for n in 0..r.range(1, 3) {
        let g = if r.pct(60) { shared.clone() } else { gen_global(r) };
        let kind = *r.pick(&[Kind::Scalar, Kind::Scalar, Kind::Probs, Kind::Probs, Kind::Scores]);
        let cfg = cfg_json(&g, &crate::p_model::stack_of(r, kind));
        let w = make(&cfg).expect("valid configuration");
        ops.push(json!({"o": "new", "w": n, "cfg": cfg, "is": types(&w)}));
        ws.insert(n, W { cfg, g, cb: matches!(kind, Kind::Scores | Kind::Probs), ws: w });
    }
    while ops.len() < len {
        let wi = r.below(ws.len());
        let w = ws.get_mut(&wi).unwrap();
        let key = format!("{} {}", w.cb, w.g.json());
        // In a history with examples given as dictionaries the order of summation is not that of the text.
        let mine: Vec<usize> = xs.iter().filter(|(_, v)| v.key == key && v.exact != dicts).map(|(k, _)| *k).collect();
        match r.below(100) {
            0..=34 => {
                let e = tame_ex(r, w.cb, if w.g.interactions.is_empty() { 1000 } else { 8 });
                let f = *r.pick(if w.cb { &[Fmt::Vw, Fmt::Json, Fmt::Ds][..] } else { &[Fmt::Vw, Fmt::Json][..] });
                let name = match f {
                    Fmt::Vw => "VwText",
                    Fmt::Json => "Json",
                    _ => "DsJson",
                };
                let dict = dicts && !matches!(f, Fmt::Vw);
                let mut e = e;
                if r.pct(15) {
                    e.label = None;
                }
                let mut text = render(r, f, &e, true);
                if r.pct(8) && !dict {
                    text = mutate(r, &text);
                }
                let sorted = if dict {
                    match serde_json::from_str::<Value>(&text) {
                        Ok(v) => v.to_string(),
                        Err(_) => continue,
                    }
                } else {
                    text.clone()
                };
                let got = guard(|| AnyParser::new(f, w.cb, w.g.seed, w.g.bits, pool()).parse(&sorted));
                let mut op = json!({"o": "parse", "w": wi, "x": next, "f": name, "dict": dict, "t": text});
                match got {
                    Err(_) => continue,
                    Ok(Err(e)) => op["err"] = json!(e),
                    Ok(Ok((feats, l))) => {
                        let actions = match dump_features(&feats) {
                            Feats::Cb(_, a) => a.len(),
                            _ => 0,
                        };
                        // A mutated text may lose its actions or name an action out of range: not in the domain.
                        let fine = match &l {
                            Some(Label::CB(c)) => c.action() < actions && c.probability() > 0.0 && c.probability() <= 1.0 && c.cost().abs() < 1e6,
                            Some(Label::Simple(s)) => s.value().abs() < 1e6 && s.weight().abs() < 1e6,
                            _ => true,
                        };
                        op["is"] = l.as_ref().map(label).unwrap_or(Value::Null);
                        let tame = match dump_features(&feats) {
                            Feats::Cb(s, a) => s.iter().chain(a.iter()).all(|t| t.values().flatten().all(|(_, v)| v.abs() < 1e5)),
                            Feats::Simple(t) => t.values().flatten().all(|(_, v)| v.abs() < 1e5),
                        };
                        if !fine || !tame || (w.cb && actions == 0) {
                            op["drop"] = json!(true);
                        } else {
                            xs.insert(next, X { feats, label: l, actions, key: key.clone(), exact: !dict && !dicts });
                        }
                    }
                }
                next += 1;
                ops.push(op);
            }
            35..=39 if !w.cb => {
                ops.push(json!({"o": "empty", "x": next}));
                xs.insert(next, X { feats: Features::SparseSimple(sparse_namespaced_features::SparseFeatures::new()), label: None, actions: 0, key: key.clone(), exact: !dicts });
                next += 1;
            }
            40..=80 => {
                if mine.is_empty() {
                    continue;
                }
                let id = *r.pick(&mine);
                let e = xs.get_mut(&id).unwrap();
                let what = *r.pick(&["pred", "learn", "ptl"]);
                let mut op = json!({"o": what, "w": wi, "x": id});
                let l = match (&e.label, r.pct(60)) {
                    (Some(l), true) => {
                        op["l"] = json!("own");
                        match l {
                            Label::Simple(s) => Label::Simple(SimpleLabel::new(s.value(), s.weight())),
                            Label::CB(c) => Label::CB(CBLabel::new(c.action(), c.cost(), c.probability())),
                            _ => continue,
                        }
                    }
                    _ => {
                        let l = if w.cb {
                            Label::CB(CBLabel::new(r.below(e.actions), r.uni(-2.0, 2.0), *r.pick(&[1.0, 0.5, 0.25, 0.1])))
                        } else {
                            Label::Simple(SimpleLabel::new(r.uni(-5.0, 5.0), if r.pct(30) { r.uni(0.1, 3.0) } else { 1.0 }))
                        };
                        op["l"] = label(&l);
                        l
                    }
                };
                let before = dump_features(&e.feats);
                match what {
                    "pred" => op["is"] = pred(&w.ws.predict(&mut e.feats)),
                    "learn" => w.ws.learn(&mut e.feats, &l),
                    _ => op["is"] = pred(&w.ws.predict_then_learn(&mut e.feats, &l)),
                }
                assert!(feats_same_bits(&before, &dump_features(&e.feats)), "features changed");
                ops.push(op);
            }
            81..=88 => {
                if xs.is_empty() {
                    continue;
                }
                let ids: Vec<usize> = xs.keys().copied().collect();
                let mut gone = vec![];
                for id in ids {
                    if r.pct(60) {
                        xs.remove(&id);
                        gone.push(id);
                    }
                }
                if r.pct(50) {
                    gone.reverse();
                }
                ops.push(json!({"o": "drop", "xs": gone}));
            }
            89..=93 => {
                let m = model_of(&w.ws);
                let load = r.pct(60);
                if load {
                    w.ws = Workspace::create_from_model(&m).expect("own model");
                }
                ops.push(json!({"o": "bin", "w": wi, "is": if dicts { Value::Null } else { json!(m) }, "load": load, "theirs": r.pct(50) && !dicts}));
            }
            94..=99 if r.pct(30) => {
                // Rejected by the core; the workspace stays as it was.
                match r.below(3) {
                    0 => {
                        let mut cfg = w.cfg.clone();
                        let mut at = &mut cfg["entryReduction"];
                        while r.pct(50) {
                            let c = &mut at["config"];
                            let k = ["regressor", "next", "cbAdf"].into_iter().find(|k| c.get(*k).is_some_and(|v| v.is_object()));
                            match k {
                                Some(k) => at = &mut at["config"][k],
                                None => break,
                            }
                            if at.get("config").is_none() {
                                break;
                            }
                        }
                        match r.below(3) {
                            0 => at["typename"] = json!("Nope"),
                            1 => at["config"] = json!({"noSuchSetting": 1}),
                            _ => at["config"] = json!([1]),
                        }
                        if let Ok(Err(e)) = guard(|| make(&cfg).map(|_| ())) {
                            ops.push(json!({"o": "reject", "how": "config", "v": cfg, "err": e}));
                        }
                    }
                    1 => {
                        let mut m = model_of(&w.ws);
                        m.truncate(r.below(m.len()));
                        if let Ok(Err(e)) = guard(|| Workspace::create_from_model(&m).map(|_| ())) {
                            ops.push(json!({"o": "reject", "how": "model", "v": m, "err": e.to_string()}));
                        }
                    }
                    _ => {
                        let mut m = model_json(&w.ws);
                        let o = m.as_object_mut().unwrap();
                        let k = r.pick(&o.keys().cloned().collect::<Vec<_>>()).clone();
                        if r.pct(50) {
                            o.remove(&k);
                        } else {
                            o.insert(k, json!("x"));
                        }
                        if let Ok(Err(e)) = guard(|| Workspace::deserialize_from_json(&m).map(|_| ())) {
                            ops.push(json!({"o": "reject", "how": "json", "v": m, "err": e.to_string()}));
                        }
                    }
                }
            }
            94..=98 => {
                let m = model_json(&w.ws);
                let load = r.pct(60);
                if load {
                    w.ws = Workspace::deserialize_from_json(&m).expect("own model");
                }
                ops.push(json!({"o": "json", "w": wi, "is": if dicts { Value::Null } else { m }, "load": load, "theirs": r.pct(50) && !dicts}));
            }
            _ => {
                // The same configuration again, from nothing.
                w.ws = make(&w.cfg).expect("valid configuration");
                ops.push(json!({"o": "new", "w": wi, "cfg": w.cfg, "is": types(&w.ws)}));
            }
        }
    }
    ops
}

pub fn run(args: &[String]) {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse::<u64>().expect("number")).unwrap_or(d);
    install_hook();
    let mut out = String::new();
    for n in num("--first", 0)..num("--first", 0) + num("--count", 1) {
        let mut r = Rng::new(num("--seed", 1), "hist", n);
        let len = r.range(num("--min", 5) as usize, num("--max", 60) as usize);
        match guard(|| history(&mut r, len)) {
            Ok(ops) => out += &json!({"n": n, "ops": ops}).to_string(),
            Err((sig, msg)) => out += &json!({"n": n, "panic": sig, "msg": msg}).to_string(),
        }
        out.push('\n');
    }
    std::fs::write(get("--file").expect("--file"), out).unwrap();
}
