//! `vmon gen --seed S --count K --dir D [--min A --max B] [--kind scalar|scores|probs] [--first N]`: data files, configurations and what
//! sequential training in this process makes of them, for the drivers that run the real command line tool.
use crate::common::*;
use crate::ex::*;
use crate::p_misc::count;
use crate::p_parse::*;
use reductionml_core::*;
use serde_json::{json, Value};
use std::path::Path;

fn tame_label(r: &mut Rng, e: &mut Ex) {
    e.label = Some(if e.cb {
        let p = (*r.pick(&["1", "0.5", "0.25", "0.125", "0.8", "0.003", "0.0003"])).to_string();
        Lab::Cb(r.below(e.parts.len()), format!("{:?}", r.uni(-2.0, 2.0)), p)
    } else {
        let w = if r.pct(6) { Some("0".to_string()) } else if r.pct(20) { Some(format!("{}.{}", r.below(3), r.below(10))) } else { None };
        Lab::Simple(format!("{:?}", r.uni(-5.0, 5.0)), w)
    });
}
fn tame(n: &mut String) {
    if num(n).abs() > 1e4 {
        *n = format!("{}.5", n.len());
    }
}
/// Keys and names that every format and the JSON readers of Python write without escapes.
/// `most`: features per namespace (thousands of products on a handful of weights overflow any learner).
pub fn tame_ex(r: &mut Rng, cb: bool, most: usize) -> Ex {
    let mut e = gen_ex(r, cb, COMMON);
    for ns in e.parts.iter_mut().chain(e.shared.iter_mut()).flatten() {
        ns.feats.truncate(most);
    }
    jsonable(&mut e);
    dsable(&mut e);
    for p in e.parts.iter_mut().chain(e.shared.iter_mut()) {
        for f in p.iter_mut().flat_map(|ns| ns.feats.iter_mut()) {
            match f {
                F::Num(_, v) | F::Pos(v) => tame(v),
                _ => {}
            }
        }
    }
    tame_label(r, &mut e);
    e
}

pub fn run(args: &[String]) {
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|v| v.parse::<u64>().expect("number")).unwrap_or(d);
    let (seed, count_, dir) = (num("--seed", 1), num("--count", 1), get("--dir").expect("--dir"));
    let (min, max, first) = (num("--min", 1) as usize, num("--max", 60) as usize, num("--first", 0));
    install_hook();
    for n in first..first + count_ {
        let mut r = Rng::new(seed, "gen", n);
        let kind = match get("--kind").as_deref() {
            Some("scalar") => Kind::Scalar,
            Some("scores") => Kind::Scores,
            Some("probs") => Kind::Probs,
            _ => *r.pick(&[Kind::Scalar, Kind::Scalar, Kind::Probs, Kind::Probs, Kind::Scores]),
        };
        let d = Path::new(&dir).join(format!("case{n}"));
        std::fs::create_dir_all(&d).unwrap();
        if let Err((sig, msg)) = guard(|| one(&mut r, kind, min, max, &d)) {
            // The drivers report this: training in-process on valid data panicked.
            std::fs::write(d.join("meta.json"), json!({"panic": sig, "msg": msg}).to_string()).unwrap();
        }
    }
}

fn one(r: &mut Rng, kind: Kind, min: usize, max: usize, d: &Path) {
    let g = gen_global(r);
    let st = crate::p_model::stack_of(r, kind);
    let cfg = cfg_json(&g, &st);
    let cb = matches!(kind, Kind::Scores | Kind::Probs);
    let exs: Vec<Ex> = (0..r.range(min, max)).map(|_| tame_ex(r, cb, if g.interactions.is_empty() { 1000 } else { 8 })).collect();
    std::fs::write(d.join("config.json"), serde_json::to_string_pretty(&cfg).unwrap()).unwrap();
    let counts: Vec<u64> = exs.iter().map(|e| count(&meaning(e, g.seed, g.bits))).collect();
    let labels: Vec<Value> = exs
        .iter()
        .map(|e| {
            let (a, b, c) = label_meaning(&e.label).unwrap();
            if cb {
                json!([a, b, c])
            } else {
                json!([b, c])
            }
        })
        .collect();
    let fmts: &[(Fmt, &str)] = if cb { &[(Fmt::Vw, "vw"), (Fmt::Json, "json"), (Fmt::Ds, "dsjson")] } else { &[(Fmt::Vw, "vw"), (Fmt::Json, "json")] };
    let mut meta = json!({"cb": cb, "kind": format!("{kind:?}"), "n": exs.len(), "counts": counts, "labels": labels, "bits": g.bits, "seed": g.seed});
    for (f, name) in fmts {
        let texts: Vec<String> = exs.iter().map(|e| render(r, *f, e, true)).collect();
        let sep = if cb && *f == Fmt::Vw { "\n\n" } else { "\n" };
        let mut data = texts.join(sep);
        if r.pct(80) {
            data.push('\n');
        }
        std::fs::write(d.join(format!("data.{name}")), &data).unwrap();
        let mut w = make(&cfg).expect("valid configuration");
        let p = AnyParser::new(*f, cb, g.seed, g.bits, pool());
        let mut preds: Vec<String> = vec![];
        for t in &texts {
            let (mut x, l) = p.parse(t).expect("valid example");
            preds.push(serde_json::to_string(&w.predict_then_learn(&mut x, &l.expect("label"))).unwrap());
        }
        std::fs::write(d.join(format!("expect.{name}.model")), model_of(&w)).unwrap();
        std::fs::write(d.join(format!("expect.{name}.model.json")), model_json(&w).to_string()).unwrap();
        std::fs::write(d.join(format!("expect.{name}.preds")), preds.iter().map(|s| format!("{s}\n")).collect::<String>()).unwrap();
        meta[name] = json!(texts);
    }
    std::fs::write(d.join("meta.json"), meta.to_string()).unwrap();
}

/// `vmon check FILE`: one line per configuration (one JSON text per line): ok, err or panic.
pub fn check(path: &str) {
    install_hook();
    let text = std::fs::read_to_string(path).expect("readable");
    let mut out = String::new();
    for line in text.lines() {
        let got = guard(|| workspace::Configuration::from_json_str(line).and_then(workspace::Workspace::new).map(|_| ()));
        out += match got {
            Ok(Ok(())) => "ok\n",
            Ok(Err(_)) => "err\n",
            Err(_) => "panic\n",
        };
    }
    print!("{out}");
}
