//! Input: C03 C14 C15 C16 C17 C18 C24 (library) C26.
use crate::common::*;
use crate::ex::*;
use crate::p_model::any_stack;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::parsers::*;
use reductionml_core::sparse_namespaced_features::SparseFeatures;
use reductionml_core::workspace::Workspace;
use reductionml_core::*;
use serde_json::json;
use std::io::{BufRead, Read};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub type P = Arc<Pool<SparseFeatures>>;
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fmt {
    Vw,
    Json,
    Ds,
}
pub enum AnyParser {
    Vw(VwTextParser),
    Json(JsonParser),
    Ds(DsJsonParser),
}
impl AnyParser {
    pub fn new(f: Fmt, cb: bool, seed: u32, bits: u8, pool: P) -> AnyParser {
        let (ft, lt) = if cb { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) };
        match f {
            Fmt::Vw => AnyParser::Vw(VwTextParserFactory::default().create(ft, lt, seed, bits, pool)),
            Fmt::Json => AnyParser::Json(JsonParserFactory::default().create(ft, lt, seed, bits, pool)),
            Fmt::Ds => AnyParser::Ds(DsJsonParserFactory::default().create(ft, lt, seed, bits, pool)),
        }
    }
    pub fn parse(&self, s: &str) -> Result<(Features<'static>, Option<Label>), String> {
        match self {
            AnyParser::Vw(p) => p.parse_chunk(s).map_err(|e| e.to_string()),
            AnyParser::Json(p) => p.parse_chunk(s).map_err(|e| e.to_string()),
            AnyParser::Ds(p) => p.parse_chunk(s).map_err(|e| e.to_string()),
        }
    }
    pub fn chunk(&self, i: &mut dyn BufRead, b: String) -> Result<Option<String>, String> {
        match self {
            AnyParser::Vw(p) => p.get_next_chunk(i, b).map_err(|e| e.to_string()),
            AnyParser::Json(p) => p.get_next_chunk(i, b).map_err(|e| e.to_string()),
            AnyParser::Ds(p) => p.get_next_chunk(i, b).map_err(|e| e.to_string()),
        }
    }
}
pub fn pool() -> P {
    Arc::new(Pool::new())
}
pub const COMMON: Style = Style { common: true, text: false, json: false, uniform: true, underscore: false };
const TEXT: Style = Style { common: false, text: true, json: false, uniform: false, underscore: false };
const JSON: Style = Style { common: false, text: false, json: true, uniform: true, underscore: false };

fn seed_bits(r: &mut Rng) -> (u32, u8) {
    let seed = match r.below(4) {
        0 | 1 => 0,
        2 => r.below(100) as u32,
        _ => r.next() as u32,
    };
    let bits = match r.below(5) {
        0 => 18,
        1 => r.range(1, 6) as u8,
        2 => r.range(24, 31) as u8,
        _ => r.range(7, 24) as u8,
    };
    (seed, bits)
}
pub fn render(r: &mut Rng, f: Fmt, e: &Ex, plain: bool) -> String {
    match f {
        Fmt::Vw => vw(r, e, plain),
        Fmt::Json => json(r, e),
        Fmt::Ds => dsjson(r, e),
    }
}
/// Positional features share a namespace with nothing else (JSON forms); hostile hash values are kept.
pub fn jsonable(e: &mut Ex) {
    let fix = |p: &mut Part| {
        for ns in p.iter_mut() {
            ns.mult = None;
            let pos = ns.feats.iter().filter(|f| matches!(f, F::Pos(_))).count();
            if pos != ns.feats.len() {
                ns.feats.retain(|f| !matches!(f, F::Pos(_)));
            }
        }
    };
    e.parts.iter_mut().for_each(fix);
    if let Some(s) = e.shared.as_mut() {
        fix(s);
    }
}
/// DsJson ignores keys with an underscore and cannot express " " as a plain member next to others of the same name.
pub fn dsable(e: &mut Ex) {
    let fix = |p: &mut Part| {
        for ns in p.iter_mut() {
            ns.feats.retain(|f| match f {
                F::One(n) | F::Num(n, _) | F::Str(n, _) => !n.starts_with('_'),
                _ => true,
            });
        }
        p.retain(|n| !n.name.starts_with('_'));
    };
    e.parts.iter_mut().for_each(fix);
    if let Some(s) = e.shared.as_mut() {
        fix(s);
    }
}

fn check_parse(c: &mut Ctx, p: &AnyParser, text: &str, want: &Feats, lab: Option<(usize, f32, f32)>, ctx: &str) -> bool {
    c.eval(1);
    match guard(|| p.parse(text)) {
        Err((sig, msg)) => {
            c.fail(&sig, format!("{ctx} on {text:?}: {msg}"));
            false
        }
        Ok(Err(e)) => {
            c.fail("valid-example-rejected", format!("{ctx} on {text:?}: {e}"));
            false
        }
        Ok(Ok((f, l))) => {
            let d = dump_features(&f);
            if !feats_same_multiset(&d, want) {
                c.fail("features", format!("{ctx} on {text:?}\n got {d:?}\nwant {want:?}"));
                return false;
            }
            if !label_eq(label_nums(&l), lab) {
                c.fail("label", format!("{ctx} on {text:?}: got {:?} want {lab:?}", label_nums(&l)));
                return false;
            }
            true
        }
    }
}

/// Keys written with escape sequences, a fixed list so that the finding is identified by its inputs.
fn escaped_keys(c: &mut Ctx, fmt: Fmt) {
    let p = AnyParser::new(fmt, fmt == Fmt::Ds, 0, 18, pool());
    for (raw, key) in [("a\\nb", "a\nb"), ("q\\\"q", "q\"q"), ("back\\\\slash", "back\\slash"), ("h\\u00e9llo", "h\u{e9}llo"), ("\\u0041", "A"), ("tab\\t", "tab\t")] {
        let h = xxh("ns", 0);
        let t = Terms::from([(Key::Named(h), vec![(xxh(key, h) & mask(18), 2.0)])]);
        let (text, want, lab) = match fmt {
            Fmt::Ds => (format!("{{\"c\":{{\"ns\":{{\"{raw}\":2}},\"_multi\":[]}}}}"), Feats::Cb(Some(t), vec![]), None),
            _ => (format!("{{\"label\":{{\"value\":1}},\"features\":{{\"ns\":{{\"{raw}\":2}}}}}}"), Feats::Simple(t), Some((usize::MAX, 1.0, 1.0))),
        };
        c.eval(1);
        match guard(|| p.parse(&text)) {
            Ok(Err(e)) => c.fail(&format!("escaped-key-rejected:{raw}"), format!("{fmt:?} {text}: {e}")),
            _ => drop(check_parse(c, &p, &text, &want, lab, "escaped key")),
        }
    }
}
fn parse_case(r: &mut Rng, c: &mut Ctx, fmt: Fmt) {
    let cb = fmt == Fmt::Ds || r.pct(50);
    let (seed, bits) = seed_bits(r);
    let pl = pool();
    let p = AnyParser::new(fmt, cb, seed, bits, pl.clone());
    let mut last = String::new();
    for _ in 0..8 {
        let style = match fmt {
            Fmt::Vw => TEXT,
            _ => JSON,
        };
        let mut e = gen_ex(r, cb, style);
        if fmt != Fmt::Vw {
            jsonable(&mut e);
        }
        if fmt == Fmt::Ds {
            dsable(&mut e);
        }
        let text = render(r, fmt, &e, false);
        let ok = check_parse(c, &p, &text, &meaning(&e, seed, bits), label_meaning(&e.label), &format!("{fmt:?} seed {seed} bits {bits}"));
        c.distinct_of(&text);
        c.stat(if e.label.is_some() { "labelled" } else { "unlabelled" }, 1);
        if !ok {
            return;
        }
        last = text;
    }
    c.sample(|| last);
}
pub fn c14(r: &mut Rng, c: &mut Ctx) {
    parse_case(r, c, Fmt::Vw)
}
pub fn c15(r: &mut Rng, c: &mut Ctx) {
    if c.case == 0 {
        escaped_keys(c, Fmt::Json);
    }
    parse_case(r, c, Fmt::Json)
}
/// Nested DsJson objects: every key opens a namespace of that name.
fn ds_nested(r: &mut Rng, depth: usize, ns: &str, seed: u32, bits: u8, t: &mut Terms) -> String {
    let mut m = vec![];
    let k = key_of(ns, seed);
    let h = ns_hash(ns, seed);
    let mut used = std::collections::HashSet::new();
    for _ in 0..r.range(0, 4) {
        let n = format!("{}{}", r.pick(&["k", "Ä", "x y", "z_"]), r.below(50));
        if !used.insert(n.clone()) {
            continue;
        }
        match r.below(if depth > 0 { 9 } else { 6 }) {
            0 | 1 => {
                let v = gen_num(r);
                t.entry(k).or_default().push((xxh(&n, h) & mask(bits), num(&v)));
                m.push(format!("{n:?}:{v}"));
            }
            2 => {
                t.entry(k).or_default().push((xxh("val", xxh(&n, h)) & mask(bits), 1.0));
                m.push(format!("{n:?}:\"val\""));
            }
            3 => {
                t.entry(k).or_default().push((xxh(&n, h) & mask(bits), 1.0));
                m.push(format!("{n:?}:true"));
            }
            4 => m.push(format!("{n:?}:false")),
            5 => m.push(format!("\"_{n}\":{}", r.pick(&["1", "{\"a\":1}", "[1]", "true", "\"s\""]))),
            6 | 7 => {
                let inner = ds_nested(r, depth - 1, &n, seed, bits, t);
                m.push(format!("{n:?}:{inner}"));
            }
            _ => {
                // array: positions count every item; objects open the same namespace
                let mut items = vec![];
                let ah = ns_hash(&n, seed);
                let ak = key_of(&n, seed);
                for i in 0..r.range(0, 4) {
                    match r.below(4) {
                        0 => items.push("null".into()),
                        1 => {
                            let s = ds_nested(r, depth - 1, &n, seed, bits, t);
                            items.push(s);
                        }
                        _ => {
                            let v = gen_num(r);
                            t.entry(ak).or_default().push((ah.wrapping_add(i as u32) & mask(bits), num(&v)));
                            items.push(v);
                        }
                    }
                }
                m.push(format!("{n:?}:[{}]", items.join(",")));
            }
        }
    }
    format!("{{{}}}", m.join(","))
}
pub fn c16(r: &mut Rng, c: &mut Ctx) {
    if c.case == 0 {
        escaped_keys(c, Fmt::Ds);
    }
    if r.pct(50) {
        return parse_case(r, c, Fmt::Ds);
    }
    let (seed, bits) = seed_bits(r);
    let p = AnyParser::new(Fmt::Ds, true, seed, bits, pool());
    for _ in 0..8 {
        let mut sh = Terms::new();
        let mut s = ds_nested(r, 3, " ", seed, bits, &mut sh);
        let mut acts = vec![];
        let mut texts = vec![];
        for _ in 0..r.range(1, 4) {
            let mut t = Terms::new();
            texts.push(ds_nested(r, 3, " ", seed, bits, &mut t));
            acts.push(t);
        }
        s.pop();
        if s.len() > 1 {
            s.push(',');
        }
        s.push_str(&format!("\"_multi\":[{}]}}", texts.join(",")));
        let (lab, lt) = if r.pct(70) {
            let a = r.below(acts.len());
            let (co, pr) = (gen_num(r), gen_num(r));
            (Some((a, num(&co), num(&pr))), format!("\"_label_cost\":{co},\"_label_probability\":{pr},\"_label_Action\":{},\"_labelIndex\":{a},", a + 1))
        } else {
            (None, String::new())
        };
        let text = format!("{{{lt}\"Version\":\"1\",\"c\":{s}}}");
        c.distinct_of(&text);
        c.stat("nested contexts", 1);
        if !check_parse(c, &p, &text, &Feats::Cb(Some(sh), acts), lab, &format!("Ds seed {seed} bits {bits}")) {
            return;
        }
        c.sample(|| text.clone());
    }
}

/// All formats agree; identities stay inside the index space; bit width only masks.
pub fn c17(r: &mut Rng, c: &mut Ctx) {
    let cb = r.pct(60);
    let (seed, bits) = seed_bits(r);
    let fmts: &[Fmt] = if cb { &[Fmt::Vw, Fmt::Json, Fmt::Ds] } else { &[Fmt::Vw, Fmt::Json] };
    let (pl, low_bits) = (pool(), r.range(1, bits as usize) as u8);
    let mbits = r.range(3, 9) as u8;
    let g = Global { bits: mbits, seed, constant: true, interactions: if r.pct(40) { vec![vec!["a".into(), " ".into()]] } else { vec![] } };
    let st = if cb { gen_stack(r, Kind::Probs, false) } else { gen_stack(r, Kind::Scalar, false) };
    let cfg = cfg_json(&g, &st);
    let mut models: Vec<Workspace> = vec![];
    for _ in fmts {
        match make(&cfg) {
            Ok(w) => models.push(w),
            Err(e) => return c.fail("valid-config-rejected", format!("{cfg}: {e}")),
        }
    }
    for step in 0..6 {
        let mut e = gen_ex(r, cb, COMMON);
        jsonable(&mut e);
        dsable(&mut e);
        let mut seen: Option<(Feats, Option<(usize, f32, f32)>, String)> = None;
        let mut preds: Vec<Vec<f32>> = vec![];
        for (k, f) in fmts.iter().enumerate() {
            let text = render(r, *f, &e, true);
            c.eval(1);
            let p = AnyParser::new(*f, cb, seed, bits, pl.clone());
            let (x, l) = match guard(|| p.parse(&text)) {
                Ok(Ok(v)) => v,
                Ok(Err(er)) => return c.fail("valid-example-rejected", format!("{f:?} {text:?}: {er}")),
                Err((s, m)) => return c.fail(&s, format!("{f:?} {text:?}: {m}")),
            };
            let d = dump_features(&x);
            let all: Vec<u32> = match &d {
                Feats::Simple(t) => t.values().flatten().map(|v| v.0).collect(),
                Feats::Cb(s, a) => s.iter().chain(a.iter()).flat_map(|t| t.values().flatten().map(|v| v.0)).collect(),
            };
            if all.iter().any(|i| *i > mask(bits)) {
                return c.fail("index-out-of-space", format!("{f:?} bits {bits} {text:?}: {d:?}"));
            }
            // fewer bits: the same identities masked
            let p2 = AnyParser::new(*f, cb, seed, low_bits, pl.clone());
            if let Ok(Ok((x2, _))) = guard(|| p2.parse(&text)) {
                let m = |t: &Terms| -> Terms { t.iter().map(|(k, v)| (*k, v.iter().map(|(i, x)| (i & mask(low_bits), *x)).collect())).collect() };
                let want = match &d {
                    Feats::Simple(t) => Feats::Simple(m(t)),
                    Feats::Cb(s, a) => Feats::Cb(s.as_ref().map(m), a.iter().map(m).collect()),
                };
                let d2 = dump_features(&x2);
                if !feats_same_multiset(&d2, &want) {
                    return c.fail("masking", format!("{f:?} bits {bits} and {low_bits} {text:?}: {d:?} / {d2:?}"));
                }
                x2.clear_and_return_object(&pl);
            } else {
                return c.fail("valid-example-rejected", format!("{f:?} with {low_bits} bits {text:?}"));
            }
            match &seen {
                None => seen = Some((d, label_nums(&l), text.clone())),
                Some((d0, l0, t0)) => {
                    if !feats_same_multiset(d0, &d) {
                        return c.fail("formats-differ", format!("seed {seed} bits {bits}\n{t0:?}: {d0:?}\n{text:?}: {d:?}"));
                    }
                    if !label_eq(*l0, label_nums(&l)) {
                        return c.fail("labels-differ", format!("{t0:?}: {l0:?}\n{text:?}: {:?}", label_nums(&l)));
                    }
                }
            }
            x.clear_and_return_object(&pl);
            // train the model of this format
            let p3 = AnyParser::new(*f, cb, seed, mbits, models[k].features_pool().clone());
            let (mut x, l) = p3.parse(&text).unwrap();
            let ok = match &l {
                Some(Label::CB(b)) => b.probability > 1e-3 && b.cost.abs() < 1e4,
                Some(Label::Simple(s)) => s.value().abs() < 1e4 && s.weight() > 1e-3 && s.weight() < 1e3,
                _ => false,
            };
            let calm = match dump_features(&x) {
                Feats::Simple(t) => t.values().flatten().all(|v| v.1.abs() < 1e4),
                Feats::Cb(s, a) => s.iter().chain(a.iter()).all(|t| t.values().flatten().all(|v| v.1.abs() < 1e4)),
            };
            if ok && calm {
                let pr = models[k].predict_then_learn(&mut x, &l.unwrap());
                preds.push(pnums(&pr));
            }
            x.clear_and_return_object(models[k].features_pool());
        }
        for p in preds.iter().skip(1) {
            c.stat("trained models compared", 1);
            if p.len() != preds[0].len() || p.iter().zip(&preds[0]).any(|(a, b)| !close(*a, *b, 2e-2, 2e-2)) {
                if preds[0].iter().any(|x| !x.is_finite() || x.abs() > 1e4) {
                    return;
                }
                return c.fail("models-differ", format!("{cfg} step {step}: predictions by format {preds:?}; example {}", seen.unwrap().2));
            }
        }
        if let Some((_, _, t)) = seen {
            c.distinct_of(&t);
            c.sample(|| t);
        }
    }
}

// ---------------------------------------------------------------- streams
struct Frag<'a> {
    data: &'a [u8],
    pos: usize,
    cur: usize,
    rng: Rng,
    mode: u32,
    pub interrupts: u64,
}
impl<'a> Read for Frag<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = {
            let s = self.fill_buf()?;
            let n = s.len().min(b.len());
            b[..n].copy_from_slice(&s[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}
impl<'a> BufRead for Frag<'a> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.cur == 0 && self.pos < self.data.len() {
            if self.rng.pct(15) {
                self.interrupts += 1;
                return Err(std::io::Error::from(std::io::ErrorKind::Interrupted));
            }
            let n = match self.mode {
                0 => 1,
                1 => self.rng.range(1, 4),
                2 => self.rng.range(1, 64),
                _ => self.data.len(),
            };
            self.cur = n.min(self.data.len() - self.pos);
        }
        Ok(&self.data[self.pos..self.pos + self.cur])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.cur);
        self.pos += n;
        self.cur -= n;
    }
}
fn read_all(c: &mut Ctx, p: &AnyParser, data: &[u8], r: &mut Rng, ctx: &str) -> Option<Vec<String>> {
    let mut f = Frag { data, pos: 0, cur: 0, rng: Rng::new(r.next(), "frag", 0), mode: r.below(4) as u32, interrupts: 0 };
    let mut out = vec![];
    let mut buf = if r.pct(50) { String::from("left over\nfrom before") } else { String::new() };
    loop {
        match guard(|| p.chunk(&mut f, std::mem::take(&mut buf))) {
            Ok(Ok(Some(s))) => {
                out.push(s.clone());
                buf = if r.pct(60) { s } else { String::new() };
            }
            Ok(Ok(None)) => break,
            Ok(Err(e)) => {
                c.fail("read-error", format!("{ctx}: {e}; after {} chunks of {:?}", out.len(), String::from_utf8_lossy(data)));
                return None;
            }
            Err((s, m)) => {
                c.fail(&s, format!("{ctx}: {m}; {:?}", String::from_utf8_lossy(data)));
                return None;
            }
        }
        if out.len() > data.len() + 4 {
            c.fail("no-end", format!("{ctx}: more chunks than bytes for {:?}", String::from_utf8_lossy(data)));
            return None;
        }
    }
    // the end is stable
    if let Ok(Ok(Some(s))) = guard(|| p.chunk(&mut f, String::new())) {
        c.fail("chunk-after-end", format!("{ctx}: {s:?}"));
        return None;
    }
    c.stat("injected interruptions", f.interrupts);
    Some(out)
}
pub fn c18(r: &mut Rng, c: &mut Ctx) {
    let kind = r.below(5);
    let (fmt, cb) = [(Fmt::Vw, false), (Fmt::Vw, true), (Fmt::Vw, true), (Fmt::Json, false), (Fmt::Ds, true)][kind];
    let (seed, bits) = (0, 18);
    let p = AnyParser::new(fmt, cb, seed, bits, pool());
    let n = if r.pct(5) { r.range(30, 200) } else { r.range(0, 8) };
    let eol_mode = r.below(3);
    let eol = |r: &mut Rng| -> &'static str {
        match eol_mode {
            0 => "\n",
            1 => "\r\n",
            _ => *r.pick(&["\n", "\r\n"]),
        }
    };
    let mut data = String::new();
    let mut want: Vec<(String, Ex)> = vec![];
    let blank = |r: &mut Rng| -> &'static str { *r.pick(&["", "", "", " ", "\t", "  \t "]) };
    let text = fmt == Fmt::Vw;
    if text && r.pct(30) {
        for _ in 0..r.range(1, 3) {
            data.push_str(blank(r));
            data.push_str(eol(r));
        }
    }
    for i in 0..n {
        let mut e = gen_ex(r, cb, if text { TEXT } else { JSON });
        if !text {
            jsonable(&mut e);
        }
        if fmt == Fmt::Ds {
            dsable(&mut e);
        }
        let s = render(r, fmt, &e, false);
        if text && s.trim().is_empty() {
            continue;
        }
        let last = i + 1 == n;
        let lines: Vec<&str> = s.split('\n').collect();
        for (k, l) in lines.iter().enumerate() {
            data.push_str(l);
            if text && r.pct(10) {
                data.push_str(*r.pick(&[" ", "\t", "   "]));
            }
            let end = last && k + 1 == lines.len();
            if !(end && r.pct(40)) {
                data.push_str(eol(r));
            } else {
                c.stat("missing final newline", 1);
            }
        }
        let end_nl = data.ends_with('\n');
        if text && cb && !last {
            for _ in 0..(1 + if r.pct(30) { r.range(1, 3) } else { 0 }) {
                data.push_str(blank(r));
                data.push_str(eol(r));
            }
        } else if text && end_nl && r.pct(25) {
            for _ in 0..r.range(1, 3) {
                data.push_str(blank(r));
                data.push_str(eol(r));
            }
        }
        want.push((s, e));
    }
    c.eval(1);
    c.stat(&format!("{fmt:?} cb={cb} examples"), want.len() as u64);
    c.distinct_of(&data);
    c.sample(|| format!("{fmt:?} cb={cb} {data:?}"));
    let ctx = format!("{fmt:?} cb={cb}");
    let Some(got) = read_all(c, &p, data.as_bytes(), r, &ctx) else { return };
    let norm = |s: &str| -> Vec<String> { ascii_trim_end(s).split('\n').map(|l| ascii_trim_end(l).to_string()).collect() };
    let g: Vec<Vec<String>> = got.iter().map(|s| norm(s)).collect();
    let w: Vec<Vec<String>> = want.iter().map(|s| norm(&s.0)).collect();
    if g != w {
        return c.fail("examples", format!("{ctx} stream {data:?}\n got {g:?}\nwant {w:?}"));
    }
    // and each chunk parses to what it denotes
    for (s, (_, e)) in got.iter().zip(&want) {
        let m = meaning(e, seed, bits);
        let lab = label_meaning(&e.label);
        if !check_parse(c, &p, s, &m, lab, &ctx) {
            return;
        }
    }
}

// ---------------------------------------------------------------- names
pub fn c26(r: &mut Rng, c: &mut Ctx) {
    use reductionml_core::inverse_hash_table::Feature;
    let cb = r.pct(50);
    let (seed, bits) = seed_bits(r);
    let p = VwTextParserFactory::default();
    let (ft, lt) = if cb { (FeaturesType::SparseCBAdf, LabelType::CB) } else { (FeaturesType::SparseSimple, LabelType::Simple) };
    let p = p.create(ft, lt, seed, bits, pool());
    for _ in 0..4 {
        let e = gen_ex(r, cb, TEXT);
        let text = vw(r, &e, false);
        c.eval(1);
        c.distinct_of(&text);
        c.sample(|| text.clone());
        let names = match guard(|| p.extract_feature_names(&text).map_err(|e| e.to_string())) {
            Ok(Ok(n)) => n,
            Ok(Err(er)) => return c.fail("extract-rejected", format!("{text:?}: {er}")),
            Err((s, m)) => return c.fail(&s, format!("{text:?}: {m}")),
        };
        let (f, _) = match guard(|| p.parse_chunk(&text).map_err(|e| e.to_string())) {
            Ok(Ok(n)) => n,
            Ok(Err(er)) => return c.fail("valid-example-rejected", format!("{text:?}: {er}")),
            Err((s, m)) => return c.fail(&s, format!("{text:?}: {m}")),
        };
        // identities used, per namespace
        let mut used: Vec<(Key, u32)> = match dump_features(&f) {
            Feats::Simple(t) => t.iter().flat_map(|(k, v)| v.iter().map(|x| (*k, x.0)).collect::<Vec<_>>()).collect(),
            Feats::Cb(s, a) => s.iter().chain(a.iter()).flat_map(|t| t.iter().flat_map(|(k, v)| v.iter().map(|x| (*k, x.0)).collect::<Vec<_>>()).collect::<Vec<_>>()).collect(),
        };
        used.sort();
        let m = FeatureMask::from_num_bits(bits);
        let (mut by_parsed, mut by_name): (Vec<(Key, u32)>, Vec<(Key, u32)>) = (vec![], vec![]);
        let mut pool_feats: Vec<(Key, u32, Feature)> = vec![];
        for (ns, fs) in &names {
            let n = match ns {
                ParsedNamespaceInfo::Named(n) => n.to_string(),
                ParsedNamespaceInfo::Default => " ".to_string(),
            };
            for pf in fs {
                by_parsed.push((key_of(&n, seed), *pf.hash(ns_hash(&n, seed).into()).mask(m)));
                let ft = Feature::from_parsed_feature(pf, &n);
                let h = match guard(|| *ft.hash(seed)) {
                    Ok(h) => h,
                    Err((s, msg)) => return c.fail(&s, format!("{ft:?} seed {seed}: {msg}")),
                };
                by_name.push((key_of(&n, seed), h & mask(bits)));
                pool_feats.push((key_of(&n, seed), h & mask(bits), ft));
            }
        }
        by_parsed.sort();
        by_name.sort();
        // no feature missing, none invented (several occurrences may be listed once)
        let set = |v: &Vec<(Key, u32)>| v.iter().cloned().collect::<std::collections::BTreeSet<_>>();
        if set(&by_parsed) != set(&used) {
            return c.fail("extracted-features", format!("{text:?} seed {seed}: extracted {by_parsed:?}, used {used:?}"));
        }
        if set(&by_name) != set(&used) {
            return c.fail("name-hash", format!("{text:?} seed {seed} bits {bits}: names hash to {by_name:?}, used {used:?}; names {:?}", pool_feats.iter().map(|x| &x.2).collect::<Vec<_>>()));
        }
        // interactions of named features
        for _ in 0..3 {
            if pool_feats.len() < 2 {
                break;
            }
            let k = r.range(2, 3);
            let t: Vec<&(Key, u32, Feature)> = (0..k).map(|_| r.pick(&pool_feats)).collect();
            let h = *Feature::Interacted { terms: t.iter().map(|x| x.2.clone()).collect() }.hash(seed) & mask(bits);
            let mut want = t[0].1;
            for x in &t[1..] {
                want = FNV.wrapping_mul(want) ^ x.1;
            }
            c.stat("interaction names", 1);
            if h != want & mask(bits) {
                return c.fail("interaction-hash", format!("{:?}: {h} want {}", t.iter().map(|x| &x.2).collect::<Vec<_>>(), want & mask(bits)));
            }
        }
    }
    // what the model really uses: learn on one product only and look where the weight went
    if r.pct(40) {
        let bits = r.range(10, 14) as u8;
        let k = r.range(2, 3);
        let nss: Vec<String> = (0..k).map(|i| format!("n{i}")).collect();
        let g = Global { bits, seed, constant: false, interactions: vec![nss.clone()] };
        let Ok(mut w) = make(&cfg_json(&g, &json!({"typename": "Coin"}))) else { return c.fail("valid-config-rejected", "coin") };
        let text = format!("1 {}", nss.iter().map(|n| format!("|{n} f{n} ")).collect::<String>());
        let p = VwTextParserFactory::default().create(FeaturesType::SparseSimple, LabelType::Simple, seed, bits, pool());
        let (mut f, l) = p.parse_chunk(&text).unwrap();
        w.learn(&mut f, &l.unwrap());
        let (mut f, l) = p.parse_chunk(&text).unwrap();
        w.learn(&mut f, &l.unwrap());
        let t: Vec<Feature> = nss.iter().map(|n| Feature::Simple { namespace: n.clone(), name: format!("f{n}") }).collect();
        let h = *Feature::Interacted { terms: t }.hash(seed) & mask(bits);
        let pr = w.predict(&mut build(&Terms::from([(Key::Raw(3), vec![(h, 1.0)])])).into());
        c.stat("interaction weights located in a model", 1);
        if !(pnums(&pr)[1].abs() > 1e-6) {
            c.fail("interaction-not-in-model", format!("seed {seed} bits {bits} {text:?}: no weight at the name's index {h}"));
        }
    }
}

// ---------------------------------------------------------------- recycled containers
static NEXT: AtomicU64 = AtomicU64::new(1);
struct Token(u64);
impl Default for Token {
    fn default() -> Token {
        Token(NEXT.fetch_add(1, Ordering::SeqCst))
    }
}
fn pool_stress(r: &mut Rng, c: &mut Ctx) {
    let threads = r.range(2, 6);
    // Mostly a handful of objects at a time, sometimes thousands
    let (ops, most) = *r.pick(&[(400, 8), (400, 8), (400, 8), (400, 60), (400, 300)]);
    let (ops, most) = if r.pct(2) { (6000, 2500) } else { (ops, most) };
    let pool: Pool<Token> = Pool::new();
    let seeds: Vec<u64> = (0..threads).map(|_| r.next()).collect();
    const N: usize = 1 << 16;
    let first = NEXT.load(Ordering::SeqCst);
    let owner: Vec<AtomicU64> = (0..N).map(|_| AtomicU64::new(0)).collect();
    let double = AtomicU64::new(0);
    let pushed = AtomicU64::new(0);
    let popped_old = AtomicU64::new(0);
    // any number of tokens of other concurrently running cases may interleave in the id space: only ids taken
    // from this pool are tracked, modulo N slots is collision free within one case as long as < N ids pass
    let held: Vec<(Vec<Token>, std::collections::HashSet<u64>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (pool, owner, double, pushed, popped_old) = (&pool, &owner, &double, &pushed, &popped_old);
                let sd = seeds[t];
                s.spawn(move || {
                    let mut r = Rng::new(sd, "pool", t as u64);
                    let mut mine: Vec<Token> = vec![];
                    let mut known = std::collections::HashSet::new();
                    for _ in 0..ops {
                        if mine.is_empty() || (mine.len() < most && r.pct(if most > 8 { 65 } else { 50 })) {
                            let tk = pool.get_object();
                            let slot = ((tk.0 - first) as usize) % N;
                            if owner[slot].swap(t as u64 + 1, Ordering::SeqCst) != 0 {
                                double.fetch_add(1, Ordering::SeqCst);
                            }
                            if !known.insert(tk.0) {
                                popped_old.fetch_add(1, Ordering::Relaxed);
                            }
                            mine.push(tk);
                        } else {
                            let tk = mine.swap_remove(r.below(mine.len()));
                            let slot = ((tk.0 - first) as usize) % N;
                            owner[slot].store(0, Ordering::SeqCst);
                            pushed.fetch_add(1, Ordering::SeqCst);
                            pool.return_object(tk);
                        }
                        if r.pct(3) {
                            std::thread::yield_now();
                        }
                    }
                    // what is kept is returned later, so that a big pool is seen, too
                    (mine, known)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    c.eval((threads * ops) as u64);
    c.stat("pool operations from threads", (threads * ops) as u64);
    c.stat("pool objects handed out again", popped_old.load(Ordering::Relaxed));
    if double.load(Ordering::SeqCst) > 0 {
        return c.fail("pool-two-owners", format!("{threads} threads: an object was handed to two owners {} times", double.load(Ordering::SeqCst)));
    }
    let handed_out: std::collections::BTreeSet<u64> = held.iter().flat_map(|h| h.1.iter().copied()).collect();
    let mut ids: Vec<u64> = vec![];
    for t in held.into_iter().flat_map(|h| h.0) {
        if r.pct(50) {
            ids.push(t.0);
        } else {
            pool.return_object(t);
        }
    }
    // drain: every object that was ever handed out is still held or comes out of the pool exactly once
    let n = pool.len();
    if (n == 0) != pool.is_empty() {
        return c.fail("pool-len", format!("len {n} but is_empty {}", pool.is_empty()));
    }
    for _ in 0..n {
        ids.push(pool.get_object().0);
    }
    let total = ids.len();
    ids.sort();
    ids.dedup();
    if ids.len() != total {
        return c.fail("pool-duplicate", format!("{threads} threads: {} duplicate objects", total - ids.len()));
    }
    if !pool.is_empty() || ids.iter().any(|i| !handed_out.contains(i)) {
        return c.fail("pool-len", "draining len() objects does not give exactly the returned ones");
    }
    if ids.len() != handed_out.len() {
        return c.fail("pool-lost", format!("{threads} threads: {} of {} objects are neither held nor in the pool", handed_out.len() - ids.len(), handed_out.len()));
    }
    // single-threaded conservation is exact
    let p: Pool<Token> = Pool::new();
    let mut created = std::collections::BTreeSet::new();
    let mut hold: Vec<Token> = vec![];
    let (n, more) = if r.pct(2) { (9000, 80) } else { (200, 55) };
    for k in 0..n {
        if hold.is_empty() || r.pct(if n > 200 && k > n / 2 { 10 } else { more }) {
            let l = p.len();
            let t = p.get_object();
            let fresh = created.insert(t.0);
            if fresh == (l > 0) {
                return c.fail("pool-reuse", format!("pool held {l} objects, handed out a {} one", if fresh { "new" } else { "known" }));
            }
            if n == 200 && hold.iter().any(|x| x.0 == t.0) {
                return c.fail("pool-two-owners", "object handed out while held");
            }
            hold.push(t);
        } else {
            p.return_object(hold.swap_remove(r.below(hold.len())));
        }
        if p.len() + hold.len() != created.len() {
            return c.fail("pool-lost", format!("{} in pool + {} held != {} created", p.len(), hold.len(), created.len()));
        }
    }
}
pub fn c03(r: &mut Rng, c: &mut Ctx) {
    if r.pct(12) {
        return pool_stress(r, c);
    }
    let g = gen_global(r);
    let (_, st) = any_stack(r, false);
    let cfg = cfg_json(&g, &st);
    let (mut a, mut b) = match (make(&cfg), make(&cfg)) {
        (Ok(a), Ok(b)) => (a, b),
        (x, y) => return c.fail("valid-config-rejected", format!("{cfg}: {:?} {:?}", x.err(), y.err())),
    };
    if label_type(&a) == LabelType::Binary {
        return; // no text format carries binary labels
    }
    let cb = is_cb(&a);
    let pl = a.features_pool().clone();
    // containers with a past
    for _ in 0..r.range(0, 4) {
        let mut f = SparseFeatures::new();
        fill(&mut f, &gen_terms(r, g.bits, g.seed, 5, 5, &val));
        match r.below(3) {
            0 => f.clear_and_return_object(&pl),
            1 => {
                let o = build(&gen_terms(r, g.bits, g.seed, 4, 3, &val));
                f.append(&o);
                f.remove(&o);
                f.clear_and_return_object(&pl);
            }
            _ => {
                let x: Features = f.into();
                x.clear_and_return_object(&pl);
            }
        }
    }
    let (mut reused, mut rejected) = (0, 0);
    for s in 0..r.range(3, 12) {
        let fmt = if cb { *r.pick(&[Fmt::Vw, Fmt::Json, Fmt::Ds]) } else { *r.pick(&[Fmt::Vw, Fmt::Json]) };
        let mut e = gen_ex(r, cb, COMMON);
        jsonable(&mut e);
        dsable(&mut e);
        let text = render(r, fmt, &e, true);
        // Rejected texts (and odd ones that are accepted) have their turn with the containers, too.
        for _ in 0..if r.pct(40) { r.range(1, 3) } else { 0 } {
            let other = render(r, fmt, &e, true);
            let odd = match (r.below(3), fmt) {
                (0, Fmt::Vw) => format!("{other} |zz:bad q"),
                (0, Fmt::Json) => BAD_JSON[r.below(BAD_JSON.len())].to_string(),
                (0, Fmt::Ds) => BAD_DS[r.below(BAD_DS.len())].to_string(),
                _ => mutate(r, &other),
            };
            let p = AnyParser::new(fmt, cb, g.seed, g.bits, pl.clone());
            match guard(|| p.parse(&odd)) {
                Ok(Ok((x, _))) => x.clear_and_return_object(&pl),
                Ok(Err(_)) => rejected += 1,
                Err(_) => return, // C24 judges this
            }
        }
        if pl.len() > 0 {
            reused += 1;
        }
        let pa = AnyParser::new(fmt, cb, g.seed, g.bits, pl.clone());
        let pb = AnyParser::new(fmt, cb, g.seed, g.bits, pool());
        let (x, y) = (guard(|| pa.parse(&text)), guard(|| pb.parse(&text)));
        c.eval(1);
        let ((mut x, lx), (mut y, ly)) = match (x, y) {
            (Ok(Ok(x)), Ok(Ok(y))) => (x, y),
            (Err((s, m)), _) | (_, Err((s, m))) => return c.fail(&s, format!("{fmt:?} {text:?}: {m}")),
            (x, y) => return c.fail("parse-differs", format!("{fmt:?} {text:?}: recycled {:?}, fresh {:?}", x.ok().map(|x| x.err()), y.ok().map(|x| x.err()))),
        };
        let (dx, dy) = (dump_features(&x), dump_features(&y));
        if !feats_same_bits(&dx, &dy) {
            return c.fail("features-differ", format!("{fmt:?} {text:?} step {s}: recycled {dx:?}, fresh {dy:?}"));
        }
        if !label_eq(label_nums(&lx), label_nums(&ly)) {
            return c.fail("label-differs", text);
        }
        // lookups see the same namespaces with content
        let (p, q) = (pbits(&a.predict(&mut x)), pbits(&b.predict(&mut y)));
        if p != q {
            return c.fail("predictions-differ", format!("{cfg} {fmt:?} {text:?} step {s}: recycled {p}, fresh {q}"));
        }
        let l = gen_label(r, label_type(&a), dx.n_actions());
        a.learn(&mut x, &l);
        b.learn(&mut y, &l);
        if r.pct(85) {
            x.clear_and_return_object(&pl);
        }
    }
    c.stat("parses into a recycled container", reused);
    c.stat("rejected texts parsed before others", rejected);
    c.distinct_of(&cfg.to_string());
    c.sample(|| cfg.to_string());
    if model_of(&a) != model_of(&b) {
        c.fail("models-differ", format!("{cfg}: model trained with recycled containers differs"));
    }
}

// ---------------------------------------------------------------- hostile text, library level
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut ch: Vec<char> = s.chars().collect();
    let frag = ["|", ":", " ", "\n", "{", "}", "[", "]", "\"", ",", "null", "true", "1e999", "-", "nan", "shared ", "0:1", "'", "\t", "\\", "\u{0}", "é", ":default", "_multi", "\"label\":", "99999999999999999999", "::", "||", "0:1:0.5 |a b\n", "[]", "{}"];
    for _ in 0..r.range(1, 3) {
        let n = ch.len();
        match r.below(7) {
            0 => ch.truncate(r.below(n + 1)),
            1 if n > 0 => {
                ch.remove(r.below(n));
            }
            2 => {
                let f = *r.pick(&frag);
                let k = r.below(n + 1);
                ch.splice(k..k, f.chars());
            }
            3 if n > 0 => {
                let a = r.below(n);
                let b = (a + r.range(1, 8)).min(n);
                ch.drain(a..b);
            }
            4 if n > 1 => {
                let a = r.below(n);
                let b = (a + r.range(1, 12)).min(n);
                let cp: Vec<char> = ch[a..b].to_vec();
                let k = r.below(n);
                ch.splice(k..k, cp);
            }
            5 if n > 0 => {
                let k = r.below(n);
                ch[k] = *r.pick(&['|', ':', ' ', '"', '{', '}', '[', ']', ',', '0', 'a', '\n', '.', '-', '\'']);
            }
            _ => {
                // replace a value by one of another type
                if let Some(k) = s.find(':') {
                    let j: String = format!("{}:{}{}", &s[..k], r.pick(&["null", "[]", "{}", "true", "\"s\"", "[null]", "[{}]", "[\"a\",1]", "[1,\"a\"]", "-1", "{\"a\":null}", "{\"a\":[1]}"]), &s[k + 1..]);
                    ch = j.chars().collect();
                }
            }
        }
    }
    ch.into_iter().collect()
}
const BAD_JSON: &[&str] = &[
    "", "{", "[]", "1", "null", "\"x\"", "{}", "{\"features\":1}", "{\"features\":[]}", "{\"features\":{\"a\":1}}", "{\"features\":{\"a\":\"s\"}}",
    "{\"features\":{\"a\":null}}", "{\"features\":{\"a\":[1,\"x\"]}}", "{\"features\":{\"a\":[\"x\",1]}}", "{\"features\":{\"a\":[null]}}",
    "{\"features\":{\"a\":{\"b\":null}}}", "{\"features\":{\"a\":{\"b\":[1]}}}", "{\"features\":{\"a\":{\"b\":{}}}}", "{\"label\":\"x\",\"features\":{}}",
    "{\"label\":{\"weight\":1},\"features\":{}}", "{\"label\":{\"value\":\"x\"},\"features\":{}}", "{\"label\":[],\"features\":{}}", "{\"label\":true,\"features\":{}}",
    "{\"actions\":1}", "{\"actions\":{}}", "{\"actions\":[1]}", "{\"actions\":[null]}", "{\"actions\":[[]]}", "{\"shared\":1,\"actions\":[{}]}",
    "{\"label\":{\"action\":-1,\"cost\":1,\"probability\":1},\"actions\":[{}]}", "{\"label\":{\"action\":0,\"cost\":1},\"actions\":[{}]}",
    "{\"label\":1,\"actions\":[{}]}", "{\"label\":{\"action\":0.5,\"cost\":1,\"probability\":1},\"actions\":[{}]}",
];
const BAD_DS: &[&str] = &[
    "", "{", "[]", "1", "{}", "{\"c\":1}", "{\"c\":null}", "{\"c\":{}}", "{\"c\":{\"_multi\":1}}", "{\"c\":{\"_multi\":{}}}", "{\"c\":{\"a\":null,\"_multi\":[]}}",
    "{\"c\":{\"_multi\":[1]}}", "{\"c\":{\"_multi\":[null]}}", "{\"c\":{\"_multi\":[\"x\"]}}", "{\"c\":{\"_multi\":[true]}}", "{\"c\":{\"a\":[\"x\"],\"_multi\":[{}]}}",
    "{\"c\":{\"a\":[true],\"_multi\":[{}]}}", "{\"c\":{\"a\":[[1]],\"_multi\":[{}]}}", "{\"_label_cost\":1,\"c\":{\"_multi\":[{}]}}",
    "{\"_label_cost\":\"1\",\"_label_probability\":1,\"_labelIndex\":0,\"c\":{\"_multi\":[{}]}}",
    "{\"_label_cost\":1,\"_label_probability\":1,\"_labelIndex\":-1,\"c\":{\"_multi\":[{}]}}", "{\"_label_cost\":1,\"_label_probability\":1,\"_labelIndex\":0.5,\"c\":{\"_multi\":[{}]}}",
    "{\"c\":\"x\"}", "{\"c\":true}", "{\"c\":[]}", "{\"c\":[1]}", "{\"c\":[{\"_multi\":[]}]}",
];
const BAD_VW: &[&str] = &[
    "x | a", "1 y | a", "1 2 3 | a", "1 2 3 4 | a", "1 2 0.5 'tag | a", "1 |a:x b", "1 |a: b", "1 |", "1 ||", "|", "", " ", "1", "1 |:1 a", "1 |a b:", "1 |a :", "1 |a ::", "1 |: a",
    "0:1 | a", "0 | a", "0:x:1 | a", "x:1:1 | a", "-1:1:1 | a", "0:1: | a", ": | a", ":: | a", "shared", "shared | a", "shared | a\nshared | b", "| a\nshared | b", "0:1:1 | a\n1:1:1 | b",
    "0:1:1:1 | a", "shared |", "shared | a\n0:1:0.5", "shared | a\n\n| b", "99999999999:1:1 | a", "1 |a\u{a0}b c", "1\u{2003}|a b", "1 |\u{2003}a b", "'", "' |a", "1 ' |a", "shared 0:1:1 | a",
];
/// Texts that cannot be an example of the format: must be reported.
const MUST_FAIL_JSON: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22];
pub fn c24(r: &mut Rng, c: &mut Ctx) {
    if c.case < TRUNCATED_MODELS.len() as u64 {
        let hex = TRUNCATED_MODELS[c.case as usize];
        let d: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
        c.eval(1);
        match guard(|| Workspace::create_from_model(&d).map(|_| ()).map_err(|e| e.to_string())) {
            Err((s, m)) => c.fail(&s, format!("create_from_model of a truncated model {hex}: {m}")),
            Ok(Ok(())) => c.fail("bad-model-accepted", "truncated model".to_string()),
            _ => (),
        }
    }
    match r.below(10) {
        0..=6 => {
            let fmt = *r.pick(&[Fmt::Vw, Fmt::Json, Fmt::Ds]);
            let cb = fmt == Fmt::Ds || r.pct(50);
            let (seed, bits) = seed_bits(r);
            let pl = pool();
            let p = AnyParser::new(fmt, cb, seed, bits, pl.clone());
            for k in 0..12 {
                let bad: &[&str] = match fmt {
                    Fmt::Vw => BAD_VW,
                    Fmt::Json => BAD_JSON,
                    Fmt::Ds => BAD_DS,
                };
                let mut idx = None;
                let text = match r.below(6) {
                    0 => {
                        let i = r.below(bad.len());
                        idx = Some(i);
                        bad[i].to_string()
                    }
                    1 => {
                        let b = bad[r.below(bad.len())];
                        mutate(r, b)
                    }
                    2 if k % 4 == 0 => (0..r.range(0, 40)).map(|_| char::from_u32(if r.pct(80) { r.range(1, 126) as u32 } else { r.below(0x3000) as u32 }).unwrap_or('?')).collect(),
                    3 if k % 4 == 0 => {
                        let n = r.range(2, 600);
                        match fmt {
                            Fmt::Vw => format!("1 {}", "|a ".repeat(n)),
                            Fmt::Json => format!("{{\"features\":{}", "{\"a\":".repeat(n)),
                            Fmt::Ds => format!("{{\"c\":{}1{}}}", "{\"a\":".repeat(n), "}".repeat(n)),
                        }
                    }
                    _ => {
                        let mut e = gen_ex(r, cb, COMMON);
                        jsonable(&mut e);
                        let t = render(r, fmt, &e, false);
                        mutate(r, &t)
                    }
                };
                c.eval(1);
                c.distinct_of(&text);
                match guard(|| p.parse(&text)) {
                    Ok(Ok((f, _))) => {
                        c.stat("accepted", 1);
                        if let (Some(i), Fmt::Json, false) = (idx, fmt, cb) {
                            if MUST_FAIL_JSON.contains(&i) {
                                return c.fail("bad-text-accepted", format!("{fmt:?} cb={cb} {text:?} parsed to {:?}", dump_features(&f)));
                            }
                        }
                        f.clear_and_return_object(&pl);
                    }
                    Ok(Err(_)) => c.stat("reported as error", 1),
                    Err((s, m)) => return c.fail(&s, format!("{fmt:?} cb={cb} on {text:?}: {m}")),
                }
                // names of the same text
                if fmt == Fmt::Vw {
                    if let AnyParser::Vw(v) = &p {
                        if let Err((s, m)) = guard(|| v.extract_feature_names(&text).is_ok()) {
                            return c.fail(&s, format!("extract_feature_names on {text:?}: {m}"));
                        }
                    }
                }
                c.sample(|| format!("{fmt:?} cb={cb} {text:?}"));
                // a good example afterwards is parsed as ever
                if r.pct(25) {
                    let mut e = gen_ex(r, cb, COMMON);
                    jsonable(&mut e);
                    dsable(&mut e);
                    let t = render(r, fmt, &e, true);
                    if !check_parse(c, &p, &t, &meaning(&e, seed, bits), label_meaning(&e.label), "after bad input") {
                        return;
                    }
                }
            }
            // bytes that are not text at all
            let mut data: Vec<u8> = (0..r.range(0, 60)).map(|_| r.next() as u8).collect();
            if r.pct(50) {
                data.extend_from_slice(b"\n1 | a b\n\xff\xfe | \n\n");
            }
            let mut f = Frag { data: &data, pos: 0, cur: 0, rng: r.clone(), mode: 2, interrupts: 0 };
            for _ in 0..data.len() + 2 {
                match guard(|| p.chunk(&mut f, String::new())) {
                    Ok(Ok(Some(s))) => {
                        if let Err((s2, m)) = guard(|| p.parse(&s).is_ok()) {
                            return c.fail(&s2, format!("{fmt:?} on {s:?}: {m}"));
                        }
                    }
                    Ok(_) => break,
                    Err((s, m)) => return c.fail(&s, format!("{fmt:?} reading bytes {data:?}: {m}")),
                }
            }
        }
        7 | 8 => model_bytes(r, c),
        _ => model_json_hostile(r, c),
    }
}
fn small_model(r: &mut Rng) -> Option<(Workspace, serde_json::Value)> {
    let mut g = gen_global(r);
    g.bits = r.range(2, 5) as u8;
    let (_, st) = any_stack(r, false);
    let cfg = cfg_json(&g, &st);
    let mut w = make(&cfg).ok()?;
    for _ in 0..r.range(0, 3) {
        let f = gen_feats(r, is_cb(&w), g.bits, g.seed, &val);
        let l = gen_label(r, label_type(&w), f.n_actions());
        w.learn(&mut f.build(), &l);
    }
    Some((w, cfg))
}
/// The first 198 bytes of a model file of 1365 bytes; the first 134 of 1499.
const TRUNCATED_MODELS: &[&str] = &["676c6f62616c5f636f6e666967006e756d4269747300686173685365656400636f6e7374616e7446656174757265456e61626c656400696e746572616374696f6e73004e616d6500057820795f7a00010d0101010b14016100011701010107140568c3a9c3a90001250101010b14031b12052424240568c3a9c3a900013a0101010b1401620001440101010714020d042424016100015301010107140568c3a9c3a90001610101010b140211042424034123072828280498a283ac0005000100040000006b02", "676c6f62616c5f636f6e666967006e756d4269747300686173685365656400636f6e7374616e7446656174757265456e61626c656400696e746572616374696f6e73004e616d6500057820795f7a00010d0101010b14057820795f7a00011b0101010b140211042424016200012a010101071404757365720001370101010a14021004242401"];
fn model_bytes(r: &mut Rng, c: &mut Ctx) {
    let Some((w, cfg)) = small_model(r) else { return };
    let b = model_of(&w);
    for _ in 0..10 {
        let (mut d, kind) = (b.clone(), r.below(3));
        match kind {
            0 => d.truncate(r.below(b.len())),
            1 => d = (0..r.range(0, 64)).map(|_| r.next() as u8).collect(),
            _ => {
                let k = r.range(1, b.len() - 1);
                d = b[k..].to_vec();
            }
        }
        if kind == 1 && r.pct(30) {
            d = cfg.to_string().into_bytes();
        }
        c.eval(1);
        c.stat(["truncated models", "foreign bytes", "beheaded models"][kind], 1);
        match guard(|| Workspace::create_from_model(&d).map(|_| ()).map_err(|e| e.to_string())) {
            Err((s, m)) => return c.fail(&s, format!("create_from_model ({} of {} bytes of a model of {cfg}, kind {kind}): {m}; bytes {:?}", d.len(), b.len(), &d[..d.len().min(200)])),
            Ok(Ok(())) if kind < 2 => return c.fail("bad-model-accepted", format!("{} of {} bytes of a model of {cfg} accepted", d.len(), b.len())),
            _ => (),
        }
    }
    c.distinct_of(&format!("{b:?}"));
}
/// One structural change somewhere: a number moved by one, a key that is a number moved to a neighbour of a number that
/// occurs in the document, a member or an item taken out, doubled or moved.
fn twist(r: &mut Rng, v: &mut serde_json::Value) {
    use serde_json::Value;
    fn walk(v: &Value, at: &mut Vec<String>, out: &mut Vec<Vec<String>>, nums: &mut Vec<u64>) {
        match v {
            Value::Object(m) => m.iter().for_each(|(k, x)| {
                at.push(k.replace('~', "~0").replace('/', "~1"));
                walk(x, at, out, nums);
                at.pop();
            }),
            Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| {
                at.push(i.to_string());
                walk(x, at, out, nums);
                at.pop();
            }),
            Value::Number(n) => nums.extend(n.as_u64()),
            _ => (),
        }
        out.push(at.clone());
    }
    let (mut paths, mut nums) = (vec![], vec![0]);
    walk(v, &mut vec![], &mut paths, &mut nums);
    let Some(x) = v.pointer_mut(&r.pick(&paths).iter().map(|s| format!("/{s}")).collect::<String>()) else { return };
    let near = |r: &mut Rng| (*r.pick(&nums)).wrapping_add(r.below(3) as u64).wrapping_sub(1);
    match x {
        Value::Number(n) => *x = n.as_u64().map(|n| json!(n.wrapping_add(*r.pick(&[1, u64::MAX])))).unwrap_or(json!(near(r))),
        Value::Array(a) if !a.is_empty() => {
            let i = r.below(a.len());
            match r.below(3) {
                0 => drop(a.remove(i)),
                1 => a.push(a[i].clone()),
                _ => a.swap(i, 0),
            }
        }
        Value::Object(m) if !m.is_empty() => {
            let k = m.keys().nth(r.below(m.len())).unwrap().clone();
            let old = m.remove(&k).unwrap();
            if k.parse::<u64>().is_ok() {
                m.insert(near(r).to_string(), old);
            }
        }
        _ => *x = json!(near(r)),
    }
}
fn model_json_hostile(r: &mut Rng, c: &mut Ctx) {
    let Some((w, cfg)) = small_model(r) else { return };
    let v = model_json(&w);
    let text = v.to_string();
    for _ in 0..6 {
        let t = match r.below(6) {
            3..=5 => {
                let mut x = v.clone();
                (0..r.range(1, 2)).for_each(|_| twist(r, &mut x));
                x.to_string()
            }
            0 => {
                // change one value somewhere
                let spots: Vec<usize> = text.match_indices(':').map(|x| x.0).collect();
                let k = *r.pick(&spots);
                let end = text[k + 1..].find(|ch| ch == ',' || ch == '}' || ch == ']').map(|e| k + 1 + e).unwrap_or(text.len());
                format!("{}:{}{}", &text[..k], r.pick(&["null", "[]", "{}", "-1", "1e30", "\"s\"", "65535", "255", "0", "4294967295", "[[1,2]]"]), &text[end..])
            }
            1 => mutate(r, &text),
            _ => (*r.pick(&["{}", "[]", "null", "1", "\"x\"", "{\"global_config\":{}}"])).to_string(),
        };
        let Ok(j) = serde_json::from_str::<serde_json::Value>(&t) else { continue };
        if j == v {
            continue;
        }
        c.eval(1);
        match guard(|| Workspace::deserialize_from_json(&j).map(|_| ()).map_err(|e| e.to_string())) {
            Err((s, m)) => return c.fail(&s, format!("deserialize_from_json of {t}: {m}")),
            Ok(Ok(())) => c.stat("altered JSON models accepted", 1),
            Ok(Err(_)) => c.stat("altered JSON models rejected", 1),
        }
    }
    c.distinct_of(&text);
    // broken configurations
    for _ in 0..6 {
        let t = mutate(r, &cfg.to_string());
        c.eval(1);
        if let Err((s, m)) = guard(|| make(&serde_json::from_str(&t).unwrap_or(serde_json::Value::Null)).is_ok()) {
            return c.fail(&s, format!("configuration {t}: {m}"));
        }
        let y = reductionml_core::workspace::Configuration::from_yaml_str(&t).is_ok();
        c.stat(if y { "hostile YAML accepted" } else { "hostile YAML rejected" }, 1);
    }
}
