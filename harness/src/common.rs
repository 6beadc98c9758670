//! Shared pieces: random source, report, independent hash oracle, example model, generators.
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures};
use reductionml_core::workspace::{Configuration, Workspace};
use reductionml_core::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::Hasher;

// ---------------------------------------------------------------- random source
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64, stream: &str, n: u64) -> Rng {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write(stream.as_bytes());
        let mut r = Rng(h.finish() ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ n.wrapping_mul(0xD1B54A32D192ED03));
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// inclusive
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// The length of a history: between a and b, once in a while much longer.
    pub fn steps(&mut self, a: usize, b: usize) -> usize {
        if self.below(400) == 0 {
            return self.range(b, 40 * b);
        }
        self.range(a, b)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f32 {
        (a + (b - a) * self.unit()) as f32
    }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u32) -> bool {
        self.below(100) < pct as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

// ---------------------------------------------------------------- reporting
pub struct Fail {
    pub sig: String,
    pub msg: String,
    pub case: u64,
}
#[derive(Default)]
pub struct Ctx {
    pub case: u64,
    pub verbose: bool,
    pub thorough: bool,
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub stats: BTreeMap<String, u64>,
    pub fails: Vec<Fail>,
    pub sample_now: bool,
}
impl Ctx {
    pub fn fail(&mut self, sig: &str, msg: impl Into<String>) {
        let mut msg: String = msg.into();
        if msg.len() > 6000 {
            let mut n = 6000;
            while !msg.is_char_boundary(n) {
                n -= 1;
            }
            msg.truncate(n);
        }
        if self.verbose {
            println!("FAIL case {} [{}] {}", self.case, sig, msg);
        }
        let case = self.case;
        self.fails.push(Fail { sig: sig.to_string(), msg, case });
    }
    pub fn eval(&mut self, n: u64) {
        self.evaluations += n;
    }
    pub fn stat(&mut self, k: &str, n: u64) {
        *self.stats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn distinct_of(&mut self, s: &str) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write(s.as_bytes());
        self.distinct.insert(h.finish());
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample_now && self.samples.len() < 2 {
            let mut s = f();
            if s.len() > 900 {
                let mut n = 900;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn merge(&mut self, o: Ctx) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        self.samples.extend(o.samples);
        for (k, v) in o.stats {
            *self.stats.entry(k).or_insert(0) += v;
        }
        self.fails.extend(o.fails);
    }
}

// ---------------------------------------------------------------- panics observed
thread_local! {
    static LAST_PANIC: std::cell::RefCell<(String, String)> = Default::default();
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.file().to_string()).unwrap_or_default();
        let line = info.location().map(|l| l.line()).unwrap_or(0);
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = (loc, format!("{msg} (line {line})")));
    }));
}
/// Numbers of any length look the same in a signature.
fn collapse(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if !(c == '#' && o.ends_with('#')) {
            o.push(c);
        }
    }
    o
}
/// Runs f; Err(signature, message) when the code panicked.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (file, msg) = LAST_PANIC.with(|p| p.borrow().clone());
            let short = file.rsplit("/reductionml-").next().unwrap_or(&file).to_string();
            let short = if file.contains("/reductionml-") { format!("reductionml-{short}") } else { short.rsplit("/index.crates.io-").next().unwrap_or("").splitn(2, '/').nth(1).unwrap_or(short.rsplit('/').next().unwrap_or("")).to_string() };
            let class: String = msg.split(" (line").next().unwrap_or("").chars().take_while(|c| *c != '`' && *c != '\n' && *c != ':').map(|c| if c.is_ascii_digit() { '#' } else { c }).take(60).collect();
            let class = collapse(&class);
            Err((format!("panic:{}:{}", short, class.trim()), format!("panicked in {file}: {msg}")))
        }
    }
}

// ---------------------------------------------------------------- hash oracle
pub const FNV: u32 = 16777619;
pub fn xxh(s: &str, seed: u32) -> u32 {
    twox_hash::xxh3::hash64_with_seed(s.as_bytes(), seed as u64) as u32
}
pub fn mask(bits: u8) -> u32 {
    ((1u64 << bits) - 1) as u32
}
pub fn is_default_name(n: &str) -> bool {
    n == " " || n == ":default"
}
pub fn ns_hash(name: &str, seed: u32) -> u32 {
    if is_default_name(name) {
        0
    } else {
        xxh(name, seed)
    }
}
/// Key of a namespace as the parsers must assign it.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub enum Key {
    Named(u32),
    Raw(u32),
    Default,
}
pub fn key_of(name: &str, seed: u32) -> Key {
    if is_default_name(name) {
        Key::Default
    } else {
        Key::Named(xxh(name, seed))
    }
}
pub fn to_ns(k: Key) -> Namespace {
    match k {
        Key::Named(h) => Namespace::Named(h.into()),
        Key::Raw(h) => Namespace::RawHash(h.into()),
        Key::Default => Namespace::Default,
    }
}
pub fn from_ns(n: Namespace) -> Key {
    match n {
        Namespace::Named(h) => Key::Named(*h),
        Namespace::RawHash(h) => Key::Raw(*h),
        Namespace::Default => Key::Default,
    }
}

// ---------------------------------------------------------------- feature sets
/// Plain representation of sparse features: namespace -> list of (index, value) in insertion order.
pub type Terms = BTreeMap<Key, Vec<(u32, f32)>>;

pub fn build(t: &Terms) -> SparseFeatures {
    let mut f = SparseFeatures::new();
    fill(&mut f, t);
    f
}
pub fn fill(f: &mut SparseFeatures, t: &Terms) {
    for (k, v) in t {
        let ns = f.get_or_create_namespace(to_ns(*k));
        for (i, x) in v {
            ns.add_feature((*i).into(), *x);
        }
    }
}
/// Non-empty namespaces, features in stored order.
pub fn dump(f: &SparseFeatures) -> Terms {
    let mut r = Terms::new();
    for (ns, it) in f.namespaces() {
        let mut v: Vec<(u32, f32)> = it.map(|(i, x)| (*i, x)).collect();
        // the two listings of a namespace go together
        if let Some(n) = f.get_namespace(ns) {
            if n.indices().len() != v.len() || n.values().len() != v.len() || n.size() != v.len() {
                v.push((u32::MAX, n.values().len() as f32));
            }
        }
        if !v.is_empty() {
            r.insert(from_ns(ns), v);
        }
    }
    r
}
pub fn nonempty(t: &Terms) -> Terms {
    t.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (*k, v.clone())).collect()
}
pub fn same_bits(a: &Terms, b: &Terms) -> bool {
    let (a, b) = (nonempty(a), nonempty(b));
    a.len() == b.len()
        && a.iter().zip(b.iter()).all(|((k, v), (k2, v2))| {
            k == k2 && v.len() == v2.len() && v.iter().zip(v2).all(|(x, y)| x.0 == y.0 && x.1.to_bits() == y.1.to_bits())
        })
}
fn near(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-6 * a.abs().max(b.abs()) || (a.is_nan() && b.is_nan())
}
/// Same multiset per namespace, values up to rounding.
pub fn same_multiset(a: &Terms, b: &Terms) -> bool {
    let (a, b) = (nonempty(a), nonempty(b));
    if a.len() != b.len() {
        return false;
    }
    for ((k, v), (k2, v2)) in a.iter().zip(b.iter()) {
        if k != k2 || v.len() != v2.len() {
            return false;
        }
        let mut v = v.clone();
        let mut v2 = v2.clone();
        v.sort_by(|x, y| x.0.cmp(&y.0).then(x.1.total_cmp(&y.1)));
        v2.sort_by(|x, y| x.0.cmp(&y.0).then(x.1.total_cmp(&y.1)));
        if !v.iter().zip(v2.iter()).all(|(x, y)| x.0 == y.0 && near(x.1, y.1)) {
            return false;
        }
    }
    true
}
#[derive(Clone, Debug)]
pub enum Feats {
    Simple(Terms),
    Cb(Option<Terms>, Vec<Terms>),
}
impl Feats {
    pub fn build(&self) -> Features<'static> {
        match self {
            Feats::Simple(t) => Features::SparseSimple(build(t)),
            Feats::Cb(s, a) => Features::SparseCBAdf(CBAdfFeatures { shared: s.as_ref().map(build), actions: a.iter().map(build).collect() }),
        }
    }
    pub fn n_actions(&self) -> usize {
        match self {
            Feats::Simple(_) => 0,
            Feats::Cb(_, a) => a.len(),
        }
    }
}
pub fn dump_features(f: &Features) -> Feats {
    match f {
        Features::SparseSimple(s) => Feats::Simple(dump(s)),
        Features::SparseSimpleRef(s) => Feats::Simple(dump(s)),
        Features::SparseCBAdf(c) => Feats::Cb(c.shared.as_ref().map(dump), c.actions.iter().map(dump).collect()),
        Features::SparseCBAdfRef(c) => Feats::Cb(c.shared.as_ref().map(dump), c.actions.iter().map(dump).collect()),
    }
}
fn cmp_feats(a: &Feats, b: &Feats, f: &dyn Fn(&Terms, &Terms) -> bool) -> bool {
    let empty = Terms::new();
    match (a, b) {
        (Feats::Simple(x), Feats::Simple(y)) => f(x, y),
        (Feats::Cb(s, x), Feats::Cb(s2, y)) => {
            // an absent shared part and an empty one carry the same features
            f(s.as_ref().unwrap_or(&empty), s2.as_ref().unwrap_or(&empty)) && x.len() == y.len() && x.iter().zip(y).all(|(p, q)| f(p, q))
        }
        _ => false,
    }
}
pub fn feats_same_bits(a: &Feats, b: &Feats) -> bool {
    cmp_feats(a, b, &same_bits)
}
pub fn feats_same_multiset(a: &Feats, b: &Feats) -> bool {
    cmp_feats(a, b, &same_multiset)
}

// ---------------------------------------------------------------- values
pub fn val(r: &mut Rng) -> f32 {
    match r.below(12) {
        0 => 0.0,
        1..=3 => 1.0,
        4 => -1.0,
        5 => 0.5,
        6 => r.uni(-10.0, 10.0),
        7 => (r.range(0, 6) as f32) - 3.0,
        _ => r.uni(-2.0, 2.0),
    }
}
/// Moderate or tiny: products of a few of them may underflow but never overflow.
pub fn small_val(r: &mut Rng) -> f32 {
    if r.pct(40) {
        return val(r);
    }
    let e = r.uni(-24.0, 3.0) as f64;
    let s = if r.pct(50) { -1.0 } else { 1.0 };
    (s * 10f64.powf(e)) as f32
}
pub fn hostile_val(r: &mut Rng) -> f32 {
    match r.below(10) {
        0 => f32::MAX,
        1 => -f32::MAX,
        2 => 1e30,
        3 => -1e20,
        4 => f32::MIN_POSITIVE,
        5 => 1e-40,
        6 => 0.0,
        7 => -0.0,
        _ => {
            let e = r.uni(-40.0, 38.0) as f64;
            let s = if r.pct(50) { -1.0 } else { 1.0 };
            (s * 10f64.powf(e)) as f32
        }
    }
}
pub const NS_NAMES: &[&str] = &[" ", "a", "b", "c", "user", "x y_z", "héé"];

pub fn gen_terms(r: &mut Rng, bits: u8, seed: u32, max_ns: usize, max_f: usize, v: &dyn Fn(&mut Rng) -> f32) -> Terms {
    let mut t = Terms::new();
    let n = r.range(0, max_ns);
    let few = r.pct(60); // few distinct indices: features are revisited
    for _ in 0..n {
        let name = *r.pick(NS_NAMES);
        let k = key_of(name, seed);
        let m = r.range(0, max_f);
        let e = t.entry(k).or_default();
        for _ in 0..m {
            let i = if few { (r.below(6) as u32 * 7 + 1) & mask(bits) } else { r.next() as u32 & mask(bits) };
            let x = v(r);
            e.push((i, x));
        }
    }
    t
}
pub fn gen_feats(r: &mut Rng, cb: bool, bits: u8, seed: u32, v: &dyn Fn(&mut Rng) -> f32) -> Feats {
    if !cb {
        return Feats::Simple(gen_terms(r, bits, seed, 4, 4, v));
    }
    let shared = if r.pct(75) { Some(gen_terms(r, bits, seed, 3, 3, v)) } else { None };
    let n = match r.below(2000) {
        0 => r.range(250, 270),
        1..=19 => r.range(6, 40),
        _ => r.range(1, 5),
    };
    Feats::Cb(shared, (0..n).map(|_| gen_terms(r, bits, seed, 3, 3, v)).collect())
}
pub fn gen_label(r: &mut Rng, lt: LabelType, n_actions: usize) -> Label {
    match lt {
        LabelType::Simple => {
            let w = match r.below(10) {
                0 => 0.0,
                1 | 2 => r.uni(0.1, 3.0),
                _ => 1.0,
            };
            Label::Simple(SimpleLabel::new(val(r), w))
        }
        LabelType::Binary => Label::Binary(r.pct(50).into()),
        LabelType::CB => Label::CB(CBLabel::new(r.below(n_actions), r.uni(-1.0, 1.0), r.uni(0.05, 1.0))),
    }
}

// ---------------------------------------------------------------- configurations
pub fn gen_ns_def(r: &mut Rng) -> Value {
    let n = *r.pick(NS_NAMES);
    if n == " " {
        json!("Default")
    } else {
        json!({ "Name": n })
    }
}
#[derive(Clone, Debug)]
pub struct Global {
    pub bits: u8,
    pub seed: u32,
    pub constant: bool,
    pub interactions: Vec<Vec<String>>,
}
impl Global {
    pub fn json(&self) -> Value {
        let ints: Vec<Value> = self
            .interactions
            .iter()
            .map(|i| Value::Array(i.iter().map(|n| if n == " " { json!("Default") } else { json!({"Name": n}) }).collect()))
            .collect();
        json!({"numBits": self.bits, "hashSeed": self.seed, "constantFeatureEnabled": self.constant, "interactions": ints})
    }
}
pub fn gen_global(r: &mut Rng) -> Global {
    let bits = if r.pct(5) { r.range(12, 18) } else { r.range(2, 9) } as u8;
    let seed = match r.below(4) {
        0 | 1 => 0,
        2 => r.below(1000) as u32,
        _ => r.next() as u32,
    };
    let n = if r.pct(50) { 0 } else { r.range(1, 3) };
    let interactions = (0..n)
        .map(|_| {
            let k = r.range(2, 3);
            let same = r.pct(30);
            let f = r.pick(NS_NAMES).to_string();
            (0..k).map(|_| if same { f.clone() } else { r.pick(NS_NAMES).to_string() }).collect()
        })
        .collect();
    Global { bits, seed, constant: r.pct(60), interactions }
}
pub fn coin_cfg(r: &mut Rng) -> Value {
    let mut m = serde_json::Map::new();
    if r.pct(40) {
        m.insert("alpha".into(), json!(*r.pick(&[0.1, 1.0, 2.5, 4.0, 10.0])));
    }
    if r.pct(40) {
        m.insert("beta".into(), json!(*r.pick(&[0.05, 0.5, 1.0, 3.0])));
    }
    if r.pct(15) {
        m.insert("linkFunction".into(), json!("Logistic"));
    }
    if r.pct(8) {
        m.insert("lossFunction".into(), json!({"Logistic": {}}));
    }
    if m.is_empty() && r.pct(50) {
        json!({"typename": "Coin"})
    } else {
        json!({"typename": "Coin", "config": m})
    }
}
pub fn elementwise(r: &mut Rng, base: Value) -> Value {
    let one = gen_ns_def(r);
    let two = gen_ns_def(r);
    json!({"typename": "ElementwiseInteraction", "config": {"regressor": base, "one": one, "two": two, "keepOriginalFeatures": r.pct(50)}})
}
pub fn maybe_debug(r: &mut Rng, v: Value, pct: u32) -> Value {
    if r.pct(pct) {
        json!({"typename": "Debug", "config": {"id": "d", "next": v}})
    } else {
        v
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Scalar,
    Binary,
    Scores,
    Probs,
}
/// Debug layers only with debug=true (they print every call).
pub fn gen_stack(r: &mut Rng, kind: Kind, debug: bool) -> Value {
    let d = if debug { 15 } else { 0 };
    match kind {
        Kind::Scalar => {
            let c = coin_cfg(r);
            maybe_debug(r, c, d)
        }
        Kind::Binary => {
            let s = gen_stack(r, Kind::Scalar, debug);
            let b = json!({"typename": "Binary", "config": {"regressor": s}});
            maybe_debug(r, b, d)
        }
        Kind::Scores => {
            let s = gen_stack(r, Kind::Scalar, debug);
            let t = *r.pick(&["ips", "mtr"]);
            let b = json!({"typename": "CbAdf", "config": {"cbType": t, "regressor": s}});
            maybe_debug(r, b, d)
        }
        Kind::Probs => {
            let mut s = gen_stack(r, Kind::Scores, debug);
            let which = r.below(3);
            let b = match which {
                0 => json!({"typename": "CbExploreAdfGreedy", "config": {"epsilon": *r.pick(&[0.0, 0.05, 0.3, 1.0]), "cbAdf": s}}),
                1 => json!({"typename": "CbExploreAdfSoftmax", "config": {"lambda": *r.pick(&[0.0, 1.0, 8.0]), "cbAdf": s}}),
                _ => {
                    if s["typename"] == "CbAdf" {
                        s["config"]["cbType"] = json!("mtr");
                    }
                    json!({"typename": "CbExploreAdfSquareCb", "config": {"gammaScale": *r.pick(&[1.0, 10.0, 100.0]), "uniformEpsilon": *r.pick(&[0.0, 0.1, 0.5]), "cbAdf": s}})
                }
            };
            maybe_debug(r, b, d)
        }
    }
}
pub fn cfg_json(g: &Global, stack: &Value) -> Value {
    json!({"globalConfig": g.json(), "entryReduction": stack})
}
pub fn make(cfg: &Value) -> Result<Workspace, String> {
    let c: Configuration = Configuration::from_json_str(&cfg.to_string()).map_err(|e| e.to_string())?;
    Workspace::new(c).map_err(|e| e.to_string())
}
pub fn label_type(w: &Workspace) -> LabelType {
    w.get_entry_reduction().types().input_label_type()
}
pub fn is_cb(w: &Workspace) -> bool {
    w.get_entry_reduction().types().input_features_type() == FeaturesType::SparseCBAdf
}
/// Exact text of a prediction (bit patterns).
pub fn pbits(p: &Prediction) -> String {
    let fb = |x: f32| if x.is_nan() { "nan".to_string() } else { format!("{:08x}", x.to_bits()) };
    match p {
        Prediction::Scalar(s) => format!("S {} {}", fb(s.prediction), fb(s.raw_prediction)),
        Prediction::Binary(b) => format!("B {}", b.0),
        Prediction::ActionScores(a) => a.0.iter().fold("A".into(), |s, (i, x)| format!("{s} {i}:{}", fb(*x))),
        Prediction::ActionProbs(a) => a.0.iter().fold("P".into(), |s, (i, x)| format!("{s} {i}:{}", fb(*x))),
    }
}
/// Numbers of a prediction.
pub fn pnums(p: &Prediction) -> Vec<f32> {
    match p {
        Prediction::Scalar(s) => vec![s.prediction, s.raw_prediction],
        Prediction::Binary(b) => vec![b.0 as u8 as f32],
        Prediction::ActionScores(a) => a.0.iter().map(|x| x.1).collect(),
        Prediction::ActionProbs(a) => a.0.iter().map(|x| x.1).collect(),
    }
}
pub fn label_text(l: &Label) -> String {
    match l {
        Label::Simple(s) => format!("simple value={} weight={}", s.value(), s.weight()),
        Label::Binary(b) => format!("binary {}", b.0),
        Label::CB(c) => format!("cb action={} cost={} p={}", c.action(), c.cost(), c.probability()),
    }
}
pub fn model_of(w: &Workspace) -> Vec<u8> {
    w.serialize_model().unwrap()
}
pub fn model_json(w: &Workspace) -> Value {
    w.serialize_to_json().unwrap()
}
/// f32 closeness relative to magnitude
pub fn close(a: f32, b: f32, rel: f64, abs: f64) -> bool {
    if a.to_bits() == b.to_bits() || a == b {
        return true;
    }
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    let (a, b) = (a as f64, b as f64);
    (a - b).abs() <= abs + rel * a.abs().max(b.abs())
}
