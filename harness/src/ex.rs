//! Structured examples, their renderings in every input format, and what they denote.
use crate::common::*;

#[derive(Clone, Debug, PartialEq)]
pub enum F {
    /// name with a number
    Num(String, String),
    /// name alone (value one)
    One(String),
    /// name with a string value
    Str(String, String),
    /// number alone: positional
    Pos(String),
}
#[derive(Clone, Debug)]
pub struct Ns {
    pub name: String,
    /// VW text multiplier
    pub mult: Option<String>,
    pub feats: Vec<F>,
}
pub type Part = Vec<Ns>;
#[derive(Clone, Debug)]
pub enum Lab {
    Simple(String, Option<String>),
    /// action, cost, probability
    Cb(usize, String, String),
}
#[derive(Clone, Debug)]
pub struct Ex {
    pub cb: bool,
    pub shared: Option<Part>,
    /// one part when not cb
    pub parts: Vec<Part>,
    pub label: Option<Lab>,
}

pub fn num(s: &str) -> f32 {
    s.parse::<f32>().unwrap()
}
/// Number text valid in JSON and in VW text.
pub fn gen_num(r: &mut Rng) -> String {
    match r.below(14) {
        0 => "0".into(),
        1 => "1".into(),
        2 => "-1".into(),
        3 => "0.5".into(),
        4 => format!("{}", r.range(0, 5000)),
        5 => format!("-{}.{:03}", r.below(100), r.below(1000)),
        6 => format!("{}e-{}", r.range(1, 9), r.range(1, 12)),
        7 => format!("{}.{}e{}", r.range(1, 9), r.below(100), r.range(0, 9)),
        8 => "-0.0".into(),
        9 => format!("{:?}", r.uni(-10.0, 10.0)),
        10 => format!("{}", r.next() >> 30),
        11 => format!("{}.{}", r.below(10), r.next()),
        _ => format!("{}.{}", r.below(4), r.below(100)),
    }
}
const NAMES: &[&str] = &["a", "b", "f1", "price", "x_y", "0", "12", "Héllo", "日本語", "-", "q'q", "A=b", "longer_feature_name_0123456789", "shared", "e5", "a\u{a0}b", "x\u{3000}"];
const NSN: &[&str] = &[" ", " ", "a", "b", "ns", "User", "Ünï", "x-1", "0", "default", "features", "n\u{2003}"];
const VALS: &[&str] = &["red", "v1", "x/y", "ünï", "1.5x", "--", "e", "0x10", "true", "abc=def", "\u{a0}v", "v\u{3000}"];

#[derive(Clone, Copy)]
pub struct Style {
    /// names usable in every format
    pub common: bool,
    /// VW multipliers, repeated namespaces
    pub text: bool,
    /// any Unicode, spaces, escapes in names
    pub json: bool,
    /// a namespace is an array or an object, never both
    pub uniform: bool,
    pub underscore: bool,
}
fn name(r: &mut Rng, s: Style) -> String {
    if s.json && r.pct(15) {
        return (*r.pick(&["two words", "a:b", "bar|bar", "semi;colon", "", " lead", "trail ", "\u{1F600}", "{curly}", "[0]"])).to_string();
    }
    if r.pct(20) {
        return format!("f{}", r.below(1000));
    }
    if r.below(400) == 0 {
        // Lengths around which hashing changes its method
        let n = *r.pick(&[3, 4, 8, 9, 16, 17, 128, 129, 240, 241, 1024, 1025, 3000]) + r.below(2);
        return (0..n).map(|i| (b'a' + (i * i + n) as u8 % 26) as char).collect();
    }
    if !s.common && r.below(20000) == 0 {
        return "n".repeat(r.range(60_000, 140_000));
    }
    r.pick(NAMES).to_string()
}
pub fn gen_ns(r: &mut Rng, s: Style) -> Ns {
    let mut nm = if s.json && r.pct(10) { (*r.pick(&["two words", "a:b", "", "quote'q", "|"])).to_string() } else { r.pick(NSN).to_string() };
    if s.json && is_default_name(&nm) && r.pct(50) {
        nm = ":default".into();
    }
    let huge = !s.common && r.below(20000) == 0;
    let n = match r.below(1000) {
        _ if huge => r.range(65_530, 66_000),
        0 if !s.common => r.range(120, 1100),
        1..=30 => r.range(20, 120),
        _ => r.range(0, 5),
    };
    let kind = if huge { 0 } else { r.below(4) }; // 0: all positional, 1: all bare names, else mixed
    let feats = (0..n)
        .map(|_| match kind {
            0 => F::Pos(gen_num(r)),
            1 => F::One(name(r, s)),
            _ => match r.below(if s.uniform { 6 } else { 7 }) {
                0 | 1 => F::One(name(r, s)),
                2 | 3 => F::Num(name(r, s), gen_num(r)),
                4 | 5 => F::Str(
                    if s.text && r.pct(10) { String::new() } else { name(r, s) },
                    if s.json && r.pct(20) { (*r.pick(&["", "1.5", "two words", "nan", "q\"q", "a:b"])).to_string() } else if s.text && r.pct(8) { String::new() } else { r.pick(VALS).to_string() },
                ),
                _ => F::Pos(gen_num(r)),
            },
        })
        .collect();
    let mult = if s.text && nm != " " && r.pct(30) { Some(gen_num(r)) } else { None };
    Ns { name: nm, mult, feats }
}
pub fn gen_part(r: &mut Rng, s: Style) -> Part {
    let n = if r.pct(5) { 0 } else { r.range(1, 4) };
    let mut v: Vec<Ns> = (0..n).map(|_| gen_ns(r, s)).collect();
    if s.common || !s.text {
        // JSON objects cannot repeat a key
        let mut seen = std::collections::HashSet::new();
        v.retain(|x| seen.insert(if s.common && is_default_name(&x.name) { " ".to_string() } else { x.name.clone() }));
    }
    v
}
pub fn gen_ex(r: &mut Rng, cb: bool, s: Style) -> Ex {
    if !cb {
        let label = match r.below(4) {
            0 => None,
            1 => Some(Lab::Simple(gen_num(r), Some(gen_num(r).trim_start_matches('-').to_string()))),
            _ => Some(Lab::Simple(gen_num(r), None)),
        };
        return Ex { cb, shared: None, parts: vec![gen_part(r, s)], label };
    }
    let n = match r.below(3000) {
        0 => r.range(250, 270),
        1..=90 => r.range(10, 30),
        _ => r.range(1, 5),
    };
    let label = if r.pct(75) { Some(Lab::Cb(r.below(n), gen_num(r), r.pick(&["1", "0.5", "0.25", "1e-2", "0.05000000074505806"]).to_string())) } else { None };
    Ex { cb, shared: if r.pct(70) { Some(gen_part(r, s)) } else { None }, parts: (0..n).map(|_| gen_part(r, s)).collect(), label }
}

// ---------------------------------------------------------------- meaning
pub fn terms_of(p: &Part, seed: u32, bits: u8) -> Terms {
    let mut t = Terms::new();
    for ns in p {
        let k = key_of(&ns.name, seed);
        let h = ns_hash(&ns.name, seed);
        let mult = ns.mult.as_deref().map(num).unwrap_or(1.0);
        let e = t.entry(k).or_default();
        let mut pos = 0u32;
        for f in &ns.feats {
            let (hash, v) = match f {
                F::One(n) => (xxh(n, h), 1.0),
                F::Num(n, v) => (xxh(n, h), num(v)),
                F::Str(n, v) => (xxh(v, xxh(n, h)), 1.0),
                F::Pos(v) => {
                    pos += 1;
                    (h.wrapping_add(pos - 1), num(v))
                }
            };
            e.push((hash & mask(bits), v * mult));
        }
    }
    t
}
pub fn meaning(e: &Ex, seed: u32, bits: u8) -> Feats {
    if e.cb {
        Feats::Cb(e.shared.as_ref().map(|p| terms_of(p, seed, bits)), e.parts.iter().map(|p| terms_of(p, seed, bits)).collect())
    } else {
        Feats::Simple(terms_of(&e.parts[0], seed, bits))
    }
}
/// Some(numbers) of the label: value, weight | action, cost, probability.
pub fn label_meaning(l: &Option<Lab>) -> Option<(usize, f32, f32)> {
    match l {
        None => None,
        Some(Lab::Simple(v, w)) => Some((usize::MAX, num(v), w.as_deref().map(num).unwrap_or(1.0))),
        Some(Lab::Cb(a, c, p)) => Some((*a, num(c), num(p))),
    }
}
pub fn label_nums(l: &Option<reductionml_core::Label>) -> Option<(usize, f32, f32)> {
    use reductionml_core::Label;
    match l {
        None => None,
        Some(Label::Simple(s)) => Some((usize::MAX, s.value(), s.weight())),
        Some(Label::CB(c)) => Some((c.action(), c.cost(), c.probability())),
        Some(Label::Binary(b)) => Some((usize::MAX - 1, b.0 as u8 as f32, 1.0)),
    }
}
pub fn label_eq(a: Option<(usize, f32, f32)>, b: Option<(usize, f32, f32)>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.0 == y.0 && close(x.1, y.1, 1e-6, 0.0) && close(x.2, y.2, 1e-6, 0.0),
        _ => false,
    }
}

// ---------------------------------------------------------------- VW text
fn sp(r: &mut Rng, plain: bool) -> String {
    if plain || r.pct(85) {
        " ".into()
    } else {
        (*r.pick(&["  ", "\t", " \t ", "    "])).to_string()
    }
}
/// Other whitespace belongs to the names.
pub fn ascii_trim_end(s: &str) -> &str {
    s.trim_end_matches(|c: char| c.is_ascii_whitespace())
}
fn vw_part(r: &mut Rng, p: &Part, plain: bool) -> String {
    let mut s = String::new();
    for ns in p {
        s.push('|');
        if is_default_name(&ns.name) {
            s.push(' ');
        } else {
            s.push_str(&ns.name);
            if let Some(m) = &ns.mult {
                s.push(':');
                s.push_str(m);
            }
        }
        for f in &ns.feats {
            s.push_str(&sp(r, plain));
            match f {
                F::One(n) => {
                    s.push_str(n);
                    if !plain && r.pct(10) {
                        s.push_str(":1");
                    }
                }
                F::Num(n, v) => s.push_str(&format!("{n}:{v}")),
                F::Str(n, v) => s.push_str(&format!("{n}:{v}")),
                F::Pos(v) => s.push_str(&format!(":{v}")),
            }
        }
        if plain || r.pct(70) {
            s.push(' ');
        }
    }
    if p.is_empty() {
        s.push('|');
        if r.pct(50) {
            s.push(' ');
        }
    }
    if r.pct(70) {
        s.truncate(ascii_trim_end(&s).len());
    }
    s
}
fn vw_init(r: &mut Rng, label: &str, plain: bool) -> String {
    let mut s = String::new();
    if !label.is_empty() {
        s.push_str(label);
        s.push(' ');
    }
    if !plain && r.pct(20) {
        // a tag: quoted with or without a following space, or touching the bar
        s.push_str(*r.pick(&["'tag ", "'tag", "tag", "'1 ", "id_7"]));
    } else if !plain && r.pct(10) {
        s.push_str("  ");
    }
    s
}
pub fn vw(r: &mut Rng, e: &Ex, plain: bool) -> String {
    if !e.cb {
        let l = match &e.label {
            None => String::new(),
            Some(Lab::Simple(v, None)) => v.clone(),
            Some(Lab::Simple(v, Some(w))) => format!("{v} {w}"),
            _ => unreachable!(),
        };
        let i = vw_init(r, &l, plain);
        return i + &vw_part(r, &e.parts[0], plain);
    }
    let mut lines = vec![];
    if let Some(s) = &e.shared {
        let i = vw_init(r, "shared", plain);
        lines.push(i + &vw_part(r, s, plain));
    }
    for (k, p) in e.parts.iter().enumerate() {
        let l = match &e.label {
            Some(Lab::Cb(a, c, pr)) if *a == k => format!("{}:{c}:{pr}", if plain { k } else { r.below(9) }),
            _ => String::new(),
        };
        let i = vw_init(r, &l, plain);
        lines.push(i + &vw_part(r, p, plain));
    }
    lines.join("\n")
}

// ---------------------------------------------------------------- JSON
fn q(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn json_ns(r: &mut Rng, ns: &Ns, ds: bool) -> String {
    let pos = !ns.feats.is_empty() && ns.feats.iter().all(|f| matches!(f, F::Pos(_)));
    let bare = ns.feats.iter().all(|f| matches!(f, F::One(_)));
    if pos || (ns.feats.is_empty() && !ds && r.pct(50)) {
        let mut items = vec![];
        for f in &ns.feats {
            if let F::Pos(v) = f {
                items.push(v.clone());
            }
        }
        return format!("[{}]", items.join(","));
    }
    if bare && !ds && r.pct(60) {
        let items: Vec<String> = ns.feats.iter().map(|f| if let F::One(n) = f { q(n) } else { String::new() }).collect();
        return format!("[{}]", items.join(", "));
    }
    let mut items = json_members(r, ns);
    if r.pct(10) {
        items.push("\"off\":false".into());
    }
    format!("{{{}}}", items.join(","))
}
fn json_members(r: &mut Rng, ns: &Ns) -> Vec<String> {
    ns.feats
        .iter()
        .map(|f| match f {
            F::One(n) => format!("{}:{}", q(n), r.pick(&["true", "1", "1.0"])),
            F::Num(n, v) => format!("{}: {v}", q(n)),
            F::Str(n, v) => format!("{}:{}", q(n), q(v)),
            F::Pos(_) => unreachable!("mixed namespace in JSON"),
        })
        .collect()
}
/// JSON object text of a part. Positional features only in namespaces of their own.
pub fn json_part(r: &mut Rng, p: &Part) -> String {
    let v: Vec<String> = p.iter().map(|ns| format!("{}:{}", q(&ns.name), json_ns(r, ns, false))).collect();
    format!("{{{}}}", v.join(", "))
}
pub fn json_label(r: &mut Rng, l: &Option<Lab>) -> Option<String> {
    match l {
        None => {
            if r.pct(30) {
                Some("null".into())
            } else {
                None
            }
        }
        Some(Lab::Simple(v, w)) => Some(match w {
            Some(w) => format!("{{\"value\":{v},\"weight\":{w}}}"),
            None => match r.below(3) {
                0 => format!("{{\"value\": {v}}}"),
                1 => format!("{{\"weight\":1.0,\"value\":{v}}}"),
                _ => v.clone(),
            },
        }),
        Some(Lab::Cb(a, c, p)) => Some(format!("{{\"action\":{a},\"cost\":{c},\"probability\":{p}}}")),
    }
}
pub fn json(r: &mut Rng, e: &Ex) -> String {
    let mut m = vec![];
    if let Some(l) = json_label(r, &e.label) {
        m.push(format!("\"label\":{l}"));
    }
    if e.cb {
        if let Some(s) = &e.shared {
            m.push(format!("\"shared\":{}", json_part(r, s)));
        }
        let a: Vec<String> = e.parts.iter().map(|p| json_part(r, p)).collect();
        m.push(format!("\"actions\":[{}]", a.join(",")));
    } else {
        m.push(format!("\"features\":{}", json_part(r, &e.parts[0])));
    }
    if r.pct(15) {
        m.push("\"extra\":{\"a\":[1,{\"b\":null}],\"c\":\"x\"}".into());
    }
    if r.pct(30) {
        let k = r.below(m.len());
        m.rotate_left(k);
    }
    let s = if r.pct(20) { " " } else { "" };
    format!("{{{s}{}{s}}}", m.join(&format!(",{s}")))
}

// ---------------------------------------------------------------- DsJson
/// Members of a decision-service context object for a part.
fn ds_members(r: &mut Rng, p: &Part) -> Vec<String> {
    let mut v = vec![];
    for ns in p {
        let pos = ns.feats.iter().any(|f| matches!(f, F::Pos(_)));
        if is_default_name(&ns.name) && !pos {
            // plain members belong to the default namespace
            v.extend(json_members(r, ns));
        } else if is_default_name(&ns.name) {
            v.push(format!("{}:{}", q(&ns.name), json_ns(r, ns, true)));
        } else if pos {
            v.push(format!("{}:{}", q(&ns.name), json_ns(r, ns, true)));
        } else if r.pct(15) && ns.feats.len() > 1 {
            // an array of objects opens the namespace for each
            let k = r.range(1, ns.feats.len() - 1);
            let a = Ns { name: ns.name.clone(), mult: None, feats: ns.feats[..k].to_vec() };
            let b = Ns { name: ns.name.clone(), mult: None, feats: ns.feats[k..].to_vec() };
            let nul = if r.pct(30) { "null," } else { "" };
            v.push(format!("{}:[{{{}}},{nul}{{{}}}]", q(&ns.name), json_members(r, &a).join(","), json_members(r, &b).join(",")));
        } else {
            v.push(format!("{}:{}", q(&ns.name), json_ns(r, ns, true)));
        }
    }
    if r.pct(15) {
        v.push("\"_ignored\":{\"z\":1,\"y\":[1,2]}".into());
    }
    if r.pct(10) {
        v.push("\"no\":false".into());
    }
    v
}
pub fn dsjson(r: &mut Rng, e: &Ex) -> String {
    let mut m = vec![];
    if let Some(Lab::Cb(a, c, p)) = &e.label {
        m.push(format!("\"_label_cost\":{c}"));
        m.push(format!("\"_label_probability\":{p}"));
        m.push(format!("\"_label_Action\":{}", a + 1));
        m.push(format!("\"_labelIndex\":{a}"));
    }
    if r.pct(50) {
        m.push("\"Version\":\"1\",\"EventId\":\"ab12\",\"o\":[{\"v\":0.5,\"EventId\":\"x\"}]".into());
    }
    let mut c = e.shared.as_ref().map(|s| ds_members(r, s)).unwrap_or_default();
    let a: Vec<String> = e.parts.iter().map(|p| format!("{{{}}}", ds_members(r, p).join(","))).collect();
    c.push(format!("\"_multi\":[{}]", a.join(",")));
    if r.pct(50) {
        c.rotate_right(1);
    }
    m.push(format!("\"c\":{{{}}}", c.join(",")));
    if r.pct(50) {
        m.push("\"p\":[0.5,0.5],\"a\":[2,1]".into());
    }
    if r.pct(30) {
        let k = r.below(m.len());
        m.rotate_left(k);
    }
    format!("{{{}}}", m.join(","))
}
