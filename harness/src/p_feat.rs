//! The feature container as a value: C29.
use crate::common::*;
use approx::AbsDiffEq;
use reductionml_core::object_pool::{Pool, PoolReturnable};
use reductionml_core::sparse_namespaced_features::{Namespace, SparseFeatures, SparseFeaturesNamespace};
use reductionml_core::*;

const BITS: u8 = 18;

fn universe(r: &mut Rng) -> Vec<Key> {
    let mut v = vec![Key::Default, Key::Named(0), Key::Raw(0)];
    for n in ["a", "b", "User", "Action"] {
        v.push(key_of(n, 0));
    }
    v.push(Key::Raw(r.next() as u32));
    if let Key::Named(h) = v[3] {
        v.push(Key::Raw(h));
    }
    v
}
fn value(r: &mut Rng) -> f32 {
    // distinct enough that a swapped or missing one shows
    (r.below(2000) as f32 - 1000.0) / 8.0
}
fn some(r: &mut Rng, max: usize) -> Vec<(u32, f32)> {
    let n = if r.pct(15) { 0 } else { r.range(1, max) };
    (0..n).map(|_| (r.next() as u32 & mask(BITS), value(r))).collect()
}
fn split(v: &[(u32, f32)]) -> (Vec<FeatureIndex>, Vec<f32>) {
    (v.iter().map(|x| x.0.into()).collect(), v.iter().map(|x| x.1).collect())
}
fn of_ns(n: &SparseFeaturesNamespace) -> Vec<(u32, f32)> {
    n.iter().map(|(i, x)| (*i, x)).collect()
}
fn sorted(mut v: Vec<(u32, f32)>) -> Vec<(u32, u32)> {
    v.sort_by(|a, b| (a.0, a.1.to_bits()).cmp(&(b.0, b.1.to_bits())));
    v.into_iter().map(|(i, x)| (i, x.to_bits())).collect()
}
fn products(parts: &[&Vec<(u32, f32)>]) -> Vec<(u32, f32)> {
    let prime = 16777619u32;
    let mut cur: Vec<(u32, f32)> = parts[0].clone();
    for (n, p) in parts[1..].iter().enumerate() {
        let last = n + 2 == parts.len();
        let m = if last { mask(BITS) } else { u32::MAX };
        cur = cur.iter().flat_map(|(i, x)| p.iter().map(move |(j, y)| ((i.wrapping_mul(prime) ^ j) & m, x * y))).collect();
    }
    cur
}
/// Everything the container shows, against what was put in.
fn observe(f: &SparseFeatures, m: &Terms, keys: &[Key], r: &mut Rng) -> Result<(), (&'static str, String)> {
    let m = nonempty(m);
    let mut seen = Terms::new();
    for (ns, it) in f.namespaces() {
        let v: Vec<(u32, f32)> = it.map(|(i, x)| (*i, x)).collect();
        if !v.is_empty() && seen.insert(from_ns(ns), v).is_some() {
            return Err(("listed-twice", format!("{ns:?}")));
        }
    }
    if !same_bits(&seen, &m) {
        return Err(("listing", format!("{seen:?} instead of {m:?}")));
    }
    let none = vec![];
    for k in keys {
        let want = m.get(k).unwrap_or(&none);
        match f.get_namespace(to_ns(*k)) {
            None if want.is_empty() => {}
            None => return Err(("lookup", format!("{k:?} has {want:?} and is not found"))),
            Some(n) => {
                let idx: Vec<u32> = n.indices().iter().map(|i| **i).collect();
                let both: Vec<(u32, f32)> = idx.iter().copied().zip(n.values().iter().copied()).collect();
                if n.size() != want.len() || n.values().len() != want.len() || idx.len() != want.len() || both != *want || of_ns(n) != *want {
                    return Err(("lookup", format!("{k:?}: {both:?} ({} {} {}) instead of {want:?}", n.size(), idx.len(), n.values().len())));
                }
                if from_ns(n.namespace()) != *k {
                    return Err(("lookup", format!("{k:?} calls itself {:?}", n.namespace())));
                }
                if !want.is_empty() {
                    let at = r.below(want.len() + 1);
                    if n.iter().nth(at).map(|(i, x)| (*i, x)) != want.get(at).copied() {
                        return Err(("lookup", format!("{k:?} element {at}")));
                    }
                }
            }
        }
    }
    let all: Vec<(u32, f32)> = f.all_features().map(|(i, x)| (*i, x)).collect();
    if sorted(all.clone()) != sorted(m.values().flatten().copied().collect()) {
        return Err(("all-features", format!("{all:?} instead of {m:?}")));
    }
    if f.empty() && !m.is_empty() {
        return Err(("empty", format!("{m:?} counts as empty")));
    }
    // products of different namespaces
    let mut ks: Vec<Key> = keys.to_vec();
    for i in 0..3 {
        let j = i + r.below(ks.len() - i);
        ks.swap(i, j);
    }
    let parts: Vec<&Vec<(u32, f32)>> = ks[..3].iter().map(|k| m.get(k).unwrap_or(&none)).collect();
    let n: Vec<Namespace> = ks[..3].iter().map(|k| to_ns(*k)).collect();
    let two: Vec<(u32, f32)> = f.quadratic_features(n[0], n[1], BITS).map_or(vec![], |i| i.map(|(i, x)| (*i, x)).collect());
    if sorted(two.clone()) != sorted(products(&parts[..2])) {
        return Err(("pairs", format!("{:?}: {two:?} of {m:?}", &ks[..2])));
    }
    let three: Vec<(u32, f32)> = f.cubic_features(n[0], n[1], n[2], BITS).map_or(vec![], |i| i.map(|(i, x)| (*i, x)).collect());
    if sorted(three.clone()) != sorted(products(&parts)) {
        return Err(("triples", format!("{:?}: {three:?} of {m:?}", &ks[..3])));
    }
    // comparison
    let same = build(&m);
    if !(*f == same && same == *f && f.abs_diff_eq(&same, f32::EPSILON) && same.abs_diff_eq(f, f32::EPSILON)) {
        return Err(("equal", format!("not equal to a new container with the same features {m:?}: {f:?}")));
    }
    let mut o = m.clone();
    let k = *r.pick(keys);
    let list = o.entry(k).or_default();
    match r.below(4) {
        0 if !list.is_empty() => {
            let i = r.below(list.len());
            list[i].1 += 1.0;
        }
        1 if !list.is_empty() => {
            let i = r.below(list.len());
            list[i].0 ^= 1;
        }
        2 if !list.is_empty() => {
            list.pop();
        }
        _ => list.push((r.next() as u32 & mask(BITS), value(r))),
    }
    let other = build(&o);
    if *f == other || other == *f || f.abs_diff_eq(&other, f32::EPSILON) || other.abs_diff_eq(f, f32::EPSILON) {
        return Err(("equal", format!("{m:?} counts as equal to {o:?}")));
    }
    Ok(())
}

pub fn c29(r: &mut Rng, c: &mut Ctx) {
    let keys = universe(r);
    let pool: Pool<SparseFeatures> = Pool::new();
    let mut f = SparseFeatures::new();
    let mut m = Terms::new();
    // a container without the past of `f`, taking the same steps since the last emptying
    let mut young = SparseFeatures::new();
    let mut aside: Vec<(SparseFeaturesNamespace, Key, Vec<(u32, f32)>)> = vec![];
    let mut copies: Vec<(SparseFeatures, Terms)> = vec![];
    let mut log: Vec<String> = vec![];
    let steps = r.steps(4, 30);
    let mut kinds = 0u32;
    for _ in 0..steps {
        let k = *r.pick(&keys);
        let ns = to_ns(k);
        let op = r.below(14);
        kinds |= 1 << op;
        match op {
            0 | 1 => {
                for (i, x) in some(r, 4) {
                    for t in [&mut f, &mut young] {
                        t.get_or_create_namespace(ns).add_feature(i.into(), x);
                    }
                    m.entry(k).or_default().push((i, x));
                }
                log.push(format!("add to {k:?}"));
            }
            2 => {
                let v = some(r, 5);
                let (a, b) = split(&v);
                for t in [&mut f, &mut young] {
                    t.get_or_create_namespace(ns).add_features(&a, &b);
                }
                m.entry(k).or_default().extend(v);
                log.push(format!("add list to {k:?}"));
            }
            3 => {
                let v = some(r, 5);
                let (a, b) = split(&v);
                let cap = r.below(9);
                for t in [&mut f, &mut young] {
                    let n = t.get_or_create_namespace_with_capacity(ns, cap);
                    n.reserve(cap);
                    n.add_features_with_iter(a.iter().copied(), b.iter().copied());
                }
                m.entry(k).or_default().extend(v);
                log.push(format!("add iterator to {k:?}"));
            }
            4 => {
                let has = m.get(&k).is_some_and(|v| !v.is_empty());
                let (x, y) = (f.get_namespace_mut(ns).is_some(), young.get_namespace_mut(ns).is_some());
                if x != y || (has && !x) {
                    return c.fail("mutable-lookup", format!("{log:?}: {k:?} found {x}, without the past {y}, has features {has}"));
                }
                if x {
                    let v = value(r);
                    for t in [&mut f, &mut young] {
                        t.get_namespace_mut(ns).unwrap().add_feature(7.into(), v);
                    }
                    m.entry(k).or_default().push((7, v));
                }
                log.push(format!("change {k:?}"));
            }
            5 => {
                let want = m.remove(&k).unwrap_or_default();
                let (x, y) = (f.remove_namespace(ns), young.remove_namespace(ns));
                let (a, b) = (x.as_ref().map(of_ns), y.as_ref().map(of_ns));
                if a != b || a.clone().unwrap_or_default() != want {
                    return c.fail("take-out", format!("{log:?}: {k:?} gave {a:?}, without the past {b:?}, put in {want:?}"));
                }
                if let Some(n) = x {
                    aside.push((n, k, want));
                }
                log.push(format!("take out {k:?}"));
            }
            6 => {
                if let Some((n, k, v)) = aside.pop() {
                    for t in [&mut f, &mut young] {
                        t.set_namespace(to_ns(k), n.clone());
                    }
                    m.insert(k, v);
                    log.push(format!("put back {k:?}"));
                }
            }
            7 => {
                let v = some(r, 4);
                let (a, b) = split(&v);
                let mut n = if r.pct(50) { SparseFeaturesNamespace::new(ns) } else { SparseFeaturesNamespace::new_with_capacity(ns, r.below(4)) };
                n.add_features(&a, &b);
                for t in [&mut f, &mut young] {
                    t.set_namespace(ns, n.clone());
                }
                m.insert(k, v);
                log.push(format!("set {k:?}"));
            }
            8 => {
                let o = gen_terms(r, BITS, 0, 3, 4, &value);
                let mut other = build(&o);
                if r.pct(40) {
                    // recycled
                    other.clear();
                    fill(&mut other, &o);
                }
                if r.pct(50) {
                    if !copies.is_empty() && r.pct(50) {
                        other = copies[0].0.clone();
                    }
                    for t in [&mut f, &mut young] {
                        t.append(&other);
                        t.remove(&other);
                    }
                    log.push("append and remove".into());
                } else {
                    for t in [&mut f, &mut young] {
                        t.append(&other);
                    }
                    for (k, v) in o {
                        m.entry(k).or_default().extend(v);
                    }
                    log.push("append".into());
                }
            }
            9 => {
                // nested: what was appended last goes first
                let (a, b) = (gen_terms(r, BITS, 0, 3, 3, &value), gen_terms(r, BITS, 0, 3, 3, &value));
                let (a, b) = (build(&a), build(&b));
                for t in [&mut f, &mut young] {
                    t.append(&a);
                    t.append(&b);
                    t.remove(&b);
                    t.remove(&a);
                }
                log.push("append two and remove them".into());
            }
            10 => {
                f.clear();
                young = SparseFeatures::new();
                m.clear();
                log.push("clear".into());
            }
            11 => {
                f.clear_and_return_object(&pool);
                f = pool.get_object();
                young = SparseFeatures::new();
                m.clear();
                log.push("through the pool".into());
            }
            12 => {
                let g = f.clone();
                copies.push((std::mem::replace(&mut f, g), m.clone()));
                log.push("clone".into());
            }
            _ => {
                for t in [&mut f, &mut young] {
                    t.get_or_create_namespace(ns);
                }
                m.entry(k).or_default();
                log.push(format!("open {k:?}"));
            }
        }
        c.eval(1);
        if let Err((sig, msg)) = observe(&f, &m, &keys, r) {
            return c.fail(sig, format!("after {log:?}: {msg}"));
        }
        // the past does not show
        let names = |f: &SparseFeatures| f.namespaces().map(|(n, _)| from_ns(n)).collect::<Vec<_>>();
        let found = |f: &SparseFeatures| keys.iter().map(|k| f.get_namespace(to_ns(*k)).is_some()).collect::<Vec<_>>();
        if f.empty() != young.empty() || found(&f) != found(&young) || names(&f) != names(&young) || f != young {
            return c.fail("past-shows", format!("after {log:?}: {f:?} without the past {young:?}"));
        }
    }
    for (f, m) in &copies {
        if let Err((_, msg)) = observe(f, m, &keys, r) {
            return c.fail("copy-changed", format!("{log:?}: {msg}"));
        }
    }
    c.distinct_of(&format!("{log:?}"));
    c.stat("operation kinds in a history", kinds.count_ones() as u64);
    c.stat("steps", steps as u64);
    c.sample(|| format!("{log:?}"));
}
