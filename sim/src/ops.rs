//! Histories of operator calls: the real recombination and mutation operators driven directly, one call after the
//! other, with one key history and one random stream, on arbitrary conforming values (not only on what a run evolves).
use crate::case::Out;
use crate::gen::*;
use crate::hooks;
use cambrian::spec::Node as S;
use cambrian::value::Node as V;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use simcore::rng::{mix, Rng};
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    /// pool value, probability, scale
    Mutate(usize, f64, f64),
    /// pool values best first, probability, selection pressure
    Cross(Vec<usize>, f64, f64),
    /// the key history starts anew
    Forget,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct OpsCase {
    pub spec: SN,
    pub seed: u64,
    /// the keys of the first values of the pool are known from the start
    pub registered: usize,
    pub pool: Vec<J>,
    pub steps: Vec<Step>,
    pub repeat: usize,
    /// results join the pool
    pub grow: bool,
}

thread_local! {
    pub static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    pub static INSIDE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// The value a conforming document stands for.
pub fn node(s: &SN, j: &J) -> V {
    match s {
        SN::Real { .. } => V::Real(j.as_f64().unwrap_or(0.0)),
        SN::Int { .. } => V::Int(j.as_i64().unwrap_or(0)),
        SN::Bool(_) => V::Bool(j.as_bool().unwrap_or(false)),
        SN::Sub(m) => V::Sub(m.iter().map(|(k, v)| (k.clone(), Box::new(node(v, &j[k])))).collect()),
        SN::Arr(v, n) => V::Array((0..*n).map(|i| Box::new(node(v, &j[i]))).collect()),
        SN::Map { vt, .. } => V::AnonMap(
            j.as_object()
                .map(|o| o.iter().filter_map(|(k, v)| Some((k.parse().ok()?, Box::new(node(vt, v))))).collect())
                .unwrap_or_default(),
        ),
        SN::Var(m, _) => {
            let (k, v) = m.iter().find(|(k, _)| j.get(k).is_some()).unwrap_or(&m[0]);
            V::Variant(k.clone(), Box::new(node(v, &j[k])))
        }
        SN::Enum(..) => V::Enum(j.as_str().unwrap_or("").to_string()),
        SN::Opt(v, _) => V::Optional(if j.is_null() { None } else { Some(Box::new(node(v, j))) }),
        SN::Const => V::Const,
    }
}

pub enum Event<'a> {
    Mutated { x: &'a V, y: &'a V, prob: f64, scale: f64 },
    Crossed { parents: &'a [&'a V], y: &'a V, prob: f64, pressure: f64 },
}

/// Err: what the operator panicked with. Calls `f` after every step; false stops.
#[cfg(cambrian_ops)]
fn drive(c: &OpsCase, o: &mut Out, f: &mut dyn FnMut(&S, Event) -> bool) -> Result<(), String> {
    use cambrian::meta::{CrossoverParams, MutationParams};
    use cambrian::value::Value;
    use rand::SeedableRng;
    let Ok(spec) = cambrian::spec_util::from_yaml_str(&c.spec.yaml()) else { return Ok(()) };
    let mut rng = rand::rngs::StdRng::seed_from_u64(c.seed);
    let mut pool: Vec<Value> = c.pool.iter().map(|j| Value(node(&c.spec, j))).collect();
    if pool.is_empty() {
        return Ok(());
    }
    let mp = |prob, scale| MutationParams { mutation_prob: prob, mutation_scale: scale };
    let cross = cambrian::crossover::Crossover::new();
    let mut ctx = Default::default();
    if false {
        // names the type of the context
        cambrian::mutation::mutate(&spec, &pool[0], &mp(0.0, 1.0), &mut ctx, &mut rng);
    }
    for v in pool.iter().take(c.registered) {
        ctx.add_nodes_for(v);
    }
    for i in 0..c.steps.len() * c.repeat {
        let n = pool.len();
        o.steps += 1;
        INSIDE.with(|x| x.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match &c.steps[i % c.steps.len()] {
            Step::Mutate(a, prob, scale) => Some(cambrian::mutation::mutate(&spec, &pool[a % n], &mp(*prob, *scale), &mut ctx, &mut rng)),
            Step::Cross(ps, prob, pressure) => {
                let ps: Vec<&Value> = ps.iter().map(|p| &pool[p % n]).collect();
                let cp = CrossoverParams { crossover_prob: *prob, selection_pressure: *pressure };
                Some(cross.crossover(&spec, &ps, &cp, &mut ctx, &mut rng))
            }
            Step::Forget => {
                ctx = Default::default();
                for v in pool.iter().take(c.registered) {
                    ctx.add_nodes_for(v);
                }
                None
            }
        }));
        INSIDE.with(|x| x.set(false));
        let Ok(r) = r else {
            return Err(format!(
                "operator panics in step {i} ({:?}): {}",
                c.steps[i % c.steps.len()],
                PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
            ));
        };
        let Some(y) = r else { continue };
        o.hash = mix(o.hash, format!("{:?}", hooks::to_j(&y.0)).bytes().fold(7, |h, b| mix(h, b as u64)));
        let go_on = match &c.steps[i % c.steps.len()] {
            Step::Mutate(a, prob, scale) => f(&spec.0, Event::Mutated { x: &pool[a % n].0, y: &y.0, prob: *prob, scale: *scale }),
            Step::Cross(ps, prob, pressure) => {
                let ps: Vec<&V> = ps.iter().map(|p| &pool[p % n].0).collect();
                f(&spec.0, Event::Crossed { parents: &ps, y: &y.0, prob: *prob, pressure: *pressure })
            }
            Step::Forget => true,
        };
        if !go_on {
            break;
        }
        if c.grow && pool.len() < 60 {
            pool.push(y);
        } else if c.grow {
            let at = i % 60;
            pool[at] = y;
        }
    }
    Ok(())
}

#[cfg(not(cambrian_ops))]
fn drive(_: &OpsCase, _: &mut Out, _: &mut dyn FnMut(&S, Event) -> bool) -> Result<(), String> {
    Ok(())
}

/// C01, C12, C13 on a history of operator calls.
pub fn exec(prop: &str, c: &OpsCase, record: bool, o: &mut Out) {
    let mut viols = vec![];
    let mut log = vec![];
    let (mut nm, mut nc) = (0u64, 0u64);
    let mut kept = hooks::Kept::default();
    let mut tmp = vec![];
    let r = drive(c, o, &mut |spec, e| {
        let mut bad = |w: String| viols.push(("operator".to_string(), w));
        match e {
            Event::Mutated { x, y, prob, scale } => {
                nm += 1;
                if record {
                    log.push(format!("mutate(probability {prob}, scale {scale}) {} -> {}", hooks::to_j(x), hooks::to_j(y)));
                }
                if prop == "C13" {
                    tmp.clear();
                    if let Err(e) = hooks::mutation(spec, x, y, hooks::MutP { prob, scale }, false, "", &mut tmp) {
                        bad(format!("mutation with probability {prob} scale {scale}: {e}; {} becomes {}", hooks::to_j(x), hooks::to_j(y)));
                    } else {
                        kept.note(prob, &mut tmp);
                        if let Some(e) = kept.judge() {
                            bad(e);
                        }
                    }
                }
                if prop == "C01" {
                    if let Err(e) = c.spec.conforms(&hooks::to_j(y), "") {
                        bad(format!("mutation of {} gives {}, which does not conform: {e}", hooks::to_j(x), hooks::to_j(y)));
                    }
                }
            }
            Event::Crossed { parents, y, prob, pressure } => {
                nc += 1;
                let ps = || parents.iter().map(|p| hooks::to_j(p).to_string()).collect::<Vec<_>>().join(" ");
                if record {
                    log.push(format!("crossover(probability {prob}, pressure {pressure}) {} -> {}", ps(), hooks::to_j(y)));
                }
                if prop == "C12" {
                    if let Err(e) = hooks::provenance(spec, y, parents, "") {
                        bad(format!("{e}; parents {} give {}", ps(), hooks::to_j(y)));
                    }
                    if parents.iter().all(|p| *p == parents[0]) && y != parents[0] {
                        bad(format!("{} identical parents {} give {}", parents.len(), hooks::to_j(parents[0]), hooks::to_j(y)));
                    }
                }
                if prop == "C01" {
                    if let Err(e) = c.spec.conforms(&hooks::to_j(y), "") {
                        bad(format!("recombination of {} gives {}, which does not conform: {e}", ps(), hooks::to_j(y)));
                    }
                }
            }
        }
        viols.is_empty()
    });
    if let Err(e) = r {
        let at = if prop == "C12" { "Cross" } else { "Mutate" };
        if prop == "C01" || e.contains(at) {
            viols.push(("panic".into(), e));
        }
    }
    o.viols.append(&mut viols);
    o.log.append(&mut log);
    o.runs += 1;
    o.nontrivial = nm + nc > 1;
    *o.stats.entry("operator_histories".into()).or_default() += 1;
    *o.stats.entry("operator_mutations".into()).or_default() += nm;
    *o.stats.entry("operator_fresh_parts".into()).or_default() += kept.n;
    *o.stats.entry("operator_recombinations".into()).or_default() += nc;
    o.brief = format!("operator history: spec {:?}, {} values, {nm} mutations, {nc} recombinations", crate::judge::spec_kinds(&c.spec), c.pool.len());
}

// -------------------------------------------------------------------------------------------------- generation

/// A list of values with few differences between them.
fn pool(r: &mut Rng, spec: &SN, n: usize) -> Vec<J> {
    let mut v: Vec<J> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.chance(0.25) {
            let j = v[r.usize(v.len())].clone();
            v.push(j);
        } else {
            v.push(rand_value(spec, r));
        }
    }
    v
}

pub fn generate(prop: &str, r: &mut Rng) -> OpsCase {
    let spec = loop {
        let x = match r.below(4) {
            0 => gen_spec_small(r),
            1 => gen_spec(r),
            2 => {
                let c = GenCfg { depth: r.range(1, 4) as usize, width: 3, extreme: false, maps: true, weird_names: r.chance(0.1) };
                gen_map(r, &c, c.depth)
            }
            _ => {
                let c = GenCfg { depth: r.range(2, 4) as usize, width: 3, extreme: r.chance(0.3), maps: true, weird_names: r.chance(0.1) };
                gen_node(r, &c, c.depth)
            }
        };
        if x.size() <= 40 {
            break x;
        }
    };
    let n = r.range(1, 8) as usize;
    let mut p = pool(r, &spec, n);
    let registered = match r.below(3) {
        0 => 0,
        1 => 1,
        _ => n,
    };
    if r.chance(0.5) {
        p[0] = spec.init_json();
    }
    let prob = |r: &mut Rng| match r.below(5) {
        0 => 0.0,
        1 | 2 => 1.0,
        _ => r.f64(),
    };
    let cross = match prop {
        "C12" => 0.7,
        "C13" => 0.15,
        _ => 0.5,
    };
    // a long walk at one small probability: what options start from shows in the frequencies
    if prop == "C13" && r.chance(0.2) {
        let q = *r.pick(&[0.05, 0.1, 0.2, 0.3]);
        let scale = *r.pick(&[1.0, 10.0, 1e3]);
        let steps = (0..n as u64 + r.below(5)).map(|_| Step::Mutate(r.usize(60), q, scale)).collect::<Vec<_>>();
        let repeat = 500 / steps.len();
        return OpsCase { spec, seed: r.next(), registered, pool: p, steps, repeat, grow: true };
    }
    let steps = (0..r.range(1, 60))
        .map(|_| {
            if r.chance(cross) {
                let k = r.range(1, 8) as usize;
                let same = r.chance(0.1);
                let first = r.usize(60);
                Step::Cross((0..k).map(|_| if same { first } else { r.usize(60) }).collect(), prob(r), prob(r))
            } else if r.chance(0.03) {
                Step::Forget
            } else {
                Step::Mutate(r.usize(60), prob(r), *r.pick(&[1e-25, 0.0001, 0.1, 1.0, 1.0, 10.0, 1e6, 1e300]))
            }
        })
        .collect();
    OpsCase { spec, seed: r.next(), registered, pool: p, steps, repeat: 1, grow: true }
}

pub fn shrink(c: &OpsCase) -> Vec<OpsCase> {
    let mut v = vec![];
    if c.repeat > 1 {
        return v;
    }
    let n = c.steps.len();
    for k in [n / 2, n / 4, 1] {
        if k == 0 {
            continue;
        }
        for at in (0..n).step_by(k) {
            let mut t = c.clone();
            t.steps.drain(at..(at + k).min(n));
            v.push(t);
        }
    }
    for i in 0..n {
        if let Step::Cross(ps, ..) = &c.steps[i] {
            for k in 0..ps.len() {
                if ps.len() > 1 {
                    let mut t = c.clone();
                    if let Step::Cross(ps, ..) = &mut t.steps[i] {
                        ps.remove(k);
                    }
                    v.push(t);
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------------- C17

#[derive(Default)]
struct Pick {
    n: u64,
    hits: u64,
    lo: f64,
    hi: f64,
    vlo: f64,
    vhi: f64,
    /// expectation without any preference, as long as the chosen option is that of the better parents
    even: f64,
    veven: f64,
    top: bool,
}

/// What was chosen at every position, against what choosing by rank allows.
#[derive(Default)]
pub struct Picks {
    opts: BTreeMap<String, Pick>,
    ranks: BTreeMap<String, Vec<u64>>,
}

impl Picks {
    /// `set`: which of the parents (best first) have the option.
    fn note(&mut self, key: String, set: &[bool], hit: bool) {
        let k = set.len();
        let mut c = 0;
        let (mut lo, mut hi) = (1f64, 0f64);
        for (i, s) in set.iter().enumerate() {
            c += *s as usize;
            let q = c as f64 / (i + 1) as f64;
            lo = lo.min(q);
            hi = hi.max(q);
        }
        if c == 0 || c == k {
            return;
        }
        let e = self.opts.entry(key).or_insert(Pick { top: true, ..Default::default() });
        e.n += 1;
        e.hits += hit as u64;
        e.lo += lo;
        e.hi += hi;
        e.vlo += lo * (1.0 - lo);
        e.vhi += hi * (1.0 - hi);
        let q = c as f64 / k as f64;
        e.even += q;
        e.veven += q * (1.0 - q);
        e.top &= set[..c].iter().all(|s| *s);
    }

    fn walk(&mut self, spec: &S, out: &V, ps: &[&V], path: &str) {
        let k = ps.len();
        if k < 2 {
            return;
        }
        match (spec, out) {
            (S::Real { .. } | S::Int { .. } | S::Bool { .. } | S::Enum { .. }, _) => {
                let mut distinct = true;
                for i in 0..k {
                    let first = ps.iter().position(|p| *p == ps[i]).unwrap_or(i);
                    if first < i {
                        distinct = false;
                        continue;
                    }
                    let set: Vec<bool> = ps.iter().map(|p| *p == ps[i]).collect();
                    self.note(format!("{path} value of parent {i}"), &set, out == ps[i]);
                }
                if distinct {
                    if let Some(i) = ps.iter().position(|p| *p == out) {
                        self.ranks.entry(format!("{path} of {k}")).or_insert_with(|| vec![0; k])[i] += 1;
                    }
                }
            }
            (S::Sub { map }, V::Sub(o)) => {
                for (key, sp) in map {
                    let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Sub(m) = p { m.get(key).map(|b| b.as_ref()) } else { None }).collect();
                    if let Some(v) = o.get(key) {
                        self.walk(sp, v, &sub, &format!("{path}/{key}"));
                    }
                }
            }
            (S::Array { value_type, .. }, V::Array(o)) => {
                for (i, v) in o.iter().enumerate() {
                    let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Array(a) = p { a.get(i).map(|b| b.as_ref()) } else { None }).collect();
                    self.walk(value_type, v, &sub, &format!("{path}/{i}"));
                }
            }
            (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(o)) => {
                let maps: Vec<_> = ps.iter().filter_map(|p| if let V::AnonMap(m) = p { Some(m) } else { None }).collect();
                let all: std::collections::BTreeSet<usize> = maps.iter().flat_map(|m| m.keys().copied()).collect();
                // the bounds decide otherwise
                let free = min_size.unwrap_or(0) == 0 && max_size.map(|m| m >= all.len()).unwrap_or(true);
                for key in all {
                    if free {
                        let set: Vec<bool> = maps.iter().map(|m| m.contains_key(&key)).collect();
                        self.note(format!("{path} key {key}"), &set, o.contains_key(&key));
                    }
                    if let Some(v) = o.get(&key) {
                        let sub: Vec<&V> = maps.iter().filter_map(|m| m.get(&key).map(|b| b.as_ref())).collect();
                        self.walk(value_type, v, &sub, &format!("{path}/{key}"));
                    }
                }
            }
            (S::Variant { map, .. }, V::Variant(n, v)) => {
                for name in map.keys() {
                    let set: Vec<bool> = ps.iter().map(|p| matches!(p, V::Variant(m, _) if m == name)).collect();
                    self.note(format!("{path} option {name}"), &set, n == name);
                }
                let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Variant(m, x) = p { (m == n).then(|| x.as_ref()) } else { None }).collect();
                if let Some(sp) = map.get(n) {
                    self.walk(sp, v, &sub, &format!("{path}/{n}"));
                }
            }
            (S::Optional { value_type, .. }, V::Optional(x)) => {
                let set: Vec<bool> = ps.iter().map(|p| matches!(p, V::Optional(Some(_)))).collect();
                self.note(format!("{path} presence"), &set, x.is_some());
                let not: Vec<bool> = set.iter().map(|s| !s).collect();
                self.note(format!("{path} absence"), &not, x.is_none());
                if let Some(v) = x {
                    let sub: Vec<&V> = ps.iter().filter_map(|p| if let V::Optional(Some(x)) = p { Some(x.as_ref()) } else { None }).collect();
                    self.walk(value_type, v, &sub, &format!("{path}/?"));
                }
            }
            _ => (),
        }
    }

    fn judge(&self, pressure: f64, out: &mut crate::judge::Viols) {
        for (k, p) in &self.opts {
            let h = p.hits as f64;
            if h < p.lo - 6.0 * p.vlo.sqrt() - 3.0 || h > p.hi + 6.0 * p.vhi.sqrt() + 3.0 {
                out.push((
                    "rank-order".into(),
                    format!("at '{k}': chosen {h} times in {}; when no rank is favoured over a better one, {:.0} to {:.0} (pressure {pressure})", p.n, p.lo, p.hi),
                ));
                return;
            }
            if p.top && pressure >= 0.5 && p.n >= 1500 && h < p.even + 2.0 * p.veven.sqrt() {
                out.push((
                    "no-preference".into(),
                    format!("at '{k}': the choice of the better-ranked parents was made {h} times in {}, {:.0} would be without any preference (pressure {pressure})", p.n, p.even),
                ));
                return;
            }
        }
        for (k, c) in &self.ranks {
            for i in 0..c.len() - 1 {
                let (a, b) = (c[i] as f64, c[i + 1] as f64);
                if b - a > 6.0 * (a + b).sqrt() + 1.0 {
                    out.push(("rank-order".into(), format!("at '{k}': rank {i} was picked {a} times, rank {} {b} times (pressure {pressure}); {c:?}", i + 1)));
                    return;
                }
            }
        }
    }
}

/// Which parent is taken, at every position.
pub fn rank_case(r: &mut Rng) -> OpsCase {
    let spec = loop {
        let c = GenCfg { depth: r.range(0, 3) as usize, width: 3, extreme: false, maps: true, weird_names: false };
        let x = match r.below(6) {
            0 => SN::Opt(Box::new(gen_node(r, &c, c.depth)), true),
            1 => SN::Map { vt: Box::new(gen_node(r, &c, c.depth.min(1))), init: 1, min: None, max: None },
            2 => SN::Var((0..r.range(2, 4)).map(|i| (format!("o{i}"), gen_node(r, &c, c.depth.min(1)))).collect(), "o0".into()),
            _ => gen_node(r, &c, c.depth),
        };
        if x.size() <= 14 && x != SN::Const {
            break x;
        }
    };
    let n = r.range(2, 10) as usize;
    let prob = *r.pick(&[0.0, 0.5, 1.0, 1.0, 1.0]);
    let pressure = match r.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => r.f64(),
    };
    OpsCase {
        pool: (0..n).map(|_| rand_value(&spec, r)).collect(),
        spec,
        seed: r.next(),
        registered: n,
        steps: vec![Step::Cross((0..n).collect(), prob, pressure)],
        repeat: 2500,
        grow: false,
    }
}

pub fn rank(c: &OpsCase, record: bool, o: &mut Out) {
    let mut p = Picks::default();
    let pressure = match &c.steps[0] {
        Step::Cross(_, _, p) => *p,
        _ => 0.0,
    };
    let r = drive(c, o, &mut |spec, e| {
        if let Event::Crossed { parents, y, .. } = e {
            p.walk(spec, y, parents, "");
        }
        true
    });
    if let Err(e) = r {
        o.viols.push(("panic".into(), e));
    }
    p.judge(pressure, &mut o.viols);
    if record {
        for (k, q) in &p.opts {
            o.log.push(format!("{k}: {} of {}, allowed {:.0} to {:.0}", q.hits, q.n, q.lo, q.hi));
        }
        for (k, q) in &p.ranks {
            o.log.push(format!("{k}: ranks {q:?}"));
        }
    }
    o.runs += 1;
    *o.stats.entry("bench_rank_positions".into()).or_default() += (p.opts.len() + p.ranks.len()) as u64;
    *o.stats.entry("bench_selections".into()).or_default() += p.opts.values().map(|p| p.n).sum::<u64>();
    o.brief = format!("selection: spec {:?}, {} parents, {:?}", crate::judge::spec_kinds(&c.spec), c.pool.len(), c.steps[0]);
}

/// Every part varies at probability 1.
pub fn vary_case(r: &mut Rng) -> OpsCase {
    let spec = gen_spec(r);
    let n = r.range(1, 6) as usize;
    let scale = *r.pick(&[1.0, 1.0, 10.0, 1000.0]);
    // below 1 the parts inside of what could change as a whole vary, too
    let prob = *r.pick(&[1.0, 1.0, 1.0, 0.1, 0.3, 0.5]);
    OpsCase {
        pool: pool(r, &spec, n),
        spec,
        seed: r.next(),
        registered: if r.chance(0.5) { n } else { 0 },
        steps: (0..n).map(|i| Step::Mutate(i, prob, scale)).collect(),
        repeat: (if prob < 1.0 { 1500usize } else { 300 }).div_ceil(n),
        grow: false,
    }
}

pub fn vary(c: &OpsCase, o: &mut Out) {
    let mut live: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut part: BTreeMap<String, (u64, u64, f64)> = BTreeMap::new();
    let mut tmp = vec![];
    let r = drive(c, o, &mut |spec, e| {
        if let Event::Mutated { x, y, prob, scale } = e {
            tmp.clear();
            if prob < 1.0 {
                hooks::varied(spec, x, y, scale, "", &mut tmp);
                for (k, ch) in tmp.drain(..) {
                    let e = part.entry(k).or_insert((0, 0, prob));
                    e.0 += 1;
                    e.1 += ch as u64;
                }
                return true;
            }
            let _ = hooks::mutation(spec, x, y, hooks::MutP { prob, scale }, false, "", &mut tmp);
            for (k, ch) in tmp.drain(..).filter(|x| !x.0.starts_with('^')) {
                let e = live.entry(k).or_insert((0, 0));
                e.0 += 1;
                e.1 += ch as u64;
            }
        }
        true
    });
    if let Err(e) = r {
        o.viols.push(("panic".into(), e));
    }
    judge_live(&live, &mut o.viols);
    // a part changes in more than 0.3 p of the mutations that leave what is around it alone
    if let Some((k, (n, _, p))) = part.iter().find(|(_, (n, ch, p))| *n as f64 * p > 80.0 && *ch == 0) {
        o.viols.push(("not-varied".into(), format!("{k} unchanged in all of {n} mutations with probability {p} that leave what is around it alone")));
    }
    *o.stats.entry("bench_parts_judged".into()).or_default() += part.values().filter(|(n, _, p)| *n as f64 * p > 80.0).count() as u64;
    o.runs += 1;
    *o.stats.entry("bench_mutations_judged".into()).or_default() += live.values().map(|p| p.0).sum::<u64>();
    o.brief = format!("variation: spec {:?}, {} values, {:?}", crate::judge::spec_kinds(&c.spec), c.pool.len(), c.steps.first());
}

pub fn judge_live(live: &BTreeMap<String, (u64, u64)>, out: &mut crate::judge::Viols) {
    for (k, (n, ch)) in live {
        if k.starts_with('!') && ch < n {
            out.push(("not-varied".into(), format!("{} unchanged in {} of {n} mutations with probability 1", &k[1..], n - ch)));
            return;
        }
        if !k.starts_with('!') && *n >= 120 && *ch == 0 {
            out.push(("not-varied".into(), format!("{k} unchanged in all of {n} mutations with probability 1")));
            return;
        }
    }
}

fn wrap(r: &mut Rng, inner: SN) -> SN {
    match r.below(6) {
        0 => SN::Sub(vec![("w".into(), inner), ("z".into(), SN::Bool(true))]),
        1 => SN::Arr(Box::new(inner), r.range(2, 3) as usize),
        2 => SN::Var(vec![("p".into(), inner), ("q".into(), SN::Const)], "p".into()),
        3 => SN::Opt(Box::new(inner), true),
        _ => inner,
    }
}

/// Every leaf of a value with the way to it.
fn places(v: &J, at: String, out: &mut Vec<String>) {
    match v {
        J::Object(m) if !m.is_empty() => m.iter().for_each(|(k, v)| places(v, format!("{at}/{k}"), out)),
        J::Array(a) if !a.is_empty() => a.iter().enumerate().for_each(|(i, v)| places(v, format!("{at}/{i}"), out)),
        // the switch beside a wrapped part
        J::Bool(_) => (),
        v => out.push(format!("{at}={v}")),
    }
}

/// A random value in which every wrapper leads to the mixable part.
fn full(s: &SN, r: &mut Rng) -> J {
    match s {
        SN::Sub(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), full(v, r))).collect()),
        SN::Arr(v, n) => J::Array((0..*n).map(|_| full(v, r)).collect()),
        SN::Var(m, n) => {
            let mut o = serde_json::Map::new();
            o.insert(n.clone(), full(&m.iter().find(|(k, _)| k == n).unwrap().1, r));
            J::Object(o)
        }
        SN::Opt(v, _) => full(v, r),
        SN::Map { vt, init, .. } => {
            // every key in about half of the parents
            let mut o = serde_json::Map::new();
            while o.len() < 3 {
                for k in 0..init + 4 {
                    if r.chance(0.5) {
                        o.insert(k.to_string(), full(vt, r));
                    }
                }
            }
            J::Object(o)
        }
        SN::Int { .. } => J::from(r.next() as i64 >> 20),
        SN::Real { .. } => J::from(r.f64() * 10.0 + 1.0),
        _ => rand_value(s, r),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MixCase {
    pub c: OpsCase,
    /// kind of the containers that have to be mixed
    pub kind: String,
}

/// Differing parents are mixed inside every kind of container, wherever it is.
pub fn mix_case(r: &mut Rng) -> MixCase {
    let leaf = |r: &mut Rng| match r.below(2) {
        0 => SN::Real { init: Num(0.0), scale: Num(1.0), min: None, max: None },
        _ => SN::Int { init: 0, scale: Num(1000.0), min: None, max: None },
    };
    let n = r.range(3, 5) as usize;
    let (inner, kind) = match r.below(5) {
        0 => (SN::Sub((0..n).map(|i| (format!("x{i}"), leaf(r))).collect()), "sub"),
        1 => (SN::Arr(Box::new(leaf(r)), n), "array"),
        2 => (SN::Map { vt: Box::new(leaf(r)), init: n, min: None, max: None }, "anon map"),
        3 => (SN::Map { vt: Box::new(SN::Const), init: n, min: None, max: if r.chance(0.5) { Some(n + 8) } else { None } }, "anon map keys"),
        _ => (
            SN::Var(vec![("a".into(), SN::Sub((0..n).map(|i| (format!("x{i}"), leaf(r))).collect())), ("b".into(), SN::Const)], "a".into()),
            "variant",
        ),
    };
    let mut spec = inner;
    for _ in 0..r.below(3) {
        spec = wrap(r, spec);
    }
    if !matches!(spec, SN::Sub(_)) && r.chance(0.3) {
        spec = SN::Sub(vec![("top".into(), spec)]);
    }
    let k = r.range(2, 8) as usize;
    // any two parents differ in enough places to tell a mixture from both
    let mut pool: Vec<J> = vec![];
    while pool.len() < k {
        let v = full(&spec, r);
        let mut m = vec![];
        places(&v, String::new(), &mut m);
        let far = pool.iter().all(|w| {
            let mut l = vec![];
            places(w, String::new(), &mut l);
            m.iter().filter(|x| !l.contains(x)).count() + l.iter().filter(|x| !m.contains(x)).count() >= 2
        });
        if far {
            pool.push(v);
        }
    }
    MixCase {
        c: OpsCase {
            pool,
            spec,
            seed: r.next(),
            registered: k,
            steps: vec![Step::Cross((0..k).collect(), 1.0, *r.pick(&[0.0, 0.1, 0.3]))],
            repeat: 300,
            grow: false,
        },
        kind: kind.into(),
    }
}

pub fn mix_exec(m: &MixCase, o: &mut Out) {
    let (mut n, mut hits) = (0u64, 0u64);
    let r = drive(&m.c, o, &mut |spec, e| {
        if let Event::Crossed { parents, y, .. } = e {
            let mut h = Default::default();
            hooks::mixed(spec, y, parents, &mut h);
            n += 1;
            hits += h.contains(m.kind.as_str()) as u64;
        }
        true
    });
    if let Err(e) = r {
        o.viols.push(("panic".into(), e));
    }
    if n >= 150 && hits * 20 < n {
        o.viols.push(("not-mixed".into(), format!("only {hits} of {n} recombinations with probability 1 combine parents: {}", m.kind)));
    }
    o.runs += 1;
    *o.stats.entry("bench_recombinations_judged".into()).or_default() += n;
    o.brief = format!("recombination: spec {:?}, {} parents, {:?}: {hits} of {n} mixed ({})", crate::judge::spec_kinds(&m.c.spec), m.c.pool.len(), m.c.steps[0], m.kind);
}
