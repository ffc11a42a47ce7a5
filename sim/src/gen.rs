//! Reference model of parameter spaces: generator, YAML writer, conformance checker, initial value, guesses.
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value as J};
use simcore::rng::Rng;

/// f64 that survives JSON exactly (also inf and NaN).
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Num(pub f64);
impl Serialize for Num {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for Num {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(Num).map_err(serde::de::Error::custom)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SN {
    Real { init: Num, scale: Num, min: Option<Num>, max: Option<Num> },
    Int { init: i64, scale: Num, min: Option<i64>, max: Option<i64> },
    Bool(bool),
    Sub(Vec<(String, SN)>),
    Arr(Box<SN>, usize),
    Map { vt: Box<SN>, init: usize, min: Option<usize>, max: Option<usize> },
    Var(Vec<(String, SN)>, String),
    Enum(Vec<String>, String),
    Opt(Box<SN>, bool),
    Const,
}

fn q(s: &str) -> String {
    // characters that YAML wants escaped and JSON does not
    serde_json::to_string(s)
        .unwrap()
        .chars()
        .map(|c| if matches!(c, '\u{7f}'..='\u{a0}' | '\u{2028}' | '\u{2029}' | '\u{feff}') { format!("\\u{:04x}", c as u32) } else { c.to_string() })
        .collect()
}
fn f(x: f64) -> String {
    format!("{:?}", x)
}

impl SN {
    pub fn yaml(&self) -> String {
        let mut o = String::new();
        self.write(&mut o);
        o.push('\n');
        o
    }
    fn write(&self, o: &mut String) {
        use std::fmt::Write;
        match self {
            SN::Real { init, scale, min, max } => {
                write!(o, "{{\"type\": real, \"init\": {}, \"scale\": {}", f(init.0), f(scale.0)).unwrap();
                if let Some(m) = min {
                    write!(o, ", \"min\": {}", f(m.0)).unwrap();
                }
                if let Some(m) = max {
                    write!(o, ", \"max\": {}", f(m.0)).unwrap();
                }
                o.push('}');
            }
            SN::Int { init, scale, min, max } => {
                write!(o, "{{\"type\": int, \"init\": {}, \"scale\": {}", init, f(scale.0)).unwrap();
                if let Some(m) = min {
                    write!(o, ", \"min\": {}", m).unwrap();
                }
                if let Some(m) = max {
                    write!(o, ", \"max\": {}", m).unwrap();
                }
                o.push('}');
            }
            SN::Bool(b) => write!(o, "{{\"type\": bool, \"init\": {b}}}").unwrap(),
            SN::Sub(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push_str(", ");
                    }
                    write!(o, "{}: ", q(k)).unwrap();
                    v.write(o);
                }
                o.push('}');
            }
            SN::Arr(v, n) => {
                write!(o, "{{\"type\": array, \"size\": {n}, \"valueType\": ").unwrap();
                v.write(o);
                o.push('}');
            }
            SN::Map { vt, init, min, max } => {
                write!(o, "{{\"type\": anon map, \"initSize\": {init}").unwrap();
                if let Some(m) = min {
                    write!(o, ", \"minSize\": {}", m).unwrap();
                }
                if let Some(m) = max {
                    write!(o, ", \"maxSize\": {}", m).unwrap();
                }
                o.push_str(", \"valueType\": ");
                vt.write(o);
                o.push('}');
            }
            SN::Var(m, init) => {
                write!(o, "{{\"type\": variant, \"init\": {}", q(init)).unwrap();
                for (k, v) in m {
                    write!(o, ", {}: ", q(k)).unwrap();
                    v.write(o);
                }
                o.push('}');
            }
            SN::Enum(v, init) => {
                write!(o, "{{\"type\": enum, \"init\": {}, \"values\": [", q(init)).unwrap();
                o.push_str(&v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", "));
                o.push_str("]}");
            }
            SN::Opt(v, p) => {
                write!(o, "{{\"type\": optional, \"initPresent\": {p}, \"valueType\": ").unwrap();
                v.write(o);
                o.push('}');
            }
            SN::Const => o.push_str("{\"type\": const}"),
        }
    }

    /// The initial value the space declares, as JSON.
    pub fn init_json(&self) -> J {
        match self {
            SN::Real { init, .. } => json!(init.0),
            SN::Int { init, .. } => json!(init),
            SN::Bool(b) => json!(b),
            SN::Sub(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), v.init_json())).collect()),
            SN::Arr(v, n) => J::Array(vec![v.init_json(); *n]),
            SN::Map { vt, init, .. } => {
                J::Object((0..*init).map(|k| (k.to_string(), vt.init_json())).collect())
            }
            SN::Var(m, i) => {
                let v = &m.iter().find(|(k, _)| k == i).unwrap().1;
                let mut o = Map::new();
                o.insert(i.clone(), v.init_json());
                J::Object(o)
            }
            SN::Enum(_, i) => json!(i),
            SN::Opt(v, p) => {
                if *p {
                    v.init_json()
                } else {
                    J::Null
                }
            }
            SN::Const => J::Null,
        }
    }

    /// `Err(description)` when the JSON does not have exactly the declared structure.
    pub fn conforms(&self, j: &J, path: &str) -> Result<(), String> {
        let bad = |what: String| Err(format!("at '{path}': {what}"));
        match self {
            SN::Real { min, max, .. } => match j {
                J::Number(n) => {
                    let Some(x) = n.as_f64() else { return bad(format!("{j} is no real")) };
                    if !x.is_finite() {
                        return bad(format!("{x} is not finite"));
                    }
                    if min.map(|m| x < m.0).unwrap_or(false) || max.map(|m| x > m.0).unwrap_or(false) {
                        return bad(format!("real {x} outside {min:?}..{max:?}"));
                    }
                    Ok(())
                }
                _ => bad(format!("{j} is no real")),
            },
            SN::Int { min, max, .. } => match j.as_i64() {
                Some(x) => {
                    if min.map(|m| x < m).unwrap_or(false) || max.map(|m| x > m).unwrap_or(false) {
                        return bad(format!("int {x} outside {min:?}..{max:?}"));
                    }
                    Ok(())
                }
                None => bad(format!("{j} is no int")),
            },
            SN::Bool(_) => j.as_bool().map(|_| ()).ok_or(format!("at '{path}': {j} is no bool")),
            SN::Sub(m) => match j {
                J::Object(o) => {
                    for k in o.keys() {
                        if !m.iter().any(|(s, _)| s == k) {
                            return bad(format!("undeclared key {k:?}"));
                        }
                    }
                    for (k, v) in m {
                        match o.get(k) {
                            Some(x) => v.conforms(x, &format!("{path}/{k}"))?,
                            None => return bad(format!("missing key {k:?}")),
                        }
                    }
                    Ok(())
                }
                _ => bad("not a map".into()),
            },
            SN::Arr(v, n) => match j {
                J::Array(a) => {
                    if a.len() != *n {
                        return bad(format!("array length {} instead of {n}", a.len()));
                    }
                    for (i, x) in a.iter().enumerate() {
                        v.conforms(x, &format!("{path}/{i}"))?;
                    }
                    Ok(())
                }
                _ => bad("not an array".into()),
            },
            SN::Map { vt, min, max, .. } => match j {
                J::Object(o) => {
                    if o.len() < min.unwrap_or(0) || max.map(|m| o.len() > m).unwrap_or(false) {
                        return bad(format!("map size {} outside {min:?}..{max:?}", o.len()));
                    }
                    for (k, x) in o {
                        if k.parse::<usize>().is_err() {
                            return bad(format!("map key {k:?}"));
                        }
                        vt.conforms(x, &format!("{path}/{k}"))?;
                    }
                    Ok(())
                }
                _ => bad("not a map".into()),
            },
            SN::Var(m, _) => match j {
                J::Object(o) if o.len() == 1 => {
                    let (k, x) = o.iter().next().unwrap();
                    match m.iter().find(|(s, _)| s == k) {
                        Some((_, v)) => v.conforms(x, &format!("{path}/{k}")),
                        None => bad(format!("undeclared variant {k:?}")),
                    }
                }
                _ => bad("not a variant".into()),
            },
            SN::Enum(v, _) => match j {
                J::String(s) if v.contains(s) => Ok(()),
                _ => bad(format!("undeclared enum value {j}")),
            },
            SN::Opt(v, _) => match j {
                J::Null => Ok(()),
                x => v.conforms(x, &format!("{path}/?")),
            },
            SN::Const => match j {
                J::Null => Ok(()),
                _ => bad("not const".into()),
            },
        }
    }

    pub fn size(&self) -> usize {
        1 + match self {
            SN::Sub(m) | SN::Var(m, _) => m.iter().map(|x| x.1.size()).sum(),
            SN::Arr(v, _) | SN::Opt(v, _) => v.size(),
            SN::Map { vt, .. } => vt.size(),
            _ => 0,
        }
    }

    pub fn kinds(&self, out: &mut Vec<&'static str>) {
        let (k, ch): (&'static str, Vec<&SN>) = match self {
            SN::Real { .. } => ("real", vec![]),
            SN::Int { .. } => ("int", vec![]),
            SN::Bool(_) => ("bool", vec![]),
            SN::Enum(..) => ("enum", vec![]),
            SN::Const => ("const", vec![]),
            SN::Sub(m) => ("sub", m.iter().map(|x| &x.1).collect()),
            SN::Var(m, _) => ("variant", m.iter().map(|x| &x.1).collect()),
            SN::Arr(v, _) => ("array", vec![v]),
            SN::Opt(v, _) => ("optional", vec![v]),
            SN::Map { vt, .. } => ("anon map", vec![vt]),
        };
        if !out.contains(&k) {
            out.push(k);
        }
        for c in ch {
            c.kinds(out);
        }
    }

    /// Simpler spaces to try while minimising.
    pub fn shrink(&self) -> Vec<SN> {
        let mut v = Vec::new();
        match self {
            SN::Sub(m) => {
                for (_, c) in m {
                    v.push(c.clone());
                }
                if m.len() > 1 {
                    for i in 0..m.len() {
                        let mut n = m.clone();
                        n.remove(i);
                        v.push(SN::Sub(n));
                    }
                }
                for (i, (k, c)) in m.iter().enumerate() {
                    for s in c.shrink() {
                        let mut n = m.clone();
                        n[i] = (k.clone(), s);
                        v.push(SN::Sub(n));
                    }
                }
            }
            SN::Var(m, init) => {
                for (_, c) in m {
                    v.push(c.clone());
                }
                if m.len() > 2 {
                    for i in 0..m.len() {
                        if &m[i].0 != init {
                            let mut n = m.clone();
                            n.remove(i);
                            v.push(SN::Var(n, init.clone()));
                        }
                    }
                }
                for (i, (k, c)) in m.iter().enumerate() {
                    for s in c.shrink() {
                        let mut n = m.clone();
                        n[i] = (k.clone(), s);
                        v.push(SN::Var(n, init.clone()));
                    }
                }
            }
            SN::Arr(c, n) => {
                v.push((**c).clone());
                if *n > 2 {
                    v.push(SN::Arr(c.clone(), 2));
                }
                for s in c.shrink() {
                    v.push(SN::Arr(Box::new(s), *n));
                }
            }
            SN::Opt(c, p) => {
                v.push((**c).clone());
                for s in c.shrink() {
                    v.push(SN::Opt(Box::new(s), *p));
                }
            }
            SN::Map { vt, init, min, max } => {
                v.push((**vt).clone());
                for s in vt.shrink() {
                    v.push(SN::Map { vt: Box::new(s), init: *init, min: *min, max: *max });
                }
            }
            SN::Bool(_) | SN::Const => (),
            SN::Enum(vals, i) if vals.len() > 2 => {
                let o = vals.iter().find(|x| *x != i).unwrap();
                v.push(SN::Enum(vec![i.clone(), o.clone()], i.clone()));
            }
            SN::Enum(..) => v.push(SN::Bool(true)),
            SN::Int { .. } | SN::Real { .. } => v.push(SN::Bool(true)),
        }
        v
    }
}

const KEYS: &[&str] = &[
    "x", "y", "a", "b", "c", "foo", "bar", "k1", "0", "1", "optional", "a;b", "sp ace", "ключ", "", "q\"uote", "value",
    "init", "min", "array", "\u{1f600}", "back\\slash", "new\nline", "null", "true",
    "a+b", "+", "%s%d", "$HOME `x`", "'", "a,b", "-x", "--force", "<b>&amp;", "tab\there", "\u{0}", "\u{7f}", "\u{2028}", "{}",
    "#", "a: b", "<<", "*", "1e5", "0.5", "~", "LongNameLongNameLongNameLongNameLongNameLongNameLongNameLongNameLongNameLongNameLongName",
];
const OPTS: &[&str] = &["A", "B", "C", "dd", "e;e", "ф", "", "optional", "7", "null", "q\"", "A B", "a+b", "1;2", "'", "\\", "%", "\u{0}", "\n", "\u{1f600}", "yes", "-", "[]", "a", "b"];

#[derive(Clone, Debug)]
pub struct GenCfg {
    pub depth: usize,
    pub width: usize,
    pub extreme: bool,
    pub maps: bool,
    pub weird_names: bool,
}

impl GenCfg {
    pub fn random(r: &mut Rng) -> Self {
        GenCfg {
            depth: r.range(1, 4) as usize,
            width: r.range(1, 5) as usize,
            extreme: r.chance(0.25),
            maps: r.chance(0.85),
            weird_names: r.chance(0.3),
        }
    }
    pub fn small(_r: &mut Rng) -> Self {
        GenCfg { depth: 1, width: 3, extreme: false, maps: true, weird_names: false }
    }
}

fn names(r: &mut Rng, pool: &[&str], n: usize, weird: bool) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let lim = if weird { pool.len() } else { pool.len().min(8) };
    while out.len() < n {
        let k = if r.chance(0.1) { format!("n{}", r.below(1000)) } else { pool[r.usize(lim)].to_string() };
        if !out.contains(&k) {
            out.push(k);
        }
    }
    out
}

pub fn gen_real(r: &mut Rng, extreme: bool) -> SN {
    let scale = if extreme {
        *r.pick(&[1.0, 1e-300, 1e300, 1e150, 1e-5, 5e-324])
    } else {
        *r.pick(&[1.0, 0.1, 10.0, 2.5, 100.0, 1e-3])
    };
    let mag = if extreme { *r.pick(&[1.0, 1e300, 1e-300, 1e308, 1e15]) } else { *r.pick(&[1.0, 10.0, 0.5, 1000.0]) };
    let a = (r.f64() * 2.0 - 1.0) * mag;
    let w = (r.f64() + 1e-3) * mag;
    let (mut min, mut max) = (Some(a), Some((a + w).min(f64::MAX)));
    if min >= max {
        max = Some(a.abs() * 2.0 + 1e-3);
    }
    match r.below(5) {
        0 => min = None,
        1 => max = None,
        2 => {
            min = None;
            max = None
        }
        _ => (),
    }
    let init = match (min, max) {
        (Some(l), Some(h)) => match r.below(3) {
            0 => l,
            1 => h,
            _ => (l + r.f64() * (h - l)).clamp(l, h),
        },
        (Some(l), None) => (l + r.f64() * mag).clamp(l, f64::MAX),
        (None, Some(h)) => (h - r.f64() * mag).clamp(-f64::MAX, h),
        (None, None) => *r.pick(&[0.0, 1.0, a, -0.0, if extreme { 1.7e308 } else { 5.0 }]),
    };
    SN::Real { init: Num(init), scale: Num(scale), min: min.map(Num), max: max.map(Num) }
}

pub fn gen_int(r: &mut Rng, extreme: bool) -> SN {
    let scale = if extreme { *r.pick(&[1.0, 1e-300, 1e300, 1e18, 0.1]) } else { *r.pick(&[1.0, 3.0, 0.5, 10.0]) };
    let (mut min, mut max);
    if extreme {
        let c = *r.pick(&[i64::MIN, -1, 0, i64::MAX - 1, 1 << 53]);
        min = Some(c);
        max = Some(c.saturating_add(r.range(1, 1000) as i64).max(c + 1));
        if r.chance(0.3) {
            max = Some(i64::MAX);
            min = Some(i64::MIN);
        }
    } else {
        let c = r.range(0, 40) as i64 - 20;
        min = Some(c);
        max = Some(c + r.range(1, 20) as i64);
    }
    match r.below(5) {
        0 => min = None,
        1 => max = None,
        2 => {
            min = None;
            max = None
        }
        _ => (),
    }
    let init = match (min, max) {
        (Some(l), Some(h)) => match r.below(3) {
            0 => l,
            1 => h,
            _ => ((l as i128) + (r.next() as i128).rem_euclid(h as i128 - l as i128 + 1)) as i64,
        },
        (Some(l), None) => l.saturating_add(r.below(5) as i64),
        (None, Some(h)) => h.saturating_sub(r.below(5) as i64),
        (None, None) => r.below(10) as i64 - 5,
    };
    SN::Int { init, scale: Num(scale), min, max }
}

/// Usually within the range, now and then up to `big`.
fn many(r: &mut Rng, lo: u64, hi: u64, big: u64) -> usize {
    (if r.chance(0.05) { r.range(hi + 1, big) } else { r.range(lo, hi) }) as usize
}

fn gen_enum(r: &mut Rng, c: &GenCfg) -> SN {
    let k = many(r, 2, 5, 16);
    let n = names(r, OPTS, k, c.weird_names);
    let i = r.pick(&n).clone();
    SN::Enum(n, i)
}

pub fn gen_leaf(r: &mut Rng, c: &GenCfg) -> SN {
    match r.below(12) {
        0..=3 => {
            let x = c.extreme && r.chance(0.5);
            gen_real(r, x)
        }
        4..=6 => {
            let x = c.extreme && r.chance(0.5);
            gen_int(r, x)
        }
        7..=8 => SN::Bool(r.chance(0.5)),
        9..=10 => gen_enum(r, c),
        _ => SN::Const,
    }
}

pub fn gen_node(r: &mut Rng, c: &GenCfg, depth: usize) -> SN {
    if depth == 0 {
        return gen_leaf(r, c);
    }
    match r.below(14) {
        0..=2 => gen_leaf(r, c),
        3..=4 => gen_sub(r, c, depth),
        5..=6 => {
            let n = many(r, 2, 4, 24);
            let d = if n > 4 { (depth - 1).min(1) } else { depth - 1 };
            SN::Arr(Box::new(gen_node(r, c, d)), n)
        }
        7..=9 if c.maps => gen_map(r, c, depth),
        7..=9 => gen_leaf(r, c),
        10..=11 => {
            let n = many(r, 2, 4, 9);
            let d = if n > 4 { 0 } else { depth - 1 };
            let ns: Vec<String> =
                names(r, OPTS, n + 1, c.weird_names).into_iter().filter(|k| k != "init" && k != "type").take(n).collect();
            let i = r.pick(&ns).clone();
            if r.chance(0.25) {
                // options of the same shape that start from other values
                let one = gen_node(r, c, d);
                return SN::Var(ns.into_iter().map(|k| (k, restart(&one, r))).collect(), i);
            }
            SN::Var(ns.into_iter().map(|k| (k, gen_node(r, c, d))).collect(), i)
        }
        _ => SN::Opt(Box::new(gen_node(r, c, depth - 1)), r.chance(0.5)),
    }
}

/// The same parameters with other initial values.
fn restart(s: &SN, r: &mut Rng) -> SN {
    let num = |min: &Option<Num>, max: &Option<Num>, init: Num, r: &mut Rng| match (min, max) {
        (Some(a), _) if r.chance(0.5) => *a,
        (_, Some(b)) if r.chance(0.5) => *b,
        (None, None) => Num(r.below(100) as f64 / 4.0),
        _ => init,
    };
    match s {
        SN::Real { init, scale, min, max } => SN::Real { init: num(min, max, *init, r), scale: *scale, min: *min, max: *max },
        SN::Int { init, scale, min, max } => SN::Int {
            init: match (min, max) {
                (Some(a), _) if r.chance(0.5) => *a,
                (_, Some(b)) if r.chance(0.5) => *b,
                (None, None) => r.below(100) as i64,
                _ => *init,
            },
            scale: *scale,
            min: *min,
            max: *max,
        },
        SN::Bool(b) => SN::Bool(*b ^ r.chance(0.5)),
        SN::Sub(m) => SN::Sub(m.iter().map(|(k, v)| (k.clone(), restart(v, r))).collect()),
        SN::Arr(v, n) => SN::Arr(Box::new(restart(v, r)), *n),
        SN::Opt(v, p) => SN::Opt(Box::new(restart(v, r)), *p ^ r.chance(0.5)),
        SN::Var(m, _) => {
            let m: Vec<(String, SN)> = m.iter().map(|(k, v)| (k.clone(), restart(v, r))).collect();
            let i = r.pick(&m).0.clone();
            SN::Var(m, i)
        }
        SN::Enum(v, _) => SN::Enum(v.clone(), r.pick(v).clone()),
        s => s.clone(),
    }
}

pub fn gen_sub(r: &mut Rng, c: &GenCfg, depth: usize) -> SN {
    let n = many(r, 1, c.width as u64, 14);
    let d = if n > c.width { 0 } else { depth - 1 };
    SN::Sub(names(r, KEYS, n, c.weird_names).into_iter().map(|k| (k, gen_node(r, c, d))).collect())
}

pub fn gen_map(r: &mut Rng, c: &GenCfg, depth: usize) -> SN {
    if r.chance(0.05) {
        // many elements
        let m = r.range(5, 20) as usize;
        let init = m + r.below(10) as usize;
        let max = r.chance(0.7).then(|| init + r.below(12) as usize);
        return SN::Map { vt: Box::new(gen_node(r, c, (depth - 1).min(1))), init, min: r.chance(0.7).then_some(m), max: max.filter(|x| *x > m) };
    }
    let (min, max) = match r.below(5) {
        0 => (None, None),
        1 => (Some(r.below(4) as usize), None),
        2 => (None, Some(r.range(1, 6) as usize)),
        3 => {
            let m = r.below(4) as usize;
            (Some(m), Some(m + 1))
        }
        _ => {
            let m = r.below(4) as usize;
            (Some(m), Some(m + r.range(1, 5) as usize))
        }
    };
    let lo = min.unwrap_or(0);
    let hi = max.unwrap_or(lo + 4);
    let init = match r.below(4) {
        0 => lo,
        1 => hi,
        _ => r.range(lo as u64, hi as u64) as usize,
    };
    SN::Map { vt: Box::new(gen_node(r, c, depth - 1)), init, min, max }
}

pub fn gen_spec(r: &mut Rng) -> SN {
    loop {
        let c = GenCfg::random(r);
        let s = if r.chance(0.75) { gen_sub(r, &c, c.depth) } else { gen_node(r, &c, c.depth) };
        if s.size() <= 60 {
            return s;
        }
    }
}

/// A spec of moderate size for schedule oriented runs.
pub fn gen_spec_small(r: &mut Rng) -> SN {
    let c = GenCfg::small(r);
    match r.below(4) {
        0 => SN::Sub(vec![("x".into(), gen_real(r, false))]),
        1 => gen_sub(r, &c, 1),
        2 => gen_sub(r, &c, 2),
        _ => SN::Sub(vec![("x".into(), gen_real(r, false)), ("m".into(), gen_map(r, &c, 1))]),
    }
}

/// A random value of the space, as the JSON a run would report.
pub fn rand_value(s: &SN, r: &mut Rng) -> J {
    match s {
        SN::Real { min, max, init, .. } => {
            let x = match r.below(6) {
                0 => min.map(|m| m.0).unwrap_or(-1e300),
                1 => max.map(|m| m.0).unwrap_or(1e300),
                2 => init.0,
                3 => *r.pick(&[0.1, 1.0 / 3.0, -0.0, 1e-308, 5e-324, 123456789.125, 1e22]),
                _ => {
                    let l = min.map(|m| m.0).unwrap_or(max.map(|m| m.0 - 10.0).unwrap_or(-10.0));
                    let h = max.map(|m| m.0).unwrap_or(l + 20.0);
                    let x = l + (h - l) * r.f64();
                    if x.is_finite() {
                        x
                    } else {
                        init.0
                    }
                }
            };
            let x = x.max(min.map(|m| m.0).unwrap_or(f64::MIN)).min(max.map(|m| m.0).unwrap_or(f64::MAX));
            json!(x)
        }
        SN::Int { min, max, init, .. } => {
            let x = match r.below(5) {
                0 => min.unwrap_or(i64::MIN),
                1 => max.unwrap_or(i64::MAX),
                2 => *init,
                3 => r.below(100) as i64 - 50,
                _ => r.next() as i64,
            };
            json!(x.max(min.unwrap_or(i64::MIN)).min(max.unwrap_or(i64::MAX)))
        }
        SN::Bool(_) => json!(r.chance(0.5)),
        SN::Sub(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), rand_value(v, r))).collect()),
        SN::Arr(v, n) => J::Array((0..*n).map(|_| rand_value(v, r)).collect()),
        SN::Map { vt, min, max, .. } => {
            let lo = min.unwrap_or(0);
            let hi = max.unwrap_or(lo + 5);
            let n = r.range(lo as u64, hi as u64) as usize;
            let mut o = Map::new();
            while o.len() < n {
                let k: usize = match r.below(12) {
                    0..=6 => r.usize(12),
                    7..=9 => r.usize(1000),
                    10 => *r.pick(&[1 << 32, usize::MAX - 1, 1 << 53, usize::MAX]),
                    _ => r.next() as usize,
                };
                o.insert(k.to_string(), rand_value(vt, r));
            }
            J::Object(o)
        }
        SN::Var(m, _) => {
            let (k, v) = r.pick(m);
            let mut o = Map::new();
            o.insert(k.clone(), rand_value(v, r));
            J::Object(o)
        }
        SN::Enum(v, _) => json!(r.pick(v)),
        SN::Opt(v, _) => {
            if r.chance(0.4) {
                J::Null
            } else {
                rand_value(v, r)
            }
        }
        SN::Const => J::Null,
    }
}

/// Equality of JSON parameter sets: numbers by value, everything else structurally.
pub fn same(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Number(x), J::Number(y)) => match (x.as_i64(), y.as_i64()) {
            (Some(p), Some(q)) => p == q,
            _ => x.as_f64() == y.as_f64(),
        },
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| same(p, q)),
        (J::Object(x), J::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map(|q| same(p, q)).unwrap_or(false))
        }
        _ => a == b,
    }
}

/// The same or another conforming value in other spellings: resizable maps as arrays, reals as integer literals.
pub fn respell(s: &SN, j: &mut J, r: &mut Rng) {
    match (s, &mut *j) {
        (SN::Real { min, max, .. }, _) if r.chance(0.5) => {
            let fits = |x: f64| min.map(|m| x >= m.0).unwrap_or(true) && max.map(|m| x <= m.0).unwrap_or(true);
            let cur = j.as_f64().unwrap_or(0.0);
            let n: J = match r.below(6) {
                0 => json!(*r.pick(&[16777217i64, -16777219, 33554435, 123456789, -987654321])),
                1 => json!(*r.pick(&[(1i64 << 53) + 1, -(1 << 53) - 1, i64::MAX, i64::MIN, (1 << 53) + 3])),
                2 => json!(*r.pick(&[u64::MAX, 1 << 63, (1 << 63) + 1025])),
                3 => json!(max.map(|m| m.0.floor()).unwrap_or(7.0).clamp(-1e18, 1e18) as i64),
                4 => json!(min.map(|m| m.0.ceil()).unwrap_or(-7.0).clamp(-1e18, 1e18) as i64),
                _ => json!(cur.round().clamp(-1e18, 1e18) as i64),
            };
            if n.as_f64().is_some_and(fits) {
                *j = n;
            }
        }
        (SN::Map { vt, .. }, J::Object(o)) => {
            o.values_mut().for_each(|x| respell(vt, x, r));
            if r.chance(0.4) {
                *j = J::Array(std::mem::take(o).into_iter().map(|(_, x)| x).collect());
            }
        }
        (SN::Sub(m) | SN::Var(m, _), J::Object(o)) => {
            for (k, x) in o.iter_mut() {
                if let Some((_, v)) = m.iter().find(|(n, _)| n == k) {
                    respell(v, x, r);
                }
            }
        }
        (SN::Arr(v, _), J::Array(a)) => a.iter_mut().for_each(|x| respell(v, x, r)),
        (SN::Opt(v, _), x) if !x.is_null() => respell(v, x, r),
        _ => (),
    }
}

/// A name that is close to a declared one, and is none of them.
fn near_name(names: &[&str], r: &mut Rng) -> Option<String> {
    for _ in 0..10 {
        let n = *r.pick(names);
        let cs: Vec<char> = n.chars().collect();
        let x: String = match r.below(9) {
            0 => String::new(),
            1 => format!("{n} "),
            2 => format!(" {n}"),
            3 => n.to_uppercase(),
            4 => n.to_lowercase(),
            5 => cs[..cs.len().saturating_sub(1)].iter().collect(),
            6 => cs.iter().skip(1).collect(),
            7 => format!("{n}{n}"),
            _ => cs.iter().rev().collect(),
        };
        if !names.contains(&x.as_str()) {
            return Some(x);
        }
    }
    None
}

/// Turns a conforming value into one that does not conform (wrong somewhere). None when no place is suitable.
pub fn corrupt(s: &SN, j: &J, r: &mut Rng) -> Option<(J, &'static str)> {
    for _ in 0..40 {
        let mut c = j.clone();
        let mut why = "";
        corrupt_at(s, &mut c, r, &mut why);
        if !why.is_empty() && s.conforms(&accepted_form(s, &c), "").is_err() {
            return Some((c, why));
        }
    }
    None
}

/// A guess may write a resizable map as an array; the conformance rules apply to the map it stands for.
pub fn accepted_form(s: &SN, j: &J) -> J {
    match (s, j) {
        (SN::Map { vt, .. }, J::Array(a)) => {
            J::Object(a.iter().enumerate().map(|(i, x)| (i.to_string(), accepted_form(vt, x))).collect())
        }
        (SN::Map { vt, .. }, J::Object(a)) => {
            // keys are numbers: different spellings of one number are one key
            let mut o = Map::new();
            for (k, x) in a {
                let nk = k.parse::<usize>().map(|n| n.to_string()).unwrap_or(k.clone());
                o.insert(nk, accepted_form(vt, x));
            }
            J::Object(o)
        }
        (SN::Sub(m), J::Object(o)) => J::Object(
            o.iter()
                .map(|(k, x)| {
                    (k.clone(), m.iter().find(|(s, _)| s == k).map(|(_, s)| accepted_form(s, x)).unwrap_or(x.clone()))
                })
                .collect(),
        ),
        (SN::Var(m, _), J::Object(o)) => J::Object(
            o.iter()
                .map(|(k, x)| {
                    (k.clone(), m.iter().find(|(s, _)| s == k).map(|(_, s)| accepted_form(s, x)).unwrap_or(x.clone()))
                })
                .collect(),
        ),
        (SN::Arr(v, _), J::Array(a)) => J::Array(a.iter().map(|x| accepted_form(v, x)).collect()),
        (SN::Opt(v, _), x) if !x.is_null() => accepted_form(v, x),
        _ => j.clone(),
    }
}

fn corrupt_at(s: &SN, j: &mut J, r: &mut Rng, why: &mut &'static str) {
    // descend with some probability
    if r.chance(0.75) {
        match (s, &mut *j) {
            (SN::Sub(m), J::Object(o)) if !m.is_empty() => {
                let (k, v) = r.pick(m);
                if let Some(x) = o.get_mut(k) {
                    return corrupt_at(v, x, r, why);
                }
            }
            (SN::Var(m, _), J::Object(o)) => {
                if let Some((k, x)) = o.iter_mut().next() {
                    if let Some((_, v)) = m.iter().find(|(n, _)| n == k) {
                        return corrupt_at(v, x, r, why);
                    }
                }
            }
            (SN::Arr(v, _), J::Array(a)) if !a.is_empty() => {
                let i = r.usize(a.len());
                return corrupt_at(v, &mut a[i], r, why);
            }
            (SN::Map { vt, .. }, J::Object(o)) if !o.is_empty() => {
                let i = r.usize(o.len());
                let x = o.values_mut().nth(i).unwrap();
                return corrupt_at(vt, x, r, why);
            }
            (SN::Opt(v, _), x) if !x.is_null() => return corrupt_at(v, x, r, why),
            _ => (),
        }
    }
    let wrong: Vec<J> = vec![json!("zzz-unknown"), json!({"zz": 1}), json!([1, 2, 3, 4, 5, 6, 7]), json!(true), json!(1.5), J::Null, json!([])];
    match s {
        SN::Real { min, max, .. } => match r.below(4) {
            0 if max.is_some() => {
                let m = max.unwrap().0;
                *j = json!(next_up(m));
                *why = "real just above max";
            }
            1 if min.is_some() => {
                let m = min.unwrap().0;
                *j = json!(-next_up(-m));
                *why = "real just below min";
            }
            2 if max.is_some() => {
                let m = max.unwrap().0;
                *j = json!((m.abs() * 2.0 + 1.0).min(f64::MAX));
                *why = "real above max";
            }
            _ => {
                *j = r.pick(&wrong).clone();
                *why = "wrong type for real";
            }
        },
        SN::Int { min, max, .. } => match r.below(4) {
            0 if max.map(|m| m < i64::MAX).unwrap_or(false) => {
                *j = json!(max.unwrap() + 1);
                *why = "int above max";
            }
            1 if min.map(|m| m > i64::MIN).unwrap_or(false) => {
                *j = json!(min.unwrap() - 1);
                *why = "int below min";
            }
            2 => {
                *j = r.pick(&[json!(1.5), json!(1e300), json!(u64::MAX), json!(0.0)]).clone();
                *why = "no integer";
            }
            _ => {
                *j = r.pick(&wrong).clone();
                *why = "wrong type for int";
            }
        },
        SN::Bool(_) => {
            *j = r.pick(&[json!("true"), json!(0), json!(1), J::Null, json!({})]).clone();
            *why = "wrong type for bool";
        }
        SN::Sub(m) => match (r.below(3), &mut *j) {
            (0, J::Object(o)) => {
                let k = &r.pick(m).0;
                o.remove(k);
                *why = "missing key";
            }
            (1, J::Object(o)) => {
                let names: Vec<&str> = m.iter().map(|x| x.0.as_str()).collect();
                let k = if r.chance(0.5) { near_name(&names, r) } else { None };
                let near = k.is_some();
                let k = k.unwrap_or(r.pick(&["zz", "X", "type", "typeDef q", " ", ""]).to_string());
                // the content of a declared member makes the most innocent stranger
                let x = if near { r.pick(m).1.init_json() } else { r.pick(&wrong).clone() };
                if near && r.chance(0.5) {
                    let d = &r.pick(m).0;
                    o.remove(d);
                }
                o.insert(k, x);
                *why = "unknown key";
            }
            _ => {
                *j = r.pick(&wrong).clone();
                *why = "wrong type for sub";
            }
        },
        SN::Arr(v, _) => match (r.below(3), &mut *j) {
            (0, J::Array(a)) => {
                a.pop();
                *why = "array too short";
            }
            (1, J::Array(a)) => {
                a.push(v.init_json());
                *why = "array too long";
            }
            _ => {
                *j = r.pick(&wrong).clone();
                *why = "wrong type for array";
            }
        },
        SN::Map { vt, min, max, .. } => match (r.below(5), &mut *j) {
            (0, J::Object(o)) if min.unwrap_or(0) > 0 => {
                while o.len() >= min.unwrap() {
                    let k = o.keys().next().unwrap().clone();
                    o.remove(&k);
                }
                *why = "map too small";
            }
            (1, J::Object(o)) if max.is_some() => {
                let mut k = 100;
                while o.len() <= max.unwrap() {
                    o.insert(k.to_string(), vt.init_json());
                    k += 1;
                }
                *why = "map too large";
            }
            (2, J::Object(o)) => {
                let k = r.pick(&["-1", "x", "1.5", "", "18446744073709551616", " 1"]).to_string();
                o.insert(k, vt.init_json());
                *why = "bad map key";
            }
            (3, _) if max.is_some() => {
                *j = J::Array(vec![vt.init_json(); max.unwrap() + 1]);
                *why = "map (as array) too large";
            }
            _ => {
                *j = r.pick(&[json!("s"), json!(3), json!(false), J::Null]).clone();
                *why = "wrong type for map";
            }
        },
        SN::Var(m, _) => match (r.below(4), &mut *j) {
            (0, J::Object(o)) => {
                if m.len() > 1 && r.chance(0.5) {
                    let (k, v) = r.pick(m);
                    o.entry(k.clone()).or_insert(v.init_json());
                } else {
                    o.insert("zz".into(), J::Null);
                }
                *why = "two variants";
            }
            (1, J::Object(o)) => {
                o.clear();
                *why = "no variant";
            }
            (2, J::Object(o)) => {
                let names: Vec<&str> = m.iter().map(|x| x.0.as_str()).collect();
                o.clear();
                o.insert(near_name(&names, r).unwrap_or("zz-unknown".into()), r.pick(m).1.init_json());
                *why = "unknown variant";
            }
            _ => {
                *j = r.pick(&wrong).clone();
                *why = "wrong type for variant";
            }
        },
        SN::Enum(v, _) => {
            let names: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
            *j = match near_name(&names, r) {
                Some(n) if r.chance(0.6) => json!(n),
                _ => r.pick(&[json!("zzz-unknown"), json!(0), J::Null, json!(true), json!([v[0]]), json!({ v[0].clone(): null })]).clone(),
            };
            *why = "unknown enum value";
        }
        SN::Opt(v, _) => {
            if j.is_null() {
                *j = r.pick(&wrong).clone();
                *why = "wrong optional content";
            } else {
                corrupt_at(v, j, r, why);
            }
        }
        SN::Const => {
            *j = r.pick(&[json!(0), json!(false), json!({}), json!("const")]).clone();
            *why = "wrong const";
        }
    }
}

pub fn next_up(x: f64) -> f64 {
    if x == 0.0 {
        return f64::from_bits(1);
    }
    let b = x.to_bits();
    let y = f64::from_bits(if x > 0.0 { b + 1 } else { b - 1 });
    if y.is_finite() {
        y
    } else {
        x
    }
}
