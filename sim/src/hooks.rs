//! Observation of every recombination and mutation that happens inside a simulated run.
use crate::run::CTX;
use crate::scn::MetaX;
use cambrian::spec::Node as S;
use cambrian::value::Node as V;
use serde_json::{Map, Value as J};
use std::collections::BTreeSet;

pub const W_C01: u32 = 1;
pub const W_C12: u32 = 2;
pub const W_C13: u32 = 4;
pub const W_C17: u32 = 8;

/// JSON of a value that never panics (non-finite numbers become strings and therefore never conform).
pub fn to_j(v: &V) -> J {
    match v {
        V::Real(x) => serde_json::Number::from_f64(*x).map(J::Number).unwrap_or_else(|| J::String(format!("non-finite {x}"))),
        V::Int(i) => J::from(*i),
        V::Bool(b) => J::from(*b),
        V::Sub(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), to_j(v))).collect()),
        V::Array(a) => J::Array(a.iter().map(|v| to_j(v)).collect()),
        V::AnonMap(m) => J::Object(m.iter().map(|(k, v)| (k.to_string(), to_j(v))).collect()),
        V::Variant(n, v) => {
            let mut o = Map::new();
            o.insert(n.clone(), to_j(v));
            J::Object(o)
        }
        V::Enum(n) => J::from(n.as_str()),
        V::Optional(None) | V::Const => J::Null,
        V::Optional(Some(v)) => to_j(v),
    }
}

// ------------------------------------------------------------------------------------------- recombination

/// Every leaf, option, presence and map key comes from a parent at the same position.
pub fn provenance(spec: &S, out: &V, parents: &[&V], path: &str) -> Result<(), String> {
    let bad = |w: String| Err(format!("at '{path}': {w}"));
    if parents.is_empty() {
        return bad("no parent has this position".into());
    }
    match (spec, out) {
        (S::Const, V::Const) => Ok(()),
        (S::Real { .. }, V::Real(_)) | (S::Int { .. }, V::Int(_)) | (S::Bool { .. }, V::Bool(_)) | (S::Enum { .. }, V::Enum(_)) => {
            if parents.iter().any(|p| same_bits(p, out)) {
                Ok(())
            } else {
                bad(format!("leaf {} is in none of the {} parents", to_j(out), parents.len()))
            }
        }
        (S::Sub { map }, V::Sub(o)) => {
            if o.len() != map.len() {
                return bad("keys of a sub differ from the declared ones".into());
            }
            for (k, sp) in map {
                let Some(v) = o.get(k) else { return bad(format!("missing key {k:?}")) };
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::Sub(m) = p { m.get(k).map(|b| b.as_ref()) } else { None })
                    .collect();
                provenance(sp, v, &ps, &format!("{path}/{k}"))?;
            }
            Ok(())
        }
        (S::Array { value_type, size }, V::Array(o)) => {
            if o.len() != *size {
                return bad(format!("array length {}", o.len()));
            }
            for (i, v) in o.iter().enumerate() {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::Array(a) = p { a.get(i).map(|b| b.as_ref()) } else { None })
                    .collect();
                provenance(value_type, v, &ps, &format!("{path}/{i}"))?;
            }
            Ok(())
        }
        (S::AnonMap { value_type, .. }, V::AnonMap(o)) => {
            for (k, v) in o {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::AnonMap(m) = p { m.get(k).map(|b| b.as_ref()) } else { None })
                    .collect();
                if ps.is_empty() {
                    return bad(format!("map key {k} is in no parent"));
                }
                provenance(value_type, v, &ps, &format!("{path}/{k}"))?;
            }
            Ok(())
        }
        (S::Variant { map, .. }, V::Variant(n, v)) => {
            let ps: Vec<&V> = parents
                .iter()
                .filter_map(|p| if let V::Variant(m, x) = p { (m == n).then(|| x.as_ref()) } else { None })
                .collect();
            if ps.is_empty() {
                return bad(format!("variant {n:?} is in no parent"));
            }
            match map.get(n) {
                Some(sp) => provenance(sp, v, &ps, &format!("{path}/{n}")),
                None => bad(format!("undeclared variant {n:?}")),
            }
        }
        (S::Optional { .. }, V::Optional(None)) => {
            if parents.iter().any(|p| matches!(p, V::Optional(None))) {
                Ok(())
            } else {
                bad("absent although present in every parent".into())
            }
        }
        (S::Optional { value_type, .. }, V::Optional(Some(v))) => {
            let ps: Vec<&V> = parents
                .iter()
                .filter_map(|p| if let V::Optional(Some(x)) = p { Some(x.as_ref()) } else { None })
                .collect();
            if ps.is_empty() {
                return bad("present although absent in every parent".into());
            }
            provenance(value_type, v, &ps, &format!("{path}/?"))
        }
        _ => bad("kind of the value does not fit the spec".into()),
    }
}

/// Number of container positions whose content stems from more than one parent, per container kind.
pub fn mixed(spec: &S, out: &V, parents: &[&V], hits: &mut BTreeSet<&'static str>) {
    let whole = parents.iter().any(|p| *p == out);
    match (spec, out) {
        (S::Sub { map }, V::Sub(o)) => {
            if !whole {
                hits.insert("sub");
            }
            for (k, sp) in map {
                if let Some(v) = o.get(k) {
                    let ps: Vec<&V> = parents
                        .iter()
                        .filter_map(|p| if let V::Sub(m) = p { m.get(k).map(|b| b.as_ref()) } else { None })
                        .collect();
                    mixed(sp, v, &ps, hits);
                }
            }
        }
        (S::Array { value_type, .. }, V::Array(o)) => {
            if !whole {
                hits.insert("array");
            }
            for (i, v) in o.iter().enumerate() {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::Array(a) = p { a.get(i).map(|b| b.as_ref()) } else { None })
                    .collect();
                mixed(value_type, v, &ps, hits);
            }
        }
        (S::AnonMap { value_type, .. }, V::AnonMap(o)) => {
            if !whole {
                hits.insert("anon map");
                let keys: BTreeSet<&usize> = o.keys().collect();
                if !parents.iter().any(|p| if let V::AnonMap(m) = p { m.keys().collect::<BTreeSet<_>>() == keys } else { false }) {
                    hits.insert("anon map keys");
                }
            }
            for (k, v) in o {
                let ps: Vec<&V> = parents
                    .iter()
                    .filter_map(|p| if let V::AnonMap(m) = p { m.get(k).map(|b| b.as_ref()) } else { None })
                    .collect();
                mixed(value_type, v, &ps, hits);
            }
        }
        (S::Variant { map, .. }, V::Variant(n, v)) => {
            if !whole {
                hits.insert("variant");
            }
            let ps: Vec<&V> = parents
                .iter()
                .filter_map(|p| if let V::Variant(m, x) = p { (m == n).then(|| x.as_ref()) } else { None })
                .collect();
            if let Some(sp) = map.get(n) {
                mixed(sp, v, &ps, hits);
            }
        }
        (S::Optional { value_type, .. }, V::Optional(Some(v))) => {
            if !whole {
                hits.insert("optional");
            }
            let ps: Vec<&V> = parents
                .iter()
                .filter_map(|p| if let V::Optional(Some(x)) = p { Some(x.as_ref()) } else { None })
                .collect();
            mixed(value_type, v, &ps, hits);
        }
        _ => (),
    }
}

// ------------------------------------------------------------------------------------------------ mutation

/// How often what starts from its declared initial value was left alone by the mutation itself.
#[derive(Default, Clone)]
pub struct Kept {
    pub n: u64,
    same: f64,
    exp: f64,
    var: f64,
}

impl Kept {
    pub fn note(&mut self, prob: f64, live: &mut Vec<(String, bool)>) {
        for (_, same) in live.drain(..).filter(|x| x.0.starts_with('^')) {
            self.n += 1;
            self.same += same as u8 as f64;
            self.exp += 1.0 - prob;
            self.var += prob * (1.0 - prob);
        }
    }

    pub fn judge(&self) -> Option<String> {
        (self.same < self.exp - 6.5 * self.var.sqrt() - 3.0).then(|| {
            format!(
                "of {} parts of options just switched to or materialised only {} have their declared initial value, mutation leaves at least {:.0} alone",
                self.n, self.same, self.exp
            )
        })
    }
}

#[derive(Clone, Copy)]
pub struct MutP {
    pub prob: f64,
    pub scale: f64,
}

/// `y` is a possible result of mutating `x`. `from_init`: x is the declared initial value of a part that has just come
/// into existence (its numbers may only be displaced by a plausible step).
/// `live`: per kind statistics of what changed at probability 1: (kind, changed), and of what did not change in parts
/// that have just come into existence at a smaller probability: ("^kind", unchanged).
/// Which parts of a value changed, for the parts that still are where they were.
pub fn varied(spec: &S, x: &V, y: &V, factor: f64, path: &str, out: &mut Vec<(String, bool)>) {
    match (spec, x, y) {
        (S::Real { scale, min, max, .. }, V::Real(a), V::Real(b)) => {
            let step = scale * factor;
            if step >= 1.0 && step.is_finite() && !(min.is_some() && min == max) && a.abs() < 1e12 {
                out.push((format!("real {path}"), a != b));
            }
        }
        (S::Int { scale, min, max, .. }, V::Int(a), V::Int(b)) => {
            let step = scale * factor;
            if (1.0..=1e6).contains(&step) && !(min.is_some() && min == max) && a.unsigned_abs() < 1 << 40 {
                out.push((format!("int {path}"), a != b));
            }
        }
        (S::Bool { .. }, V::Bool(a), V::Bool(b)) => out.push((format!("bool {path}"), a != b)),
        (S::Enum { .. }, V::Enum(a), V::Enum(b)) => out.push((format!("enum {path}"), a != b)),
        (S::Sub { map }, V::Sub(a), V::Sub(b)) => {
            for (k, sp) in map {
                if let (Some(u), Some(v)) = (a.get(k), b.get(k)) {
                    varied(sp, u, v, factor, &format!("{path}/{k}"), out);
                }
            }
        }
        (S::Array { value_type, .. }, V::Array(a), V::Array(b)) => {
            for (i, (u, v)) in a.iter().zip(b).enumerate() {
                varied(value_type, u, v, factor, &format!("{path}/{i}"), out);
            }
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(a), V::AnonMap(b)) => {
            if max_size.map(|m| a.len() < m).unwrap_or(true) || a.len() > min_size.unwrap_or(0) {
                out.push((format!("anon map {path}"), a.len() != b.len()));
            }
            for (k, v) in b {
                if let Some(u) = a.get(k) {
                    varied(value_type, u, v, factor, &format!("{path}/*"), out);
                }
            }
        }
        (S::Variant { map, .. }, V::Variant(n, u), V::Variant(m, v)) => {
            out.push((format!("variant {path}"), n != m));
            if let (true, Some(sp)) = (n == m, map.get(m)) {
                varied(sp, u, v, factor, &format!("{path}/{m}"), out);
            }
        }
        (S::Optional { value_type, .. }, V::Optional(a), V::Optional(b)) => {
            out.push((format!("optional {path}"), a.is_some() != b.is_some()));
            if let (Some(u), Some(v)) = (a, b) {
                varied(value_type, u, v, factor, &format!("{path}?"), out);
            }
        }
        _ => (),
    }
}

pub fn mutation(
    spec: &S,
    x: &V,
    y: &V,
    p: MutP,
    from_init: bool,
    path: &str,
    live: &mut Vec<(String, bool)>,
) -> Result<(), String> {
    let bad = |w: String| Err(format!("at '{path}': {w}"));
    let one = p.prob >= 1.0;
    let young = from_init && !one && p.prob > 0.0;
    if p.prob == 0.0 {
        return if same_bits(x, y) { Ok(()) } else { bad(format!("changed from {} to {} at probability 0", to_j(x), to_j(y))) };
    }
    match (spec, x, y) {
        (S::Const, V::Const, V::Const) => Ok(()),
        (S::Real { scale, min, max, .. }, V::Real(a), V::Real(b)) => {
            if from_init && (a - b).abs() > 1e12 * scale * p.scale + a.abs() * 1e-12 {
                return bad(format!("real {b} cannot stem from the declared initial value {a} (step {})", scale * p.scale));
            }
            if young {
                live.push(("^real".into(), a == b));
            }
            let pinned = min.is_some() && min == max;
            let step = scale * p.scale;
            if one && step >= 1.0 && step.is_finite() && !pinned && a.abs() < 1e12 {
                live.push((format!("real {path}"), a != b));
            }
            Ok(())
        }
        (S::Int { scale, min, max, .. }, V::Int(a), V::Int(b)) => {
            if from_init && (*a as f64 - *b as f64).abs() > 1e12 * scale * p.scale + (*a as f64).abs() * 1e-12 + 1.0 {
                return bad(format!("int {b} cannot stem from the declared initial value {a} (step {})", scale * p.scale));
            }
            if young {
                live.push(("^int".into(), a == b));
            }
            let pinned = min.is_some() && min == max;
            let step = scale * p.scale;
            if one && step >= 1.0 && step <= 1e6 && !pinned && a.unsigned_abs() < 1 << 40 {
                live.push((format!("int {path}"), a != b));
            }
            Ok(())
        }
        (S::Bool { .. }, V::Bool(a), V::Bool(b)) => {
            if young {
                live.push(("^bool".into(), a == b));
            }
            if one {
                live.push((format!("!bool {path}"), a != b));
            }
            Ok(())
        }
        (S::Enum { values, .. }, V::Enum(a), V::Enum(b)) => {
            if !values.contains(b) {
                return bad(format!("undeclared enum value {b:?}"));
            }
            if young {
                live.push(("^enum".into(), a == b));
            }
            if one {
                live.push((format!("!enum {path}"), a != b));
            }
            Ok(())
        }
        (S::Sub { map }, V::Sub(a), V::Sub(b)) => {
            if a.len() != b.len() {
                return bad("number of keys of a sub changed".into());
            }
            for (k, sp) in map {
                match (a.get(k), b.get(k)) {
                    (Some(u), Some(v)) => mutation(sp, u, v, p, from_init, &format!("{path}/{k}"), live)?,
                    _ => return bad(format!("key {k:?} lost")),
                }
            }
            Ok(())
        }
        (S::Array { value_type, .. }, V::Array(a), V::Array(b)) => {
            if a.len() != b.len() {
                return bad(format!("array length changed from {} to {}", a.len(), b.len()));
            }
            for (i, (u, v)) in a.iter().zip(b).enumerate() {
                mutation(value_type, u, v, p, from_init, &format!("{path}/{i}"), live)?;
            }
            Ok(())
        }
        (S::AnonMap { value_type, min_size, max_size, .. }, V::AnonMap(a), V::AnonMap(b)) => {
            let added: Vec<_> = b.keys().filter(|k| !a.contains_key(k)).collect();
            let removed: Vec<_> = a.keys().filter(|k| !b.contains_key(k)).collect();
            let can_grow = max_size.map(|m| a.len() < m).unwrap_or(true);
            let can_shrink = a.len() > min_size.unwrap_or(0);
            if young {
                live.push(("^anon map".into(), added.is_empty() && removed.is_empty()));
            }
            if added.len() + removed.len() > 1 {
                return bad(format!(
                    "map keys changed from {:?} to {:?}: more than one resize",
                    a.keys().collect::<BTreeSet<_>>(),
                    b.keys().collect::<BTreeSet<_>>()
                ));
            }
            if one && (can_grow || can_shrink) {
                live.push((format!("!anon map {path}"), added.len() + removed.len() == 1));
                if added.len() + removed.len() == 0 {
                    return bad(format!(
                        "map not resized at probability 1 (size {}, bounds {min_size:?}..{max_size:?}, keys {:?})",
                        a.len(),
                        a.keys().collect::<BTreeSet<_>>()
                    ));
                }
            }
            for (k, v) in b {
                match a.get(k) {
                    Some(u) => mutation(value_type, u, v, p, from_init, &format!("{path}/*"), live)?,
                    None => {
                        // a mutated copy of an element or, for an empty map, of the initial value
                        let mut none = Vec::new();
                        let ok = if a.is_empty() {
                            mutation(value_type, &value_type.initial_value(), v, p, true, "", &mut none)
                        } else {
                            let mut last = Ok(());
                            for u in a.values() {
                                last = mutation(value_type, u, v, p, false, "", &mut none);
                                if last.is_ok() {
                                    break;
                                }
                            }
                            last
                        };
                        if let Err(e) = ok {
                            return bad(format!("added element {k} = {} is no single mutation of an element: {e}", to_j(v)));
                        }
                    }
                }
            }
            Ok(())
        }
        (S::Variant { map, .. }, V::Variant(n, u), V::Variant(m, v)) => {
            let Some(sp) = map.get(m) else { return bad(format!("undeclared variant {m:?}")) };
            if young {
                live.push(("^variant".into(), n == m));
            }
            if one {
                live.push((format!("!variant {path}"), n != m));
            }
            if n == m {
                mutation(sp, u, v, p, from_init, &format!("{path}/{m}"), live)
            } else {
                mutation(sp, &sp.initial_value(), v, p, true, &format!("{path}/{m} (switched from {n})"), live)
            }
        }
        (S::Optional { value_type, .. }, V::Optional(a), V::Optional(b)) => {
            if young {
                live.push(("^optional".into(), a.is_some() == b.is_some()));
            }
            if one {
                live.push((format!("!optional {path}"), a.is_some() != b.is_some()));
            }
            match (a, b) {
                (_, None) => Ok(()),
                (Some(u), Some(v)) => mutation(value_type, u, v, p, from_init, &format!("{path}/?"), live),
                (None, Some(v)) => {
                    mutation(value_type, &value_type.initial_value(), v, p, true, &format!("{path}/? (materialised)"), live)
                }
            }
        }
        _ => bad(format!("kind of the value changed from {} to {}", to_j(x), to_j(y))),
    }
}

/// Equal, zeros by their sign as well.
fn same_bits(x: &V, y: &V) -> bool {
    match (x, y) {
        (V::Real(a), V::Real(b)) => a.to_bits() == b.to_bits(),
        (V::Sub(a), V::Sub(b)) => a.len() == b.len() && a.iter().all(|(k, u)| b.get(k).is_some_and(|v| same_bits(u, v))),
        (V::AnonMap(a), V::AnonMap(b)) => a.len() == b.len() && a.iter().all(|(k, u)| b.get(k).is_some_and(|v| same_bits(u, v))),
        (V::Array(a), V::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(u, v)| same_bits(u, v)),
        (V::Variant(m, u), V::Variant(n, v)) => m == n && same_bits(u, v),
        (V::Optional(Some(u)), V::Optional(Some(v))) => same_bits(u, v),
        _ => x == y,
    }
}

// --------------------------------------------------------------------------------------------------- hooks

#[cfg(cambrian_sim)]
pub mod installed {
    use super::*;
    use cambrian::meta::{CrossoverParams, MutationParams};
    use cambrian::sim::{Hooks, Offspring};

    pub struct H;

    impl Hooks for H {
        fn meta_params(&self) -> Option<(CrossoverParams, MutationParams)> {
            CTX.with(|c| {
                let c = c.borrow();
                let c = c.as_ref()?;
                let m: &MetaX = c.scn.meta.as_ref()?;
                let n = c.h.lock().unwrap_or_else(|e| e.into_inner()).hook_n[3];
                c.h.lock().unwrap_or_else(|e| e.into_inner()).hook_n[3] += 1;
                let pick = if (n as usize) < m.first.1 && m.first.0.is_some() {
                    m.first.0.unwrap()
                } else {
                    let mut r = c.meta_rng.lock().unwrap_or_else(|e| e.into_inner());
                    if r.chance(m.keep) || m.choices.is_empty() {
                        return None;
                    }
                    *r.pick(&m.choices)
                };
                Some((
                    CrossoverParams { crossover_prob: pick.0, selection_pressure: pick.1 },
                    MutationParams { mutation_prob: pick.2, mutation_scale: pick.3 },
                ))
            })
        }

        fn offspring(&self, o: &Offspring) {
            CTX.with(|c| {
                let c = c.borrow();
                let Some(c) = c.as_ref() else { return };
                if let crate::scn::Obj::Adversary(k) = c.scn.rule.obj {
                    let m = o.meta_params;
                    c.scn.rule.adv.learn(
                        k,
                        &o.result.to_json(),
                        (m.crossover_params.crossover_prob, m.crossover_params.selection_pressure, m.mutation_params.mutation_prob, m.mutation_params.mutation_scale),
                    );
                }
                super::observe(
                    c,
                    &o.spec.0,
                    &o.initial_value.0,
                    &o.parents_ordered.iter().map(|v| &v.0).collect::<Vec<_>>(),
                    (
                        o.meta_params.crossover_params.crossover_prob,
                        o.meta_params.crossover_params.selection_pressure,
                        o.meta_params.mutation_params.mutation_prob,
                        o.meta_params.mutation_params.mutation_scale,
                    ),
                    &o.crossover_result.0,
                    &o.result.0,
                )
            })
        }
    }

    pub fn install() {
        cambrian::sim::HOOKS.set(&H).ok();
    }
}

#[cfg(not(cambrian_sim))]
pub mod installed {
    pub fn install() {}
}

pub const HOOKED: bool = cfg!(cambrian_sim);

#[allow(clippy::too_many_arguments)]
pub fn observe(
    c: &crate::run::Ctx,
    spec: &S,
    init: &V,
    parents: &[&V],
    meta: (f64, f64, f64, f64),
    cross: &V,
    result: &V,
) {
    let w = c.watch;
    let mut h = c.h.lock().unwrap_or_else(|e| e.into_inner());
    h.hook_n[0] += 1;
    h.meta_seen.push(meta);
    if h.hook_errors.len() > 20 {
        return;
    }
    if w & W_C01 != 0 {
        for (what, v) in [("recombination result", cross), ("mutation result", result)] {
            if let Err(e) = c.scn.spec.conforms(&to_j(v), "") {
                h.hook_errors.push(("C01", format!("{what} does not conform: {e}")));
            }
        }
    }
    if w & W_C12 != 0 {
        if parents.is_empty() {
            if cross != init {
                h.hook_errors.push(("C12", "offspring of an empty population differs from the initial value".into()));
            }
        } else {
            if let Err(e) = provenance(spec, cross, parents, "") {
                h.hook_errors.push(("C12", e));
            }
            let identical = parents.iter().all(|p| *p == parents[0]);
            if identical {
                h.hook_n[1] += 1;
                if cross != parents[0] {
                    h.hook_errors.push((
                        "C12",
                        format!("{} identical parents {} give {}", parents.len(), to_j(parents[0]), to_j(cross)),
                    ));
                }
            } else if !parents.iter().any(|p| *p == cross) {
                h.hook_n[2] += 1;
            }
        }
    }
    if w & (W_C13 | W_C17) != 0 {
        let mut live = std::mem::take(&mut h.live_tmp);
        live.clear();
        let p = MutP { prob: meta.2, scale: meta.3 };
        let r = mutation(spec, cross, result, p, false, "", &mut live);
        if w & W_C13 != 0 {
            if cross != result {
                h.hook_n[1] += 1;
            }
            if let Err(e) = r {
                h.hook_errors.push(("C13", format!("mutation with probability {} scale {}: {e}", meta.2, meta.3)));
            } else {
                h.kept.note(meta.2, &mut live);
                if let Some(e) = h.kept.judge() {
                    h.hook_errors.push(("C13", e));
                }
            }
        }
        if w & W_C17 != 0 {
            for (k, ch) in live.drain(..).filter(|x| !x.0.starts_with('^')) {
                let e = h.live.entry(k).or_insert((0, 0));
                e.0 += 1;
                e.1 += ch as u64;
            }
            if meta.0 >= 1.0 && parents.len() > 1 {
                let mut hits = BTreeSet::new();
                mixed(spec, cross, parents, &mut hits);
                h.mix_n += 1;
                for k in hits {
                    *h.mix_hits.entry(k).or_default() += 1;
                }
            }
            if parents.len() > 1 {
                if let Some(i) = parents.iter().position(|p| *p == cross) {
                    let n = parents.len();
                    let e = h.ranks.entry(n).or_insert_with(|| vec![0; n]);
                    e[i] += 1;
                }
            }
        }
        h.live_tmp = live;
    }
}
