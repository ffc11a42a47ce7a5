//! C17: benchmark problems with known optimum, selection frequencies, liveness of every kind of parameter.
use crate::case::Out;
use crate::gen::*;
use crate::props;
use crate::run::*;
use crate::scn::Out as POut;
use crate::scn::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use simcore::rng::{mix, Rng};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Problem {
    /// sum of ((x_i - t_i) / s_i)^2
    Sphere(Vec<(Num, Num)>),
    /// sum of |x_i - t_i| / s_i
    Abs(Vec<(Num, Num)>),
    /// minimise (true) / maximise the coordinates; optimum on the declared bounds
    Bound(Vec<(bool, Num, Num)>),
    /// sum of |x_i - t_i|
    Grid(Vec<i64>),
    /// number of wrong bits
    OneMax(Vec<bool>),
    /// |size - n|
    MapSize(usize),
    /// wrong variant option, wrong enum option, distance inside the variant
    Choice { var: String, en: String, t: Num },
    /// optional has to be present and near t
    Opt { present: bool, t: Num },
}

fn num(j: &J) -> f64 {
    j.as_f64().unwrap_or(f64::NAN)
}

pub fn objective(p: &Problem, v: &J) -> f64 {
    let at = |i: usize| num(&v[format!("x{i}")]);
    let r = match p {
        Problem::Sphere(t) => t.iter().enumerate().map(|(i, (t, s))| ((at(i) - t.0) / s.0).powi(2)).sum::<f64>(),
        Problem::Abs(t) => t.iter().enumerate().map(|(i, (t, s))| ((at(i) - t.0) / s.0).abs()).sum::<f64>(),
        Problem::Bound(b) => b
            .iter()
            .enumerate()
            .map(|(i, (low, l, h))| if *low { (at(i) - l.0) / (h.0 - l.0) } else { (h.0 - at(i)) / (h.0 - l.0) })
            .sum::<f64>(),
        Problem::Grid(t) => t.iter().enumerate().map(|(i, t)| (at(i) - *t as f64).abs()).sum::<f64>(),
        Problem::OneMax(t) => t.iter().enumerate().filter(|(i, t)| v["bits"][*i].as_bool() != Some(**t)).count() as f64,
        Problem::MapSize(n) => (v["m"].as_object().map(|o| o.len()).unwrap_or(usize::MAX) as f64 - *n as f64).abs(),
        Problem::Choice { var, en, t } => {
            let a = match v["v"].get(var) {
                Some(x) => ((num(x) - t.0).abs() / 10.0).min(1.0),
                None => 2.0,
            };
            a + if v["e"].as_str() == Some(en) { 0.0 } else { 1.5 }
        }
        Problem::Opt { present, t } => match (&v["o"], present) {
            (J::Null, false) => 0.0,
            (J::Null, true) => 3.0,
            (_, false) => 3.0,
            (x, true) => ((num(x) - t.0).abs() / 10.0).min(1.0),
        },
    };
    if r.is_finite() {
        r
    } else {
        1e300
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Bench {
    /// several simulated runs of one problem class
    Solve { name: String, runs: Vec<Scn> },
    Rank(Scn),
    Vary(Scn),
    Mix(Scn),
    /// the operators on their own
    OpsRank(crate::ops::OpsCase),
    OpsVary(crate::ops::OpsCase),
    OpsMix(crate::ops::MixCase),
}

/// Stated budgets and demands of the battery.
struct Class {
    name: &'static str,
    budget: usize,
    /// final / initial objective value to reach (0: the optimum)
    goal: f64,
    /// the goal is reached by half of the runs within that many evaluations
    half: usize,
    /// ... and by nine tenths of them within that many
    most: usize,
    /// share of the runs that reach the goal within the budget
    share: f64,
}

const CLASSES: [Class; 13] = [
    Class { name: "sphere1", budget: 200, goal: 1e-3, half: 72, most: 150, share: 0.95 },
    Class { name: "sphere2", budget: 400, goal: 1e-3, half: 145, most: 260, share: 0.95 },
    Class { name: "sphere5", budget: 600, goal: 1e-2, half: 235, most: 380, share: 0.97 },
    Class { name: "sphere10", budget: 1000, goal: 3e-2, half: 380, most: 580, share: 0.97 },
    Class { name: "scales", budget: 600, goal: 1e-2, half: 185, most: 300, share: 0.97 },
    Class { name: "far", budget: 800, goal: 1e-2, half: 140, most: 330, share: 0.95 },
    Class { name: "abs3", budget: 600, goal: 0.05, half: 170, most: 290, share: 0.97 },
    Class { name: "bound", budget: 300, goal: 1e-3, half: 50, most: 130, share: 0.97 },
    Class { name: "grid", budget: 1000, goal: 0.0, half: 185, most: 600, share: 0.95 },
    Class { name: "onemax", budget: 1000, goal: 0.0, half: 330, most: usize::MAX, share: 0.8 },
    Class { name: "mapsize", budget: 200, goal: 0.0, half: 41, most: 85, share: 0.97 },
    Class { name: "choice", budget: 600, goal: 0.03, half: 115, most: 420, share: 0.9 },
    Class { name: "optional", budget: 300, goal: 0.03, half: 20, most: 160, share: 0.95 },
];

fn blank(r: &mut Rng) -> Scn {
    let mut s = props::base(r, Mode::Async);
    s.chan = 1024;
    s.rule = Rule { seed: r.next(), lat: Lat::Const(10), obj: Obj::Const(Num(0.0)), reject: 0.0, honour: 1.0, honour_us: 1, noise: 0.0, adv: Default::default() };
    s.conc = *r.pick(&[1, 1, 2, 4, 8]);
    s.rule.lat = if r.chance(0.5) { Lat::Uniform(1, 1000) } else { Lat::Ties(10, 3) };
    s
}

fn real(init: f64, scale: f64, b: Option<(f64, f64)>) -> SN {
    SN::Real { init: Num(init), scale: Num(scale), min: b.map(|b| Num(b.0)), max: b.map(|b| Num(b.1)) }
}

fn problem(r: &mut Rng, name: &str, s: &mut Scn) {
    let xs = |v: Vec<SN>| SN::Sub(v.into_iter().enumerate().map(|(i, x)| (format!("x{i}"), x)).collect());
    let p = match name {
        "sphere1" | "sphere2" | "sphere5" | "sphere10" | "abs3" => {
            let n: usize = name.trim_start_matches(char::is_alphabetic).parse().unwrap();
            // initial value, target and declared scale are of the same order of magnitude
            let sc = *r.pick(&[1e-6, 0.01, 1.0, 1.0, 50.0, 1e7]);
            let mut t = vec![];
            let mut d = vec![];
            for _ in 0..n {
                let init = sc * (r.f64() * 20.0 - 10.0);
                let tgt = init + sc * (2.0 + 8.0 * r.f64()) * if r.chance(0.5) { 1.0 } else { -1.0 };
                t.push((Num(tgt), Num(sc)));
                d.push(real(init, sc, if r.chance(0.3) { Some((-50.0 * sc, 50.0 * sc)) } else { None }));
            }
            s.spec = xs(d);
            if name == "abs3" {
                Problem::Abs(t)
            } else {
                Problem::Sphere(t)
            }
        }
        "scales" => {
            let mut t = vec![];
            let mut d = vec![];
            for _ in 0..4 {
                let sc = 10f64.powf(r.f64() * 12.0 - 6.0);
                let init = sc * (r.f64() * 10.0 - 5.0);
                t.push((Num(init + sc * (3.0 + 5.0 * r.f64())), Num(sc)));
                d.push(real(init, sc, None));
            }
            s.spec = xs(d);
            Problem::Sphere(t)
        }
        "far" => {
            // the optimum lies many steps away, or the steps are far too large
            let k = *r.pick(&[30.0, 100.0]);
            let tgt = k * (1.0 + r.f64());
            s.spec = xs(vec![real(0.0, 1.0, None)]);
            Problem::Sphere(vec![(Num(tgt), Num(k))])
        }
        "bound" => {
            let n = r.range(1, 3) as usize;
            let mut b = vec![];
            let mut d = vec![];
            for _ in 0..n {
                let (l, h) = *r.pick(&[(0.0, 1.0), (-5.0, 5.0), (1.0, 1000.0), (-1e6, -10.0)]);
                let w: f64 = h - l;
                b.push((r.chance(0.5), Num(l), Num(h)));
                d.push(real(l + w * (0.4 + 0.2 * r.f64()), w / *r.pick(&[3.0, 10.0, 30.0]), Some((l, h))));
            }
            s.spec = xs(d);
            Problem::Bound(b)
        }
        "grid" => {
            let n = r.range(1, 3) as usize;
            let mut t = vec![];
            let mut d = vec![];
            for _ in 0..n {
                let init = r.below(40) as i64 - 20;
                let tgt = (init + r.range(8, 20) as i64 * if r.chance(0.5) { 1 } else { -1 }).clamp(-40, 40);
                t.push(tgt);
                d.push(SN::Int { init, scale: Num(*r.pick(&[2.0, 5.0, 10.0])), min: Some(-40), max: Some(40) });
            }
            s.spec = xs(d);
            Problem::Grid(t)
        }
        "onemax" => {
            let n = r.range(8, 16) as usize;
            let init = r.chance(0.5);
            s.spec = SN::Sub(vec![("bits".into(), SN::Arr(Box::new(SN::Bool(init)), n))]);
            Problem::OneMax((0..n).map(|i| if i < n / 2 { !init } else { r.chance(0.5) }).collect())
        }
        "mapsize" => {
            let init = r.usize(8);
            let mut n = r.usize(12);
            while n.abs_diff(init) < 3 {
                n = r.usize(12);
            }
            let vt = match r.below(3) {
                0 => SN::Bool(true),
                1 => SN::Const,
                _ => real(0.0, 1.0, None),
            };
            s.spec = SN::Sub(vec![(
                "m".into(),
                SN::Map { vt: Box::new(vt), init, min: if r.chance(0.5) { Some(n.min(init)) } else { None }, max: if r.chance(0.5) { Some(n.max(init).max(1)) } else { None } },
            )]);
            Problem::MapSize(n)
        }
        "choice" => {
            let vars: Vec<String> = (0..r.range(2, 5)).map(|i| format!("opt{i}")).collect();
            let ens: Vec<String> = (0..r.range(2, 6)).map(|i| format!("e{i}")).collect();
            let var = vars[1 + r.usize(vars.len() - 1)].clone();
            let en = ens[1 + r.usize(ens.len() - 1)].clone();
            s.spec = SN::Sub(vec![
                ("v".into(), SN::Var(vars.iter().map(|n| (n.clone(), real(0.0, 1.0, None))).collect(), vars[0].clone())),
                ("e".into(), SN::Enum(ens.clone(), ens[0].clone())),
            ]);
            Problem::Choice { var, en, t: Num(r.f64() * 10.0 - 5.0) }
        }
        _ => {
            let present = r.chance(0.6);
            s.spec = SN::Sub(vec![("o".into(), SN::Opt(Box::new(real(0.0, 1.0, None)), !present))]);
            Problem::Opt { present, t: Num(r.f64() * 10.0 - 5.0) }
        }
    };
    s.rule.obj = Obj::Bench(p);
}

pub const RUNS: usize = 160;

pub fn generate(r: &mut Rng, index: u64) -> Bench {
    let k = (index % 41) as usize;
    if k < CLASSES.len() {
        let c = &CLASSES[k];
        let runs = (0..RUNS)
            .map(|_| {
                let mut s = blank(r);
                s.budget = Some(c.budget);
                problem(r, c.name, &mut s);
                s
            })
            .collect();
        return Bench::Solve { name: c.name.into(), runs };
    }
    if cfg!(cambrian_ops) {
        match k - CLASSES.len() {
            0..=1 if !crate::hooks::HOOKED => return Bench::OpsRank(crate::ops::rank_case(r)),
            6..=12 if !crate::hooks::HOOKED => return Bench::OpsVary(crate::ops::vary_case(r)),
            20..=23 if !crate::hooks::HOOKED => return Bench::OpsMix(crate::ops::mix_case(r)),
            2..=5 => return Bench::OpsRank(crate::ops::rank_case(r)),
            13..=19 => return Bench::OpsVary(crate::ops::vary_case(r)),
            24..=27 => return Bench::OpsMix(crate::ops::mix_case(r)),
            _ => (),
        }
    }
    let mut s = blank(r);
    s.rule.obj = Obj::Hash(1);
    match k - CLASSES.len() {
        0..=5 => {
            // n different individuals, then a long sequence of unchanged selections
            let n = r.range(2, 12) as usize;
            let pr = *r.pick(&[0.0, 0.05, 0.2, 0.5, 0.8, 1.0]);
            s.spec = SN::Sub(vec![("x".into(), real(0.0, 1.0, None))]);
            s.rule.obj = Obj::Score(0);
            s.conc = 1;
            s.accept_first = Some(n);
            s.budget = Some(n + 3000);
            s.meta = Some(MetaX { choices: vec![(0.0, pr, 0.0, 1.0)], keep: 0.0, first: (Some((0.0, 0.5, 1.0, 10.0)), n - 1) });
            Bench::Rank(s)
        }
        6..=19 => {
            s.spec = gen_spec(r);
            s.budget = Some(400);
            s.rule.obj = obj_any(r);
            s.rule.reject = *r.pick(&[0.0, 0.5]);
            s.meta = Some(MetaX {
                choices: vec![(*r.pick(&[0.0, 0.5, 1.0]), *r.pick(&[0.0, 0.5, 1.0]), 1.0, *r.pick(&[1.0, 1.0, 10.0]))],
                keep: 0.0,
                first: (None, 0),
            });
            Bench::Vary(s)
        }
        _ => {
            s.spec = crate::bench::mixable(r);
            s.conc = 1;
            let n = r.range(4, 40) as usize;
            s.accept_first = Some(n);
            s.budget = Some(n + 200);
            s.rule.obj = Obj::Hash(1);
            s.meta = Some(MetaX { choices: vec![(1.0, *r.pick(&[0.0, 0.1, 0.3]), 0.0, 1.0)], keep: 0.0, first: (Some((0.0, 0.0, 1.0, 10.0)), n) });
            Bench::Mix(s)
        }
    }
}

fn obj_any(r: &mut Rng) -> Obj {
    props::obj(r)
}

/// A container all of whose parts vary freely.
pub fn mixable(r: &mut Rng) -> SN {
    let leaf = |r: &mut Rng| match r.below(3) {
        0 => real(0.0, 1.0, None),
        1 => SN::Int { init: 0, scale: Num(1000.0), min: None, max: None },
        _ => real(5.0, 10.0, Some((-1e6, 1e6))),
    };
    let n = r.range(3, 6) as usize;
    match r.below(4) {
        0 => SN::Sub((0..n).map(|i| (format!("x{i}"), leaf(r))).collect()),
        1 => SN::Arr(Box::new(leaf(r)), n),
        2 => SN::Map { vt: Box::new(leaf(r)), init: n + 2, min: Some(n), max: None },
        _ => SN::Sub(vec![
            ("a".into(), SN::Arr(Box::new(leaf(r)), n)),
            ("b".into(), SN::Sub((0..n).map(|i| (format!("y{i}"), leaf(r))).collect())),
        ]),
    }
}

fn value_of(r: &Run) -> Option<f64> {
    match &r.outcome {
        Outcome::Ok { val, .. } => Some(*val),
        _ => None,
    }
}

pub fn exec(b: &Bench, record: bool, o: &mut Out) {
    o.nontrivial = true;
    match b {
        Bench::Solve { name, runs } => {
            let c = CLASSES.iter().find(|c| c.name == name).expect("class");
            let mut worst = 0f64;
            // evaluations needed to reach the goal
            let mut need = vec![];
            for s in runs {
                let mut r = run(s, record, 0);
                if crate::judge::no_crash(s, &r, &mut o.viols) {
                    crate::case::absorb(o, s, &mut r);
                    return;
                }
                let first = r.hist.evals.first().and_then(|e| match e.res {
                    Some(Res::Val(x)) => Some(x),
                    _ => None,
                });
                match (first, value_of(&r)) {
                    (Some(f), Some(v)) => {
                        let q = if f > 0.0 { v / f } else { 0.0 };
                        worst = worst.max(q);
                        if q > 1.0 {
                            o.viols.push((format!("worse-{name}"), format!("{name}: after {} evaluations the best objective value is {v}, the initial one was {f}", c.budget)));
                        }
                        let t = r.hist.evals.iter().position(|e| matches!(e.res, Some(Res::Val(x)) if x <= f * c.goal));
                        // only what is reported counts
                        need.push(if q <= c.goal { t.map(|t| t + 1).unwrap_or(usize::MAX) } else { usize::MAX });
                    }
                    _ => o.viols.push((format!("unsolved-{name}"), format!("{name}: run ended with {}", crate::judge::short(&r.outcome)))),
                }
                crate::case::absorb(o, s, &mut r);
            }
            need.sort();
            let n = need.len();
            let share = need.iter().filter(|t| **t <= c.budget).count() as f64 / n.max(1) as f64;
            let half = need.get(n / 2).copied().unwrap_or(usize::MAX);
            let most = need.get(n * 9 / 10).copied().unwrap_or(usize::MAX);
            if runs.len() == RUNS && (half > c.half || most > c.most || share < c.share) {
                o.viols.push((
                    format!("undirected-{name}"),
                    format!(
                        "{name}: {share} of {n} runs reach {} of the initial value within {} evaluations (demanded {}), half of them within {half} (demanded {}), nine tenths within {most} (demanded {})",
                        c.goal, c.budget, c.share, c.half, c.most
                    ),
                ));
            }
            let q = |p: f64| need.get(((n - 1) as f64 * p) as usize).copied().unwrap_or(0);
            o.brief = format!("{name}: {n} runs, {} evaluations each, {share} reach the goal {}; evaluations needed: quartiles {} {} {}, 90% {}, 97% {}; worst final/initial {worst:e}",
                c.budget, c.goal, q(0.25), q(0.5), q(0.75), q(0.9), q(0.97));
            *o.stats.entry(format!("bench_{name}")).or_default() += 1;
        }
        Bench::Rank(s) => {
            let mut r = run(s, record, 8);
            crate::judge::no_crash(s, &r, &mut o.viols);
            let n = s.accept_first.unwrap();
            if let Some(c) = r.hist.ranks.get(&n) {
                let tot: u64 = c.iter().sum();
                for i in 0..n - 1 {
                    let (a, b) = (c[i] as f64, c[i + 1] as f64);
                    // the difference of two multinomial counts has variance at most a + b
                    if b - a > 5.5 * (a + b).sqrt() + 1.0 {
                        o.viols.push((
                            "rank-order".into(),
                            format!("of {n} individuals rank {i} was picked {a} times, rank {} {b} times (pressure {:?}); {c:?}", i + 1, s.meta.as_ref().unwrap().choices),
                        ));
                        break;
                    }
                }
                // better-ranked individuals are favoured
                let pr = s.meta.as_ref().unwrap().choices[0].1;
                if pr >= 0.5 && tot >= 1000 && n >= 2 && (c[0] as f64) < c[n - 1] as f64 + 5.0 * (tot as f64 / n as f64).sqrt() {
                    o.viols.push(("no-preference".into(), format!("selection pressure {pr}: best of {n} picked {} times, worst {} times of {tot}; {c:?}", c[0], c[n - 1])));
                }
                *o.stats.entry("bench_selections".into()).or_default() += tot;
            }
            crate::case::absorb(o, s, &mut r);
            *o.stats.entry("bench_rank".into()).or_default() += 1;
        }
        Bench::Vary(s) => {
            let mut r = run(s, record, 8);
            crate::judge::no_crash(s, &r, &mut o.viols);
            crate::ops::judge_live(&r.hist.live, &mut o.viols);
            *o.stats.entry("bench_mutations_judged".into()).or_default() += r.hist.live.values().map(|p| p.0).sum::<u64>();
            crate::case::absorb(o, s, &mut r);
            *o.stats.entry("bench_vary".into()).or_default() += 1;
        }
        Bench::OpsRank(c) => crate::ops::rank(c, record, o),
        Bench::OpsVary(c) => crate::ops::vary(c, o),
        Bench::OpsMix(m) => crate::ops::mix_exec(m, o),
        Bench::Mix(s) => {
            let mut r = run(s, record, 8);
            crate::judge::no_crash(s, &r, &mut o.viols);
            let need: &[&str] = match &s.spec {
                SN::Arr(..) => &["array"],
                SN::Map { .. } => &["anon map"],
                SN::Sub(m) if m.len() == 2 && m[0].0 == "a" => &["sub", "array"],
                _ => &["sub"],
            };
            if crate::hooks::HOOKED && r.hist.mix_n >= 150 {
                for k in need {
                    let hits = r.hist.mix_hits.get(k).copied().unwrap_or(0);
                    if hits * 20 < r.hist.mix_n {
                        o.viols.push((
                            "not-mixed".into(),
                            format!("only {hits} of {} recombinations with probability 1 combine parents inside a {k}", r.hist.mix_n),
                        ));
                    }
                }
            }
            *o.stats.entry("bench_recombinations_judged".into()).or_default() += r.hist.mix_n;
            crate::case::absorb(o, s, &mut r);
            *o.stats.entry("bench_mix".into()).or_default() += 1;
        }
    }
    let _ = mix(0, 0);
    let _: Option<POut> = None;
}
