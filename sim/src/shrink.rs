//! Greedy minimisation of failing cases: fewer faults, fewer requests, simpler world, smaller space.
use crate::bench::Bench;
use crate::case::*;
use crate::gen::*;
use crate::scn::*;
use serde_json::Value as J;
use std::time::{Duration, Instant};

pub fn scn(s: &Scn) -> Vec<Scn> {
    let mut v: Vec<Scn> = vec![];
    let mut add = |f: &dyn Fn(&mut Scn)| {
        let mut t = s.clone();
        f(&mut t);
        if t != *s {
            v.push(t);
        }
    };
    // whole groups of faults first
    add(&|t| t.over.clear());
    add(&|t| t.cmds.clear());
    add(&|t| t.skews.clear());
    add(&|t| t.disk = DiskX::default());
    add(&|t| t.rule.noise = 0.0);
    add(&|t| t.meta = None);
    add(&|t| t.target = None);
    add(&|t| t.time_limit = None);
    add(&|t| t.kill_after = None);
    add(&|t| t.reader = Reader::Prompt);
    add(&|t| t.chan = 1024);
    add(&|t| t.preempt = 0.0);
    add(&|t| t.verbose = false);
    add(&|t| t.accept_first = None);
    add(&|t| t.sample = 1);
    add(&|t| t.guess = None);
    add(&|t| t.files = false);
    add(&|t| t.rule.reject = 0.0);
    add(&|t| t.rule.honour = 0.0);
    add(&|t| t.rule.honour = 1.0);
    add(&|t| t.rule.honour_us = 1);
    add(&|t| t.rule.lat = Lat::Const(1000));
    add(&|t| t.rule.lat = Lat::Uniform(1, 1000));
    add(&|t| t.rule.obj = Obj::Const(Num(1.0)));
    add(&|t| t.rule.obj = Obj::Hash(5));
    add(&|t| t.epoch = 1_600_000_000_000_000_000);
    add(&|t| t.salt = 0);
    add(&|t| t.extra = J::Null);
    // less of everything
    for c in [1, 2, s.conc / 2, s.conc.saturating_sub(1)] {
        if c >= 1 && c < s.conc {
            add(&|t| t.conc = c);
        }
    }
    if let Some(b) = s.budget {
        for c in [0, 1, 2, b / 4, b / 2, b * 3 / 4, b.saturating_sub(5), b.saturating_sub(1)] {
            if c < b {
                add(&|t| t.budget = Some(c));
            }
        }
    }
    if let Some(b) = s.stop_starts {
        for c in [1, b / 2, b.saturating_sub(1)] {
            if c < b && c > 0 {
                add(&|t| t.stop_starts = Some(c));
            }
        }
    }
    if s.sample > 2 {
        add(&|t| t.sample = 2);
    }
    for i in 0..s.cmds.len() {
        if s.cmds.len() > 1 {
            add(&|t| {
                t.cmds.remove(i);
            });
        }
    }
    for i in 0..s.skews.len() {
        if s.skews.len() > 1 {
            add(&|t| {
                t.skews.remove(i);
            });
        }
    }
    for (k, p) in &s.over {
        if s.over.len() > 1 {
            add(&|t| {
                t.over.remove(k);
            });
        }
        if let Some(x) = &p.px {
            let mut w: Vec<ProcX> = vec![];
            let mut px = |f: &dyn Fn(&mut ProcX)| {
                let mut y = x.clone();
                f(&mut y);
                if y != *x {
                    w.push(y);
                }
            };
            px(&|y| y.stderr = None);
            px(&|y| y.stdout = None);
            px(&|y| y.fork = None);
            px(&|y| y.pieces = 0);
            px(&|y| y.piece_gap = 0);
            px(&|y| y.linger = 0);
            px(&|y| y.close_early = false);
            px(&|y| y.ignore_term = false);
            px(&|y| y.exit = None);
            px(&|y| y.signal = None);
            px(&|y| y.hang = false);
            px(&|y| {
                if let Some(b) = &mut y.stdout {
                    b.rep = 1
                }
            });
            px(&|y| {
                if let Some(b) = &mut y.stderr {
                    b.rep = 1
                }
            });
            px(&|y| {
                if let Some(b) = &mut y.stderr {
                    b.pat.truncate(b.pat.len() / 2)
                }
            });
            px(&|y| {
                if let Some(f) = &mut y.fork {
                    f.depth = 0;
                    f.ignore_term = false;
                    f.settle_us = 0;
                }
            });
            for y in w {
                add(&|t| t.over.get_mut(k).unwrap().px = Some(y.clone()));
            }
            if *x == ProcX::default() {
                add(&|t| t.over.get_mut(k).unwrap().px = None);
            }
        }
        add(&|t| {
            let p = t.over.get_mut(k).unwrap();
            if p.lat != FOREVER {
                p.lat = 1000
            }
        });
    }
    if let Some(m) = &s.meta {
        if m.choices.len() > 1 {
            for i in 0..m.choices.len() {
                add(&|t| {
                    t.meta.as_mut().unwrap().choices.remove(i);
                });
            }
        }
        add(&|t| t.meta.as_mut().unwrap().keep = 0.0);
        add(&|t| t.meta.as_mut().unwrap().first = (None, 0));
    }
    // a smaller space; the guess has to follow
    if s.guess.is_none() && !matches!(s.rule.obj, Obj::Bench(_)) {
        for sp in s.spec.shrink() {
            let mut t = s.clone();
            t.spec = sp;
            v.push(t);
        }
    }
    v.retain(|t| cambrian::spec_util::from_yaml_str(&t.spec.yaml()).is_ok());
    v
}

fn candidates(c: &Case) -> Vec<Case> {
    let mk = |kind: Kind| Case { kind, ..c.clone() };
    match &c.kind {
        Kind::Run(s) => scn(s).into_iter().map(|t| mk(Kind::Run(Box::new(t)))).collect(),
        Kind::Pair { a, b, how } => {
            // both sides change together
            let (va, vb) = (scn(a), scn(b));
            let mut v = vec![];
            for t in va {
                let mut u = (**b).clone();
                u.spec = t.spec.clone();
                u.budget = t.budget;
                u.conc = t.conc;
                u.sample = t.sample;
                u.target = t.target;
                if how != "init-as-guess" {
                    u.guess = t.guess.clone();
                } else {
                    u.guess = Some(t.spec.init_json());
                }
                u.meta = t.meta.clone();
                u.over = t.over.clone();
                u.rule.obj = t.rule.obj.clone();
                u.rule.reject = t.rule.reject;
                u.accept_first = t.accept_first;
                v.push(mk(Kind::Pair { a: Box::new(t), b: Box::new(u), how: how.clone() }));
            }
            for t in vb {
                if t.spec == b.spec
                    && t.budget == b.budget
                    && t.conc == b.conc
                    && t.sample == b.sample
                    && t.target == b.target
                    && t.guess == b.guess
                    && t.meta == b.meta
                    && t.over == b.over
                    && t.accept_first == b.accept_first
                    && t.rule.obj == b.rule.obj
                    && t.rule.reject == b.rule.reject
                {
                    v.push(mk(Kind::Pair { a: a.clone(), b: Box::new(t), how: how.clone() }));
                }
            }
            v
        }
        Kind::Chain(s) => scn(s).into_iter().map(|t| mk(Kind::Chain(Box::new(t)))).collect(),
        Kind::Guess { scn: s, must, why } => scn(s)
            .into_iter()
            .filter(|t| t.guess == s.guess && t.budget != Some(0))
            .map(|t| mk(Kind::Guess { scn: Box::new(t), must: *must, why: why.clone() }))
            .collect(),
        Kind::Bench(b) => match &**b {
            Bench::Vary(s) => scn(s)
                .into_iter()
                .filter(|t| t.meta == s.meta && t.budget == s.budget)
                .map(|t| mk(Kind::Bench(Box::new(Bench::Vary(t)))))
                .collect(),
            Bench::Solve { name, runs } if runs.len() > 1 => runs
                .iter()
                .map(|s| mk(Kind::Bench(Box::new(Bench::Solve { name: name.clone(), runs: vec![s.clone()] }))))
                .collect(),
            _ => vec![],
        },
        Kind::Ops(x) => crate::ops::shrink(x).into_iter().map(|t| mk(Kind::Ops(Box::new(t)))).collect(),
        Kind::Cli(x) => x.shrink().into_iter().map(|t| mk(Kind::Cli(Box::new(t)))).collect(),
    }
}

/// Smallest case found that violates with the same class.
pub fn shrink(c: &Case, class: &str, limit: Duration) -> (Case, usize) {
    let end = Instant::now() + limit;
    let mut cur = c.clone();
    let mut tried = 0;
    loop {
        let mut progress = false;
        for cand in candidates(&cur) {
            if Instant::now() > end {
                return (cur, tried);
            }
            // a candidate may cascade: recompute after every success, but go on with the same list first
            tried += 1;
            let o = exec(&cand, false);
            if o.viols.iter().any(|v| v.0 == class) {
                cur = cand;
                progress = true;
                break;
            }
        }
        if !progress {
            return (cur, tried);
        }
    }
}
