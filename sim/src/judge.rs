//! Oracles over the recorded history of one simulated run. Every function judges one property only.
use crate::gen::{same, SN};
use crate::run::*;
use crate::scn::*;
use serde_json::Value as J;
use simcore::world::{Abort, MS, SEC, US};
use std::collections::{BTreeMap, BTreeSet};

pub type Viols = Vec<(String, String)>;

fn v(out: &mut Viols, class: &str, detail: impl Into<String>) {
    if out.len() < 40 {
        out.push((class.to_string(), detail.into()));
    }
}

const SYNC_SLACK: u64 = 8 * SEC;

/// Time in which a run that has nothing to wait for any more returns (report writer and busy threads take theirs).
pub fn slack(s: &Scn) -> u64 {
    if s.files || s.mode == Mode::SyncThread {
        SYNC_SLACK
    } else {
        300 * MS
    }
}
/// Time within which the optimizer certainly notices that a child has ended (jobs of the simulated blocking pool take
/// up to 20 ms each).
pub const LAG: u64 = 120 * MS;

/// What the history says about when and why the run had to stop.
pub struct Facts {
    pub ret: Option<(usize, u64)>,
    /// first termination request (command, interrupt, time limit)
    pub cmd: Option<(usize, u64)>,
    /// first evaluation failure that the optimizer saw: position, time, eval
    pub fail: Option<(usize, u64, usize)>,
    /// first processed result that brings the best-seen value to the target
    pub target: Option<(usize, u64, usize)>,
    /// the mean of a re-evaluated individual lies so close to the target that rounding decides
    pub ambiguous: bool,
    /// End event of an evaluation means that its result is processed right there
    pub exact: bool,
    /// from this moment on the run may have been stopped by a request (the timer of a time limit is not observed)
    pub may_stop: u64,
}

pub fn facts(s: &Scn, r: &Run) -> Facts {
    let exact = matches!(s.mode, Mode::Async | Mode::SyncAsync);
    let mut f = Facts { ret: None, cmd: None, fail: None, target: None, ambiguous: false, exact, may_stop: u64::MAX };
    let mut per: BTreeMap<usize, Vec<f64>> = BTreeMap::new();
    for (pos, (t, e)) in r.hist.evs.iter().enumerate() {
        match e {
            Ev::Return => {
                f.ret.get_or_insert((pos, *t));
            }
            Ev::Cmd(_) if f.ret.is_none() => {
                f.cmd.get_or_insert((pos, *t));
            }
            Ev::End(i) if f.ret.is_none() => {
                let ev = &r.hist.evals[*i];
                match ev.res.as_ref() {
                    Some(Res::Err(_)) | Some(Res::NonFinite) => {
                        f.fail.get_or_insert((pos, *t, *i));
                    }
                    Some(Res::Val(x)) if f.target.is_none() => {
                        if let Some(tv) = s.target {
                            if s.sample == 1 {
                                if *x <= tv.0 {
                                    f.target = Some((pos, *t, *i));
                                }
                            } else if let Some(id) = ev.id {
                                let l = per.entry(id).or_default();
                                l.push(*x);
                                if l.len() == s.sample {
                                    let m = l.iter().sum::<f64>() / s.sample as f64;
                                    if (m - tv.0).abs() <= 1e-9 * (m.abs() + tv.0.abs()) {
                                        f.ambiguous = true;
                                    }
                                    if m <= tv.0 {
                                        f.target = Some((pos, *t, *i));
                                    }
                                }
                            }
                        }
                    }
                    _ => (),
                }
            }
            _ => (),
        }
    }
    if let Some((_, t)) = f.cmd {
        f.may_stop = t;
    }
    if let (Some(l), Some((_, t))) = (s.time_limit, f.ret) {
        if t + 3 * MS >= l * US {
            f.may_stop = f.may_stop.min(l * US);
        }
    }
    f
}

/// Evaluations (of any mode) whose child / computation fails when it is left undisturbed.
pub fn planned_failure(s: &Scn, e: &Eval) -> bool {
    let p = s.plan(e.idx, &e.value);
    if s.mode.is_proc() {
        matches!(proc_result(&p), Res::Err(_)) && !(p.lat == FOREVER || p.px.as_ref().map(|x| x.hang).unwrap_or(false) && p.px.as_ref().unwrap().no_spawn.is_none())
    } else {
        matches!(p.out, Out::Err(_) | Out::NonFinite(_))
            || matches!(&p.on_abort, OnAbort::After(_, Out::Err(_)) | OnAbort::After(_, Out::NonFinite(_)))
    }
}

/// The evaluation never ends by itself and nothing the optimizer may do ends it.
fn unstoppable(s: &Scn, e: &Eval) -> bool {
    let p = s.plan(e.idx, &e.value);
    !s.mode.is_proc() && p.lat == FOREVER && p.on_abort == OnAbort::Ignore
}

pub fn crash(r: &Run) -> Option<(String, String)> {
    match &r.outcome {
        Outcome::Panic(m) => Some(("panic".into(), format!("the run panicked: {m}"))),
        Outcome::Hang(a) => Some((
            "hang".into(),
            format!(
                "the run never returned ({a:?}) at simulated time {} ms; {} evaluations started, {} ended",
                r.now / MS,
                r.hist.evals.len(),
                r.hist.ended
            ),
        )),
        _ => None,
    }
}

/// Panic or hang that the property at hand does not allow. Runs whose unfinished evaluations legitimately keep them
/// going for ever do not count.
pub fn no_crash(s: &Scn, r: &Run, out: &mut Viols) -> bool {
    if let Some((c, d)) = crash(r) {
        if c == "hang" && legit_hang(s, r) {
            return true;
        }
        v(out, &c, d);
        return true;
    }
    false
}

pub fn legit_hang(s: &Scn, r: &Run) -> bool {
    if matches!(r.outcome, Outcome::Hang(Abort::Livelock(_))) {
        return false;
    }
    let f = facts(s, r);
    let stop = f.cmd.is_some() || f.fail.is_some() || f.target.is_some();
    let open: Vec<&Eval> = r.hist.evals.iter().filter(|e| e.end.is_none() && e.dropped.is_none()).collect();
    if stop {
        !open.is_empty() && f.target.is_none() && open.iter().any(|e| unstoppable(s, e))
    } else {
        open.iter().any(|e| {
            let p = s.plan(e.idx, &e.value);
            p.lat == FOREVER || p.px.as_ref().map(|x| x.hang || x.linger == FOREVER || x.fork.as_ref().map(|f| f.life_us == FOREVER).unwrap_or(false)).unwrap_or(false)
        }) && s.kill_after.is_none()
    }
}

// ---------------------------------------------------------------------------------------------------- C01

/// When the last evaluation ended that ended before the run did.
fn last_end(r: &Run) -> u64 {
    r.hist.evals.iter().filter_map(|e| e.end).map(|x| x.1).max().unwrap_or(0)
}

pub fn c01(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    for e in &r.hist.evals {
        if let Err(w) = s.spec.conforms(&e.value, "") {
            v(&mut out, "nonconforming", format!("evaluation #{}: {w}; parameters {}", e.idx, e.value));
        }
    }
    for e in &r.hist.reps {
        if let Err(w) = s.spec.conforms(&e.input, "") {
            v(&mut out, "nonconforming-report", format!("report of individual {}: {w}; parameters {}", e.id, e.input));
        }
    }
    if let Outcome::Ok { value, .. } = &r.outcome {
        if let Err(w) = s.spec.conforms(value, "") {
            v(&mut out, "nonconforming-best", format!("final report: {w}; parameters {value}"));
        }
    }
    for (p, w) in &r.hist.hook_errors {
        if *p == "C01" {
            v(&mut out, "nonconforming-offspring", w.clone());
        }
    }
    // a candidate that cannot even be turned into JSON never reaches the objective function
    if let Some((c, d)) = crash(r) {
        if c == "panic" {
            v(&mut out, "panic", d);
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------------- records

/// One processed evaluation as the optimizer published it.
#[derive(Clone, Debug)]
pub struct Rec {
    pub id: usize,
    pub seed: u64,
    pub input: J,
    pub val: Option<f64>,
    pub meta: Option<(String, f64, f64, f64, f64)>,
}

pub fn parse_csv(bytes: &[u8]) -> Result<Vec<Rec>, String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    let mut lines = text.split_inclusive('\n');
    let head = lines.next().ok_or("no header row")?;
    if head != "individualId;evalTimeSeconds;metaParamsSource;crossoverProb;selectionPressure;mutationProb;mutationScale;inputVal;seed;objFuncVal\n" {
        return Err(format!("unexpected header {head:?}"));
    }
    let mut out = vec![];
    for l in lines {
        let Some(l) = l.strip_suffix('\n') else { return Err(format!("unterminated last row {l:?}")) };
        let bad = || format!("unreadable row {l:?}");
        let front: Vec<&str> = l.splitn(8, ';').collect();
        if front.len() != 8 {
            return Err(bad());
        }
        let back: Vec<&str> = front[7].rsplitn(3, ';').collect();
        if back.len() != 3 {
            return Err(bad());
        }
        let t: f64 = front[1].parse().map_err(|_| bad())?;
        if !(t >= 0.0) {
            return Err(bad());
        }
        let meta = if front[2].is_empty() {
            if front[3..7].iter().any(|x| !x.is_empty()) {
                return Err(bad());
            }
            None
        } else {
            let p = |i: usize| front[i].parse::<f64>().map_err(|_| bad());
            Some((front[2].to_string(), p(3)?, p(4)?, p(5)?, p(6)?))
        };
        out.push(Rec {
            id: front[0].parse().map_err(|_| bad())?,
            seed: back[1].parse().map_err(|_| bad())?,
            input: crate::json::parse(back[2].as_bytes()).map_err(|_| bad())?,
            val: if back[0].is_empty() { None } else { Some(back[0].parse().map_err(|_| bad())?) },
            meta,
        });
    }
    Ok(out)
}

/// The records of the run: items received through the channel, or the rows of the CSV file.
pub fn records(s: &Scn, r: &Run) -> Result<Option<Vec<Rec>>, String> {
    if s.mode.is_async_api() {
        return Ok(Some(
            r.hist
                .reps
                .iter()
                .map(|p| Rec { id: p.id, seed: p.seed, input: p.input.clone(), val: p.val, meta: p.meta.clone() })
                .collect(),
        ));
    }
    if s.files && s.disk == DiskX::default() {
        return match &r.csv {
            Some(b) => parse_csv(b).map(Some),
            None => Err("no detailed report file".into()),
        };
    }
    Ok(None)
}

/// Results of evaluations that the optimizer must / may have processed.
pub struct Processed {
    /// (evaluation, value) whose processing is certain
    pub certain: Vec<(usize, Option<f64>)>,
    /// ... is possible
    pub possible: Vec<(usize, Option<f64>)>,
}

pub fn processed(s: &Scn, r: &Run) -> Processed {
    let f = facts(s, r);
    let mut p = Processed { certain: vec![], possible: vec![] };
    match s.mode {
        Mode::Async | Mode::SyncAsync => {
            for (_, e) in &r.hist.evs {
                if let Ev::Return = e {
                    break;
                }
                if let Ev::End(i) = e {
                    match r.hist.evals[*i].res.as_ref().unwrap() {
                        Res::Val(x) => p.certain.push((*i, Some(*x))),
                        Res::Reject => p.certain.push((*i, None)),
                        _ => (),
                    }
                }
            }
            p.possible = p.certain.clone();
        }
        Mode::SyncThread => {
            // the result travels through a join handle: certain only when nothing else could have come first
            let lim = [f.cmd.map(|c| c.1), f.fail.map(|c| c.1), f.target.map(|c| c.1)].into_iter().flatten().min();
            let ret = f.ret.map(|x| x.1).unwrap_or(u64::MAX);
            for e in &r.hist.evals {
                if let (Some(end), Some(res)) = (e.end, e.res.as_ref()) {
                    let x = match res {
                        Res::Val(x) => Some(*x),
                        Res::Reject => None,
                        _ => continue,
                    };
                    if end.1 <= ret {
                        p.possible.push((e.idx, x));
                        if lim.map(|l| end.1 < l).unwrap_or(true) {
                            p.certain.push((e.idx, x));
                        }
                    }
                }
            }
        }
        Mode::Proc | Mode::AsyncProc => {
            let stop = [Some(f.may_stop), f.ret.map(|c| c.1)].into_iter().flatten().min().unwrap_or(u64::MAX);
            let first_fail = r
                .hist
                .evals
                .iter()
                .filter(|e| planned_failure(s, e))
                .map(|e| leader_death(r, e.idx).unwrap_or(e.start.1).min(e.start.1 + 1))
                .min()
                .unwrap_or(u64::MAX);
            let tgt = s.target.map(|t| t.0);
            // the target may be reached from here on
            let hit = r
                .hist
                .evals
                .iter()
                .filter(|e| match (tgt, proc_result(&s.plan(e.idx, &e.value))) {
                    (Some(t), Res::Val(x)) => s.sample > 1 || x <= t,
                    _ => false,
                })
                .map(|e| leader_death(r, e.idx).unwrap_or(e.start.1))
                .min()
                .unwrap_or(u64::MAX);
            let stop = stop.min(hit);
            let budget_end = f.may_stop == u64::MAX && first_fail == u64::MAX;
            for e in &r.hist.evals {
                let plan = s.plan(e.idx, &e.value);
                let x = match proc_result(&plan) {
                    Res::Val(x) => Some(x),
                    Res::Reject => None,
                    _ => continue,
                };
                p.possible.push((e.idx, x));
                let Some(d) = leader_death(r, e.idx) else { continue };
                let own_end = r.procs.iter().any(|q| q.leader && q.eval == e.idx && q.finished && q.killed_by.is_none());
                let quiet = plan.px.as_ref().map(|x| x.fork.is_none()).unwrap_or(true);
                let early = d.saturating_add(LAG) < stop.min(first_fail)
                    && s.kill_after.map(|k| d + LAG < e.start.1 + k * US).unwrap_or(true);
                // a run that ends because of its budget has processed everything
                let all = budget_end && tgt.is_none() && s.kill_after.is_none() && matches!(r.outcome, Outcome::Ok { .. });
                if own_end && ((quiet && early) || all) {
                    p.certain.push((e.idx, x));
                }
            }
        }
    }
    p
}

pub fn leader_death(r: &Run, eval: usize) -> Option<u64> {
    r.procs.iter().find(|p| p.leader && p.eval == eval).and_then(|p| p.died)
}

// ---------------------------------------------------------------------------------------------------- C02

pub fn c02(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    let p = processed(s, r);
    match &r.outcome {
        Outcome::Ok { val, value, .. } => {
            if !r.hist.evals.iter().any(|e| same(&e.value, value)) {
                v(&mut out, "never-evaluated", format!("reported best-seen {value} was never evaluated in this run"));
                return out;
            }
            if s.sample == 1 {
                let hit = p.possible.iter().any(|(i, x)| *x == Some(*val) && same(&r.hist.evals[*i].value, value));
                if !hit {
                    let got: Vec<String> = p
                        .possible
                        .iter()
                        .filter(|(i, _)| same(&r.hist.evals[*i].value, value))
                        .map(|(i, x)| format!("#{i} -> {x:?}"))
                        .collect();
                    v(&mut out, "wrong-value", format!("reported best-seen {value} with value {val:?}, evaluations of it: {got:?}"));
                }
                for (i, x) in &p.certain {
                    if let Some(x) = x {
                        if x < val {
                            v(&mut out, "not-minimum", format!("reported best-seen value {val:?}, but evaluation #{i} was accepted with {x:?}"));
                            break;
                        }
                    }
                }
            } else {
                mean_check(s, r, *val, value, &mut out);
            }
        }
        Outcome::Err { variant, .. } if variant == "NoIndividuals" => {
            if s.sample == 1 {
                if let Some((i, x)) = p.certain.iter().find(|x| x.1.is_some()) {
                    v(&mut out, "no-individuals", format!("run ended with 'no individuals' although evaluation #{i} was accepted with {x:?}"));
                }
            }
        }
        _ => (),
    }
    completed_lost(s, r, "best-completed-lost", &mut out);
    out
}

/// Accepted returns by individual, as the optimizer has certainly processed them.
fn per_individual(s: &Scn, r: &Run) -> Option<BTreeMap<usize, (J, Vec<f64>)>> {
    let mut per: BTreeMap<usize, (J, Vec<f64>)> = BTreeMap::new();
    match s.mode {
        Mode::Async | Mode::SyncAsync => {
            for (i, x) in processed(s, r).certain {
                let e = &r.hist.evals[i];
                if let (Some(id), Some(x)) = (e.id, x) {
                    per.entry(id).or_insert((e.value.clone(), vec![])).1.push(x);
                }
            }
        }
        _ => match records(s, r) {
            Ok(Some(recs)) => {
                for c in recs {
                    // the value that was really returned, not the one recorded
                    let ret = if s.mode.is_proc() {
                        r.hist.evals.iter().find(|e| e.seed == Some(c.seed)).and_then(|e| match proc_result(&s.plan(e.idx, &e.value)) {
                            Res::Val(x) => Some(x),
                            _ => None,
                        })
                    } else {
                        c.val
                    };
                    if let (Some(_), Some(x)) = (c.val, ret) {
                        per.entry(c.id).or_insert((c.input.clone(), vec![])).1.push(x);
                    }
                }
            }
            _ => return None,
        },
    }
    Some(per)
}

/// sample size > 1: the best mean among the individuals whose sample is complete. None when there is no such
/// individual or when so many were accepted that completed ones may have been evicted from the population.
fn best_completed(s: &Scn, r: &Run) -> Option<(usize, f64, f64)> {
    if s.sample < 2 || r.hist.evals.len() > 100 && r.hist.evals.iter().map(|e| e.id.unwrap_or(e.idx)).collect::<std::collections::BTreeSet<_>>().len() > 100 {
        return None;
    }
    per_individual(s, r)?
        .iter()
        .filter(|(_, (_, l))| l.len() == s.sample)
        .map(|(i, (_, l))| (*i, l.iter().map(|x| x / l.len() as f64).sum::<f64>(), l.iter().fold(0f64, |a, x| a.max(x.abs()))))
        .min_by(|a, b| a.1.total_cmp(&b.1))
}

fn completed_lost(s: &Scn, r: &Run, kind: &str, out: &mut Viols) {
    let Some((i, m, scale)) = best_completed(s, r) else { return };
    match &r.outcome {
        Outcome::Ok { val, .. } if *val > m + 1e-9 * scale.max(val.abs()) => {
            v(out, kind, format!("reported best-seen value {val:?}, but individual {i} has the mean {m:?} of its {} accepted evaluations", s.sample))
        }
        Outcome::Err { variant, .. } if variant == "NoIndividuals" => {
            v(out, kind, format!("run ended with 'no individuals' although individual {i} has a complete sample with the mean {m:?}"))
        }
        _ => (),
    }
}

/// sample size > 1: value of the best-seen = mean of exactly `sample` returns of one individual.
fn mean_check(s: &Scn, r: &Run, val: f64, value: &J, out: &mut Viols) {
    let Some(per) = per_individual(s, r) else { return };
    let close = |l: &[f64]| {
        let m = l.iter().map(|x| x / l.len() as f64).sum::<f64>();
        let scale = l.iter().fold(0f64, |a, x| a.max(x.abs()));
        (m - val).abs() <= 1e-9 * scale.max(val.abs()) + 1e-320 || m == val
    };
    let ok = per.values().any(|(j, l)| same(j, value) && l.len() == s.sample && close(l));
    if !ok {
        let got: Vec<_> = per.iter().filter(|(_, x)| same(&x.0, value)).map(|(i, x)| format!("individual {i}: {:?}", x.1)).collect();
        v(out, "wrong-mean", format!("best-seen {value} reported with {val:?}, sample size {}, returns for it: {got:?}", s.sample));
    }
}

// ---------------------------------------------------------------------------------------------------- C03

pub fn c03(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    let Some(n) = s.budget else { return out };
    let starts = r.hist.evals.len();
    if starts > n {
        v(&mut out, "over-budget", format!("{starts} evaluations started, budget {n}"));
    }
    if undisturbed(s, r) {
        if starts != n {
            v(&mut out, "under-budget", format!("only {starts} of {n} evaluations started; outcome {:?}", r.outcome));
        }
        if let Outcome::Ok { completed, rejected, .. } = r.outcome {
            if completed + rejected != n {
                v(&mut out, "counts", format!("completed {completed} + rejected {rejected} != budget {n}"));
            }
        }
    }
    out
}

/// Nothing but the budget can have ended the run.
pub fn undisturbed(s: &Scn, r: &Run) -> bool {
    let f = facts(s, r);
    if f.may_stop != u64::MAX || f.fail.is_some() || f.target.is_some() || f.ambiguous || s.disk != DiskX::default() {
        return false;
    }
    if r.hist.evals.iter().any(|e| planned_failure(s, e)) {
        return false;
    }
    if let (Some(t), true) = (s.target, s.mode.is_proc()) {
        if s.sample > 1 || r.hist.evals.iter().any(|e| matches!(proc_result(&s.plan(e.idx, &e.value)), Res::Val(x) if x <= t.0)) {
            return false;
        }
    }
    if s.target.is_some() && s.mode == Mode::SyncThread && s.sample > 1 {
        return false;
    }
    true
}

// ---------------------------------------------------------------------------------------------------- C04

pub fn c04(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    let f = facts(s, r);
    if f.ambiguous || r.hist.nudged {
        return out;
    }
    let evals = &r.hist.evals;
    let ret = f.ret.unwrap_or((usize::MAX, r.now));
    // ---- target
    if let (Some((pos, t, i)), true) = (f.target, s.target.is_some()) {
        // a blocking computation that ends when the run is already stopping is not waited for
        let before_fail = f.fail.map(|x| pos < x.0).unwrap_or(true) && (s.mode != Mode::SyncThread || t + 50 * MS < f.may_stop);
        if s.mode == Mode::SyncThread {
            for e in evals.iter().filter(|e| e.start.1 > t + 50 * MS) {
                v(&mut out, "start-after-target", format!("evaluation #{} started {} us after #{i} had reached the target", e.idx, (e.start.1 - t) / US));
            }
        } else {
            for e in evals.iter().filter(|e| e.start.0 > pos && !(e.start.1 == 0 && e.idx < s.conc)) {
                v(&mut out, "start-after-target", format!("evaluation #{} started after #{i} had reached the target", e.idx));
            }
        }
        if before_fail {
            match &r.outcome {
                Outcome::Ok { val, .. } => {
                    if !(*val <= s.target.unwrap().0) {
                        v(&mut out, "target-missed", format!("evaluation #{i} reached the target {:?}, best-seen reported {val:?}", s.target));
                    }
                }
                o => {
                    let amb = f.fail.map(|x| x.1 <= t + 50 * MS).unwrap_or(false) && s.mode == Mode::SyncThread;
                    if !amb && s.disk == DiskX::default() {
                        v(&mut out, "target-error", format!("evaluation #{i} reached the target but the run ended with {o:?}"));
                    }
                }
            }
            // does not wait for what is in flight (it honours the abort or is abandoned)
            let react = evals
                .iter()
                .filter(|e| e.start.0 < pos && e.end.map(|x| x.0 > pos).unwrap_or(true))
                .map(|e| match s.plan(e.idx, &e.value).on_abort {
                    OnAbort::After(d, _) => d * US,
                    _ => u64::MAX / 4,
                })
                .max()
                .unwrap_or(0);
            let slack = if s.mode.is_async_api() && s.reader == Reader::Prompt { 10 * MS } else { slack(s) };
            if s.mode != Mode::SyncThread && s.reader == Reader::Prompt && react < u64::MAX / 8 && ret.1 > t + react + slack {
                v(&mut out, "target-waits", format!("target reached at {} ms, run returned at {} ms", t / MS, ret.1 / MS));
            }
        }
    }
    if s.mode.is_proc() {
        if let Some(t) = s.target.filter(|_| s.sample == 1) {
            // a child that reached the target and was gone long before another was started
            let hits: Vec<u64> = certain_proc_ends(s, r).iter().filter(|(_, _, x)| matches!(x, Some(x) if *x <= t.0)).map(|x| x.1).filter(|d| d + LAG < f.may_stop).collect();
            if let Some(first) = hits.iter().min() {
                for e in evals.iter().filter(|e| e.start.1 > first + LAG) {
                    v(&mut out, "start-after-target", format!("evaluation #{} started {} ms after the target had been reached", e.idx, (e.start.1 - first) / MS));
                }
                if s.reader == Reader::Prompt && ret.1 > first + slack(s) {
                    v(&mut out, "target-waits", format!("target reached at {} ms, run returned at {} ms", first / MS, ret.1 / MS));
                }
                match &r.outcome {
                    Outcome::Ok { val, .. } if *val <= t.0 => (),
                    o if !evals.iter().any(|e| planned_failure(s, e)) && s.disk == DiskX::default() => {
                        v(&mut out, "target-missed", format!("target {t:?} was reached but the run ended with {o:?}"))
                    }
                    _ => (),
                }
            }
        }
    }
    // a run that could only end by its target or by a request does not end with an error of its own making
    if let Outcome::Err { variant, debug, .. } = &r.outcome {
        if !matches!(variant.as_str(), "NoIndividuals" | "ClientHungUp") && f.fail.is_none() && s.disk == DiskX::default() && !evals.iter().any(|e| planned_failure(s, e)) {
            v(&mut out, "spurious-error", format!("nothing failed, yet the run ends with the error {debug}"));
        }
    }
    // ---- termination request
    let Some((cpos, ct)) = f.cmd else { return out };
    if let Some(t) = f.target {
        if t.1 <= ct {
            return out;
        }
    }
    // the time limit is counted from the construction of the timer, tokio / futures-timer round to milliseconds
    let tslack = if s.time_limit.is_some() { 3 * MS } else { 0 };
    let behind = s.mode.is_async_api() && s.reader != Reader::Prompt;
    for e in evals.iter().filter(|e| e.start.1 > ct + tslack) {
        v(&mut out, "start-after-request", format!("evaluation #{} started {} us after the termination request", e.idx, (e.start.1 - ct) / US));
    }
    let failed_first = match s.mode {
        Mode::Async | Mode::SyncAsync | Mode::SyncThread => f.fail.map(|x| x.1 <= ct + tslack).unwrap_or(false),
        _ => evals.iter().any(|e| planned_failure(s, e) && may_fail_before(s, r, e, ct + tslack + LAG)),
    };
    if failed_first {
        return out;
    }
    // in-flight evaluations learn of it (a result may have to wait for the report writer first)
    let heard = match s.files {
        // more results than the report queue holds wait for the disk
        true if s.conc > 200 => slack(s) + 600 * 25 * MS,
        true => slack(s),
        false => tslack,
    };
    if f.exact && s.reader == Reader::Prompt {
        for e in evals.iter().filter(|e| e.start.1 <= ct) {
            let ended_later = match e.end {
                Some(x) => x.1 > ct + heard,
                None => true,
            };
            let told = e.abort.map(|a| a.1 <= ct + heard).unwrap_or(false);
            let dropped = e.dropped.is_some();
            if ended_later && !told && f.target.is_none() {
                v(&mut out, "not-asked-to-abort", format!("evaluation #{} was in flight when termination was requested and was not told to abort", e.idx));
            }
            if dropped && f.target.is_none() {
                let budget_done = s.budget.map(|n| r.hist.ended >= n).unwrap_or(false);
                if !budget_done {
                    v(&mut out, "dropped-while-draining", format!("evaluation #{} was dropped although it had not ended", e.idx));
                }
            }
        }
        // returns as soon as they have ended
        let last = evals.iter().filter_map(|e| e.end.or(e.dropped)).map(|x| x.1).filter(|t| *t <= ret.1).max().unwrap_or(ct).max(ct);
        let slack = if s.mode.is_async_api() { 10 * MS } else { slack(s) + if s.files { 600 * 25 * MS } else { 0 } };
        if ret.1 > last + slack {
            v(&mut out, "late-return", format!("last evaluation ended at {} ms, run returned at {} ms", last / MS, ret.1 / MS));
        }
    } else if s.mode == Mode::SyncThread || s.mode.is_proc() {
        // children are killed; computations on threads cannot be interrupted
        let last = if s.mode == Mode::SyncThread { last_end(r) } else { 0 };
        if s.reader == Reader::Prompt && ret.1 > ct.max(last) + tslack + slack(s) {
            v(&mut out, "late-return", format!("terminated at {} ms, last computation ended at {} ms, run returned at {} ms", ct / MS, last / MS, ret.1 / MS));
        }
    }
    // outcome: the best seen so far, never an error
    completed_lost(s, r, "best-lost", &mut out);
    let p = processed(s, r);
    let clean = s.disk == DiskX::default();
    match &r.outcome {
        Outcome::Ok { val, .. } => {
            if s.sample == 1 {
                if let Some((i, x)) = p.certain.iter().filter_map(|(i, x)| x.map(|x| (*i, x))).find(|(_, x)| x < val) {
                    v(&mut out, "best-lost", format!("terminated run reports {val:?}, evaluation #{i} was accepted with {x:?}"));
                }
            }
        }
        Outcome::Err { variant, .. } if variant == "NoIndividuals" => {
            if s.sample == 1 {
                if let Some((i, x)) = p.certain.iter().find(|x| x.1.is_some()) {
                    v(&mut out, "best-lost", format!("terminated run ends with 'no individuals', evaluation #{i} was accepted with {x:?}"));
                }
            }
        }
        Outcome::Err { debug, .. } => {
            let accepted = p.certain.iter().any(|x| x.1.is_some());
            if clean && (accepted || s.sample == 1) {
                v(&mut out, "error-after-request", format!("terminated run ends with the error {debug} ({} accepted results)", p.certain.iter().filter(|x| x.1.is_some()).count()));
            }
        }
        _ => (),
    }
    out
}

/// Children that ended by themselves with nobody else holding their pipes: (eval, death, result).
fn certain_proc_ends(s: &Scn, r: &Run) -> Vec<(usize, u64, Option<f64>)> {
    let mut o = vec![];
    for e in &r.hist.evals {
        let plan = s.plan(e.idx, &e.value);
        if plan.px.as_ref().map(|x| x.fork.is_some()).unwrap_or(false) {
            continue;
        }
        let x = match proc_result(&plan) {
            Res::Val(x) => Some(x),
            Res::Reject => None,
            _ => continue,
        };
        if let Some(p) = r.procs.iter().find(|p| p.leader && p.eval == e.idx) {
            if let (Some(d), true, None) = (p.died, p.finished, p.killed_by) {
                if s.kill_after.map(|k| d + LAG < e.start.1 + k * US).unwrap_or(true) {
                    o.push((e.idx, d, x));
                }
            }
        }
    }
    o
}

fn may_fail_before(s: &Scn, r: &Run, e: &Eval, t: u64) -> bool {
    match r.procs.iter().find(|p| p.leader && p.eval == e.idx) {
        Some(p) => {
            let raised = s.plan(e.idx, &e.value).px.and_then(|x| x.signal);
            (p.finished || p.killed_by.is_some() && p.killed_by == raised) && p.died.map(|d| d <= t).unwrap_or(false)
        }
        None => e.start.1 <= t,
    }
}

// ---------------------------------------------------------------------------------------------------- C05

pub fn c05(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    let f = facts(s, r);
    let end_pos = [f.ret.map(|x| x.0), f.cmd.map(|x| x.0), f.fail.map(|x| x.0), f.target.map(|x| x.0)]
        .into_iter()
        .flatten()
        .min()
        .unwrap_or(usize::MAX);
    if s.mode.is_proc() {
        c05_proc(s, r, &f, &mut out);
        return out;
    }
    // a blocking objective function does not learn which individual it evaluates: means are not known
    let blind = s.mode == Mode::SyncThread && s.target.is_some() && s.sample > 1;
    let mut inflight: BTreeSet<usize> = BTreeSet::new();
    let mut ids: BTreeMap<usize, usize> = BTreeMap::new();
    let mut ended = 0usize;
    let mut starts = 0usize;
    let mut reported = 0usize;
    let mut at_once = (0, 0);
    let evs = &r.hist.evs;
    for (pos, (t, e)) in evs.iter().enumerate() {
        if at_once.0 != *t {
            at_once = (*t, 0);
        }
        match e {
            Ev::Start(i) => {
                inflight.insert(*i);
                starts += 1;
                at_once.1 += 1;
                if inflight.len() > s.conc {
                    v(&mut out, "too-many", format!("{} evaluations in progress at {} us, num_concurrent {}", inflight.len(), t / US, s.conc));
                    return out;
                }
                if let Some(id) = r.hist.evals[*i].id {
                    if let Some(o) = ids.insert(id, *i) {
                        v(&mut out, "same-individual", format!("individual {id} evaluated twice at the same time (#{o}, #{i})"));
                    }
                }
            }
            Ev::End(i) | Ev::Drop(i) => {
                inflight.remove(i);
                if matches!(e, Ev::End(_)) {
                    ended += 1;
                }
                if let Some(id) = r.hist.evals[*i].id {
                    if ids.get(&id) == Some(i) {
                        ids.remove(&id);
                    }
                }
            }
            Ev::Report(_) => reported += 1,
            _ => (),
        }
        let next_t = evs.get(pos + 1).map(|x| x.0);
        let last = next_t.is_none();
        if pos >= end_pos || f.ambiguous {
            continue;
        }
        // a stop event within the same instant makes the state at its end a stopping one
        let stop_now = end_pos < evs.len() && evs[end_pos].0 == *t;
        let boundary = match next_t {
            Some(n) => n > *t,
            None => matches!(r.outcome, Outcome::Hang(_)),
        };
        // the detailed report channel holds `chan` items plus one per sender: beyond that the run may wait
        let behind = s.mode.is_async_api() && ended.saturating_sub(reported) >= s.chan.max(1);
        // the clock does not wait for work without an end: it may go on in the middle of it
        let endless = at_once.1 > 300;
        if boundary && !stop_now && !behind && !endless && !blind && s.order.is_none() {
            let exp = match s.budget {
                Some(n) => s.conc.min(n.saturating_sub(ended)),
                None => s.conc,
            };
            if inflight.len() < exp && !(last && r.panics.len() > 0) {
                v(
                    &mut out,
                    "not-work-conserving",
                    format!("at {} us {} evaluations are in progress instead of {exp} (started {starts}, ended {ended})", t / US, inflight.len()),
                );
                return out;
            }
        }
    }
    out
}

fn c05_proc(s: &Scn, r: &Run, f: &Facts, out: &mut Viols) {
    // leaders alive at the same time
    let mut pts: Vec<(u64, i32)> = vec![];
    for p in r.procs.iter().filter(|p| p.leader) {
        pts.push((p.born, 1));
        if let Some(d) = p.died {
            pts.push((d, -1));
        }
    }
    pts.sort();
    let mut n = 0;
    for (t, d) in &pts {
        n += d;
        if n > s.conc as i32 {
            v(out, "too-many", format!("{n} children alive at {} us, num_concurrent {}", t / US, s.conc));
            return;
        }
    }
    // work conservation: simple children only, in quiet stretches of time
    if r.hist.evals.iter().any(|e| s.plan(e.idx, &e.value).px.is_some() || planned_failure(s, e)) || s.kill_after.is_some() {
        return;
    }
    if s.reader != Reader::Prompt || s.disk != DiskX::default() || s.target.is_some() {
        return;
    }
    let stop = [f.cmd.map(|c| c.1), f.ret.map(|c| c.1)].into_iter().flatten().min().unwrap_or(r.now);
    let mut alive = 0i64;
    let mut dead = 0usize;
    let margin = 60 * MS;
    for w in 0..pts.len() {
        alive += pts[w].1 as i64;
        if pts[w].1 < 0 {
            dead += 1;
        }
        let t = pts[w].0;
        let next = pts.get(w + 1).map(|x| x.0).unwrap_or(stop).min(stop);
        if next > t + margin && (t + margin) < stop {
            let exp = match s.budget {
                Some(b) => s.conc.min(b.saturating_sub(dead)),
                None => s.conc,
            } as i64;
            if alive < exp {
                v(out, "not-work-conserving", format!("between {} and {} ms only {alive} children are running instead of {exp} ({dead} have ended)", t / MS, next / MS));
                return;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------- C06

pub fn c06(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    if s.mode.is_proc() {
        c06_proc(s, r, &mut out);
        return out;
    }
    let f = facts(s, r);
    let Some((fp, ft, fi)) = f.fail else { return out };
    if f.cmd.map(|c| c.1 <= ft).unwrap_or(false) && s.mode != Mode::SyncThread || f.cmd.map(|c| c.1 <= ft + 50 * MS).unwrap_or(false) && s.mode == Mode::SyncThread {
        return out;
    }
    // a failure at the very moment of the time limit: either may come first
    let tie = if s.mode == Mode::SyncThread { 50 * MS } else { 0 };
    if s.time_limit.map(|l| l * US <= ft + tie).unwrap_or(false) {
        return out;
    }
    if f.target.map(|t| t.0 < fp).unwrap_or(false) || f.ambiguous {
        return out;
    }
    let fe = &r.hist.evals[fi];
    match (&r.outcome, fe.res.as_ref().unwrap()) {
        (Outcome::Ok { .. }, _) => v(&mut out, "success-after-failure", format!("evaluation #{fi} failed ({:?}) but the run reports success", fe.res)),
        (Outcome::Err { debug, variant, .. }, Res::Err(tag)) => {
            let p = s.plan(fi, &fe.value);
            let kind = match (&p.out, &p.on_abort) {
                (Out::Err(k), _) => Some(*k),
                (_, OnAbort::After(_, Out::Err(k))) => Some(*k),
                _ => None,
            };
            let want = kind.map(err_variant).unwrap_or("");
            if !debug.contains(tag.as_str()) || (!want.is_empty() && variant != want) {
                if s.disk == DiskX::default() {
                    v(&mut out, "wrong-error", format!("first failure is {tag} ({want}), reported error is {debug}"));
                }
            }
        }
        (Outcome::Err { variant, debug, .. }, Res::NonFinite) => {
            if variant != "ObjFuncValMustBeFinite" && s.disk == DiskX::default() {
                v(&mut out, "wrong-error", format!("first failure is the non-finite value of #{fi}, reported error is {debug}"));
            }
        }
        _ => (),
    }
    let evals = &r.hist.evals;
    if f.exact {
        for e in evals.iter().filter(|e| e.start.0 > fp && !(e.start.1 == 0 && e.idx < s.conc)) {
            v(&mut out, "start-after-failure", format!("evaluation #{} started after #{fi} had failed", e.idx));
        }
        let slow = s.mode.is_async_api() && s.reader != Reader::Prompt || s.files && s.conc > 200;
        for e in evals.iter().filter(|e| e.start.0 < fp && e.end.map(|x| x.0 > fp).unwrap_or(true)) {
            let told = e.abort.map(|a| a.0 > fp && (a.1 == ft || slow)).unwrap_or(false);
            let at_once = e.end.map(|x| x.1 == ft || slow).unwrap_or(false);
            if !told && !at_once {
                v(&mut out, "not-told", format!("evaluation #{} was in flight when #{fi} failed and was not told to abort (abort seen {:?}, end {:?})", e.idx, e.abort, e.end));
            }
        }
        for e in evals.iter().filter(|e| e.dropped.map(|d| d.0 > fp).unwrap_or(false)) {
            v(&mut out, "not-awaited", format!("evaluation #{} was dropped after #{fi} had failed, before it had ended", e.idx));
        }
        if let (Some(ret), false) = (f.ret, slow) {
            let last = evals.iter().filter_map(|e| e.end).map(|x| x.1).max().unwrap_or(ft);
            let slack = if s.mode.is_async_api() { 10 * MS } else { slack(s) };
            if ret.1 > last.max(ft) + slack {
                v(&mut out, "late-return", format!("last evaluation ended at {} ms, run returned at {} ms", last / MS, ret.1 / MS));
            }
        }
    } else {
        for e in evals.iter().filter(|e| e.start.1 > ft + 50 * MS) {
            v(&mut out, "start-after-failure", format!("evaluation #{} started {} us after #{fi} had failed", e.idx, (e.start.1 - ft) / US));
        }
        if let Some(ret) = f.ret {
            let last = if s.mode == Mode::SyncThread { last_end(r) } else { 0 };
            if ret.1 > ft.max(last) + slack(s) {
                v(&mut out, "late-return", format!("failure at {} ms, run returned at {} ms", ft / MS, ret.1 / MS));
            }
        }
    }
    out
}

pub fn err_variant(k: u8) -> &'static str {
    match k % 5 {
        0 => "Io",
        1 => "UnableToLaunchObjFuncProcess",
        2 => "IllegalTypeDefName",
        3 => "UnknownTypeName",
        _ => "ObjFuncProcFailed",
    }
}

/// Failures of children: (earliest, latest moment at which the optimizer sees it, evaluation), certain ones and
/// possible ones, and the moment by which it has certainly seen one.
pub type Fails = Vec<(u64, u64, usize)>;
pub fn proc_failures(s: &Scn, r: &Run) -> (Fails, Fails, Option<u64>) {
    // failures that certainly happened, were not preceded by a kill, and that the optimizer can observe
    let mut fails: Vec<(u64, u64, usize)> = vec![];
    let mut maybe: Vec<(u64, u64, usize)> = vec![];
    for e in r.hist.evals.iter().filter(|e| planned_failure(s, e)) {
        let plan = s.plan(e.idx, &e.value);
        match r.procs.iter().find(|p| p.leader && p.eval == e.idx) {
            None => fails.push((e.start.1, e.start.1, e.idx)),
            Some(p) => {
                let raised = plan.px.as_ref().and_then(|x| x.signal);
                let own = (p.finished && p.killed_by.is_none()) || (raised.is_some() && p.killed_by == raised);
                if let (Some(d), true) = (p.died, own) {
                    let hold = plan
                        .px
                        .as_ref()
                        .and_then(|x| x.fork.as_ref())
                        .filter(|f| !f.detach_io)
                        .map(|f| (f.life_us as u128 * 2 * US as u128 + f.settle_us as u128 * US as u128).min(FOREVER as u128) as u64)
                        .unwrap_or(0);
                    let x = (d, d.saturating_add(hold).saturating_add(LAG), e.idx);
                    if s.kill_after.map(|k| d + LAG < e.start.1 + k * US).unwrap_or(true) {
                        fails.push(x);
                    } else {
                        maybe.push(x);
                    }
                }
            }
        }
    }
    let latest = fails.iter().map(|x| x.1).min();
    (fails, maybe, latest)
}

/// Something else may have ended the run before that moment.
pub fn stopped_before(s: &Scn, r: &Run, t: u64) -> bool {
    facts(s, r).may_stop <= t
        || s.target.map(|t| s.sample > 1 || r.hist.evals.iter().any(|e| matches!(proc_result(&s.plan(e.idx, &e.value)), Res::Val(x) if x <= t.0))).unwrap_or(false)
}

fn c06_proc(s: &Scn, r: &Run, out: &mut Viols) {
    let ret = facts(s, r).ret.map(|x| x.1).unwrap_or(r.now);
    let (fails, maybe, first_latest) = proc_failures(s, r);
    let Some(first_latest) = first_latest else { return };
    if stopped_before(s, r, first_latest) || s.disk != DiskX::default() {
        return;
    }
    match &r.outcome {
        Outcome::Ok { .. } => v(out, "success-after-failure", format!("child of evaluation #{} failed but the run reports success", fails[0].2)),
        Outcome::Err { debug, variant, .. } => {
            // candidates for "first": not certainly later than another one
            let cand: Vec<&(u64, u64, usize)> = fails.iter().chain(&maybe).filter(|x| x.0 <= first_latest).collect();
            let ok = cand.iter().any(|(_, _, i)| {
                let e = &r.hist.evals[*i];
                let plan = s.plan(*i, &e.value);
                let px = plan.px.clone().unwrap_or_default();
                let seed = format!("seed: {}", e.seed.unwrap_or(u64::MAX));
                if px.no_spawn.is_some() {
                    return variant == "UnableToLaunchObjFuncProcess" || variant == "?";
                }
                let want = if px.signal.is_some() || px.exit.unwrap_or(0) & 0xff != 0 { "ObjFuncProcFailed" } else { "ObjFuncProcInvalidOutput" };
                let nonf = matches!(classify_nonfinite(&plan), true) && variant == "ObjFuncValMustBeFinite";
                nonf || ((variant == want || variant == "?") && (!debug.contains("seed: ") || debug.contains(&seed)))
            });
            if !ok {
                v(out, "wrong-error", format!("failing children {:?}, reported error {debug}", cand.iter().map(|x| x.2).collect::<Vec<_>>()));
            }
        }
        _ => (),
    }
    for e in r.hist.evals.iter().filter(|e| e.start.1 > first_latest) {
        v(out, "start-after-failure", format!("evaluation #{} started {} ms after a child had failed", e.idx, (e.start.1 - first_latest) / MS));
        break;
    }
    if s.reader == Reader::Prompt && ret > first_latest + slack(s) {
        v(out, "late-return", format!("a child failed before {} ms, run returned at {} ms", first_latest / MS, ret / MS));
    }
}

fn classify_nonfinite(p: &Plan) -> bool {
    matches!(p.out, Out::NonFinite(_)) && p.px.as_ref().map(|x| x.stdout.is_none()).unwrap_or(true)
}

// ---------------------------------------------------------------------------------------------------- C07

pub fn c07(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    for (pid, pgid, eval) in &r.alive_at_return {
        v(&mut out, "outlives-run", format!("process {pid} (group {pgid}, evaluation #{eval}) is still alive when the run returns with {:?}", short(&r.outcome)));
    }
    for p in r.procs.iter().filter(|p| p.leader && !p.reaped) {
        v(&mut out, "zombie", format!("child {} (evaluation #{}) was never reaped", p.pid, p.eval));
        break;
    }
    let f = facts(s, r);
    let ret = f.ret.map(|x| x.1).unwrap_or(r.now);
    // ---- timeouts
    let recs = records(s, r).ok().flatten();
    if let Some(k) = s.kill_after {
        for e in &r.hist.evals {
            let dl = e.start.1 + k * US;
            let plan = s.plan(e.idx, &e.value);
            let px = plan.px.clone().unwrap_or_default();
            if px.no_spawn.is_some() {
                continue;
            }
            let group: Vec<&ProcInfo> = r.procs.iter().filter(|p| p.eval == e.idx).collect();
            // when the evaluation would be over by itself
            let natural = natural_end(&plan, true).map(|d| e.start.1.saturating_add(d));
            let exceeds = natural_end(&plan, false).map(|d| e.start.1.saturating_add(d) > dl + LAG).unwrap_or(true);
            let in_time = natural.map(|n| n + LAG < dl).unwrap_or(false);
            if exceeds && ret > dl + 30 * MS && f.may_stop > dl + 30 * MS {
                for p in &group {
                    if p.sid == p.pid && !p.leader {
                        continue;
                    }
                    if p.died.map(|d| d > dl + 30 * MS).unwrap_or(true) && p.born < dl {
                        v(&mut out, "timeout-not-killed", format!("evaluation #{}: process {} of the group is alive 30 ms after the time limit of {} ms", e.idx, p.pid, k / 1000));
                    }
                }
                if let (Some(rc), Some(seed)) = (&recs, e.seed) {
                    match rc.iter().find(|x| x.seed == seed) {
                        Some(x) if x.val.is_some() => v(&mut out, "timeout-accepted", format!("evaluation #{} exceeded its time limit but is recorded as accepted with {:?}", e.idx, x.val)),
                        None if undisturbed(s, r) && matches!(r.outcome, Outcome::Ok { .. }) => {
                            v(&mut out, "timeout-uncounted", format!("evaluation #{} exceeded its time limit and is missing in the records", e.idx))
                        }
                        _ => (),
                    }
                }
            }
            if in_time {
                for p in group.iter().filter(|p| p.leader) {
                    let own = px.signal;
                    if p.killed_by.is_some() && p.killed_by != own {
                        let others = f.may_stop < natural.unwrap() + LAG
                            || r.hist.evals.iter().any(|e| planned_failure(s, e))
                            || s.target.is_some();
                        if !others {
                            v(&mut out, "killed-in-time", format!("evaluation #{} would have ended in time but its child was killed", e.idx));
                        }
                    }
                }
                if let (Some(rc), Some(seed), Res::Val(x)) = (&recs, e.seed, proc_result(&plan)) {
                    if let Some(rec) = rc.iter().find(|x| x.seed == seed) {
                        let cut = f.may_stop != u64::MAX || r.hist.evals.iter().any(|e| planned_failure(s, e)) || s.target.is_some();
                        if rec.val.is_none() && !cut {
                            v(&mut out, "in-time-rejected", format!("evaluation #{} ended in time with {x:?} but is recorded as rejected", e.idx));
                        }
                    }
                }
            }
        }
        // the run goes on after timeouts
        if undisturbed(s, r) {
            if let Outcome::Err { debug, variant, .. } = &r.outcome {
                if variant != "NoIndividuals" {
                    v(&mut out, "timeout-error", format!("no evaluation failed, some exceeded their time limit, the run ends with {debug}"));
                }
            }
            if let (Some(n), Outcome::Ok { .. }) = (s.budget, &r.outcome) {
                if r.hist.evals.len() < n {
                    v(&mut out, "timeout-stops", format!("only {} of {n} evaluations", r.hist.evals.len()));
                }
            }
        }
    }
    // without a time limit nobody is killed before the run stops
    if s.kill_after.is_none() && f.may_stop == u64::MAX && s.target.is_none() && !r.hist.evals.iter().any(|e| planned_failure(s, e)) {
        for p in r.procs.iter().filter(|p| p.leader) {
            let plan = s.plan(p.eval, &r.hist.evals[p.eval].value);
            if p.killed_by.is_some() && plan.px.as_ref().and_then(|x| x.signal) != p.killed_by {
                v(&mut out, "killed-in-time", format!("the child of evaluation #{} was killed although nothing asked for it", p.eval));
            }
        }
    }
    out
}

/// Time after the start at which the evaluation is over without interference (upper or lower estimate; None: never).
fn natural_end(p: &Plan, upper: bool) -> Option<u64> {
    let x = p.px.clone().unwrap_or_default();
    if p.lat == FOREVER || x.hang || x.linger == FOREVER {
        return None;
    }
    let mut t = p.lat * US + x.linger * US;
    t += x.pieces as u64 * x.piece_gap * US;
    if let Some(f) = &x.fork {
        t += f.settle_us * US;
        if !f.detach_io {
            if f.life_us == FOREVER {
                return None;
            }
            t = t.max(f.life_us * US * if upper { 1 + f.depth as u64 } else { 1 });
        }
    }
    Some(t)
}

pub fn short(o: &Outcome) -> String {
    let s = format!("{o:?}");
    s.chars().take(160).collect()
}

// ---------------------------------------------------------------------------------------------------- C08

pub fn c08(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    let mut seeds: BTreeMap<u64, usize> = BTreeMap::new();
    let mut ids: BTreeMap<usize, (usize, J, usize)> = BTreeMap::new();
    for e in &r.hist.evals {
        if let Some(x) = e.seed {
            if let Some(o) = seeds.insert(x, e.idx) {
                v(&mut out, "seed-reused", format!("evaluations #{o} and #{} got the same seed {x}", e.idx));
            }
        } else if s.mode.is_proc() {
            v(&mut out, "no-seed", format!("evaluation #{} got no seed: {:?}", e.idx, e.argv.iter().map(|a| String::from_utf8_lossy(a)).collect::<Vec<_>>()));
        }
        if let Some(id) = e.id {
            let n = ids.entry(id).or_insert((e.idx, e.value.clone(), 0));
            n.2 += 1;
            if !same(&n.1, &e.value) {
                v(&mut out, "identity", format!("individual {id} evaluated with {} (#{}) and with {} (#{})", n.1, n.0, e.value, e.idx));
            }
            if n.2 > s.sample {
                v(&mut out, "oversampled", format!("individual {id} evaluated {} times, sample size {}", n.2, s.sample));
            }
        }
    }
    if let Ok(Some(recs)) = records(s, r) {
        let mut n: BTreeMap<usize, (J, usize)> = BTreeMap::new();
        let mut sd = BTreeSet::new();
        for c in &recs {
            let e = n.entry(c.id).or_insert((c.input.clone(), 0));
            e.1 += 1;
            if !same(&e.0, &c.input) {
                v(&mut out, "identity", format!("records of individual {} carry {} and {}", c.id, e.0, c.input));
            }
            if e.1 > s.sample {
                v(&mut out, "oversampled", format!("{} records of individual {}, sample size {}", e.1, c.id, s.sample));
            }
            if !sd.insert(c.seed) {
                v(&mut out, "seed-reused", format!("two records with seed {}", c.seed));
            }
        }
    }
    let first = match s.mode {
        // threads may start in any order
        Mode::SyncThread => {
            let want = s.guess.clone().unwrap_or_else(|| s.spec.init_json());
            // (one that is late stays outstanding, so it is only certain once the whole budget is used)
            let all = s.budget == Some(r.hist.evals.len());
            if all && !r.hist.evals.is_empty() && !r.hist.evals.iter().any(|e| same(&e.value, &want)) {
                v(&mut out, "initial", format!("none of the {} evaluations got the initial value {want}", r.hist.evals.len()));
            }
            if let Ok(Some(recs)) = records(s, r) {
                if let Some(c) = recs.iter().find(|c| c.id == 0) {
                    if !same(&c.input, &want) {
                        v(&mut out, "initial", format!("first individual is {} instead of the initial value {want}", c.input));
                    }
                }
            }
            None
        }
        _ => r.hist.evals.first(),
    };
    if let Some(e) = first {
        let want = s.guess.clone().unwrap_or_else(|| s.spec.init_json());
        if !same(&e.value, &want) {
            v(&mut out, "initial", format!("first individual is {} instead of the initial value {want}", e.value));
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------------- C12 / C13

pub fn hooked(s: &Scn, r: &Run, prop: &str) -> Viols {
    let mut out = vec![];
    for (p, w) in &r.hist.hook_errors {
        if *p == prop {
            v(&mut out, "offspring", w.clone());
        }
    }
    if let Some((c, d)) = crash(r) {
        // a crash in the operator under observation; anything else is the business of other properties
        let at = if prop == "C12" { "crossover" } else { "mutation" };
        if c == "panic" && (d.contains(at) || d.contains("path.rs") || d.contains("rescaling.rs")) {
            v(&mut out, &c, d);
        }
    }
    let _ = s;
    out
}

// ---------------------------------------------------------------------------------------------------- C14

pub fn c14(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    let faulty = s.disk != DiskX::default();
    if faulty {
        c14_faulty(s, r, &mut out);
        return out;
    }
    let recs = match records(s, r) {
        Ok(Some(x)) => x,
        Ok(None) => return out,
        Err(e) => {
            // a run that is refused before it starts writes nothing
            if !matches!(r.outcome, Outcome::Err { .. }) || !r.hist.evals.is_empty() {
                v(&mut out, "report-broken", format!("detailed report: {e}"));
            }
            return out;
        }
    };
    let f = facts(s, r);
    // ---- meta parameters
    let mut none = BTreeSet::new();
    for c in &recs {
        match &c.meta {
            None => {
                none.insert(c.id);
            }
            Some((src, a, b, p, sc)) => {
                for (n, x) in [("crossover probability", a), ("selection pressure", b), ("mutation probability", p)] {
                    if !(*x >= 0.0 && *x <= 1.0) {
                        v(&mut out, "meta-range", format!("individual {} ({src}): {n} {x}", c.id));
                    }
                }
                if !(*sc > 0.0 && sc.is_finite()) {
                    v(&mut out, "meta-range", format!("individual {} ({src}): mutation scale {sc}", c.id));
                }
            }
        }
    }
    if none.len() > 1 {
        v(&mut out, "meta-missing", format!("individuals {none:?} have no adaptive parameters"));
    }
    // every offspring, processed or not (hook)
    for (a, b, p, sc) in &r.hist.meta_seen {
        if ![a, b, p].iter().all(|x| **x >= 0.0 && **x <= 1.0) || !(*sc > 0.0 && sc.is_finite()) {
            if s.meta.is_none() {
                v(&mut out, "meta-range", format!("offspring created with probabilities {a} {b} {p} and mutation scale {sc}"));
                break;
            }
        }
    }
    // ---- counts
    if let Outcome::Ok { completed, rejected, val, value, .. } = &r.outcome {
        let a = recs.iter().filter(|c| c.val.is_some()).count();
        let b = recs.len() - a;
        if (*completed, *rejected) != (a, b) {
            v(&mut out, "counts", format!("final report counts {completed}+{rejected}, records {a}+{b}"));
        }
        if s.sample == 1 {
            let min = recs.iter().filter_map(|c| c.val).fold(f64::INFINITY, f64::min);
            if min != *val {
                v(&mut out, "min-record", format!("final report value {val:?}, minimum over the records {min:?}"));
            }
            if s.files {
                match r.best.as_ref().map(|b| crate::json::parse(b)) {
                    Some(Ok(j)) => {
                        if !recs.iter().any(|c| c.val == Some(min) && same(&c.input, &j)) {
                            v(&mut out, "best-file", format!("best-seen file holds {j}, which is no record with the minimum {min:?}"));
                        }
                    }
                    Some(Err(e)) => v(&mut out, "best-file", format!("best-seen file is no JSON ({e}): {:?}", String::from_utf8_lossy(r.best.as_ref().unwrap()))),
                    None => v(&mut out, "best-file", "best-seen file missing".to_string()),
                }
            }
            if !recs.iter().any(|c| c.val == Some(*val) && same(&c.input, value)) {
                v(&mut out, "best-record", format!("final report {value} with {val:?} has no record"));
            }
        }
    }
    // ---- the files of a run that failed are consistent, too
    if let (Outcome::Err { .. }, true, 1) = (&r.outcome, s.files, s.sample) {
        let min = recs.iter().filter_map(|c| c.val).fold(f64::INFINITY, f64::min);
        match (min < f64::INFINITY, r.best.as_ref()) {
            (true, None) => v(&mut out, "best-file", format!("the run failed; records up to {min:?}, no best-seen file")),
            (false, Some(b)) => v(&mut out, "best-file", format!("no accepted record, best-seen file holds {:?}", String::from_utf8_lossy(b))),
            (true, Some(b)) => match crate::json::parse(b) {
                Ok(j) if recs.iter().any(|c| c.val == Some(min) && same(&c.input, &j)) => (),
                x => v(&mut out, "best-file", format!("the run failed; best-seen file holds {x:?}, which is no record with the minimum {min:?}")),
            },
            _ => (),
        }
    }
    // ---- exactly one record per processed evaluation
    match s.mode {
        Mode::Async | Mode::SyncAsync => {
            let exp: Vec<(usize, u64, &J, Option<f64>)> = processed(s, r)
                .certain
                .iter()
                .map(|(i, x)| {
                    let e = &r.hist.evals[*i];
                    (e.id.unwrap(), e.seed.unwrap(), &e.value, *x)
                })
                .collect();
            if exp.len() != recs.len() {
                v(&mut out, "record-count", format!("{} evaluations processed, {} records", exp.len(), recs.len()));
            }
            for (id, seed, j, x) in exp {
                let m: Vec<&Rec> = recs.iter().filter(|c| c.seed == seed).collect();
                match m.as_slice() {
                    [c] => {
                        if c.id != id || !same(&c.input, j) || !eq(c.val, x) {
                            v(&mut out, "record-content", format!("evaluation (individual {id}, seed {seed}, {j}, {x:?}) recorded as {c:?}"));
                        }
                    }
                    _ => v(&mut out, "record-count", format!("{} records for the evaluation with seed {seed}", m.len())),
                }
            }
        }
        Mode::Proc | Mode::AsyncProc => {
            let p = processed(s, r);
            let mut seen = BTreeSet::new();
            for c in &recs {
                if !seen.insert(c.seed) {
                    v(&mut out, "record-count", format!("two records with seed {}", c.seed));
                }
                let Some(e) = r.hist.evals.iter().find(|e| e.seed == Some(c.seed)) else {
                    v(&mut out, "record-content", format!("record without evaluation: {c:?}"));
                    continue;
                };
                if !same(&c.input, &e.value) {
                    v(&mut out, "record-content", format!("evaluation {} recorded as {c:?}", e.value));
                }
                let plan = s.plan(e.idx, &e.value);
                match (proc_result(&plan), c.val) {
                    (Res::Val(x), Some(y)) if x == y => (),
                    (Res::Reject, None) => (),
                    (_, None) if s.kill_after.is_some() || f.may_stop != u64::MAX || r.hist.evals.iter().any(|e| planned_failure(s, e)) => (),
                    (res, y) => v(&mut out, "record-content", format!("child of evaluation #{} yields {res:?}, recorded {y:?}", e.idx)),
                }
            }
            for (i, _) in &p.certain {
                let sd = r.hist.evals[*i].seed;
                if !recs.iter().any(|c| Some(c.seed) == sd) {
                    v(&mut out, "record-missing", format!("evaluation #{i} (seed {sd:?}) ended in time and has no record"));
                }
            }
        }
        Mode::SyncThread => {
            let p = processed(s, r);
            let mut pool: Vec<(usize, Option<f64>)> = p.possible.clone();
            for c in &recs {
                match pool.iter().position(|(i, x)| eq(*x, c.val) && same(&r.hist.evals[*i].value, &c.input)) {
                    Some(k) => {
                        pool.remove(k);
                    }
                    None if c.val.is_none() && (f.may_stop != u64::MAX) | f.fail.is_some() => (),
                    None => v(&mut out, "record-content", format!("record without evaluation: {c:?}")),
                }
            }
            if undisturbed(s, r) && recs.len() != r.hist.evals.len() {
                v(&mut out, "record-count", format!("{} evaluations, {} records", r.hist.evals.len(), recs.len()));
            }
        }
    }
    // the CSV row of an item carries the same data
    for p in &r.hist.reps {
        let text = format!(
            "individualId;evalTimeSeconds;metaParamsSource;crossoverProb;selectionPressure;mutationProb;mutationScale;inputVal;seed;objFuncVal\n{}",
            p.csv
        );
        match parse_csv(text.as_bytes()) {
            Ok(rows) if rows.len() == 1 => {
                let c = &rows[0];
                if c.id != p.id || c.seed != p.seed || !same(&c.input, &p.input) || !eq(c.val, p.val) || c.meta != p.meta {
                    v(&mut out, "csv-row", format!("item {p:?} as row {:?}", p.csv));
                }
            }
            e => v(&mut out, "csv-row", format!("row {:?}: {e:?}", p.csv)),
        }
    }
    out
}

fn eq(a: Option<f64>, b: Option<f64>) -> bool {
    a == b
}

/// With disk errors the run has to end with an error, or its files are nevertheless complete.
fn c14_faulty(s: &Scn, r: &Run, out: &mut Viols) {
    let hit = r.stats.get("fault_disk_open").copied().unwrap_or(0) + r.stats.get("fault_disk_write").copied().unwrap_or(0);
    if let Outcome::Ok { completed, rejected, val, .. } = &r.outcome {
        let rows = r.csv.as_ref().map(|b| parse_csv(b));
        match rows {
            Some(Ok(recs)) => {
                if recs.len() != completed + rejected {
                    v(out, "silent-loss", format!("{hit} disk errors, run reports success, {} of {} rows", recs.len(), completed + rejected));
                } else if s.sample == 1 {
                    let best = r.best.as_ref().and_then(|b| crate::json::parse(b).ok());
                    let min = recs.iter().filter_map(|c| c.val).fold(f64::INFINITY, f64::min);
                    let ok = best.map(|j| recs.iter().any(|c| c.val == Some(min) && same(&c.input, &j))).unwrap_or(false);
                    if !ok || min != *val {
                        v(out, "silent-loss", format!("{hit} disk errors, run reports success, best-seen file {:?}", r.best.as_ref().map(|b| String::from_utf8_lossy(b).to_string())));
                    }
                }
            }
            e => v(out, "silent-loss", format!("{hit} disk errors, run reports success, detailed report {:?}", e.map(|x| x.err()))),
        }
    } else if hit == 0 {
        if let Outcome::Err { debug, variant, .. } = &r.outcome {
            if undisturbed_but_disk(s, r) && variant != "NoIndividuals" {
                v(out, "spurious-error", format!("short or interrupted writes only, run ends with {debug}"));
            }
        }
    }
}

fn undisturbed_but_disk(s: &Scn, r: &Run) -> bool {
    let mut t = s.clone();
    t.disk = DiskX::default();
    undisturbed(&t, r)
}

// ---------------------------------------------------------------------------------------------------- C15

pub fn c15(s: &Scn, r: &Run) -> Viols {
    let mut out = vec![];
    if no_crash(s, r, &mut out) {
        return out;
    }
    for p in &r.panics {
        v(&mut out, "panic-in-thread", p.clone());
        break;
    }
    if let Outcome::Err { display, debug, .. } = &r.outcome {
        if display.trim().is_empty() {
            v(&mut out, "undescribed-error", format!("error without description: {debug}"));
        }
    }
    let _ = s;
    out
}

pub fn hang_kind(a: &Abort) -> &'static str {
    match a {
        Abort::Deadlock => "deadlock",
        Abort::Livelock(_) => "livelock",
        Abort::TimeLimit => "time limit",
        Abort::Stop => "stop",
    }
}

/// What two runs of the same inputs have to agree upon.
pub fn digest(s: &Scn, r: &Run) -> Vec<String> {
    let mut o: Vec<String> = r
        .hist
        .evals
        .iter()
        .map(|e| format!("start id {:?} seed {:?} {}", e.id, e.seed, e.value))
        .collect();
    let _ = s;
    o.push(match &r.outcome {
        Outcome::Ok { val, value, completed, rejected, .. } => format!("ok {:x} {value} {completed} {rejected}", val.to_bits()),
        Outcome::Err { debug, .. } => format!("err {debug}"),
        Outcome::Panic(_) => "panic".into(),
        Outcome::Hang(a) => format!("hang {}", hang_kind(a)),
    });
    o
}

pub fn spec_kinds(s: &SN) -> Vec<&'static str> {
    let mut k = vec![];
    s.kinds(&mut k);
    k
}
