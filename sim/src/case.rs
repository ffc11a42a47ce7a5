//! A case is one decided thing: a simulated run (or a few related runs) plus the oracle of one property.
use crate::gen::*;
use crate::judge;
use crate::judge::Viols;
use crate::props;
use crate::run::*;
use crate::scn::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value as J};
use simcore::rng::{mix, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    /// one run
    Run(Box<Scn>),
    /// two runs that have to agree; how: what may differ
    Pair { a: Box<Scn>, b: Box<Scn>, how: String },
    /// best-seen of a run seeds the next one
    Chain(Box<Scn>),
    /// any document as initial guess; must: Some(true) accepted, Some(false) refused
    Guess { scn: Box<Scn>, must: Option<bool>, why: String },
    /// benchmark problem
    Bench(Box<crate::bench::Bench>),
    /// the operators on their own
    Ops(Box<crate::ops::OpsCase>),
    /// the command-line tool
    Cli(Box<crate::cli::CliCase>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub prop: String,
    pub index: u64,
    pub kind: Kind,
}

#[derive(Default)]
pub struct Out {
    pub viols: Viols,
    pub hash: u64,
    pub stats: BTreeMap<String, u64>,
    pub sim_ns: u64,
    pub runs: u64,
    pub evals: u64,
    pub steps: u64,
    pub nontrivial: bool,
    pub log: Vec<String>,
    pub brief: String,
}

pub const PROPS: [&str; 16] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17"];

fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub fn make(prop: &str, seed: u64, index: u64) -> Case {
    let mut c = draw(prop, seed, index);
    match &mut c.kind {
        Kind::Run(s) => tame(s),
        Kind::Cli(c) => tame(&mut c.scn),
        _ => (),
    }
    c
}

/// Children killed after milliseconds in a run that is only stopped after minutes would be millions of evaluations.
fn tame(s: &mut Scn) {
    const MANY: u64 = 2_000;
    let end = s.cmds.iter().filter_map(|c| if let When::At(t) = c { Some(*t) } else { None }).chain(s.time_limit).min();
    if let (Some(k), Some(end)) = (s.kill_after, end) {
        let least = end.saturating_mul(s.conc as u64) / MANY;
        if k < least && s.budget.map(|b| b as u64 > MANY).unwrap_or(true) {
            s.kill_after = Some(least);
        }
    }
}

fn draw(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(mix(mix(seed, hash_str(prop)), index));
    let r = &mut r;
    if let Some(c) = by_command_line(prop, r) {
        return Case { prop: prop.into(), index, kind: Kind::Cli(Box::new(c)) };
    }
    let ops = if !cfg!(cambrian_ops) {
        0.0
    } else {
        match prop {
            "C01" => 0.04,
            "C12" | "C13" if !crate::hooks::HOOKED => 0.9,
            "C12" | "C13" => 0.25,
            _ => 0.0,
        }
    };
    if ops > 0.0 && r.chance(ops) {
        return Case { prop: prop.into(), index, kind: Kind::Ops(Box::new(crate::ops::generate(prop, r))) };
    }
    let kind = match prop {
        "C01" => Kind::Run(Box::new(props::c01(r))),
        "C02" => Kind::Run(Box::new(props::c02(r))),
        "C03" => Kind::Run(Box::new(props::c03(r))),
        "C04" => Kind::Run(Box::new(props::c04(r))),
        "C05" => Kind::Run(Box::new(props::c05(r))),
        "C06" => Kind::Run(Box::new(props::c06(r))),
        "C07" => Kind::Run(Box::new(props::c07(r))),
        "C08" => Kind::Run(Box::new(props::c08(r))),
        "C09" => c09(r),
        "C11" => c11(r),
        "C12" => Kind::Run(Box::new(props::c12(r))),
        "C13" => Kind::Run(Box::new(props::c13(r))),
        "C14" => Kind::Run(Box::new(props::c14(r))),
        "C15" => {
            let s = props::c15(r);
            if r.chance(0.2) {
                let (mut a, mut b) = (s.clone(), s);
                a.verbose = false;
                b.verbose = true;
                Kind::Pair { a: Box::new(a), b: Box::new(b), how: "verbose".into() }
            } else {
                Kind::Run(Box::new(s))
            }
        }
        "C16" => Kind::Cli(Box::new(crate::cli::generate(r, index))),
        "C17" => Kind::Bench(Box::new(crate::bench::generate(r, index))),
        _ => panic!("unknown property {prop}"),
    };
    let mut c = Case { prop: prop.into(), index, kind };
    if let Kind::Run(s) = &mut c.kind {
        // now and then a long run
        if matches!(s.mode, Mode::Async | Mode::SyncAsync) && s.budget.map(|b| b >= 20).unwrap_or(false) && r.chance(0.0015) {
            s.budget = Some(r.range(1000, 4000) as usize);
        }
    }
    c
}

/// A small share of the cases runs the command-line tool as a whole.
fn by_command_line(prop: &str, r: &mut Rng) -> Option<crate::cli::CliCase> {
    // SIM_CLI_SHARE: for surveys only
    static SHARE: std::sync::OnceLock<f64> = std::sync::OnceLock::new();
    if !r.chance(*SHARE.get_or_init(|| std::env::var("SIM_CLI_SHARE").ok().and_then(|s| s.parse().ok()).unwrap_or(0.02))) {
        return None;
    }
    let gen: fn(&mut Rng) -> Scn = match prop {
        "C01" => props::c01,
        "C02" | "C09" => props::c02,
        "C03" => props::c03,
        "C04" => props::c04,
        "C05" => props::c05,
        "C06" => props::c06,
        "C07" => props::c07,
        "C08" | "C11" => props::c08,
        "C14" => props::c14,
        "C15" => props::c15,
        _ => return None,
    };
    for _ in 0..60 {
        let mut s = gen(r);
        // without output directory there is less to see
        if s.mode != Mode::Proc || s.stop_starts.is_some() && !s.signal {
            continue;
        }
        s.files = true;
        if prop == "C11" {
            // nothing but the guess may end the run before its first evaluation
            s.cmds.clear();
            s.time_limit = None;
            s.kill_after = None;
            s.stop_starts = None;
            s.disk = DiskX::default();
            s.spec = props::hairy_spec(r);
            s.budget = Some(r.range(1, 5) as usize);
            let v = rand_value(&s.spec, r);
            s.guess = Some(if r.chance(0.5) { corrupt(&s.spec, &v, r).map(|c| c.0).unwrap_or(v) } else { v });
        }
        let mut c = crate::cli::plain(r, s);
        if let Some(o) = &mut c.out {
            // messages may not tell two runs apart by their scratch directories
            o.absolute = false;
        }
        if c.guess_bad && prop != "C11" {
            continue;
        }
        return Some(c);
    }
    None
}

fn watch(prop: &str) -> u32 {
    match prop {
        "C01" => 1,
        "C12" => 2,
        "C13" => 4,
        "C17" => 8,
        _ => 0,
    }
}

pub fn brief(s: &Scn, r: &Run) -> String {
    let acc = r.hist.evals.iter().filter(|e| matches!(e.res, Some(Res::Val(_)))).count();
    format!(
        "{:?} seed {} conc {} sample {} budget {:?} target {:?} spec {:?} guess {} plans {:?}/{} overrides {} requests {:?} limit {:?} kill {:?}: {} started, {} ended, {acc} accepted, {} processes, {} steps, {} us simulated, outcome {}",
        s.mode,
        s.seed,
        s.conc,
        s.sample,
        s.budget,
        s.target.map(|t| t.0),
        judge::spec_kinds(&s.spec),
        s.guess.is_some(),
        s.rule.lat,
        s.rule.reject,
        s.over.len(),
        s.cmds,
        s.time_limit,
        s.kill_after,
        r.hist.evals.len(),
        r.hist.ended,
        r.procs.len(),
        r.steps,
        r.now / 1000,
        judge::short(&r.outcome)
    )
}

pub fn absorb(o: &mut Out, s: &Scn, r: &mut Run) {
    o.hash = mix(o.hash, r.hash);
    for (k, n) in &r.stats {
        *o.stats.entry(k.to_string()).or_default() += n;
    }
    let plans: Vec<Plan> = r.hist.evals.iter().map(|e| s.plan(e.idx, &e.value)).collect();
    let mut add = |k: &str, n: usize| {
        if n > 0 {
            *o.stats.entry(k.to_string()).or_default() += n as u64;
        }
    };
    add("rejected_evaluations", plans.iter().filter(|p| p.out == Out_::Reject).count());
    if s.mode.is_proc() {
        let px: Vec<&ProcX> = plans.iter().filter_map(|p| p.px.as_ref()).collect();
        add("fault_child_no_spawn", px.iter().filter(|x| x.no_spawn.is_some()).count());
        add("fault_child_exit_code", px.iter().filter(|x| x.exit.unwrap_or(0) != 0).count());
        add("fault_child_signalled", px.iter().filter(|x| x.signal.is_some()).count());
        add("fault_child_garbage_stdout", px.iter().filter(|x| x.stdout.is_some()).count());
        add("fault_child_stderr_output", px.iter().filter(|x| x.stderr.is_some()).count());
        add("fault_child_hangs", px.iter().filter(|x| x.hang).count());
        add("fault_child_background_process", px.iter().filter(|x| x.fork.is_some()).count());
        add("fault_child_split_output", px.iter().filter(|x| x.pieces > 1).count());
        add("fault_child_closes_early", px.iter().filter(|x| x.close_early).count());
        add("child_processes", r.procs.len());
        add("fault_child_killed", r.procs.iter().filter(|p| p.killed_by.is_some()).count());
    }
    add("run_hangs", matches!(r.outcome, Outcome::Hang(_)) as usize);
    add("mode_async", (s.mode == Mode::Async) as usize);
    add("mode_sync_async", (s.mode == Mode::SyncAsync) as usize);
    add("mode_sync_thread", (s.mode == Mode::SyncThread) as usize);
    add("mode_sync_process", (s.mode == Mode::Proc) as usize);
    add("mode_async_process", (s.mode == Mode::AsyncProc) as usize);
    add("offspring_observed", r.hist.hook_n[0] as usize);
    if matches!(s.reader, Reader::Slow(_)) {
        add("fault_slow_report_reader", 1);
    }
    o.sim_ns += r.now;
    o.runs += 1;
    o.evals += r.hist.evals.len() as u64;
    o.steps += r.steps;
    o.log.append(&mut r.log);
    if !o.brief.is_empty() {
        o.brief.push_str(" || ");
    }
    o.brief.push_str(&brief(s, r));
}
use crate::scn::Out as Out_;

fn nontrivial(prop: &str, s: &Scn, r: &Run) -> bool {
    let n = r.hist.evals.len();
    let acc = r.hist.evals.iter().filter(|e| matches!(e.res, Some(Res::Val(_)))).count();
    let f = judge::facts(s, r);
    match prop {
        "C01" => n > 1,
        "C02" => matches!(r.outcome, Outcome::Ok { .. }) && (acc > 1 || s.mode.is_proc() && n > 1),
        "C03" => s.budget.is_some() && n > 1,
        "C04" => (f.cmd.is_some() || f.target.is_some() || s.mode.is_proc() && s.target.is_some()) && n > 0,
        "C05" => n > 1,
        "C06" => f.fail.is_some() || s.mode.is_proc() && matches!(r.outcome, Outcome::Err { .. }),
        "C07" => r.procs.len() > 1 && (r.procs.iter().any(|p| p.killed_by.is_some() || !p.leader) || f.cmd.is_some()),
        "C12" | "C13" => r.hist.hook_n[1] + r.hist.hook_n[2] > 0,
        _ => n > 1,
    }
}

pub fn judge_run(prop: &str, s: &Scn, r: &Run) -> Viols {
    match prop {
        "C01" => judge::c01(s, r),
        "C02" => judge::c02(s, r),
        "C03" => judge::c03(s, r),
        "C04" => judge::c04(s, r),
        "C05" => judge::c05(s, r),
        "C06" => judge::c06(s, r),
        "C07" => judge::c07(s, r),
        "C08" => judge::c08(s, r),
        "C12" | "C13" => judge::hooked(s, r, prop),
        "C14" => judge::c14(s, r),
        "C15" => judge::c15(s, r),
        _ => vec![],
    }
}

pub fn exec(case: &Case, record: bool) -> Out {
    let prop = case.prop.as_str();
    let mut o = Out { hash: hash_str(prop), ..Default::default() };
    match &case.kind {
        Kind::Run(s) => {
            let mut r = run(s, record, watch(prop));
            o.viols = judge_run(prop, s, &r);
            o.nontrivial = nontrivial(prop, s, &r);
            absorb(&mut o, s, &mut r);
        }
        Kind::Pair { a, b, how } => {
            let mut b = b.clone();
            // in every other pair the second run inherits the thread of the first
            let (mut ra, mut rb) = if b.seed % 2 == 0 {
                let mut b2 = (*b).clone();
                let order = how == "order";
                let (ra, rb) = crate::run::run_two(a, record, move |ra| {
                    if order {
                        b2.order = Some(ends(ra));
                    }
                    b2
                });
                *o.stats.entry("pairs_one_thread".into()).or_default() += 1;
                (ra, rb)
            } else {
                let ra = run(a, record, 0);
                if how == "order" {
                    b.order = Some(ends(&ra));
                }
                let rb = run(&b, record, 0);
                (ra, rb)
            };
            if how == "order" {
                b.order = Some(ends(&ra));
            }
            if record {
                ra.log.push("---- second run ----".into());
            }
            pair(prop, how, a, &ra, &b, &rb, &mut o.viols);
            o.nontrivial = ra.hist.evals.len() > 1;
            *o.stats.entry(format!("pairs_{how}")).or_default() += 1;
            absorb(&mut o, a, &mut ra);
            absorb(&mut o, &b, &mut rb);
        }
        Kind::Chain(s) => chain(s, record, &mut o),
        Kind::Guess { scn, must, why } => guess(scn, *must, why, record, &mut o),
        Kind::Bench(b) => crate::bench::exec(b, record, &mut o),
        Kind::Ops(c) => crate::ops::exec(prop, c, record, &mut o),
        Kind::Cli(c) => crate::cli::exec(prop, c, record, &mut o),
    }
    if o.viols.iter().any(|v| v.0 == "hang") && std::env::var_os("SIM_NO_LIVELOCK").is_none() {
        // nothing: hangs are decided inside the world (deadlock, step limit, simulated time limit)
    }
    o
}

/// Start indices in completion order.
fn ends(r: &Run) -> Vec<usize> {
    let mut v = vec![];
    for (_, e) in &r.hist.evs {
        match e {
            Ev::End(i) => v.push(*i),
            Ev::Return => break,
            _ => (),
        }
    }
    v
}

fn view(s: &Scn, r: &Run, ids: bool, seeds: bool) -> Vec<String> {
    let mut o: Vec<String> = r
        .hist
        .evals
        .iter()
        .map(|e| {
            format!(
                "#{} id {:?} seed {:?} {}",
                e.idx,
                if ids { e.id } else { None },
                if seeds { e.seed } else { None },
                canon(&e.value)
            )
        })
        .collect();
    o.push(match &r.outcome {
        Outcome::Ok { val, value, completed, rejected, .. } => {
            format!("report {:x} {} completed {completed} rejected {rejected}", val.to_bits(), canon(value))
        }
        Outcome::Err { debug, variant, .. } => {
            if ids || !s.mode.is_proc() && s.mode.is_async_api() {
                format!("error {debug}")
            } else {
                format!("error {variant}")
            }
        }
        Outcome::Panic(_) => "panic".into(),
        Outcome::Hang(a) => format!("hang {}", judge::hang_kind(a)),
    });
    o
}

/// JSON text with sorted keys.
pub fn canon(j: &J) -> String {
    match j {
        J::Object(o) => {
            let mut k: Vec<&String> = o.keys().collect();
            k.sort();
            let v: Vec<String> = k.iter().map(|k| format!("{}:{}", serde_json::to_string(k).unwrap(), canon(&o[*k]))).collect();
            format!("{{{}}}", v.join(","))
        }
        J::Array(a) => format!("[{}]", a.iter().map(canon).collect::<Vec<_>>().join(",")),
        _ => j.to_string(),
    }
}

fn pair(prop: &str, how: &str, a: &Scn, ra: &Run, b: &Scn, rb: &Run, out: &mut Viols) {
    for (s, r) in [(a, ra), (b, rb)] {
        if judge::no_crash(s, r, out) {
            // an enforced order may only be impossible when the two runs already differ
            if !out.is_empty() && how == "order" && matches!(r.outcome, Outcome::Hang(_)) && std::ptr::eq(r, rb) {
                out.clear();
                break;
            }
            return;
        }
    }
    let ids = !matches!(a.mode, Mode::SyncThread | Mode::Proc | Mode::AsyncProc)
        && !matches!(b.mode, Mode::SyncThread | Mode::Proc | Mode::AsyncProc);
    let seeds = a.mode != Mode::SyncThread && b.mode != Mode::SyncThread;
    let (mut va, mut vb) = (view(a, ra, ids, seeds), view(b, rb, ids, seeds));
    // a result that is there at once can end the run before the evaluations created along with it are started
    let n = ra.hist.evals.len().min(rb.hist.evals.len());
    let cut = |r: &Run| match &r.outcome {
        Outcome::Ok { val, .. } => a.target.map(|t| *val <= t.0).unwrap_or(false),
        Outcome::Err { variant, .. } => variant != "NoIndividuals",
        _ => false,
    };
    if how == "order" && cut(ra) && cut(rb) {
        va.drain(n..ra.hist.evals.len());
        vb.drain(n..rb.hist.evals.len());
    }
    if va != vb {
        let i = va.iter().zip(&vb).position(|(x, y)| x != y).unwrap_or(va.len().min(vb.len()));
        let none = "nothing".to_string();
        out.push((
            format!("differs-{how}"),
            format!(
                "two runs of the same inputs ({how}) differ at step {i}: {} / {}",
                va.get(i).unwrap_or(&none),
                vb.get(i).unwrap_or(&none)
            ),
        ));
        return;
    }
    // the published records agree as well
    if a.mode.is_async_api() && b.mode.is_async_api() || how == "verbose" {
        let rec = |s: &Scn, r: &Run| -> Vec<String> {
            match judge::records(s, r) {
                Ok(Some(v)) => v.iter().map(|c| format!("{} {} {} {:?} {:?}", c.id, c.seed, canon(&c.input), c.val, c.meta)).collect(),
                _ => vec![],
            }
        };
        let (mut x, mut y) = (rec(a, ra), rec(b, rb));
        if how == "order" && cut(ra) && cut(rb) {
            // evaluations aborted at the end of the run end as they like
            let (p, q) = (x.len(), y.len());
            x.truncate(p.min(q).saturating_sub(a.conc));
            y.truncate(p.min(q).saturating_sub(a.conc));
        }
        if x != y {
            let i = x.iter().zip(&y).position(|(x, y)| x != y).unwrap_or(x.len().min(y.len()));
            out.push((format!("differs-{how}"), format!("records differ at {i}: {:?} / {:?}", x.get(i), y.get(i))));
        }
    }
    if how == "verbose" && prop == "C15" && ra.best != rb.best {
        out.push(("differs-verbose".into(), "best-seen files differ".into()));
    }
}

// ---------------------------------------------------------------------------------------------------- C09

fn c09(r: &mut Rng) -> Kind {
    let mut a = props::base(r, Mode::Async);
    a.spec = if r.chance(0.6) { gen_spec(r) } else { gen_spec_small(r) };
    a.chan = 1024;
    a.budget = Some(props::budget(r, a.conc, 120));
    if r.chance(0.35) {
        a.sample = *r.pick(&[2, 3, 5]);
        a.budget = Some(r.range(30, 200) as usize);
        a.rule.reject = a.rule.reject.min(0.3);
    }
    if r.chance(0.4) {
        a.guess = Some(rand_value(&a.spec, r));
    }
    if r.chance(0.25) {
        props::target(r, &mut a);
    }
    if r.chance(0.1) {
        let i = r.usize(a.budget.unwrap().max(1));
        let p = props::failing_plan(r, Mode::Async);
        a.over.insert(i, p);
        a.rule.honour = 1.0;
        a.rule.honour_us = 1;
    }
    let mut b = a.clone();
    b.seed = r.next();
    b.epoch = r.below(4_000_000_000) * 1_000_000_000;
    b.preempt = *r.pick(&[0.0, 0.5]);
    b.skews = props::skews(r);
    b.verbose = r.chance(0.3);
    match r.below(10) {
        // sequential runs: any way of evaluating delivers the same order
        0..=2 => {
            a.conc = 1;
            b.conc = 1;
            a.budget = a.budget.map(|b| b.min(60));
            b.budget = a.budget;
            a.over.clear();
            b.over.clear();
            a.rule.obj = match &a.rule.obj {
                // survives the trip through the child's output
                Obj::Hash(1 | 2 | 6) | Obj::Score(_) => Obj::Hash(*r.pick(&[0, 4, 5])),
                o => o.clone(),
            };
            b.rule.obj = a.rule.obj.clone();
            b.mode = *r.pick(&[Mode::SyncThread, Mode::Proc, Mode::AsyncProc, Mode::SyncAsync]);
            b.rule.lat = props::lat(r);
            b.files = !b.mode.is_async_api() && r.chance(0.3);
            Kind::Pair { a: Box::new(a), b: Box::new(b), how: "sequential".into() }
        }
        3 => {
            // the very same schedule again, in another environment
            b.preempt = a.preempt;
            b.seed = a.seed;
            b.skews = vec![];
            b.verbose = a.verbose;
            Kind::Pair { a: Box::new(a), b: Box::new(b), how: "environment".into() }
        }
        _ => {
            b.mode = if r.chance(0.75) { Mode::Async } else { Mode::SyncAsync };
            if b.mode == Mode::SyncAsync {
                b.extra = json!({"multi": r.chance(0.5)});
            }
            b.rule.lat = props::lat(r);
            Kind::Pair { a: Box::new(a), b: Box::new(b), how: "order".into() }
        }
    }
}

// ---------------------------------------------------------------------------------------------------- C11

fn c11(r: &mut Rng) -> Kind {
    let mut s = { let m = if r.chance(0.85) { Mode::Async } else { Mode::SyncAsync }; props::base(r, m) };
    s.chan = 256;
    s.rule.reject = 0.0;
    s.budget = Some(r.range(1, 12) as usize);
    s.spec = if r.chance(0.8) { props::hairy_spec(r) } else { gen_spec_small(r) };
    match r.below(20) {
        0..=4 => {
            // a conforming value
            let mut g = rand_value(&s.spec, r);
            if r.chance(0.4) {
                crate::gen::respell(&s.spec, &mut g, r);
            }
            s.guess = Some(g);
            Kind::Guess { scn: Box::new(s), must: Some(true), why: "conforming".into() }
        }
        5..=11 => {
            let v = if r.chance(0.7) { rand_value(&s.spec, r) } else { s.spec.init_json() };
            let mut v = v;
            if r.chance(0.15) {
                crate::gen::respell(&s.spec, &mut v, r);
            }
            match corrupt(&s.spec, &v, r) {
                Some((c, why)) => {
                    s.guess = Some(c);
                    Kind::Guess { scn: Box::new(s), must: Some(false), why: why.into() }
                }
                None => {
                    s.guess = Some(props::junk(r, 3));
                    Kind::Guess { scn: Box::new(s), must: None, why: "junk".into() }
                }
            }
        }
        12..=13 => {
            s.guess = Some(props::junk_like(r, &s.spec));
            Kind::Guess { scn: Box::new(s), must: None, why: "junk".into() }
        }
        14..=15 => {
            s.rule.reject = *r.pick(&[0.0, 0.3]);
            s.budget = Some(r.range(1, 60) as usize);
            let mut b = s.clone();
            b.guess = Some(s.spec.init_json());
            Kind::Pair { a: Box::new(s), b: Box::new(b), how: "init-as-guess".into() }
        }
        _ => {
            s.budget = Some(r.range(1, 80) as usize);
            if r.chance(0.5) {
                s.guess = Some(rand_value(&s.spec, r));
            }
            if r.chance(0.5) {
                s.meta = Some(props::metax(r));
            }
            Kind::Chain(Box::new(s))
        }
    }
}

fn chain(s: &Scn, record: bool, o: &mut Out) {
    let mut cur = s.clone();
    for k in 0..3 {
        let mut r = run(&cur, record, 0);
        let crashed = judge::no_crash(&cur, &r, &mut o.viols);
        let best = match &r.outcome {
            Outcome::Ok { value, .. } => Some(value.clone()),
            _ => None,
        };
        let first = r.hist.evals.first().map(|e| e.value.clone());
        let err = match &r.outcome {
            Outcome::Err { debug, .. } => Some(debug.clone()),
            _ => None,
        };
        o.nontrivial |= k > 0 && r.hist.evals.len() > 0;
        absorb(o, &cur, &mut r);
        if crashed {
            return;
        }
        if let (Some(g), true) = (&cur.guess, k > 0) {
            match (&err, &first) {
                (Some(e), None) => {
                    o.viols.push(("best-refused".into(), format!("best-seen of the previous run is refused as initial guess: {e}; {g}")));
                    return;
                }
                (_, Some(f)) if canon(f) != canon(g) => {
                    o.viols.push(("round-trip".into(), format!("best-seen {} is read back as {}", canon(g), canon(f))));
                    return;
                }
                _ => (),
            }
        }
        match best {
            Some(b) => {
                // reading and writing the text must not change the document
                cur.guess = Some(b);
                cur.seed = mix(cur.seed, 1);
                cur.budget = Some(3);
            }
            None => return,
        }
    }
}

fn guess(s: &Scn, must: Option<bool>, why: &str, record: bool, o: &mut Out) {
    let g = s.guess.clone().unwrap();
    let mut r = run(s, record, 0);
    *o.stats.entry(format!("guess_{}", why.replace(' ', "_"))).or_default() += 1;
    guess_judge(s, &r, &g, must, why, &mut o.viols);
    o.nontrivial = true;
    // most of these runs end at once: the document is the interesting part
    o.hash = mix(o.hash, hash_str(&canon(&g)));
    absorb(o, s, &mut r);
}

pub fn guess_judge(s: &Scn, r: &Run, g: &J, must: Option<bool>, why: &str, out: &mut Viols) {
    if !judge::no_crash(s, r, out) {
        let started = r.hist.evals.len();
        let form = accepted_form(&s.spec, g);
        let conforms = s.spec.conforms(&form, "");
        match (&r.outcome, started) {
            (Outcome::Err { debug, .. }, 0) if s.budget != Some(0) => {
                if must == Some(true) {
                    out.push(("refused".into(), format!("conforming guess {} is refused: {debug}", canon(g))));
                }
            }
            (_, 0) => (),
            (_, _) => {
                if must == Some(false) || conforms.is_err() {
                    out.push((
                        "accepted".into(),
                        format!("guess {} ({why}; {:?}) is accepted, {started} evaluations started", canon(g), conforms.err()),
                    ));
                } else {
                    let f = &r.hist.evals[0].value;
                    if must == Some(true) && !same(f, &form) {
                        out.push(("round-trip".into(), format!("guess {} is evaluated as {}", canon(g), canon(f))));
                    }
                }
            }
        }
    }
}
