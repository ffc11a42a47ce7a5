//! Scenario generators: what each property is searched with.
use crate::gen::*;
use crate::scn::*;
use serde_json::{json, Value as J};
use simcore::rng::Rng;
use simcore::world::SEC;

pub const SYNC_MODES: [Mode; 3] = [Mode::SyncAsync, Mode::SyncThread, Mode::Proc];

pub fn base(r: &mut Rng, mode: Mode) -> Scn {
    Scn {
        mode,
        spec: gen_spec_small(r),
        guess: None,
        sample: 1,
        conc: if mode != Mode::SyncThread && r.chance(0.006) { r.range(41, 600) as usize } else { conc(r) },
        budget: None,
        target: None,
        time_limit: None,
        signal: false,
        cmds: vec![],
        rule: rule(r),
        over: Default::default(),
        chan: *r.pick(&[256, 1024, 1, 4, 0]),
        reader: Reader::Prompt,
        files: false,
        disk: DiskX::default(),
        kill_after: None,
        stop_starts: None,
        order: None,
        seed: r.next(),
        salt: r.next(),
        epoch: 1_600_000_000 * SEC + r.below(1_000_000_000) * SEC,
        preempt: *r.pick(&[0.0, 0.1, 0.3, 0.6]),
        skews: vec![],
        verbose: false,
        meta: None,
        accept_first: None,
        extra: J::Null,
    }
}

pub fn conc(r: &mut Rng) -> usize {
    match r.below(10) {
        0..=1 => 1,
        2..=3 => 2,
        4 => 3,
        5..=7 => r.range(2, 8) as usize,
        8 => r.range(8, 20) as usize,
        _ => r.range(1, 40) as usize,
    }
}

pub fn lat(r: &mut Rng) -> Lat {
    match r.below(8) {
        0 => Lat::Const(r.range(1, 2000)),
        1..=2 => Lat::Uniform(1, 5000),
        3..=4 => Lat::Ties(*r.pick(&[1, 10, 1000]), r.range(1, 4)),
        5 => Lat::Heavy(r.range(10, 2000)),
        6 => Lat::Zero,
        _ => Lat::Uniform(100, 200),
    }
}

pub fn obj(r: &mut Rng) -> Obj {
    match r.below(12) {
        0 => Obj::Const(Num(*r.pick(&[0.0, -0.0, 1.0, 1e300, -1e300]))),
        1..=7 => Obj::Hash(r.below(7) as u8),
        k => Obj::Score((k % 4) as u8),
    }
}

pub fn rule(r: &mut Rng) -> Rule {
    Rule {
        seed: r.next(),
        lat: lat(r),
        obj: obj(r),
        reject: *r.pick(&[0.0, 0.0, 0.1, 0.3, 0.6, 0.95]),
        honour: *r.pick(&[0.0, 0.5, 1.0, 1.0]),
        honour_us: *r.pick(&[1, 100, 5000, 100_000]),
        noise: 0.0,
        adv: Default::default(),
    }
}

/// Budget relative to the concurrency level: below, equal, little and much above it.
pub fn budget(r: &mut Rng, conc: usize, max: u64) -> usize {
    match r.below(12) {
        0 => 0,
        1 => 1,
        2 => r.usize(conc + 1),
        3 => conc,
        4 => conc + 1,
        5..=8 => conc + r.below(40) as usize,
        _ => r.range(1, max) as usize,
    }
}

pub fn metax(r: &mut Rng) -> MetaX {
    let n = r.range(1, 4);
    let probs = [0.0, 0.03, 0.3, 0.5, 0.9, 1.0];
    MetaX {
        choices: (0..n)
            .map(|_| (*r.pick(&probs), *r.pick(&[0.0, 0.01, 0.2, 0.5, 1.0]), *r.pick(&probs), *r.pick(&[1e-3, 0.1, 1.0, 1.0, 30.0, 1e6])))
            .collect(),
        keep: *r.pick(&[0.0, 0.2, 0.7]),
        first: (None, 0),
    }
}

pub fn skews(r: &mut Rng) -> Vec<(u64, i64)> {
    if r.chance(0.2) {
        (0..r.range(1, 4)).map(|_| (r.below(20_000), (r.below(200) as i64 - 100) * 1_000_000_000)).collect()
    } else {
        vec![]
    }
}

fn any_mode(r: &mut Rng, w: [u64; 5]) -> Mode {
    let t: u64 = w.iter().sum();
    let mut x = r.below(t);
    for (i, k) in w.iter().enumerate() {
        if x < *k {
            return [Mode::Async, Mode::SyncAsync, Mode::SyncThread, Mode::Proc, Mode::AsyncProc][i];
        }
        x -= k;
    }
    unreachable!()
}

/// Samples per individual; re-evaluation needs a population of 20.
fn sampling(r: &mut Rng, s: &mut Scn) {
    if r.chance(0.3) {
        s.sample = *r.pick(&[2, 2, 3, 5]);
        if s.budget.is_some() && r.chance(0.8) {
            s.budget = Some(r.range(40, 260) as usize);
            s.rule.reject = s.rule.reject.min(0.3);
        }
    }
}

/// Ends runs that have no other criterion: a request after some starts.
fn bound(r: &mut Rng, s: &mut Scn, n: u64) {
    s.stop_starts = Some(r.range(1, n) as usize);
    if !s.mode.is_async_api() {
        s.signal = true;
    }
}

/// A long run that drives values and the adaptive parameters to the limits of their type: the further out the
/// better (or the closer to nothing).
pub fn runaway(r: &mut Rng) -> Scn {
    let mut s = base(r, Mode::Async);
    let n = r.range(1, 4);
    let real = |r: &mut Rng| SN::Real {
        init: Num(*r.pick(&[0.0, 1.0, -1.0, 1e10])),
        scale: Num(*r.pick(&[1e-6, 1.0, 1.0, 1000.0])),
        min: r.chance(0.2).then_some(Num(-1e300)),
        max: None,
    };
    s.spec = SN::Sub((0..n).map(|i| (format!("x{i}"), real(r))).collect());
    s.conc = r.range(1, 5) as usize;
    s.chan = 256;
    s.budget = Some(r.range(4000, 16000) as usize);
    s.rule.obj = match r.below(8) {
        0 => Obj::Score(1),
        1 => Obj::Score(3),
        2..=3 => Obj::Adversary(0),
        4..=5 => Obj::Adversary(1),
        k => Obj::Adversary((k - 4 + r.below(2)) as u8),
    };
    s.rule.lat = Lat::Const(10);
    s.rule.reject = 0.0;
    s.rule.noise = 0.0;
    s
}

pub fn hairy_spec(r: &mut Rng) -> SN {
    let s = gen_spec(r);
    if r.chance(0.15) {
        // kinds of spaces that a correct parser refuses
        let odd = match r.below(4) {
            0 => SN::Map { vt: Box::new(SN::Bool(true)), init: 2, min: Some(2), max: Some(2) },
            1 => SN::Enum(vec!["a".into(), "a".into()], "a".into()),
            2 => SN::Real { init: Num(1.0), scale: Num(1.0), min: Some(Num(1.0)), max: Some(Num(1.0)) },
            _ => SN::Map { vt: Box::new(SN::Const), init: 0, min: Some(0), max: Some(0) },
        };
        let t = SN::Sub(vec![("odd".into(), odd), ("s".into(), s.clone())]);
        if cambrian::spec_util::from_yaml_str(&t.yaml()).is_ok() {
            return t;
        }
    }
    s
}

pub fn guess_for(r: &mut Rng, spec: &SN) -> J {
    rand_value(spec, r)
}

/// A guess that the reading of guesses accepts for sure (no number that loses precision on the way).
pub fn c01(r: &mut Rng) -> Scn {
    if r.chance(if std::env::var_os("SIM_RUNAWAY").is_some() { 1.0 } else { 0.0025 }) {
        return runaway(r);
    }
    let m = any_mode(r, [70, 8, 5, 12, 5]);
    let mut s = base(r, m);
    s.spec = hairy_spec(r);
    let big = !m.is_proc() && m != Mode::SyncThread;
    let top = if !big { 30 } else if r.chance(0.1) { 600 } else { 150 };
    s.budget = Some(r.range(1, top) as usize);
    sampling(r, &mut s);
    if !big {
        s.budget = s.budget.map(|b| b.min(40));
    }
    if r.chance(0.4) {
        s.guess = Some(guess_for(r, &s.spec));
        // one that has to be refused, or made to conform
        if r.chance(0.15) {
            if let Some((g, _)) = crate::gen::corrupt(&s.spec, s.guess.as_ref().unwrap(), r) {
                s.guess = Some(g);
            }
        }
    }
    if r.chance(0.6) {
        s.meta = Some(metax(r));
    }
    if r.chance(0.1) {
        s.target = Some(Num(*r.pick(&[-1e300, -10.0, 0.0])));
    }
    if r.chance(0.5) {
        s.rule.obj = Obj::Score(r.below(4) as u8);
    }
    if m == Mode::AsyncProc || m == Mode::Async {
        s.files = false;
    }
    s
}

/// Thousands of evaluations of something small: counters, identifiers, buffers and files grow far.
pub fn marathon(r: &mut Rng) -> Option<Scn> {
    if !r.chance(if std::env::var_os("SIM_MARATHON").is_some() { 1.0 } else { 0.0008 }) {
        return None;
    }
    let m = if r.chance(0.75) { Mode::Async } else { Mode::SyncAsync };
    let mut s = base(r, m);
    let leaf = |r: &mut Rng| match r.below(4) {
        0 => SN::Bool(false),
        1 => SN::Int { init: 0, scale: Num(10.0), min: None, max: Some(100) },
        2 => SN::Map { vt: Box::new(SN::Bool(true)), init: 1, min: None, max: Some(4) },
        _ => SN::Real { init: Num(0.5), scale: Num(0.1), min: Some(Num(0.0)), max: Some(Num(1.0)) },
    };
    s.spec = SN::Sub((0..r.range(1, 3)).map(|i| (format!("p{i}"), leaf(r))).collect());
    s.conc = r.range(1, 8) as usize;
    s.preempt = 0.0;
    s.chan = 256;
    s.budget = Some(if r.chance(0.1) { r.range(66_000, 70_000) } else { r.range(4_200, 12_000) } as usize);
    s.sample = *r.pick(&[1, 1, 1, 2, 3]);
    s.rule.reject = *r.pick(&[0.0, 0.0, 0.1, 0.9]);
    s.files = m == Mode::SyncAsync && s.budget < Some(5_000);
    Some(s)
}

pub fn c02(r: &mut Rng) -> Scn {
    if let Some(s) = marathon(r) {
        return s;
    }
    let m = any_mode(r, [60, 10, 8, 12, 10]);
    let mut s = base(r, m);
    s.budget = Some(if r.chance(0.35) { r.range(90, 400) as usize } else { budget(r, s.conc, 60) });
    if m != Mode::Async && m != Mode::SyncAsync {
        s.budget = s.budget.map(|b| b.min(50));
    }
    sampling(r, &mut s);
    if m == Mode::Proc || m == Mode::SyncThread {
        s.files = s.sample > 1 || r.chance(0.3);
    }
    stops(r, &mut s, 0.3);
    noise_for_proc(r, &mut s);
    s
}

pub fn noise_for_proc(r: &mut Rng, s: &mut Scn) {
    if s.mode.is_proc() {
        s.rule.noise = *r.pick(&[0.0, 0.2, 0.6]);
        if s.rule.lat == Lat::Zero {
            s.rule.lat = Lat::Uniform(0, 3000);
        }
    }
}

/// Other stop criteria next to the budget, with probability `p` each.
pub fn stops(r: &mut Rng, s: &mut Scn, p: f64) {
    if r.chance(p) {
        target(r, s);
    }
    if r.chance(p) {
        request(r, s);
    }
}

pub fn target(r: &mut Rng, s: &mut Scn) {
        let t = match &s.rule.obj {
            Obj::Hash(4) => -(r.below(60) as f64),
            Obj::Hash(1) => -1.0 + r.f64() * 0.3,
            Obj::Hash(0) => 0.0,
            Obj::Hash(6) => -999.0,
            _ => *r.pick(&[-1e300, -1e10, -10.0, 0.0, 0.5]),
        };
        s.target = Some(Num(t));
}

/// A termination request of some kind at some moment.
pub fn request(r: &mut Rng, s: &mut Scn) {
    let span = s.budget.unwrap_or(60).max(1);
    if !s.mode.is_async_api() {
        match r.below(3) {
            0 => {
                s.time_limit = Some(match r.below(5) {
                    0 => *r.pick(&[0, 0, 100, 1000, 500_000, 1_000_000, 1_500_000, 2_000_000, 10_000_000]),
                    1 => r.range(1, 1000),
                    2 => r.range(40_000, 3_000_000),
                    _ => r.range(1, 40_000),
                });
                if r.chance(0.3) {
                    s.signal = true;
                    s.cmds.push(when(r, span));
                }
            }
            _ => {
                s.signal = true;
                s.cmds.push(when(r, span));
            }
        }
    } else {
        s.cmds.push(when(r, span));
    }
    // seconds to hours: everything at a slower pace
    if r.chance(0.1) {
        let l = *r.pick(&[1, 1, 1, 2, 3, 5, 10, 60, 90, 3600]) * 1_000_000;
        s.rule.lat = if r.chance(0.5) { Lat::Uniform(l / 40, l) } else { Lat::Ties(l / 10, r.range(1, 12)) };
        if s.time_limit.is_some() {
            s.time_limit = Some(*r.pick(&[l, 2 * l, l + l / 2]));
        }
        for c in &mut s.cmds {
            match c {
                When::At(t) => *t = r.below(3 * l),
                When::AfterEnd(_, d) => *d = r.below(l / 4),
                _ => (),
            }
        }
        if r.chance(0.7) && s.budget.is_some() {
            s.budget = s.budget.map(|b| b.max(8 * s.conc));
        }
    }
    // requests may be repeated
    if r.chance(0.25) && (s.mode.is_async_api() || s.signal) {
        for _ in 0..r.range(1, 4) {
            s.cmds.push(when(r, span));
        }
    }
}

fn when(r: &mut Rng, span: usize) -> When {
    match r.below(10) {
        0 => When::Before,
        1..=2 => When::At(r.below(20_000)),
        3..=4 => When::Start(r.usize(span)),
        5..=6 => When::End(r.usize(span)),
        _ => When::AfterEnd(r.usize(span), r.below(3000)),
    }
}

pub fn c03(r: &mut Rng) -> Scn {
    if let Some(s) = marathon(r) {
        return s;
    }
    let m = any_mode(r, [60, 12, 10, 12, 6]);
    let mut s = base(r, m);
    let b = budget(r, s.conc, 120);
    s.budget = Some(if m == Mode::Async { b } else { b.min(60) });
    sampling(r, &mut s);
    if r.chance(0.25) {
        stops(r, &mut s, 0.5);
    }
    if r.chance(0.1) {
        inject_failure(r, &mut s);
    }
    noise_for_proc(r, &mut s);
    if m.is_async_api() && r.chance(0.2) {
        s.reader = Reader::Slow(r.range(1, 3000));
        s.chan = *r.pick(&[0, 1, 2, 8]);
    }
    if r.chance(0.1) {
        s.rule.reject = 1.0;
    }
    if m == Mode::SyncAsync {
        s.extra = json!({"multi": r.chance(0.5)});
    }
    s
}

pub fn inject_failure(r: &mut Rng, s: &mut Scn) {
    let span = s.budget.unwrap_or(40).max(1);
    for _ in 0..r.range(1, 3) {
        let i = r.usize(span);
        s.over.insert(i, failing_plan(r, s.mode));
    }
}

pub fn failing_plan(r: &mut Rng, mode: Mode) -> Plan {
    let lat = match r.below(4) {
        0 => 0,
        1 => 1000,
        _ => r.below(8000),
    };
    if mode.is_proc() {
        let mut px = if r.chance(0.3) { noise(r) } else { ProcX::default() };
        px.close_early = false;
        let mut out = Out::Val(Num(1.0));
        match r.below(7) {
            0 => px.exit = Some(*r.pick(&[1, 2, 3, 42, 126, 127, 128, 130, 137, 143, 254, 255])),
            1 => px.signal = Some(*r.pick(&[9, 11, 6, 15])),
            2 => px.no_spawn = Some(*r.pick(&[2, 13, 12, 11])),
            3..=4 => px.stdout = Some(bad_stdout(r)),
            5 => {
                px.exit = Some(3);
                px.stdout = Some(Blob::s("{\"objFuncVal\": 1}"));
            }
            _ => out = Out::Err(0),
        }
        // failing without a word, or with other words
        if (px.exit.is_some() || px.signal.is_some()) && px.stdout.is_none() && r.chance(0.5) {
            px.stdout = Some(if r.chance(0.6) { Blob::s("") } else { bad_stdout(r) });
            if r.chance(0.6) {
                px.stderr = None;
            }
        }
        return Plan { lat, out, on_abort: OnAbort::Ignore, px: Some(px) };
    }
    let out = if mode == Mode::SyncThread || r.chance(0.4) {
        Out::NonFinite(Num(*r.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])))
    } else {
        Out::Err(r.below(5) as u8)
    };
    Plan { lat, out, on_abort: OnAbort::Ignore, px: None }
}

pub fn bad_stdout(r: &mut Rng) -> Blob {
    let s: &[&str] = &[
        "",
        "\n",
        "{",
        "not json",
        "{\"objFuncVal\": \"1\"}",
        "{\"objFuncVal\": true}",
        "{\"objFuncVal\": [1]}",
        "{\"objFuncVal\": 1} trailing",
        "{\"objFuncVal\": 1}{\"objFuncVal\": 2}",
        "{\"objFuncVal\": 1, \"extra\": 2}",
        "{\"objfuncval\": 1}",
        "1.5",
        "null",
        "[]",
        "[1.5]",
        "\"objFuncVal\"",
        "{\"objFuncVal\": NaN}",
        "{\"objFuncVal\": Infinity}",
        "{\"objFuncVal\": 1e999}",
        "{\"objFuncVal\": }",
        "{objFuncVal: 1}",
        "{\"objFuncVal\": 1,}",
        "{\"objFuncVal\": 1, \"objFuncVal\": 2}",
        "[null]",
        "true",
        "{\"x\": 1}",
        "debug line\n{\"objFuncVal\": 1}",
    ];
    match r.below(8) {
        0 => Blob { pat: vec![0xff, 0xfe, 0], rep: r.range(1, 40_000) as usize },
        1 => Blob { pat: b"[".to_vec(), rep: r.range(1, 100_000) as usize },
        2 => Blob { pat: vec![0], rep: r.range(1, 100) as usize },
        _ => Blob::s(r.pick(s)),
    }
}

pub fn c04(r: &mut Rng) -> Scn {
    let m = any_mode(r, [55, 12, 10, 13, 10]);
    let mut s = base(r, m);
    if r.chance(0.5) {
        s.budget = Some(if m == Mode::Async { r.range(1, 200) } else { r.range(1, 60) } as usize);
    }
    if r.chance(0.5) {
        stops(r, &mut s, 1.0);
        if r.chance(0.7) {
            s.cmds.clear();
            s.time_limit = None;
            s.signal = false;
        }
    } else {
        request(r, &mut s);
        if r.chance(0.2) {
            stops(r, &mut s, 0.5);
        }
    }
    if r.chance(0.2) {
        sampling(r, &mut s);
    }
    // without a budget something else must end the run
    if s.budget.is_none() {
        bound(r, &mut s, if m == Mode::Async { 200 } else { 60 });
    }
    // evaluations that never end by themselves once the stop is due
    if !m.is_proc() && m != Mode::SyncThread && r.chance(0.35) {
        let n = s.stop_starts.or(s.budget).unwrap_or(30);
        for _ in 0..r.range(1, 4) {
            let i = r.usize(n.max(1));
            let out = match r.below(3) {
                0 => Out::Reject,
                1 => Out::Val(Num(-2e3 - r.f64())),
                _ => Out::Val(Num(r.f64())),
            };
            let late = OnAbort::After(*r.pick(&[0, 0, 10, 5000, 50_000_000]), out.clone());
            s.over.insert(i, Plan { lat: *r.pick(&[FOREVER, FOREVER, 1_000_000_000]), out, on_abort: late, px: None });
        }
        never_ending(r, &mut s);
    }
    if m.is_proc() && r.chance(0.35) {
        let n = s.stop_starts.or(s.budget).unwrap_or(30);
        for _ in 0..r.range(1, 3) {
            let i = r.usize(n.max(1));
            let mut px = if r.chance(0.5) { noise(r) } else { ProcX::default() };
            px.hang = true;
            s.over.insert(i, Plan { lat: 0, out: Out::Reject, on_abort: OnAbort::Ignore, px: Some(px) });
        }
        never_ending(r, &mut s);
    }
    if r.chance(0.15) {
        inject_failure(r, &mut s);
    }
    // failures while draining do not become the error of a terminated run
    if !m.is_proc() && r.chance(0.2) {
        let i = r.usize(20);
        s.over.insert(
            i,
            Plan {
                lat: r.below(6000),
                out: Out::Reject,
                on_abort: OnAbort::After(r.below(2000), Out::Err(r.below(5) as u8)),
                px: None,
            },
        );
        if m == Mode::SyncThread {
            s.over.remove(&i);
        }
    }
    if m.is_async_api() && r.chance(0.15) {
        s.reader = Reader::Slow(r.range(1, 3000));
        s.chan = *r.pick(&[0, 1, 2, 8]);
    }
    if m == Mode::SyncAsync {
        s.extra = json!({"multi": r.chance(0.5)});
    }
    if !m.is_async_api() && r.chance(0.3) {
        s.files = true;
    }
    noise_for_proc(r, &mut s);
    s
}

/// Evaluations that only end on request: make sure that a request comes.
fn never_ending(r: &mut Rng, s: &mut Scn) {
    if s.mode.is_async_api() {
        s.cmds.push(When::At(r.range(1, 60_000)));
    } else if r.chance(0.5) {
        s.signal = true;
        s.cmds.push(When::At(r.range(1, 60_000)));
    } else {
        s.time_limit = Some(r.range(1, 60_000));
    }
}

pub fn c05(r: &mut Rng) -> Scn {
    if let Some(mut s) = marathon(r) {
        // a slow disk may hold up the run once the report queue is full
        s.files = false;
        return s;
    }
    let m = any_mode(r, [62, 12, 8, 12, 6]);
    let mut s = base(r, m);
    let b = budget(r, s.conc, 150);
    s.budget = Some(if m == Mode::Async { b } else { b.min(60) });
    sampling(r, &mut s);
    if r.chance(0.3) {
        stops(r, &mut s, 0.4);
    }
    if r.chance(0.1) {
        s.budget = None;
        bound(r, &mut s, 120);
    }
    if m == Mode::SyncAsync {
        s.extra = json!({"multi": r.chance(0.5)});
    }
    if m.is_proc() {
        s.rule.lat = match r.below(3) {
            0 => Lat::Uniform(1000, 2_000_000),
            1 => Lat::Heavy(100_000),
            _ => Lat::Ties(300_000, 4),
        };
        s.rule.noise = *r.pick(&[0.0, 0.0, 0.5]);
        if s.rule.noise > 0.0 && r.chance(0.3) {
            s.kill_after = Some(r.range(100_000, 3_000_000));
        }
    }
    if r.chance(0.1) {
        s.rule.reject = 1.0;
    }
    s
}

pub fn c06(r: &mut Rng) -> Scn {
    let m = any_mode(r, [55, 12, 8, 15, 10]);
    let mut s = base(r, m);
    s.budget = Some(if m == Mode::Async { r.range(1, 120) } else { r.range(1, 40) } as usize);
    if r.chance(0.2) {
        s.budget = None;
        bound(r, &mut s, 150);
    }
    let n = s.budget.or(s.stop_starts).unwrap_or(30);
    let k = r.range(1, 3);
    for _ in 0..k {
        let i = r.usize(n);
        let p = failing_plan(r, m);
        s.over.insert(i, p);
    }
    // several failures in one instant, failures of aborted evaluations
    if r.chance(0.3) && m != Mode::SyncThread && !m.is_proc() {
        s.rule.honour = 1.0;
        s.rule.honour_us = *r.pick(&[1, 5000, 1_000_000]);
        let i = r.usize(n);
        s.over.insert(
            i,
            Plan {
                lat: *r.pick(&[FOREVER, 100_000, 3000]),
                out: Out::Reject,
                on_abort: OnAbort::After(r.below(3000), if r.chance(0.7) { Out::Err(r.below(5) as u8) } else { Out::NonFinite(Num(f64::NAN)) }),
                px: None,
            },
        );
        s.stop_starts = s.stop_starts.or(Some(n + 5));
        if s.mode.is_async_api() {
            s.cmds.push(When::At(400_000));
        } else {
            s.signal = true;
            s.cmds.push(When::At(400_000));
        }
    }
    // late good results (also below a target) must not turn it into a success
    if r.chance(0.3) {
        s.target = Some(Num(-1e5));
        let i = r.usize(n);
        if !m.is_proc() && m != Mode::SyncThread {
            s.over.insert(
                i,
                Plan { lat: 50_000_000, out: Out::Val(Num(-1e6)), on_abort: OnAbort::After(r.below(2000), Out::Val(Num(-1e6))), px: None },
            );
        }
    }
    if m.is_async_api() && r.chance(0.15) {
        s.reader = Reader::Slow(r.range(1, 3000));
        s.chan = *r.pick(&[0, 1, 2, 8]);
    }
    if r.chance(0.1) {
        request(r, &mut s);
    }
    if m == Mode::SyncAsync {
        s.extra = json!({"multi": r.chance(0.5)});
    }
    if !m.is_async_api() && r.chance(0.3) {
        s.files = true;
    }
    if m.is_proc() && r.chance(0.3) {
        s.kill_after = Some(r.range(500, 3_000_000));
    }
    noise_for_proc(r, &mut s);
    s
}

pub fn c07(r: &mut Rng) -> Scn {
    let m = if r.chance(0.6) { Mode::Proc } else { Mode::AsyncProc };
    let mut s = base(r, m);
    s.conc = *r.pick(&[1, 2, 3, 5, 8]);
    s.budget = Some(r.range(1, 30) as usize);
    s.files = m == Mode::Proc && r.chance(0.5);
    let n = s.budget.unwrap();
    noise_for_proc(r, &mut s);
    let timeouts = r.chance(0.55);
    if timeouts {
        s.kill_after = Some(*r.pick(&[0, 1, 1000, 500_000, 1_000_000, 5_000_000]));
        if s.kill_after.unwrap() >= 500_000 {
            s.rule.lat = match r.below(3) {
                0 => Lat::Uniform(0, 60_000),
                1 => Lat::Uniform(1000, 8_000_000),
                _ => Lat::Const(20_000),
            };
        }
    }
    // children that hang, leave background processes, ignore SIGTERM, ...
    for _ in 0..r.below(5) {
        let i = r.usize(n);
        let mut px = noise(r);
        px.ignore_term = r.chance(0.5);
        let life = if r.chance(0.5) && (timeouts || r.chance(0.5)) { FOREVER } else { r.range(1, 20_000_000) };
        if r.chance(0.7) {
            px.fork = Some(ForkX { life_us: life, detach_io: r.chance(0.5), ignore_term: r.chance(0.5), depth: r.below(3) as u8, settle_us: r.below(3000) });
        }
        px.hang = r.chance(0.4);
        if r.chance(0.15) {
            px.linger = if r.chance(0.5) { FOREVER } else { r.range(1, 5_000_000) };
        }
        px.close_early = r.chance(0.2) && px.linger > 0;
        let plan = s.rule.plan(i, &J::Null);
        s.over.insert(i, Plan { lat: r.below(30_000), px: Some(px), ..plan });
    }
    // the four ways a run may end
    match r.below(6) {
        0 => (),
        1 => {
            s.rule.obj = Obj::Hash(4);
            s.target = Some(Num(-(r.below(n as u64) as f64)));
        }
        2..=3 => request(r, &mut s),
        4 => {
            let i = r.usize(n);
            let p = failing_plan(r, m);
            s.over.insert(i, p);
        }
        _ => {
            s.budget = None;
            bound(r, &mut s, 40);
        }
    }
    // evaluations nobody would ever end need a request
    let endless = s.over.values().any(|p| p.px.as_ref().map(|x| x.hang || x.linger == FOREVER || x.fork.as_ref().map(|f| f.life_us == FOREVER && !f.detach_io).unwrap_or(false)).unwrap_or(false));
    if endless && s.kill_after.is_none() {
        never_ending(r, &mut s);
    }
    s
}

pub fn c08(r: &mut Rng) -> Scn {
    if let Some(s) = marathon(r) {
        return s;
    }
    let m = any_mode(r, [70, 8, 6, 10, 6]);
    let mut s = base(r, m);
    s.budget = Some(budget(r, s.conc, 250));
    if m != Mode::Async && m != Mode::SyncAsync {
        s.budget = s.budget.map(|b| b.min(50));
    }
    if r.chance(0.5) {
        s.sample = *r.pick(&[2, 2, 3, 5, 8]);
        if r.chance(0.8) {
            s.budget = Some(if m == Mode::Async || m == Mode::SyncAsync { r.range(40, 350) } else { r.range(30, 70) } as usize);
            s.rule.reject = s.rule.reject.min(0.3);
        }
    }
    if r.chance(0.6) {
        s.spec = gen_spec(r);
        s.guess = Some(guess_for(r, &s.spec));
    }
    if m == Mode::Proc || m == Mode::SyncThread {
        s.files = r.chance(0.5);
    }
    if r.chance(0.2) {
        stops(r, &mut s, 0.4);
    }
    if m.is_async_api() && r.chance(0.15) {
        s.reader = Reader::Slow(r.range(1, 3000));
    }
    noise_for_proc(r, &mut s);
    s
}

/// Long histories of recombination.
pub fn c12(r: &mut Rng) -> Scn {
    let m = if r.chance(0.92) { Mode::Async } else { Mode::SyncAsync };
    let mut s = base(r, m);
    s.spec = if r.chance(0.7) { gen_spec(r) } else { gen_spec_small(r) };
    let top = if r.chance(0.1) { 500 } else { 120 };
    s.budget = Some(r.range(2, top) as usize);
    s.rule.reject = *r.pick(&[0.0, 0.1, 0.5]);
    if r.chance(0.3) {
        s.accept_first = Some(r.range(1, 6) as usize);
    }
    if r.chance(0.5) {
        s.guess = Some(guess_for(r, &s.spec));
    }
    if r.chance(0.85) {
        let mut m = metax(r);
        m.keep = *r.pick(&[0.0, 0.1, 0.5]);
        // a population of identical or of very different parents
        match r.below(4) {
            0 => m.first = (Some((1.0, 0.5, 0.0, 1.0)), r.range(1, 30) as usize),
            1 => m.first = (Some((0.0, 0.5, 1.0, 10.0)), r.range(1, 60) as usize),
            _ => (),
        }
        for c in &mut m.choices {
            if r.chance(0.6) {
                c.0 = 1.0;
            }
        }
        s.meta = Some(m);
    }
    if r.chance(0.2) {
        sampling(r, &mut s);
    }
    s
}

pub fn c13(r: &mut Rng) -> Scn {
    let mut s = c12(r);
    if r.chance(0.7) {
        s.spec = loop {
            let c = GenCfg { depth: r.range(1, 4) as usize, width: 3, extreme: false, maps: true, weird_names: r.chance(0.1) };
            let x = match r.below(3) {
                0 => SN::Map { vt: Box::new(gen_node(r, &c, c.depth - 1)), init: r.usize(4), min: None, max: if r.chance(0.5) { Some(4) } else { None } },
                1 => gen_map(r, &c, c.depth),
                _ => gen_node(r, &c, c.depth),
            };
            if x.size() <= 40 {
                break x;
            }
        };
        s.guess = if r.chance(0.5) { Some(guess_for(r, &s.spec)) } else { None };
    }
    if let Some(m) = &mut s.meta {
        let n = m.choices.len();
        for (i, c) in m.choices.iter_mut().enumerate() {
            if r.chance(0.6) {
                c.2 = if i % 2 == 0 { 1.0 } else { 0.0 };
            }
            let _ = n;
        }
    }
    s
}

pub fn c14(r: &mut Rng) -> Scn {
    if let Some(s) = marathon(r) {
        return s;
    }
    if r.chance(if std::env::var_os("SIM_RUNAWAY").is_some() { 1.0 } else { 0.0025 }) {
        return runaway(r);
    }
    let m = any_mode(r, [40, 20, 12, 20, 8]);
    let mut s = base(r, m);
    s.budget = Some(if m == Mode::Async || m == Mode::SyncAsync { budget(r, s.conc, 150) } else { budget(r, s.conc, 40).min(50) });
    sampling(r, &mut s);
    if m != Mode::Async && m != Mode::SyncAsync {
        s.budget = s.budget.map(|b| b.min(60));
    }
    if r.chance(0.5) {
        s.spec = gen_spec(r);
    }
    if r.chance(0.3) {
        s.guess = Some(guess_for(r, &s.spec));
    }
    s.files = !m.is_async_api();
    if r.chance(0.4) {
        stops(r, &mut s, 0.5);
    }
    if r.chance(0.15) {
        inject_failure(r, &mut s);
    }
    if m.is_async_api() && r.chance(0.3) {
        s.reader = Reader::Slow(r.range(1, 3000));
        s.chan = *r.pick(&[0, 1, 2, 8]);
    }
    if s.files && r.chance(0.3) {
        let n = r.below(2 + 3 * s.budget.unwrap() as u64);
        match r.below(5) {
            0 => s.disk.fail_open = Some((r.below(8), *r.pick(&[13, 28, 24, 5]))),
            1 | 2 => {
                s.disk.fail_write = Some((n, *r.pick(&[28, 5, 122])));
                s.disk.sticky = r.chance(0.5);
            }
            3 => {
                s.disk.short = 0.4;
                s.disk.eintr = 0.2;
            }
            _ => {
                s.disk.eintr = 0.3;
                s.disk.fail_write = Some((n, 28));
            }
        }
    }
    if m.is_proc() && r.chance(0.2) {
        s.kill_after = Some(r.range(100_000, 2_000_000));
        s.rule.lat = Lat::Uniform(1000, 1_500_000);
    }
    if m == Mode::SyncAsync {
        s.extra = json!({"multi": r.chance(0.5)});
    }
    if r.chance(0.02) && m == Mode::Async {
        // a long run: the adaptive parameters drift far
        s.budget = Some(3000);
        s.spec = SN::Bool(true);
        s.sample = 1;
        s.conc = 1;
        s.reader = Reader::Prompt;
    }
    noise_for_proc(r, &mut s);
    s
}

pub fn c15(r: &mut Rng) -> Scn {
    if r.chance(if std::env::var_os("SIM_RUNAWAY").is_some() { 1.0 } else { 0.0025 }) {
        return runaway(r);
    }
    let m = any_mode(r, [45, 10, 10, 25, 10]);
    let mut s = base(r, m);
    s.spec = if r.chance(0.5) { gen_spec(r) } else { gen_spec_small(r) };
    s.budget = Some(if m == Mode::Async { budget(r, s.conc, 200) } else { budget(r, s.conc, 40).min(60) });
    sampling(r, &mut s);
    if !(m == Mode::Async || m == Mode::SyncAsync) {
        s.budget = s.budget.map(|b| b.min(60));
    }
    s.rule.reject = *r.pick(&[0.0, 0.2, 0.9, 1.0]);
    s.rule.obj = match r.below(4) {
        0 => Obj::Const(Num(*r.pick(&[0.0, -0.0, 1e300, -1e300, 5e-324]))),
        1 => Obj::Hash(2),
        2 => Obj::Hash(3),
        _ => obj(r),
    };
    if r.chance(0.4) {
        s.meta = Some(metax(r));
    }
    if r.chance(0.3) {
        stops(r, &mut s, 0.5);
    }
    if m.is_proc() {
        s.rule.noise = *r.pick(&[0.3, 1.0]);
        let n = s.budget.unwrap().max(1);
        for _ in 0..r.below(5) {
            let i = r.usize(n);
            let mut px = noise(r);
            if r.chance(0.6) {
                px.stderr = Some(bytes(r));
            }
            if r.chance(0.5) {
                px.stdout = Some(if r.chance(0.5) { bytes(r) } else { bad_stdout(r) });
            }
            if r.chance(0.3) {
                px.exit = Some(r.below(256) as i32);
            }
            if r.chance(0.2) {
                px.signal = Some(*r.pick(&[9, 15, 11]));
            }
            let p = s.rule.plan(i, &J::Null);
            s.over.insert(i, Plan { lat: r.below(5000), px: Some(px), ..p });
        }
        if r.chance(0.3) {
            s.kill_after = Some(r.range(0, 100_000));
        }
    } else if r.chance(0.15) {
        inject_failure(r, &mut s);
    }
    if !m.is_async_api() && r.chance(0.3) {
        s.files = true;
    }
    if r.chance(0.25) {
        s.preempt = 0.8;
    }
    s.skews = skews(r);
    s.verbose = r.chance(0.5);
    s
}

fn bytes(r: &mut Rng) -> Blob {
    let n = r.range(1, 30);
    let rep = *r.pick(&[1, 1, 10, 5000, 20_000]);
    if r.chance(0.3) {
        // text in some encoding, broken in various ways
        let bits: &[&[u8]] = &[
            b"warning: ", b"\n", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f600}".as_bytes(), &[0xf0, 0x9f, 0x98], &[0xe2, 0x82],
            &[0xc3], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xff, 0xfe], &[0xf0, 0x9f, 0x98, b'x'], &[0xef, 0xbb, 0xbf], &[0x1b, b'[', b'3', b'1', b'm'],
            b"{}", b"%s", b"\r",
        ];
        return Blob { pat: (0..n).flat_map(|_| r.pick(bits).to_vec()).collect(), rep: if rep > 1000 { rep / 4 } else { rep } };
    }
    Blob { pat: (0..n).map(|_| *r.pick(&[0u8, 0x0a, b'{', b'"', b'1', 0x80, 0xc3, 0xe2, 0xff, 0xf0, b' ', b'\\'])).collect(), rep }
}

/// Any JSON document.
pub fn junk(r: &mut Rng, depth: usize) -> J {
    match r.below(if depth == 0 { 7 } else { 10 }) {
        0 => J::Null,
        1 => json!(r.chance(0.5)),
        2 => json!(*r.pick(&[0i64, -1, 1, i64::MAX, i64::MIN])),
        3 => json!(*r.pick(&[0.5, -0.0, 1e308, 5e-324, u64::MAX as f64])),
        4 => json!(u64::MAX),
        5 => json!(*r.pick(&["", "a", "x", "true", "1", "\u{0}", "\u{1F600}"])),
        6 => json!(r.next() as i64),
        7 | 8 => J::Array((0..r.below(5)).map(|_| junk(r, depth - 1)).collect()),
        _ => J::Object(
            (0..r.below(5))
                .map(|i| {
                    let k = *r.pick(&["0", "1", "x", "a", "", "18446744073709551615", "18446744073709551616", "-1", "01", "+1"]);
                    (if r.chance(0.3) { format!("{k}{i}") } else { k.to_string() }, junk(r, depth - 1))
                })
                .collect(),
        ),
    }
}

/// A document shaped like a value of the space with parts replaced by anything.
pub fn junk_like(r: &mut Rng, s: &SN) -> J {
    fn go(r: &mut Rng, j: &mut J) {
        if r.chance(0.2) {
            *j = junk(r, 2);
            return;
        }
        match j {
            J::Array(a) => a.iter_mut().for_each(|x| go(r, x)),
            J::Object(o) => {
                o.values_mut().for_each(|x| go(r, x));
                if r.chance(0.2) {
                    let k = *r.pick(&["0", "00", "+0", "1", "01", "18446744073709551615", "x"]);
                    o.insert(k.to_string(), junk(r, 1));
                }
            }
            _ => (),
        }
    }
    let mut j = rand_value(s, r);
    go(r, &mut j);
    j
}
