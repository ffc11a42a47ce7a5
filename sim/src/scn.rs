//! Scenario: everything that decides one simulated run, as data (one JSON document = one replay file).
use crate::gen::{Num, SN};
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use simcore::rng::{mix, Rng};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    /// async_launch::launch with a simulated asynchronous objective
    Async,
    /// sync_launch::launch_with_async_obj_func with a simulated asynchronous objective
    SyncAsync,
    /// sync_launch::launch: blocking objective on simulated threads
    SyncThread,
    /// sync_launch::launch_with_async_obj_func with ObjFuncProcessDef on the simulated process table
    Proc,
    /// async_launch::launch with ObjFuncProcessDef
    AsyncProc,
}
impl Mode {
    pub fn is_proc(self) -> bool {
        matches!(self, Mode::Proc | Mode::AsyncProc)
    }
    pub fn is_async_api(self) -> bool {
        matches!(self, Mode::Async | Mode::AsyncProc)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Out {
    Val(Num),
    Reject,
    NonFinite(Num),
    /// the objective function reports an error (kind of error value)
    Err(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OnAbort {
    Ignore,
    /// ends that many microseconds after the abort signal
    After(u64, Out),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Blob {
    pub pat: Vec<u8>,
    pub rep: usize,
}
impl Blob {
    pub fn s(s: &str) -> Blob {
        Blob { pat: s.as_bytes().to_vec(), rep: 1 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.pat.repeat(self.rep)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ForkX {
    /// lifetime of the background process
    pub life_us: u64,
    pub detach_io: bool,
    pub ignore_term: bool,
    pub depth: u8,
    /// forked this long before the leader goes on
    pub settle_us: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct ProcX {
    /// replaces the JSON line
    pub stdout: Option<Blob>,
    pub stderr: Option<Blob>,
    /// split of the output into pieces with pauses between (us)
    pub pieces: usize,
    pub piece_gap: u64,
    pub exit: Option<i32>,
    pub signal: Option<i32>,
    pub fork: Option<ForkX>,
    pub ignore_term: bool,
    /// never ends by itself
    pub hang: bool,
    /// closes stdout/stderr before going on working
    pub close_early: bool,
    /// time between the last output and the exit
    pub linger: u64,
    /// cannot be launched (errno)
    pub no_spawn: Option<i32>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    /// latency in microseconds; u64::MAX: never ends by itself
    pub lat: u64,
    pub out: Out,
    pub on_abort: OnAbort,
    #[serde(default)]
    pub px: Option<ProcX>,
}
pub const FOREVER: u64 = u64::MAX;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Lat {
    Const(u64),
    Uniform(u64, u64),
    /// multiples of a quantum: many simultaneous completions
    Ties(u64, u64),
    /// mostly short, sometimes very long
    Heavy(u64),
    /// ready at the first poll
    Zero,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Obj {
    Const(Num),
    /// 0 ties, 1 uniform, 2 magnitudes, 3 specials, 4 decreasing, 5 increasing, 6: best early then worse
    Hash(u8),
    /// function of the value: 0 weighted sum, 1 outwards, 2 map sizes, 3 inwards
    Score(u8),
    /// the adaptive parameters the value was made with (seen through the hook): 0 largest scale, 1 smallest scale,
    /// 2 smallest mutation, 3 smallest crossover probability, 4 smallest selection pressure
    Adversary(u8),
    /// benchmark problem with known optimum
    Bench(crate::bench::Problem),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rule {
    pub seed: u64,
    pub lat: Lat,
    pub obj: Obj,
    pub reject: f64,
    /// probability that an evaluation honours the abort signal, and its maximal reaction time
    pub honour: f64,
    pub honour_us: u64,
    /// process noise: probability of stderr output, forks, chunking
    pub noise: f64,
    #[serde(skip)]
    pub adv: Adv,
}

/// What an adversary knows: the number it likes, by value.
#[derive(Clone, Debug, Default)]
pub struct Adv(pub std::sync::Arc<std::sync::Mutex<std::collections::HashMap<String, f64>>>);

impl PartialEq for Adv {
    fn eq(&self, _: &Adv) -> bool {
        true
    }
}

impl Adv {
    pub fn clear(&self) {
        self.0.lock().unwrap_or_else(|e| e.into_inner()).clear();
    }
    /// The first sight counts: the objective is a function of the value.
    pub fn learn(&self, k: u8, value: &J, meta: (f64, f64, f64, f64)) {
        let x = match k {
            0 => 1.0 / meta.3.max(1e-300),
            1 => meta.3,
            2 => meta.2,
            3 => meta.0,
            _ => meta.1,
        };
        let x = if x > 0.0 { x.ln() } else { -1e4 };
        self.0.lock().unwrap_or_else(|e| e.into_inner()).entry(value.to_string()).or_insert(x.clamp(-1e5, 1e5));
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum When {
    Before,
    At(u64),
    /// at the moment the n-th evaluation start happens
    Start(usize),
    /// at the moment the n-th evaluation end happens
    End(usize),
    /// some time after the n-th end
    AfterEnd(usize, u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Reader {
    Prompt,
    /// takes one report item each period (us)
    Slow(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct DiskX {
    pub fail_open: Option<(u64, i32)>,
    pub fail_write: Option<(u64, i32)>,
    pub sticky: bool,
    pub short: f64,
    pub eintr: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct MetaX {
    /// (crossover_prob, selection_pressure, mutation_prob, mutation_scale); chosen at random per offspring
    pub choices: Vec<(f64, f64, f64, f64)>,
    /// probability to keep the adaptive parameters
    pub keep: f64,
    /// parameters of the first n offspring
    #[serde(default)]
    pub first: (Option<(f64, f64, f64, f64)>, usize),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scn {
    pub mode: Mode,
    pub spec: SN,
    pub guess: Option<J>,
    pub sample: usize,
    pub conc: usize,
    pub budget: Option<usize>,
    pub target: Option<Num>,
    pub time_limit: Option<u64>,
    pub signal: bool,
    pub cmds: Vec<When>,
    pub rule: Rule,
    pub over: BTreeMap<usize, Plan>,
    pub chan: usize,
    pub reader: Reader,
    pub files: bool,
    pub disk: DiskX,
    pub kill_after: Option<u64>,
    /// terminate request issued by the harness after that many starts (bounds runs without other criterion)
    pub stop_starts: Option<usize>,
    /// completion order to enforce (start indices)
    pub order: Option<Vec<usize>>,
    pub seed: u64,
    pub salt: u64,
    pub epoch: u64,
    pub preempt: f64,
    pub skews: Vec<(u64, i64)>,
    pub verbose: bool,
    pub meta: Option<MetaX>,
    /// accepted evaluations stop after that many (all later ones are rejected)
    #[serde(default)]
    pub accept_first: Option<usize>,
    /// extra per-property data
    #[serde(default)]
    pub extra: J,
}

pub fn score(j: &J, kind: u8, w: f64) -> f64 {
    fn h(s: &str) -> f64 {
        let mut x = 0xcbf29ce484222325u64;
        for b in s.bytes() {
            x = (x ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut y = x;
        (simcore::rng::splitmix(&mut y) >> 11) as f64 / (1u64 << 53) as f64
    }
    let v = match j {
        J::Number(n) => {
            let x = n.as_f64().unwrap_or(0.0);
            match kind {
                1 => -x.abs(),
                3 => x.abs(),
                _ => x * w,
            }
        }
        J::Bool(b) => (*b as u8 as f64) * w,
        J::String(s) => h(s),
        J::Null => 0.1,
        J::Array(a) => a.iter().enumerate().map(|(i, x)| score(x, kind, w * (1.0 + i as f64 * 0.3))).sum(),
        J::Object(o) => {
            let s: f64 = o.iter().map(|(k, x)| score(x, kind, w * (h(k) * 2.0 - 0.7))).sum();
            s + if kind == 2 { -(o.len() as f64) } else { 0.0 }
        }
    };
    if v.is_nan() {
        0.0
    } else {
        v.clamp(-1e300, 1e300)
    }
}

impl Rule {
    pub fn obj_val(&self, idx: usize, value: &J, r: &mut Rng) -> f64 {
        match &self.obj {
            Obj::Const(c) => c.0,
            Obj::Hash(k) => match k {
                0 => r.below(4) as f64,
                1 => r.f64() * 2.0 - 1.0,
                2 => (r.f64() * 2.0 - 1.0) * 10f64.powf(r.f64() * 600.0 - 300.0),
                3 => *r.pick(&[0.0, -0.0, 1e300, -1e300, 5e-324, -5e-324, 1.0, 1e-300, -1e-300]),
                4 => -(idx as f64),
                5 => idx as f64,
                _ => {
                    if idx < 3 {
                        -1000.0 + idx as f64
                    } else {
                        r.f64() * 100.0
                    }
                }
            },
            Obj::Score(k) => score(value, *k, 1.0),
            Obj::Adversary(_) => *self.adv.0.lock().unwrap_or_else(|e| e.into_inner()).get(&value.to_string()).unwrap_or(&1e6),
            Obj::Bench(p) => crate::bench::objective(p, value),
        }
    }
    pub fn plan(&self, idx: usize, value: &J) -> Plan {
        let mut r = Rng::new(mix(self.seed, idx as u64 ^ 0x5ca1ab1e));
        // the latency has a stream of its own: results do not depend on how long evaluations take
        let mut rl = Rng::new(mix(self.seed, idx as u64 ^ 0x1a7e7c7));
        let lat = match self.lat {
            Lat::Const(c) => c,
            Lat::Uniform(a, b) => rl.range(a, b),
            Lat::Ties(q, n) => q * rl.range(1, n),
            Lat::Heavy(b) => {
                if rl.chance(0.1) {
                    b * rl.range(20, 100)
                } else {
                    rl.range(1, b)
                }
            }
            Lat::Zero => 0,
        };
        let out = if r.chance(self.reject) { Out::Reject } else { Out::Val(Num(self.obj_val(idx, value, &mut r))) };
        let on_abort = if r.chance(self.honour) {
            let d = if r.chance(0.5) { 0 } else { r.below(self.honour_us + 1) };
            let o = match r.below(5) {
                0 => Out::Val(Num(self.obj_val(idx, value, &mut r))),
                _ => Out::Reject,
            };
            OnAbort::After(d, o)
        } else {
            OnAbort::Ignore
        };
        let px = if self.noise > 0.0 && r.chance(self.noise) { Some(noise(&mut r)) } else { None };
        Plan { lat, out, on_abort, px }
    }
}

/// Legal peculiarities of a child process: none of them changes its result.
pub fn noise(r: &mut Rng) -> ProcX {
    let mut x = ProcX::default();
    if r.chance(0.4) {
        x.stderr = Some(match r.below(4) {
            0 => Blob::s("warning: something\n"),
            1 => Blob { pat: vec![0xff, 0xfe, 0x00, 0x80, b'\n'], rep: 1 },
            2 => Blob { pat: vec![b'e'], rep: r.range(1, 200_000) as usize },
            _ => Blob { pat: vec![0xe2, 0x82], rep: r.range(1, 70_000) as usize },
        });
    }
    if r.chance(0.3) {
        x.pieces = r.range(2, 6) as usize;
        x.piece_gap = r.below(2000);
    }
    if r.chance(0.25) {
        x.fork = Some(ForkX {
            life_us: r.range(1, 20_000),
            detach_io: r.chance(0.5),
            ignore_term: r.chance(0.3),
            depth: r.below(2) as u8,
            settle_us: r.below(500),
        });
    }
    if r.chance(0.2) {
        x.linger = r.below(5000);
    }
    if r.chance(0.1) {
        x.close_early = true;
        x.linger = x.linger.max(1 + r.below(2000));
    }
    x.ignore_term = r.chance(0.2);
    x
}

impl Scn {
    pub fn plan(&self, idx: usize, value: &J) -> Plan {
        match self.over.get(&idx) {
            Some(p) => p.clone(),
            None => {
                let mut p = self.rule.plan(idx, value);
                if self.accept_first.map(|n| idx >= n).unwrap_or(false) {
                    p.out = Out::Reject;
                }
                p
            }
        }
    }
}
