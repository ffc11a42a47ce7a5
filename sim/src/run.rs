//! Executes a scenario against the real cambrian code inside a simulated world and records its history.
use crate::gen::Num;
use crate::scn::*;
use async_trait::async_trait;
use cambrian::error::{Error, ProcOutputWithObjFuncArg};
use cambrian::message::Command;
use cambrian::meta::{AlgoConfigBuilder, AsyncObjectiveFunction, ObjectiveFunction};
use cambrian::process::ObjFuncProcessDef;
use cambrian::result::FinalReport;
use cambrian::sync_launch::DetailedReportingFileInfo;
use cambrian::termination::TerminationCriterion;
use cambrian::{async_launch, spec_util, sync_launch};
use futures::channel::mpsc;
use futures::StreamExt;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use simcore::exec::{Exec, Timer};
use simcore::os::{Act, SpawnResult};
use simcore::rng::{mix, Rng};
use simcore::world::{Abort, SimAbort, World, WorldCfg, MS, SEC, US};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Res {
    Val(f64),
    Reject,
    NonFinite,
    Err(String),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Eval {
    pub idx: usize,
    pub id: Option<usize>,
    pub seed: Option<u64>,
    pub value: J,
    pub start: (usize, u64),
    pub end: Option<(usize, u64)>,
    pub res: Option<Res>,
    pub abort: Option<(usize, u64)>,
    pub dropped: Option<(usize, u64)>,
    pub argv: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ev {
    Start(usize),
    End(usize),
    Abort(usize),
    Drop(usize),
    Cmd(Cow<'static, str>),
    Report(usize),
    Return,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Rep {
    pub id: usize,
    pub seed: u64,
    pub input: J,
    pub val: Option<f64>,
    pub meta: Option<(String, f64, f64, f64, f64)>,
    pub eval_time: f64,
    pub csv: String,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProcInfo {
    pub pid: i32,
    pub pgid: i32,
    pub sid: i32,
    pub leader: bool,
    pub eval: usize,
    pub born: u64,
    pub died: Option<u64>,
    pub killed_by: Option<i32>,
    pub finished: bool,
    pub reaped: bool,
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok { val: f64, value: J, completed: usize, rejected: usize, time: f64 },
    Err { debug: String, display: String, variant: String },
    Panic(String),
    Hang(Abort),
}

#[derive(Default)]
pub struct Hist {
    pub evals: Vec<Eval>,
    pub evs: Vec<(u64, Ev)>,
    pub reps: Vec<Rep>,
    pub ended: usize,
    pub hook_errors: Vec<(&'static str, String)>,
    pub hook_n: [u64; 4],
    pub meta_seen: Vec<(f64, f64, f64, f64)>,
    pub live: BTreeMap<String, (u64, u64)>,
    pub live_tmp: Vec<(String, bool)>,
    pub kept: crate::hooks::Kept,
    pub mix_n: u64,
    pub mix_hits: BTreeMap<&'static str, u64>,
    pub ranks: BTreeMap<usize, Vec<u64>>,
    pub after_poll: Vec<(usize, usize, usize)>,
    pub stop_sent: bool,
    /// time was made to pass in the middle of a computation without end
    pub nudged: bool,
}

pub struct Run {
    pub outcome: Outcome,
    pub hist: Hist,
    pub procs: Vec<ProcInfo>,
    pub alive_at_return: Vec<(i32, i32, usize)>,
    pub max_alive: usize,
    pub csv: Option<Vec<u8>>,
    pub best: Option<Vec<u8>>,
    pub stats: BTreeMap<&'static str, u64>,
    pub hash: u64,
    pub now: u64,
    pub steps: u64,
    pub log: Vec<String>,
    pub panics: Vec<String>,
    pub signals: Vec<(u64, i32, i32)>,
    pub ret_time: u64,
}

pub struct Ctx {
    pub scn: Scn,
    pub world: Arc<World>,
    pub h: Mutex<Hist>,
    cmd_tx: Mutex<Option<mpsc::Sender<Command>>>,
    turn: Mutex<(usize, BTreeMap<usize, Waker>)>,
    pub meta_rng: Mutex<Rng>,
    pub watch: u32,
}

thread_local! {
    pub static CTX: RefCell<Option<Arc<Ctx>>> = const { RefCell::new(None) };
}

impl Ctx {
    fn ev(&self, e: Ev) -> (usize, u64) {
        let now = self.world.now();
        self.world.trace(|| format!("{e:?}"));
        let mut h = self.h.lock().unwrap_or_else(|e| e.into_inner());
        h.evs.push((now, e));
        (h.evs.len() - 1, now)
    }

    fn start(self: &Arc<Self>, value: J, seed: Option<u64>, id: Option<usize>, argv: Vec<Vec<u8>>) -> (usize, Plan) {
        let idx = self.h.lock().unwrap_or_else(|e| e.into_inner()).evals.len();
        {
            self.world.trace(|| format!("start #{idx} id {id:?} seed {seed:?} {value}"));
            let s = self.ev(Ev::Start(idx));
            let mut h = self.h.lock().unwrap_or_else(|e| e.into_inner());
            h.evals.push(Eval {
                idx,
                id,
                seed,
                value: value.clone(),
                start: s,
                end: None,
                res: None,
                abort: None,
                dropped: None,
                argv,
            });
        }
        for w in &self.scn.cmds {
            if *w == When::Start(idx) {
                self.terminate("terminate");
            }
        }
        if let Some(n) = self.scn.stop_starts {
            if idx + 1 >= n {
                let first = !std::mem::replace(&mut self.h.lock().unwrap_or_else(|e| e.into_inner()).stop_sent, true);
                if first {
                    self.terminate("terminate (harness)");
                }
                if idx > n + 400 && idx % 8 == 0 {
                    self.h.lock().unwrap_or_else(|e| e.into_inner()).nudged = true;
                    self.world.nudge();
                }
            }
        }
        (idx, self.scn.plan(idx, &value))
    }

    fn end(self: &Arc<Self>, idx: usize, res: Res) {
        let n = {
            let mut h = self.h.lock().unwrap_or_else(|e| e.into_inner());
            h.ended += 1;
            h.ended - 1
        };
        for w in &self.scn.cmds {
            match w {
                When::End(k) if *k == n => self.terminate("terminate"),
                When::AfterEnd(k, d) if *k == n => {
                    let c = self.clone();
                    self.world.after(*d * US, move || c.terminate("terminate"));
                }
                _ => (),
            }
        }
        let s = self.ev(Ev::End(idx));
        let mut h = self.h.lock().unwrap_or_else(|e| e.into_inner());
        h.evals[idx].end = Some(s);
        h.evals[idx].res = Some(res);
    }

    /// Delivers a termination request in the way the mode provides.
    pub fn terminate(self: &Arc<Self>, what: &'static str) {
        if self.h.lock().unwrap_or_else(|e| e.into_inner()).evs.last().map(|e| matches!(e.1, Ev::Return)).unwrap_or(false) {
            return;
        }
        let delivered = if self.scn.mode.is_async_api() {
            let tx = self.cmd_tx.lock().unwrap_or_else(|e| e.into_inner()).clone();
            match tx {
                Some(mut tx) => tx.try_send(Command::Terminate).is_ok(),
                None => false,
            }
        } else if self.scn.signal {
            ctrlc::sim_deliver()
        } else {
            false
        };
        if delivered {
            self.world.stat("terminate_requests");
            self.ev(Ev::Cmd(what.into()));
        }
    }

    fn wait_turn(&self, idx: usize) -> Turn<'_> {
        Turn { ctx: self, idx }
    }
}

struct Turn<'a> {
    ctx: &'a Ctx,
    idx: usize,
}
impl Future for Turn<'_> {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let Some(order) = &self.ctx.scn.order else { return Poll::Ready(()) };
        let mut t = self.ctx.turn.lock().unwrap_or_else(|e| e.into_inner());
        match order.get(t.0) {
            Some(o) if *o == self.idx => {
                t.0 += 1;
                // the successor becomes eligible
                if let Some(nx) = order.get(t.0) {
                    if let Some(w) = t.1.remove(nx) {
                        drop(t);
                        let d = self.ctx.world.sched(|r| r.below(3000));
                        self.ctx.world.after(1 + d * US, move || w.wake());
                    }
                }
                Poll::Ready(())
            }
            Some(_) => {
                t.1.insert(self.idx, cx.waker().clone());
                Poll::Pending
            }
            None => Poll::Pending,
        }
    }
}

fn mk_err(kind: u8, idx: usize) -> Error {
    let tag = format!("boom#{idx}#");
    match kind % 5 {
        0 => Error::Io(std::io::Error::other(tag)),
        1 => Error::UnableToLaunchObjFuncProcess(std::io::Error::other(tag)),
        2 => Error::IllegalTypeDefName { path_hint: tag, type_def_name: "x".into() },
        3 => Error::UnknownTypeName { path_hint: tag, unknown_type_name: "y".into() },
        _ => Error::ObjFuncProcFailed(ProcOutputWithObjFuncArg::new(
            tag.into(),
            idx as u64,
            std::process::Output {
                status: std::os::unix::process::ExitStatusExt::from_raw(256),
                stdout: vec![],
                stderr: vec![],
            },
        )),
    }
}

fn to_result(ctx: &Arc<Ctx>, idx: usize, out: &Out) -> Result<Option<f64>, Error> {
    match out {
        Out::Val(v) => {
            ctx.end(idx, Res::Val(v.0));
            Ok(Some(v.0))
        }
        Out::Reject => {
            ctx.end(idx, Res::Reject);
            Ok(None)
        }
        Out::NonFinite(v) => {
            ctx.world.stat("fault_non_finite");
            ctx.end(idx, Res::NonFinite);
            Ok(Some(v.0))
        }
        Out::Err(k) => {
            ctx.world.stat("fault_eval_error");
            let e = mk_err(*k, idx);
            ctx.end(idx, Res::Err(format!("boom#{idx}#")));
            Err(e)
        }
    }
}

pub struct SimObj(pub Arc<Ctx>);

struct DropGuard {
    ctx: Arc<Ctx>,
    idx: usize,
    armed: bool,
}
impl Drop for DropGuard {
    fn drop(&mut self) {
        if self.armed && self.ctx.world.aborting().is_none() {
            let s = self.ctx.ev(Ev::Drop(self.idx));
            self.ctx.h.lock().unwrap_or_else(|e| e.into_inner()).evals[self.idx].dropped = Some(s);
        }
    }
}

#[async_trait]
impl AsyncObjectiveFunction for SimObj {
    async fn evaluate(
        &self,
        value: J,
        mut abort: async_broadcast::Receiver<()>,
        seed: u64,
        id: usize,
    ) -> Result<Option<f64>, Error> {
        let ctx = &self.0;
        let (idx, plan) = ctx.start(value, Some(seed), Some(id), vec![]);
        let mut guard = DropGuard { ctx: ctx.clone(), idx, armed: true };
        let w = ctx.world.clone();
        let deadline = if plan.lat == FOREVER { None } else { Some(w.now().saturating_add(plan.lat * US)) };
        let work = async {
            match deadline {
                Some(d) => {
                    if d > w.now() {
                        Timer::at(d).await;
                    }
                }
                None => std::future::pending::<()>().await,
            }
            ctx.wait_turn(idx).await;
        };
        futures::pin_mut!(work);
        let out;
        {
            let ab = Box::pin(abort.recv());
            match futures::future::select(work.as_mut(), ab).await {
                futures::future::Either::Left(_) => out = plan.out.clone(),
                futures::future::Either::Right((r, _)) => {
                    if r.is_ok() {
                        let s = ctx.ev(Ev::Abort(idx));
                        ctx.h.lock().unwrap_or_else(|e| e.into_inner()).evals[idx].abort = Some(s);
                        w.stat("abort_signals_seen");
                    } else {
                        w.stat("abort_channel_closed");
                    }
                    match (&plan.on_abort, r.is_ok()) {
                        (OnAbort::After(d, o), true) => {
                            if *d > 0 {
                                Timer::at(w.now() + *d * US).await;
                            }
                            w.stat("evals_honouring_abort");
                            out = o.clone();
                        }
                        _ => {
                            w.stat("evals_ignoring_abort");
                            work.await;
                            out = plan.out.clone();
                        }
                    }
                }
            }
        }
        guard.armed = false;
        to_result(ctx, idx, &out)
    }
}

/// Blocking objective for in-process computation.
pub struct SimSyncObj(pub Arc<Ctx>);
impl ObjectiveFunction for SimSyncObj {
    fn evaluate(&self, value: J) -> Option<f64> {
        let ctx = &self.0;
        let (idx, plan) = ctx.start(value, None, None, vec![]);
        if plan.lat > 0 && plan.lat != FOREVER {
            ctx.world.sleep(plan.lat * US);
        } else {
            ctx.world.yield_now();
        }
        to_result(ctx, idx, &plan.out).ok().flatten()
    }
}

/// Script of the child process that behaves as planned.
pub fn script(plan: &Plan) -> Result<Vec<Act>, i32> {
    let x = plan.px.clone().unwrap_or_default();
    if let Some(e) = x.no_spawn {
        return Err(e);
    }
    let mut v = Vec::new();
    if x.ignore_term {
        v.push(Act::IgnoreTerm);
    }
    if let Some(f) = &x.fork {
        let mut inner = vec![];
        if f.ignore_term {
            inner.push(Act::IgnoreTerm);
        }
        for d in 0..f.depth {
            let _ = d;
            inner.push(Act::Fork {
                script: Arc::new(vec![if f.life_us == FOREVER { Act::Hang } else { Act::Sleep(f.life_us * US) }]),
                detach_io: f.detach_io,
                setsid: false,
            });
        }
        inner.push(if f.life_us == FOREVER { Act::Hang } else { Act::Sleep(f.life_us * US) });
        v.push(Act::Fork { script: Arc::new(inner), detach_io: f.detach_io, setsid: false });
        if f.settle_us > 0 {
            v.push(Act::Sleep(f.settle_us * US));
        }
    }
    if plan.lat == FOREVER || x.hang {
        v.push(Act::Hang);
        return Ok(v);
    }
    if plan.lat > 0 {
        v.push(Act::Sleep(plan.lat * US));
    }
    if let Some(e) = &x.stderr {
        v.push(Act::Err(e.bytes()));
    }
    let text = match (&x.stdout, &plan.out) {
        (Some(b), _) => b.bytes(),
        (None, Out::Val(Num(f))) => format!("{{\"objFuncVal\": {:?}}}\n", crate::json::stable(*f)).into_bytes(),
        (None, Out::Reject) => {
            if plan.lat % 2 == 0 {
                b"{\"objFuncVal\": null}".to_vec()
            } else {
                b"{}".to_vec()
            }
        }
        (None, Out::NonFinite(_)) => b"{\"objFuncVal\": 1e999}".to_vec(),
        (None, Out::Err(_)) => b"not json".to_vec(),
    };
    let n = x.pieces.max(1).min(text.len().max(1));
    let step = text.len().div_ceil(n).max(1);
    for (i, c) in text.chunks(step).enumerate() {
        if i > 0 {
            v.push(Act::Sleep(x.piece_gap * US));
        }
        v.push(Act::Out(c.to_vec()));
    }
    if x.close_early {
        v.push(Act::CloseOut);
        v.push(Act::CloseErr);
    }
    if x.linger > 0 {
        v.push(if x.linger == FOREVER { Act::Hang } else { Act::Sleep(x.linger * US) });
    }
    match (x.signal, x.exit) {
        (Some(s), _) => v.push(Act::Raise(s)),
        (None, Some(c)) => v.push(Act::Exit(c)),
        _ => v.push(Act::Exit(0)),
    }
    Ok(v)
}

/// What the optimizer has to conclude from a child that runs to its end undisturbed.
pub fn proc_result(plan: &Plan) -> Res {
    let x = plan.px.clone().unwrap_or_default();
    if x.no_spawn.is_some() {
        return Res::Err("no_spawn".into());
    }
    if x.signal.is_some() || x.exit.unwrap_or(0) & 0xff != 0 {
        return Res::Err("failed".into());
    }
    match (&x.stdout, &plan.out) {
        (Some(b), _) => classify_stdout(&b.bytes()),
        (None, Out::Val(v)) => Res::Val(crate::json::stable(v.0)),
        (None, Out::Reject) => Res::Reject,
        (None, _) => Res::Err("output".into()),
    }
}

struct Once;
impl<'de> serde::Deserialize<'de> for Once {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Once;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("an object without repeated keys")
            }
            fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<Once, A::Error> {
                let mut seen = std::collections::BTreeSet::new();
                while let Some((k, _)) = a.next_entry::<String, J>()? {
                    if !seen.insert(k) {
                        return Err(serde::de::Error::custom("repeated key"));
                    }
                }
                Ok(Once)
            }
        }
        d.deserialize_map(V)
    }
}

/// Reference reading of a child's standard output.
pub fn classify_stdout(b: &[u8]) -> Res {
    let bad = || Res::Err("output".into());
    let Ok(j) = serde_json::from_slice::<J>(b) else { return bad() };
    match j {
        J::Object(o) => {
            // a repeated key leaves open which value counts
            if serde_json::from_slice::<Once>(b).is_err() {
                return bad();
            }
            if o.keys().any(|k| k != "objFuncVal") {
                return bad();
            }
            match o.get("objFuncVal") {
                None | Some(J::Null) => Res::Reject,
                Some(J::Number(n)) => match n.as_f64() {
                    Some(f) if f.is_finite() => Res::Val(f),
                    _ => bad(),
                },
                _ => bad(),
            }
        }
        _ => bad(),
    }
}

pub fn install_spawner(ctx: &Arc<Ctx>, prefix_args: usize) {
    let c2 = Arc::downgrade(ctx);
    ctx.world.lock().os.spawner = Some(Arc::new(move |info| {
        use std::os::unix::ffi::OsStrExt;
        let Some(c) = c2.upgrade() else { return SpawnResult::Fail(std::io::Error::from_raw_os_error(2)) };
        let argv: Vec<Vec<u8>> = std::iter::once(info.program.as_bytes().to_vec())
            .chain(info.args.iter().map(|a| a.as_bytes().to_vec()))
            .collect();
        let val = info
            .args
            .get(prefix_args)
            .and_then(|a| crate::json::parse(a.as_bytes()).ok())
            .unwrap_or(J::String("<unparsable argument>".into()));
        let seed = info.args.get(prefix_args + 1).and_then(|a| a.to_str()).and_then(|s| s.parse().ok());
        let (_, plan) = c.start(val, seed, None, argv);
        match script(&plan) {
            Ok(s) => SpawnResult::Script(s),
            Err(e) => SpawnResult::Fail(std::io::Error::from_raw_os_error(e)),
        }
    }));
}

pub static SCRATCH_N: AtomicU64 = AtomicU64::new(0);
pub fn scratch_root() -> PathBuf {
    let base = std::env::var("SIM_SCRATCH").unwrap_or_else(|_| "/tmp".into());
    PathBuf::from(base).join(format!("cambrian-sim-{}", std::process::id()))
}

fn variant_of(debug: &str) -> String {
    debug.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string()
}

fn outcome(r: Result<FinalReport, Error>) -> Outcome {
    match r {
        Ok(f) => Outcome::Ok {
            val: f.best_seen.obj_func_val,
            value: f.best_seen.value,
            completed: f.num_obj_func_eval_completed,
            rejected: f.num_obj_func_eval_rejected,
            time: f.processing_time.as_secs_f64(),
        },
        Err(e) => {
            let debug = format!("{e:?}");
            Outcome::Err { variant: variant_of(&debug), debug, display: e.to_string() }
        }
    }
}

struct Reader_ {
    ctx: Arc<Ctx>,
}
impl Reader_ {
    fn got(&self, r: Rep) {
        self.ctx.world.trace(|| format!("report id {} seed {} val {:?}", r.id, r.seed, r.val));
        self.ctx.ev(Ev::Report(r.id));
        self.ctx.h.lock().unwrap_or_else(|e| e.into_inner()).reps.push(r);
    }
}

macro_rules! rep {
    ($i:expr) => {{
        let i = $i;
        Rep {
            id: i.individual_id,
            seed: i.seed,
            input: i.input_val.clone(),
            val: i.obj_func_val,
            meta: i.meta_params_used.as_ref().map(|m| {
                (
                    m.source.to_string(),
                    m.crossover_params.crossover_prob,
                    m.crossover_params.selection_pressure,
                    m.mutation_params.mutation_prob,
                    m.mutation_params.mutation_scale,
                )
            }),
            eval_time: i.eval_time.as_secs_f64(),
            csv: i.to_csv_row(),
        }
    }};
}

fn proc_def(s: &Scn) -> ObjFuncProcessDef {
    ObjFuncProcessDef::new("obj-func".into(), vec!["--user".into(), "a b".into()], s.kill_after.map(Duration::from_micros))
}

fn drive_async(ctx: &Arc<Ctx>) -> Outcome {
    let s = ctx.scn.clone();
    let spec = spec_util::from_yaml_str(&s.spec.yaml()).expect("HARNESS: spec rejected");
    let mut b = AlgoConfigBuilder::new();
    let conf = b.individual_sample_size(s.sample).num_concurrent(s.conc).build().expect("HARNESS: config");
    let ex = Exec::new(None);
    let c = ctx.clone();
    let out = ex.block_on(async move {
        let (cmd_tx, cmd_rx) = mpsc::channel(64);
        *c.cmd_tx.lock().unwrap_or_else(|e| e.into_inner()) = Some(cmd_tx);
        schedule_cmds(&c);
        let (rep_tx, mut rep_rx) = mpsc::channel(s.chan);
        let (budget, target, guess) = (s.budget, s.target.map(|n| n.0), s.guess.clone());
        let fut: Pin<Box<dyn Future<Output = Result<FinalReport, Error>>>> = if s.mode == Mode::AsyncProc {
            Box::pin(async_launch::launch(spec, proc_def(&s), conf, cmd_rx, rep_tx, budget, target, guess))
        } else {
            Box::pin(async_launch::launch(spec, SimObj(c.clone()), conf, cmd_rx, rep_tx, budget, target, guess))
        };
        let reader = Reader_ { ctx: c.clone() };
        let returned = Arc::new(AtomicBool::new(false));
        let (ret2, s2, w2) = (returned.clone(), s.clone(), c.world.clone());
        let reader_task = async move {
            loop {
                if let Reader::Slow(p) = s2.reader {
                    if !ret2.load(Ordering::SeqCst) {
                        Timer::at(w2.now() + p * US).await;
                    }
                }
                match rep_rx.next().await {
                    Some(i) => reader.got(rep!(i)),
                    None => break,
                }
            }
        };
        let ex2 = simcore::exec::current().unwrap();
        let jh = ex2.spawn(reader_task);
        let r = fut.await;
        mark_return(&c);
        returned.store(true, Ordering::SeqCst);
        jh.await.ok();
        outcome(r)
    });
    ex.shutdown(true);
    out
}

pub fn mark_return(c: &Arc<Ctx>) {
    c.ev(Ev::Return);
    *c.cmd_tx.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

fn schedule_cmds(c: &Arc<Ctx>) {
    for w in &c.scn.cmds {
        match w {
            When::Before => c.terminate("terminate"),
            When::At(t) => {
                let c2 = c.clone();
                c.world.at(*t * US, move || c2.terminate("terminate"));
            }
            _ => (),
        }
    }
}

/// Time limit and interrupts of a synchronous run.
pub fn schedule_sync(ctx: &Arc<Ctx>) {
    let s = &ctx.scn;
    if let Some(l) = s.time_limit {
        let c = ctx.clone();
        ctx.world.at(l * US, move || {
            if !c.h.lock().unwrap_or_else(|e| e.into_inner()).evs.last().map(|e| matches!(e.1, Ev::Return)).unwrap_or(false) {
                c.world.stat("time_limits");
                c.ev(Ev::Cmd("time limit".into()));
            }
        });
    }
    // requests "before" the run cannot be delivered before the handler exists: they arrive at time 0
    for w in &s.cmds {
        let t = match w {
            When::At(t) => *t * US,
            When::Before => 0,
            _ => continue,
        };
        let c2 = ctx.clone();
        ctx.world.at(t, move || c2.terminate("interrupt"));
    }
}

fn drive_sync(ctx: &Arc<Ctx>, dir: &std::path::Path) -> Outcome {
    let s = &ctx.scn;
    let spec = spec_util::from_yaml_str(&s.spec.yaml()).expect("HARNESS: spec rejected");
    let mut b = AlgoConfigBuilder::new();
    let conf = b.individual_sample_size(s.sample).num_concurrent(s.conc).build().expect("HARNESS: config");
    let mut crit = vec![];
    if let Some(b) = s.budget {
        crit.push(TerminationCriterion::NumObjFuncEval(b));
    }
    if let Some(t) = s.target {
        crit.push(TerminationCriterion::TargetObjFuncVal(t.0));
    }
    if let Some(l) = s.time_limit {
        crit.push(TerminationCriterion::TerminateAfter(Duration::from_micros(l)));
    }
    if s.signal {
        crit.push(TerminationCriterion::Signal);
    }
    let info = s.files.then(|| DetailedReportingFileInfo {
        detailed_report_file_path: dir.join("detailed_report.csv"),
        best_seen_file_path: dir.join("best_seen.json"),
    });
    schedule_sync(ctx);
    let guess = s.guess.clone();
    let r = match s.mode {
        Mode::SyncThread => sync_launch::launch(spec, SimSyncObj(ctx.clone()), conf, crit, guess, true, info.as_ref()),
        Mode::Proc => {
            sync_launch::launch_with_async_obj_func(spec, proc_def(s), conf, crit, guess, false, info.as_ref())
        }
        _ => sync_launch::launch_with_async_obj_func(
            spec,
            SimObj(ctx.clone()),
            conf,
            crit,
            guess,
            s.extra.get("multi").and_then(|m| m.as_bool()).unwrap_or(false),
            info.as_ref(),
        ),
    };
    mark_return(ctx);
    outcome(r)
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        if info.payload().is::<SimAbort>() {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if crate::ops::INSIDE.with(|x| x.get()) {
            crate::ops::PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
            return;
        }
        match simcore::current() {
            Some(w) => w.record_panic(format!("{msg} at {loc}")),
            None => eprintln!("harness panic: {msg} at {loc}"),
        }
    }));
}

/// Runs a scenario on a fresh OS thread (fresh thread-local hashing keys) inside a fresh world.
pub fn run(scn: &Scn, record: bool, watch: u32) -> Run {
    let scn = scn.clone();
    on_thread(move || run_here(scn, record, watch))
}

/// Two runs, one after the other, on one OS thread: what the first leaves behind in the thread or in the
/// process is there when the second starts.  The second scenario may depend on the first run.
pub fn run_two(a: &Scn, record: bool, second: impl FnOnce(&Run) -> Scn + Send) -> (Run, Run) {
    let a = a.clone();
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(sc, move || {
                let ra = run_here(a, record, 0);
                let b = second(&ra);
                let rb = run_here(b, record, 0);
                (ra, rb)
            })
            .unwrap()
            .join()
            .unwrap_or_else(|p| broken(p))
    })
}

fn broken(p: Box<dyn std::any::Any + Send>) -> ! {
    let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string()));
    eprintln!("HARNESS: simulated run could not be set up: {m:?}");
    std::process::exit(3)
}

fn on_thread<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(f)
        .unwrap()
        .join()
        .unwrap_or_else(|p| broken(p))
}

/// A fresh world for a scenario.
pub fn set_up(scn: Scn, record: bool, watch: u32) -> Arc<Ctx> {
    scn.rule.adv.clear();
    let world = World::new(WorldCfg {
        seed: scn.seed,
        rng_salt: scn.salt,
        entropy_seed: Some(mix(scn.seed, scn.epoch ^ 0xe27)),
        step_limit: 3_000_000,
        time_limit: 4_000_000 * SEC,
        epoch: scn.epoch,
        preempt: scn.preempt,
        record,
        ..Default::default()
    });
    {
        let mut st = world.lock();
        let d = &scn.disk;
        st.disk.fail_open = d.fail_open;
        st.disk.fail_write = d.fail_write;
        st.disk.sticky = d.sticky;
        st.disk.short_write = d.short;
        st.disk.eintr = d.eintr;
    }
    let meta_seed = simcore::rng::mix(scn.seed, 77);
    let ctx = Arc::new(Ctx {
        scn,
        world: world.clone(),
        h: Mutex::new(Hist::default()),
        cmd_tx: Mutex::new(None),
        turn: Mutex::new((0, BTreeMap::new())),
        meta_rng: Mutex::new(Rng::new(meta_seed)),
        watch,
    });
    for (t, d) in ctx.scn.skews.clone() {
        let w = Arc::downgrade(&world);
        world.at(t * US, move || {
            if let Some(w) = w.upgrade() {
                w.stat("clock_jumps");
                w.lock().wall_skew += d;
            }
        });
    }
    ctx
}

pub fn proc_infos(st: &simcore::world::St) -> Vec<ProcInfo> {
    st.os
        .procs
        .values()
        .map(|p| ProcInfo {
            pid: p.pid,
            pgid: p.pgid,
            sid: p.sid,
            leader: p.ppid == simcore::os::SELF_PID,
            eval: p.eval,
            born: p.born,
            died: p.died,
            killed_by: p.killed_by,
            finished: p.finished_script,
            reaped: p.state == simcore::os::PState::Reaped,
        })
        .collect()
}

fn run_here(scn: Scn, record: bool, watch: u32) -> Run {
    let ctx = set_up(scn, record, watch);
    let world = ctx.world.clone();
    let dir = scratch_root().join(format!("r{}", SCRATCH_N.fetch_add(1, Ordering::SeqCst)));
    if ctx.scn.files {
        std::fs::create_dir_all(&dir).expect("scratch dir");
    }
    if ctx.scn.mode.is_proc() {
        install_spawner(&ctx, 2);
    }
    let mut alive = Vec::new();
    let mut ret_time = 0;
    let verbose = ctx.scn.verbose;
    VERBOSE.with(|v| v.set(verbose));
    let out = world.enter(|| {
        CTX.with(|c| *c.borrow_mut() = Some(ctx.clone()));
        let r = std::panic::catch_unwind(AssertUnwindSafe(|| {
            if ctx.scn.mode.is_async_api() {
                drive_async(&ctx)
            } else {
                drive_sync(&ctx, &dir)
            }
        }));
        alive = world.alive_procs();
        ret_time = world.now();
        let panics = world.lock().panics.clone();
        let o = match r {
            Ok(o) => o,
            Err(p) if p.is::<SimAbort>() => Outcome::Hang(world.aborting().unwrap_or(Abort::Stop)),
            Err(_) => Outcome::Panic(panics.last().cloned().unwrap_or_else(|| "panic".into())),
        };
        if world.aborting().is_none() && ctx.scn.mode.is_proc() {
            // let the dust settle: late deaths, orphan reaping
            world.sleep_quiet(5 * MS);
        }
        CTX.with(|c| *c.borrow_mut() = None);
        o
    });
    // the stop below must not look like an abort of the run
    let (stats, hash, now, steps, log, panics, signals, max_alive, procs) = {
        let mut st = world.lock();
        let procs = proc_infos(&st);
        (
            st.stats.clone(),
            st.hash,
            st.now,
            st.steps,
            std::mem::take(&mut st.log),
            st.panics.clone(),
            st.os.signals_sent.clone(),
            st.os.max_alive,
            procs,
        )
    };
    world.finish();
    let (csv, best) = if ctx.scn.files {
        let r = (std::fs::read(dir.join("detailed_report.csv")).ok(), std::fs::read(dir.join("best_seen.json")).ok());
        std::fs::remove_dir_all(&dir).ok();
        r
    } else {
        (None, None)
    };
    *ctx.cmd_tx.lock().unwrap_or_else(|e| e.into_inner()) = None;
    let hist = std::mem::take(&mut *ctx.h.lock().unwrap_or_else(|e| e.into_inner()));
    Run { outcome: out, hist, procs, alive_at_return: alive, max_alive, csv, best, stats, hash, now, steps, log, panics, signals, ret_time }
}

thread_local! {
    pub static VERBOSE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Log sink: formats every record when the current run is verbose (as env_logger would), prints nothing.
pub struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        VERBOSE.with(|v| v.get())
    }
    fn log(&self, r: &log::Record) {
        if VERBOSE.with(|v| v.get()) {
            let s = format!("{}", r.args());
            if let Some(w) = simcore::current() {
                w.stat("log_records");
            }
            std::hint::black_box(s);
        }
    }
    fn flush(&self) {}
}
