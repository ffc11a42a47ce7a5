//! Hosts the command-line tool: its whole `main` runs inside one simulated world, its file accesses go to a scratch
//! directory, its child processes are simulated. What happened is dumped for the judge.
use crate::run::*;
use crate::scn::*;
use serde::{Deserialize, Serialize};
use simcore::world::SimAbort;
use std::collections::BTreeMap;
use std::panic::AssertUnwindSafe;
use std::process::ExitCode;
use std::sync::{Arc, OnceLock};

#[derive(Serialize, Deserialize)]
pub struct Job {
    pub scn: Scn,
    pub prefix_args: usize,
    pub record: bool,
}

#[derive(Serialize, Deserialize, Default)]
pub struct Dump {
    /// "returned", "exit", "panic", "hang ..."
    pub end: String,
    pub evals: Vec<Eval>,
    pub evs: Vec<(u64, Ev)>,
    pub ended: usize,
    pub nudged: bool,
    pub procs: Vec<ProcInfo>,
    pub alive: Vec<(i32, i32, usize)>,
    pub max_alive: usize,
    pub stats: BTreeMap<String, u64>,
    pub hash: u64,
    pub now: u64,
    pub ret_time: u64,
    pub steps: u64,
    pub log: Vec<String>,
    pub panics: Vec<String>,
    pub signals: Vec<(u64, i32, i32)>,
}

static CTX: OnceLock<Arc<Ctx>> = OnceLock::new();
static DUMP: OnceLock<String> = OnceLock::new();

/// Past the interposed file functions: the dump meets no simulated disk.
fn write_file(path: &str, data: &[u8]) {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = libc::syscall(
            libc::SYS_openat,
            libc::AT_FDCWD as libc::c_long,
            c.as_ptr(),
            (libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC | libc::O_CLOEXEC) as libc::c_long,
            0o644 as libc::c_long,
        );
        let mut i = 0;
        while i < data.len() {
            let n = libc::syscall(libc::SYS_write, fd, data[i..].as_ptr(), data.len() - i);
            if n <= 0 {
                break;
            }
            i += n as usize;
        }
        libc::syscall(libc::SYS_close, fd);
    }
}

fn dump(end: &str) {
    let (Some(c), Some(path)) = (CTX.get(), DUMP.get()) else { return };
    static DONE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
    if DONE.swap(true, std::sync::atomic::Ordering::SeqCst) {
        return;
    }
    let alive = c.world.alive_procs();
    let ret_time = c.world.now();
    if c.world.aborting().is_none() {
        mark_return(c);
        if end != "exit" {
            c.world.sleep_quiet(5 * simcore::world::MS);
        }
    }
    let h = std::mem::take(&mut *c.h.lock().unwrap_or_else(|e| e.into_inner()));
    let mut st = c.world.lock();
    let d = Dump {
        end: end.into(),
        evals: h.evals,
        evs: h.evs,
        ended: h.ended,
        nudged: h.nudged,
        procs: proc_infos(&st),
        alive,
        max_alive: st.os.max_alive,
        stats: st.stats.iter().map(|(k, n)| (k.to_string(), *n)).collect(),
        hash: st.hash,
        now: st.now,
        ret_time,
        steps: st.steps,
        log: std::mem::take(&mut st.log),
        panics: st.panics.clone(),
        signals: st.os.signals_sent.clone(),
    };
    drop(st);
    write_file(path, &serde_json::to_vec(&d).unwrap());
}

extern "C" fn at_exit() {
    dump("exit");
}

pub fn host(main: fn() -> ExitCode) -> ExitCode {
    let take = |k: &str| {
        let v = std::env::var(k).unwrap_or_default();
        std::env::remove_var(k);
        v
    };
    let (job, out) = (take("SIM_CLI_JOB"), take("SIM_CLI_DUMP"));
    let job: Job = std::fs::read(&job)
        .map_err(|e| e.to_string())
        .and_then(|b| crate::json::parse(&b))
        .and_then(|j| serde_json::from_value(j).map_err(|e| e.to_string()))
        .expect("simcli: job");
    // as the standard hook, and into the record of the run
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<SimAbort>() {
            return;
        }
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if let Some(w) = simcore::current() {
            w.record_panic(format!("{msg} at {loc}"));
        }
        eprintln!("thread panicked at {loc}:\n{msg}");
    }));
    DUMP.set(out).ok();
    let ctx = set_up(job.scn, job.record, 0);
    CTX.set(ctx.clone()).ok();
    install_spawner(&ctx, job.prefix_args);
    unsafe { libc::atexit(at_exit) };
    let world = ctx.world.clone();
    world.enter(|| {
        crate::run::CTX.with(|c| *c.borrow_mut() = Some(ctx.clone()));
        schedule_sync(&ctx);
        match std::panic::catch_unwind(AssertUnwindSafe(main)) {
            Ok(code) => {
                dump("returned");
                code
            }
            Err(p) if p.is::<SimAbort>() => {
                dump(&format!("hang {:?}", world.aborting()));
                ExitCode::from(77)
            }
            Err(_) => {
                dump("panic");
                ExitCode::from(101)
            }
        }
    })
}
