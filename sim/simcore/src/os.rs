//! Simulated operating system processes: process table, groups, sessions, pipes, signals, wait.

use crate::world::{current_tid, World};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::sync::Arc;
use std::task::Waker;

pub type Pid = i32;
pub const SELF_PID: Pid = 1000;
const PIPE_CAP: usize = 65536;

#[derive(Clone, Debug)]
pub enum Act {
    /// sleep for ns
    Sleep(u64),
    Out(Vec<u8>),
    Err(Vec<u8>),
    CloseOut,
    CloseErr,
    /// fork a child running the given script; it inherits pipes unless `detach_io`; new session if `setsid`
    Fork { script: Arc<Vec<Act>>, detach_io: bool, setsid: bool },
    IgnoreTerm,
    Exit(i32),
    /// die by signal
    Raise(i32),
    Hang,
    Mark(&'static str),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PState {
    Alive,
    Zombie(i32),
    Reaped,
}

#[derive(Debug)]
pub struct Proc {
    pub pid: Pid,
    pub ppid: Pid,
    pub pgid: Pid,
    pub sid: Pid,
    pub state: PState,
    script: Arc<Vec<Act>>,
    pc: usize,
    off: usize,
    out: Option<usize>,
    err: Option<usize>,
    ignore_term: bool,
    pub eval: usize,
    pub killed_by: Option<i32>,
    pub finished_script: bool,
    pub born: u64,
    pub died: Option<u64>,
    orphaned: bool,
}

#[derive(Default)]
struct Pipe {
    buf: VecDeque<u8>,
    writers: usize,
    reader: bool,
    waker: Option<Waker>,
    blocked: Vec<Pid>,
}

pub struct SpawnInfo {
    pub program: std::ffi::OsString,
    pub args: Vec<std::ffi::OsString>,
    /// index of the spawn within the run
    pub index: usize,
}

pub enum SpawnResult {
    Script(Vec<Act>),
    Fail(io::Error),
}

type SpawnFn = Arc<dyn Fn(&SpawnInfo) -> SpawnResult + Send + Sync>;

pub struct Os {
    pub procs: BTreeMap<Pid, Proc>,
    pipes: Vec<Pipe>,
    next_pid: Pid,
    /// pid the process under test sees as its own (another one in every process)
    pub shown: Pid,
    /// process whose context the calling thread is in (between fork and exec)
    child_ctx: Option<Pid>,
    waiters: Vec<usize>,
    status_wakers: Vec<Waker>,
    pub spawner: Option<SpawnFn>,
    pub spawned: usize,
    pub signals_sent: Vec<(u64, Pid, i32)>,
    pub max_alive: usize,
}

impl Os {
    pub fn new() -> Self {
        Os {
            procs: BTreeMap::new(),
            pipes: Vec::new(),
            next_pid: 2000,
            shown: SELF_PID,
            child_ctx: None,
            waiters: Vec::new(),
            status_wakers: Vec::new(),
            spawner: None,
            spawned: 0,
            signals_sent: Vec::new(),
            max_alive: 0,
        }
    }
    pub fn take_wakers(&mut self) -> Vec<Waker> {
        let mut v = std::mem::take(&mut self.status_wakers);
        for p in &mut self.pipes {
            v.extend(p.waker.take());
        }
        self.spawner = None;
        v
    }
    /// Numbers of processes differ from one execution to the next.
    pub fn number_from(&mut self, x: u64) {
        self.shown = 300 + (x % 650) as Pid;
        self.next_pid = 2000 + (x / 650 % 2_000_000) as Pid;
    }
    fn own(&self, pid: Pid) -> Pid {
        if pid.abs() == self.shown { pid.signum() * SELF_PID } else { pid }
    }
    pub fn alive_leaders(&self) -> usize {
        self.procs.values().filter(|p| p.ppid == SELF_PID && p.state == PState::Alive).count()
    }
}

pub const ECHILD: i32 = libc::ECHILD;

impl World {
    fn os_step_later(self: &Arc<Self>, pid: Pid, d: u64) {
        let w = self.clone();
        self.after(d, move || w.os_run(pid));
    }

    /// Executes the script of a process until it sleeps, blocks or ends.
    fn os_run(self: &Arc<Self>, pid: Pid) {
        loop {
            let mut wake: Option<Waker> = None;
            let mut st = self.lock();
            let rec = self.cfg.record;
            let os = &mut st.os;
            let Some(p) = os.procs.get_mut(&pid) else { return };
            if p.state != PState::Alive {
                return;
            }
            if p.pc >= p.script.len() {
                drop(st);
                self.os_die(pid, 0, true);
                return;
            }
            let script = p.script.clone();
            match &script[p.pc] {
                Act::Sleep(d) => {
                    p.pc += 1;
                    let d = *d;
                    drop(st);
                    self.os_step_later(pid, d);
                    return;
                }
                a @ (Act::Out(_) | Act::Err(_)) => {
                    let (data, pipe) = match a {
                        Act::Out(d) => (d, p.out),
                        Act::Err(d) => (d, p.err),
                        _ => unreachable!(),
                    };
                    let Some(pi) = pipe else {
                        p.pc += 1; // closed descriptor: EBADF, ignored by the program
                        continue;
                    };
                    let pp = &mut os.pipes[pi];
                    if !pp.reader {
                        drop(st);
                        self.os_die(pid, 13, false); // SIGPIPE
                        return;
                    }
                    let room = PIPE_CAP - pp.buf.len();
                    let rest = &data[p.off..];
                    let n = room.min(rest.len());
                    pp.buf.extend(&rest[..n]);
                    if n > 0 {
                        wake = pp.waker.take();
                    }
                    p.off += n;
                    let finished = p.off >= data.len();
                    if finished {
                        p.off = 0;
                        p.pc += 1;
                    } else {
                        pp.blocked.push(pid);
                    }
                    drop(st);
                    if let Some(w) = wake {
                        w.wake();
                    }
                    if !finished {
                        self.stat("pipe_full_block");
                        return;
                    }
                }
                Act::CloseOut => {
                    p.pc += 1;
                    if let Some(i) = p.out.take() {
                        wake = os.pipe_writer_gone(i);
                    }
                    drop(st);
                    if let Some(w) = wake {
                        w.wake();
                    }
                }
                Act::CloseErr => {
                    p.pc += 1;
                    if let Some(i) = p.err.take() {
                        wake = os.pipe_writer_gone(i);
                    }
                    drop(st);
                    if let Some(w) = wake {
                        w.wake();
                    }
                }
                Act::Fork { script, detach_io, setsid } => {
                    p.pc += 1;
                    let (pgid, sid, out, err, eval) = (p.pgid, p.sid, p.out, p.err, p.eval);
                    let cpid = os.next_pid;
                    os.next_pid += 1;
                    let (out, err) = if *detach_io { (None, None) } else { (out, err) };
                    for i in [out, err].into_iter().flatten() {
                        os.pipes[i].writers += 1;
                    }
                    os.procs.insert(
                        cpid,
                        Proc {
                            pid: cpid,
                            ppid: pid,
                            pgid: if *setsid { cpid } else { pgid },
                            sid: if *setsid { cpid } else { sid },
                            state: PState::Alive,
                            script: script.clone(),
                            pc: 0,
                            off: 0,
                            out,
                            err,
                            ignore_term: false,
                            eval,
                            killed_by: None,
                            finished_script: false,
                            born: 0,
                            died: None,
                            orphaned: false,
                        },
                    );
                    st.trace(rec, || format!("proc {pid} forks {cpid}"));
                    drop(st);
                    self.stat("grandchildren");
                    self.os_step_later(cpid, 0);
                }
                Act::IgnoreTerm => {
                    p.pc += 1;
                    p.ignore_term = true;
                }
                Act::Exit(c) => {
                    let c = *c;
                    p.finished_script = true;
                    drop(st);
                    self.os_die(pid, (c & 0xff) << 8, true);
                    return;
                }
                Act::Raise(s) => {
                    let s = *s;
                    drop(st);
                    self.os_die(pid, s, false);
                    return;
                }
                Act::Hang => return,
                Act::Mark(m) => {
                    p.pc += 1;
                    let m = *m;
                    drop(st);
                    self.stat(m);
                }
            }
        }
    }

    fn os_die(self: &Arc<Self>, pid: Pid, status: i32, by_itself: bool) {
        let mut wakers = Vec::new();
        let waiters;
        {
            let mut st = self.lock();
            let rec = self.cfg.record;
            let now = st.now;
            let os = &mut st.os;
            let Some(p) = os.procs.get_mut(&pid) else { return };
            if p.state != PState::Alive {
                return;
            }
            p.died = Some(now);
            if by_itself {
                p.finished_script = true;
            } else {
                p.killed_by = Some(status & 0x7f);
            }
            let direct = p.ppid == SELF_PID;
            p.state = if direct { PState::Zombie(status) } else { PState::Reaped };
            let orphaned = p.orphaned;
            let (o, e) = (p.out.take(), p.err.take());
            for i in [o, e].into_iter().flatten() {
                wakers.extend(os.pipe_writer_gone(i));
            }
            // children of the dead process are adopted by init
            for q in os.procs.values_mut() {
                if q.ppid == pid {
                    q.ppid = 1;
                }
            }
            waiters = std::mem::take(&mut os.waiters);
            wakers.append(&mut os.status_wakers);
            st.trace(rec, || format!("proc {pid} dies status {status}"));
            drop(st);
            if orphaned {
                self.os_orphan_reap(pid);
            }
        }
        for w in wakers {
            w.wake();
        }
        for t in waiters {
            self.unpark(t);
        }
    }

    fn os_orphan_reap(self: &Arc<Self>, pid: Pid) {
        // tokio's orphan queue reaps dropped children some time after SIGCHLD
        let d = self.sched(|r| r.below(3) * 1_000_000);
        let w = self.clone();
        self.after(d, move || {
            let mut st = w.lock();
            if let Some(p) = st.os.procs.get_mut(&pid) {
                if matches!(p.state, PState::Zombie(_)) {
                    p.state = PState::Reaped;
                }
            }
        });
    }

    // ------------------------------------------------------------- system calls

    pub fn sys_kill(self: &Arc<Self>, pid: i32, sig: i32) -> Result<(), i32> {
        let targets: Vec<Pid>;
        let pid = self.lock().os.own(pid);
        {
            let mut st = self.lock();
            let now = st.now;
            let rec = self.cfg.record;
            st.trace(rec, || format!("kill({pid}, {sig})"));
            st.os.signals_sent.push((now, pid, sig));
            let group = if pid < -1 {
                Some(-pid)
            } else if pid == 0 {
                Some(SELF_PID)
            } else {
                None
            };
            if pid == -1 {
                return Err(libc::EPERM);
            }
            targets = st
                .os
                .procs
                .values()
                .filter(|p| p.state != PState::Reaped)
                .filter(|p| match group {
                    Some(g) => p.pgid == g,
                    None => p.pid == pid,
                })
                .map(|p| p.pid)
                .collect();
            if targets.is_empty() {
                return Err(libc::ESRCH);
            }
        }
        if sig != 0 {
            for t in targets {
                let mut st = self.lock();
                let Some(p) = st.os.procs.get_mut(&t) else { continue };
                if p.state != PState::Alive {
                    continue;
                }
                let ignored = sig != libc::SIGKILL
                    && (matches!(sig, libc::SIGCHLD | libc::SIGCONT | libc::SIGURG | libc::SIGWINCH)
                        || (p.ignore_term && matches!(sig, libc::SIGTERM | libc::SIGINT | libc::SIGHUP | libc::SIGQUIT)));
                drop(st);
                if !ignored {
                    self.stat("signals_killing");
                    // delivery of a kill is immediate, death may be observed slightly later
                    self.os_die(t, sig, false);
                }
            }
        }
        Ok(())
    }

    /// Returns (pid, status); pid 0 for WNOHANG without change.
    pub fn sys_waitpid(self: &Arc<Self>, pid: i32, options: i32) -> Result<(i32, i32), i32> {
        let mut first = true;
        let pid = self.lock().os.own(pid);
        loop {
            {
                let mut st = self.lock();
                let rec = self.cfg.record;
                let sel = |p: &Proc| {
                    p.ppid == SELF_PID
                        && p.state != PState::Reaped
                        && match pid {
                            -1 => true,
                            0 => p.pgid == SELF_PID,
                            x if x > 0 => p.pid == x,
                            x => p.pgid == -x,
                        }
                };
                if !st.os.procs.values().any(sel) {
                    st.trace(rec, || format!("waitpid({pid}) ECHILD"));
                    return Err(ECHILD);
                }
                let z = st
                    .os
                    .procs
                    .values()
                    .filter(|p| sel(p))
                    .find_map(|p| if let PState::Zombie(s) = p.state { Some((p.pid, s)) } else { None });
                if let Some((z, s)) = z {
                    if options & libc::WNOWAIT == 0 {
                        st.os.procs.get_mut(&z).unwrap().state = PState::Reaped;
                    }
                    st.trace(rec, || format!("waitpid({pid}) = {z} status {s}"));
                    return Ok((z, s));
                }
                if options & libc::WNOHANG != 0 {
                    return Ok((0, 0));
                }
                let tid = current_tid().unwrap();
                st.os.waiters.push(tid);
                if first {
                    st.trace(rec, || format!("waitpid({pid}) blocks"));
                    *st.stats.entry("waitpid_blocked").or_default() += 1;
                }
            }
            first = false;
            if !self.park_quiet() {
                return Err(ECHILD);
            }
        }
    }

    pub fn sys_setsid(&self) -> Result<i32, i32> {
        let mut st = self.lock();
        match st.os.child_ctx {
            Some(pid) => {
                let p = st.os.procs.get_mut(&pid).unwrap();
                p.pgid = pid;
                p.sid = pid;
                Ok(pid)
            }
            None => Err(libc::EPERM),
        }
    }

    pub fn sys_setpgid(&self, pid: i32, pgid: i32) -> Result<(), i32> {
        let mut st = self.lock();
        let me = st.os.child_ctx.unwrap_or(SELF_PID);
        let target = if pid == 0 { me } else { pid };
        let pg = if pgid == 0 { target } else { st.os.own(pgid) };
        match st.os.procs.get_mut(&target) {
            Some(p) => {
                p.pgid = pg;
                Ok(())
            }
            None => Err(libc::ESRCH),
        }
    }

    pub fn sys_getpgid(&self, pid: i32) -> Result<i32, i32> {
        let st = self.lock();
        let me = st.os.child_ctx.unwrap_or(SELF_PID);
        let target = if pid == 0 { me } else { pid };
        if st.os.own(target) == SELF_PID {
            return Ok(st.os.shown);
        }
        st.os
            .procs
            .get(&target)
            .filter(|p| p.state != PState::Reaped)
            .map(|p| p.pgid)
            .ok_or(libc::ESRCH)
    }

    pub fn sys_getpid(&self) -> i32 {
        let st = self.lock();
        st.os.child_ctx.unwrap_or(st.os.shown)
    }

    /// fork + pre_exec + exec. Returns (pid, stdout pipe, stderr pipe).
    pub fn sys_spawn(
        self: &Arc<Self>,
        program: std::ffi::OsString,
        args: Vec<std::ffi::OsString>,
        want_out: bool,
        want_err: bool,
        pgroup: Option<i32>,
        pre_exec: &mut [Box<dyn FnMut() -> io::Result<()> + Send + Sync>],
    ) -> io::Result<(Pid, Option<usize>, Option<usize>)> {
        let (spawner, info) = {
            let mut st = self.lock();
            let index = st.os.spawned;
            st.os.spawned += 1;
            (st.os.spawner.clone(), SpawnInfo { program, args, index })
        };
        let spawner = spawner.ok_or_else(|| io::Error::from_raw_os_error(libc::ENOENT))?;
        let script = match spawner(&info) {
            SpawnResult::Fail(e) => {
                self.stat("spawn_failures");
                self.trace(|| format!("spawn #{} fails {:?}", info.index, e.kind()));
                return Err(e);
            }
            SpawnResult::Script(s) => s,
        };
        let (pid, out, err) = {
            let mut st = self.lock();
            let now = st.now;
            let os = &mut st.os;
            let pid = os.next_pid;
            os.next_pid += 1;
            let mut mk = |want: bool| {
                want.then(|| {
                    os.pipes.push(Pipe { writers: 1, reader: true, ..Default::default() });
                    os.pipes.len() - 1
                })
            };
            let out = mk(want_out);
            let err = mk(want_err);
            os.procs.insert(
                pid,
                Proc {
                    pid,
                    ppid: SELF_PID,
                    pgid: SELF_PID,
                    sid: SELF_PID,
                    state: PState::Alive,
                    script: Arc::new(script),
                    pc: 0,
                    off: 0,
                    out,
                    err,
                    ignore_term: false,
                    eval: info.index,
                    killed_by: None,
                    finished_script: false,
                    born: now,
                    died: None,
                    orphaned: false,
                },
            );
            if let Some(g) = pgroup {
                os.procs.get_mut(&pid).unwrap().pgid = if g == 0 { pid } else { g };
            }
            os.child_ctx = Some(pid);
            (pid, out, err)
        };
        let mut res = Ok(());
        for f in pre_exec.iter_mut() {
            res = f();
            if res.is_err() {
                break;
            }
        }
        {
            let mut st = self.lock();
            st.os.child_ctx = None;
            if res.is_err() {
                st.os.procs.remove(&pid);
            }
            let n = st.os.alive_leaders();
            st.os.max_alive = st.os.max_alive.max(n);
        }
        res?;
        self.trace(|| format!("spawn #{} = pid {pid}", info.index));
        self.stat("children");
        self.os_step_later(pid, 0);
        Ok((pid, out, err))
    }

    pub fn pipe_read(self: &Arc<Self>, i: usize, max: usize, waker: &Waker) -> Option<Vec<u8>> {
        let mut blocked = Vec::new();
        let r = {
            let mut st = self.lock();
            let short = st.sched.chance(0.2);
            let lim = if short { st.sched.range(1, 64) as usize } else { 65536 };
            let p = &mut st.os.pipes[i];
            if p.buf.is_empty() {
                if p.writers == 0 {
                    Some(Vec::new())
                } else {
                    p.waker = Some(waker.clone());
                    None
                }
            } else {
                let n = max.min(p.buf.len()).min(lim.max(1));
                let v: Vec<u8> = p.buf.drain(..n).collect();
                blocked = std::mem::take(&mut p.blocked);
                if short {
                    *st.stats.entry("short_pipe_reads").or_default() += 1;
                }
                Some(v)
            }
        };
        for b in blocked {
            self.os_step_later(b, 0);
        }
        r
    }

    pub fn pipe_close_reader(self: &Arc<Self>, i: usize) {
        let blocked = {
            let mut st = self.lock();
            let p = &mut st.os.pipes[i];
            p.reader = false;
            p.waker = None;
            std::mem::take(&mut p.blocked)
        };
        for b in blocked {
            self.os_step_later(b, 0);
        }
    }

    /// Async wait of tokio::process::Child: reaps and returns the status when the child is a zombie.
    pub fn try_reap(self: &Arc<Self>, pid: Pid, waker: Option<&Waker>) -> Option<io::Result<i32>> {
        let mut st = self.lock();
        match st.os.procs.get(&pid).map(|p| p.state) {
            Some(PState::Zombie(s)) => {
                st.os.procs.get_mut(&pid).unwrap().state = PState::Reaped;
                Some(Ok(s))
            }
            Some(PState::Alive) => {
                if let Some(w) = waker {
                    st.os.status_wakers.push(w.clone());
                }
                None
            }
            _ => Some(Err(io::Error::from_raw_os_error(ECHILD))),
        }
    }

    pub fn orphan_child(self: &Arc<Self>, pid: Pid) {
        let z = {
            let mut st = self.lock();
            match st.os.procs.get_mut(&pid) {
                Some(p) => {
                    p.orphaned = true;
                    matches!(p.state, PState::Zombie(_))
                }
                None => false,
            }
        };
        if z {
            self.os_orphan_reap(pid);
        }
    }

    /// All simulated processes that are still running: (pid, eval index).
    pub fn alive_procs(&self) -> Vec<(Pid, Pid, usize)> {
        let st = self.lock();
        st.os
            .procs
            .values()
            .filter(|p| p.state == PState::Alive)
            .map(|p| (p.pid, p.pgid, p.eval))
            .collect()
    }
}

impl Os {
    fn pipe_writer_gone(&mut self, i: usize) -> Option<Waker> {
        let p = &mut self.pipes[i];
        p.writers -= 1;
        if p.writers == 0 {
            p.waker.take()
        } else {
            None
        }
    }
}
