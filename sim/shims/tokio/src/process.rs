//! Child processes of the simulated operating system.
use crate::io::{AsyncRead, AsyncReadExt, AsyncWrite, ReadBuf};
use std::ffi::{OsStr, OsString};
use std::io;
use std::os::unix::process::ExitStatusExt;
use std::path::Path;
use std::pin::Pin;
use std::process::{ExitStatus, Output, Stdio};
use std::task::{Context, Poll};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Io {
    Inherit,
    Null,
    Pipe,
}

fn classify(s: Stdio) -> Io {
    fn tag(s: &Stdio) -> u32 {
        // discriminant of the opaque std type; compared with the tags of known values only
        unsafe { std::ptr::read_unaligned(s as *const Stdio as *const u32) }
    }
    let t = tag(&s);
    if t == tag(&Stdio::null()) && tag(&Stdio::null()) != tag(&Stdio::piped()) {
        Io::Null
    } else if t == tag(&Stdio::inherit()) && tag(&Stdio::inherit()) != tag(&Stdio::piped()) {
        Io::Inherit
    } else {
        Io::Pipe
    }
}

pub struct Command {
    program: OsString,
    args: Vec<OsString>,
    out: Option<Io>,
    err: Option<Io>,
    inp: Option<Io>,
    kill_on_drop: bool,
    pgroup: Option<i32>,
    pre_exec: Vec<Box<dyn FnMut() -> io::Result<()> + Send + Sync>>,
}

impl std::fmt::Debug for Command {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Command({:?} {:?})", self.program, self.args)
    }
}

impl Command {
    pub fn new<S: AsRef<OsStr>>(program: S) -> Command {
        Command {
            program: program.as_ref().to_owned(),
            args: Vec::new(),
            out: None,
            err: None,
            inp: None,
            kill_on_drop: false,
            pgroup: None,
            pre_exec: Vec::new(),
        }
    }
    pub fn arg<S: AsRef<OsStr>>(&mut self, arg: S) -> &mut Command {
        self.args.push(arg.as_ref().to_owned());
        self
    }
    pub fn args<I, S>(&mut self, args: I) -> &mut Command
    where
        I: IntoIterator<Item = S>,
        S: AsRef<OsStr>,
    {
        for a in args {
            self.arg(a);
        }
        self
    }
    pub fn env<K: AsRef<OsStr>, V: AsRef<OsStr>>(&mut self, _k: K, _v: V) -> &mut Command {
        self
    }
    pub fn envs<I, K, V>(&mut self, _vars: I) -> &mut Command
    where
        I: IntoIterator<Item = (K, V)>,
        K: AsRef<OsStr>,
        V: AsRef<OsStr>,
    {
        self
    }
    pub fn env_remove<K: AsRef<OsStr>>(&mut self, _k: K) -> &mut Command {
        self
    }
    pub fn env_clear(&mut self) -> &mut Command {
        self
    }
    pub fn current_dir<P: AsRef<Path>>(&mut self, _dir: P) -> &mut Command {
        self
    }
    pub fn stdin<T: Into<Stdio>>(&mut self, cfg: T) -> &mut Command {
        self.inp = Some(classify(cfg.into()));
        self
    }
    pub fn stdout<T: Into<Stdio>>(&mut self, cfg: T) -> &mut Command {
        self.out = Some(classify(cfg.into()));
        self
    }
    pub fn stderr<T: Into<Stdio>>(&mut self, cfg: T) -> &mut Command {
        self.err = Some(classify(cfg.into()));
        self
    }
    pub fn kill_on_drop(&mut self, v: bool) -> &mut Command {
        self.kill_on_drop = v;
        self
    }
    pub fn process_group(&mut self, pgroup: i32) -> &mut Command {
        self.pgroup = Some(pgroup);
        self
    }
    /// # Safety
    /// As in tokio.
    pub unsafe fn pre_exec<F>(&mut self, f: F) -> &mut Command
    where
        F: FnMut() -> io::Result<()> + Send + Sync + 'static,
    {
        self.pre_exec.push(Box::new(f));
        self
    }
    pub fn spawn(&mut self) -> io::Result<Child> {
        let w = simcore::world();
        simcore::exec::current().expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime");
        // exec fails on embedded NUL bytes
        use std::os::unix::ffi::OsStrExt;
        if self.program.as_bytes().contains(&0) || self.args.iter().any(|a| a.as_bytes().contains(&0)) {
            return Err(io::Error::new(io::ErrorKind::InvalidInput, "nul byte found in provided data"));
        }
        let (pid, o, e) = w.sys_spawn(
            self.program.clone(),
            self.args.clone(),
            self.out == Some(Io::Pipe),
            self.err == Some(Io::Pipe),
            self.pgroup,
            &mut self.pre_exec,
        )?;
        Ok(Child {
            pid,
            status: None,
            kill_on_drop: self.kill_on_drop,
            stdin: (self.inp == Some(Io::Pipe)).then(|| ChildStdin(())),
            stdout: o.map(|i| ChildStdout(PipeReader(i))),
            stderr: e.map(|i| ChildStderr(PipeReader(i))),
        })
    }
    pub fn output(&mut self) -> impl std::future::Future<Output = io::Result<Output>> {
        self.out.get_or_insert(Io::Pipe);
        self.err.get_or_insert(Io::Pipe);
        let child = self.spawn();
        async move { child?.wait_with_output().await }
    }
    pub fn status(&mut self) -> impl std::future::Future<Output = io::Result<ExitStatus>> {
        let child = self.spawn();
        async move { child?.wait().await }
    }
}

#[derive(Debug)]
pub struct Child {
    pid: i32,
    status: Option<ExitStatus>,
    kill_on_drop: bool,
    pub stdin: Option<ChildStdin>,
    pub stdout: Option<ChildStdout>,
    pub stderr: Option<ChildStderr>,
}

impl Child {
    pub fn id(&self) -> Option<u32> {
        match self.status {
            Some(_) => None,
            None => Some(self.pid as u32),
        }
    }
    fn poll_status(&mut self, cx: Option<&mut Context<'_>>) -> Poll<io::Result<ExitStatus>> {
        if let Some(s) = self.status {
            return Poll::Ready(Ok(s));
        }
        match simcore::world().try_reap(self.pid, cx.map(|c| c.waker())) {
            Some(Ok(s)) => {
                let s = ExitStatus::from_raw(s);
                self.status = Some(s);
                self.kill_on_drop = false;
                Poll::Ready(Ok(s))
            }
            Some(Err(e)) => Poll::Ready(Err(e)),
            None => Poll::Pending,
        }
    }
    pub async fn wait(&mut self) -> io::Result<ExitStatus> {
        self.stdin.take();
        std::future::poll_fn(|cx| self.poll_status(Some(cx))).await
    }
    pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> {
        match self.poll_status(None) {
            Poll::Ready(r) => r.map(Some),
            Poll::Pending => Ok(None),
        }
    }
    pub fn start_kill(&mut self) -> io::Result<()> {
        if self.status.is_some() {
            return Err(io::Error::new(
                io::ErrorKind::InvalidInput,
                "invalid argument: can't kill an exited process",
            ));
        }
        simcore::world().sys_kill(self.pid, 9).map_err(io::Error::from_raw_os_error)
    }
    pub async fn kill(&mut self) -> io::Result<()> {
        self.start_kill()?;
        self.wait().await?;
        Ok(())
    }
    pub async fn wait_with_output(mut self) -> io::Result<Output> {
        async fn read<A: AsyncRead + Unpin>(io: &mut Option<A>) -> io::Result<Vec<u8>> {
            let mut v = Vec::new();
            if let Some(io) = io.as_mut() {
                io.read_to_end(&mut v).await?;
            }
            Ok(v)
        }
        let mut o = self.stdout.take();
        let mut e = self.stderr.take();
        let (status, stdout, stderr) = crate::try_join!(self.wait(), read(&mut o), read(&mut e))?;
        Ok(Output { status, stdout, stderr })
    }
}

impl Drop for Child {
    fn drop(&mut self) {
        if let Some(w) = simcore::current() {
            if self.status.is_none() {
                if self.kill_on_drop {
                    w.sys_kill(self.pid, 9).ok();
                }
                w.orphan_child(self.pid);
            }
        }
    }
}

#[derive(Debug)]
struct PipeReader(usize);
impl PipeReader {
    fn poll(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        match simcore::world().pipe_read(self.0, buf.remaining(), cx.waker()) {
            Some(v) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            None => Poll::Pending,
        }
    }
}
impl Drop for PipeReader {
    fn drop(&mut self) {
        if let Some(w) = simcore::current() {
            w.pipe_close_reader(self.0);
        }
    }
}

#[derive(Debug)]
pub struct ChildStdout(PipeReader);
#[derive(Debug)]
pub struct ChildStderr(PipeReader);
#[derive(Debug)]
pub struct ChildStdin(());

impl AsyncRead for ChildStdout {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.0.poll(cx, buf)
    }
}
impl AsyncRead for ChildStderr {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.0.poll(cx, buf)
    }
}
impl AsyncWrite for ChildStdin {
    fn poll_write(self: Pin<&mut Self>, _: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Poll::Ready(Ok(buf.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}
