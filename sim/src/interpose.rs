//! Interposed libc entry points: inside a simulated world they are answered by the simulator, elsewhere they are the
//! real system calls. This is the seam through which `std::time`, `std::fs`, `nix` and `command-group` are simulated.
#![allow(clippy::missing_safety_doc)]

use libc::{c_char, c_int, c_long, c_uint, c_void, id_t, mode_t, pid_t, rusage, siginfo_t, size_t, ssize_t, timespec};
use simcore::world::current;

const MONO_BASE: u64 = 1_000_000_000_000_000;

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}

fn put(ts: *mut timespec, ns: u64) {
    unsafe {
        (*ts).tv_sec = (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut timespec) -> c_int {
    if let Some(w) = current() {
        match clk {
            libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_BOOTTIME => {
                put(ts, MONO_BASE + w.now());
                return 0;
            }
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => {
                put(ts, w.wall());
                return 0;
            }
            _ => (),
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk as c_long, ts) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: c_uint) -> ssize_t {
    if let Some(w) = current() {
        w.entropy_fill(std::slice::from_raw_parts_mut(buf as *mut u8, len));
        return len as ssize_t;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags as c_long) as ssize_t
}

unsafe fn ret(r: Result<c_int, c_int>) -> c_int {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn kill(pid: pid_t, sig: c_int) -> c_int {
    if let Some(w) = current() {
        return ret(w.sys_kill(pid, sig).map(|_| 0));
    }
    libc::syscall(libc::SYS_kill, pid as c_long, sig as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn killpg(pgrp: pid_t, sig: c_int) -> c_int {
    if let Some(w) = current() {
        if pgrp < 0 {
            return ret(Err(libc::EINVAL));
        }
        return ret(w.sys_kill(-pgrp, sig).map(|_| 0));
    }
    libc::syscall(libc::SYS_kill, -pgrp as c_long, sig as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn waitpid(pid: pid_t, status: *mut c_int, options: c_int) -> pid_t {
    wait4(pid, status, options, std::ptr::null_mut())
}

#[no_mangle]
pub unsafe extern "C" fn wait4(pid: pid_t, status: *mut c_int, options: c_int, ru: *mut rusage) -> pid_t {
    if let Some(w) = current() {
        return ret(w.sys_waitpid(pid, options).map(|(p, s)| {
            if !status.is_null() {
                *status = s;
            }
            p
        }));
    }
    libc::syscall(libc::SYS_wait4, pid as c_long, status, options as c_long, ru) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn waitid(idtype: libc::idtype_t, id: id_t, info: *mut siginfo_t, options: c_int) -> c_int {
    if let Some(w) = current() {
        let pid = match idtype {
            libc::P_ALL => -1,
            libc::P_PGID => -(id as i32),
            _ => id as i32,
        };
        return ret(w.sys_waitpid(pid, options).map(|(p, s)| {
            if !info.is_null() {
                std::ptr::write_bytes(info, 0, 1);
                if p != 0 {
                    let raw = info as *mut c_int;
                    *raw = libc::SIGCHLD;
                    *raw.add(2) = if libc::WIFEXITED(s) { libc::CLD_EXITED } else { libc::CLD_KILLED };
                    *raw.add(4) = p;
                    *raw.add(6) = if libc::WIFEXITED(s) { libc::WEXITSTATUS(s) } else { libc::WTERMSIG(s) };
                }
            }
            0
        }));
    }
    libc::syscall(libc::SYS_waitid, idtype as c_long, id as c_long, info, options as c_long, 0usize) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setsid() -> pid_t {
    if let Some(w) = current() {
        return ret(w.sys_setsid());
    }
    libc::syscall(libc::SYS_setsid) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn setpgid(pid: pid_t, pgid: pid_t) -> c_int {
    if let Some(w) = current() {
        return ret(w.sys_setpgid(pid, pgid).map(|_| 0));
    }
    libc::syscall(libc::SYS_setpgid, pid as c_long, pgid as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpgid(pid: pid_t) -> pid_t {
    if let Some(w) = current() {
        return ret(w.sys_getpgid(pid));
    }
    libc::syscall(libc::SYS_getpgid, pid as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> pid_t {
    if let Some(w) = current() {
        return w.sys_getpid();
    }
    libc::syscall(libc::SYS_getpid) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(w) = current() {
        let d = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        w.stat("thread_sleeps");
        w.sleep(d);
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, req, rem) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const timespec, rem: *mut timespec) -> c_int {
    if let Some(w) = current() {
        let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
        let d = if flags & libc::TIMER_ABSTIME != 0 {
            let now = if clk == libc::CLOCK_REALTIME { w.wall() } else { MONO_BASE + w.now() };
            t.saturating_sub(now)
        } else {
            t
        };
        w.stat("thread_sleeps");
        w.sleep(d);
        return 0;
    }
    let r = libc::syscall(libc::SYS_clock_nanosleep, clk as c_long, flags as c_long, req, rem);
    if r < 0 {
        *libc::__errno_location()
    } else {
        0
    }
}

// ------------------------------------------------------------------------------------------------ files

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let Some(w) = current() {
        let p = std::ffi::CStr::from_ptr(path).to_string_lossy();
        if let Some(e) = w.disk_open(&p, flags & libc::O_ACCMODE != libc::O_RDONLY) {
            set_errno(e);
            return -1;
        }
    }
    libc::syscall(libc::SYS_openat, dirfd as c_long, path, (flags | libc::O_LARGEFILE) as c_long, mode as c_long) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, len: size_t) -> ssize_t {
    let mut len = len;
    if fd > 2 {
        if let Some(w) = current() {
            match w.disk_write(len) {
                Ok(n) => len = n,
                Err(e) => {
                    set_errno(e);
                    return -1;
                }
            }
        }
    }
    libc::syscall(libc::SYS_write, fd as c_long, buf, len) as ssize_t
}
