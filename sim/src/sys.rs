//! The few system calls the runner needs, declared by hand (no extra dependency).

use std::io;

#[repr(C)]
pub struct PollFd {
    pub fd: i32,
    pub events: i16,
    pub revents: i16,
}

extern "C" {
    pub fn fork() -> i32;
    pub fn _exit(code: i32) -> !;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, buf: *mut std::ffi::c_void, n: usize) -> isize;
    fn write(fd: i32, buf: *const std::ffi::c_void, n: usize) -> isize;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn open(path: *const std::ffi::c_char, flags: i32, ...) -> i32;
    fn poll(fds: *mut PollFd, n: u64, timeout_ms: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setpgid(pid: i32, pgid: i32) -> i32;
    fn fcntl(fd: i32, op: i32, ...) -> i32;
    fn execv(path: *const std::ffi::c_char, argv: *const *const std::ffi::c_char) -> i32;
}

pub const POLLIN: i16 = 1;

pub fn make_pipe() -> io::Result<(i32, i32)> {
    let mut f = [0i32; 2];
    if unsafe { pipe(f.as_mut_ptr()) } != 0 {
        return Err(io::Error::last_os_error());
    }
    Ok((f[0], f[1]))
}

pub fn close_fd(fd: i32) {
    unsafe {
        close(fd);
    }
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}

pub fn read_some(fd: i32, b: &mut [u8]) -> isize {
    unsafe { read(fd, b.as_mut_ptr().cast(), b.len()) }
}

pub fn poll_fds(fds: &mut [PollFd], timeout_ms: i32) -> i32 {
    unsafe { poll(fds.as_mut_ptr(), fds.len() as u64, timeout_ms) }
}

/// Waits for a child and returns a short description of how it ended ("" for exit 0).
pub fn wait_child(pid: i32) -> String {
    let mut st = 0i32;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && io::Error::last_os_error().kind() != io::ErrorKind::Interrupted {
            return "wait failed".into();
        }
    }
    if st & 0x7f == 0 {
        let c = (st >> 8) & 0xff;
        if c == 0 {
            String::new()
        } else {
            format!("exit status {c}")
        }
    } else {
        format!("signal {}", st & 0x7f)
    }
}

/// In a forked child: die with the parent, own process group, quiet stdio.
pub fn child_setup() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        setpgid(0, 0);
        let fd = open(c"/dev/null".as_ptr(), 2);
        if fd >= 0 {
            dup2(fd, 0);
            dup2(fd, 1);
            dup2(fd, 2);
            if fd > 2 {
                close(fd);
            }
        }
    }
}

/// In a forked child: becomes `program case`, with `text` on standard input and `out` as
/// descriptor 3. Returns only if that failed.
pub fn become_case(program: &std::path::Path, text: &[u8], out: i32) {
    use std::os::unix::ffi::OsStrExt;
    let Ok((r, w)) = make_pipe() else { return };
    unsafe { fcntl(w, 1031, (text.len() as i32).max(65536)) };
    write_all(w, text);
    close_fd(w);
    let Ok(prog) = std::ffi::CString::new(program.as_os_str().as_bytes()) else { return };
    unsafe {
        dup2(r, 0);
        if out != 3 {
            dup2(out, 3);
        }
        let argv = [prog.as_ptr(), c"case".as_ptr(), std::ptr::null()];
        execv(prog.as_ptr(), argv.as_ptr());
    }
}

/// Ends a child and everything it started.
pub fn kill_group(pid: i32) {
    unsafe {
        kill(-pid, 9);
        kill(pid, 9);
    }
}

/// Runs `f` in a forked copy of this process and returns the bytes it produced.
/// `Err` describes an abnormal end.
pub fn in_fork(timeout_ms: i32, f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    let (r, w) = make_pipe().map_err(|e| e.to_string())?;
    let pid = unsafe { fork() };
    if pid < 0 {
        return Err("fork failed".into());
    }
    if pid == 0 {
        close_fd(r);
        child_setup();
        let out = f();
        write_all(w, &out);
        unsafe { _exit(0) }
    }
    close_fd(w);
    let t0 = std::time::Instant::now();
    let mut out = vec![];
    let mut buf = [0u8; 65536];
    let mut res = Ok(());
    loop {
        let left = timeout_ms - t0.elapsed().as_millis() as i32;
        if left <= 0 {
            kill_group(pid);
            res = Err("timeout".to_string());
            break;
        }
        let mut p = [PollFd { fd: r, events: POLLIN, revents: 0 }];
        poll_fds(&mut p, left);
        if p[0].revents != 0 {
            let n = read_some(r, &mut buf);
            if n <= 0 {
                break;
            }
            out.extend_from_slice(&buf[..n as usize]);
        }
    }
    close_fd(r);
    let st = wait_child(pid);
    res?;
    if st.is_empty() {
        Ok(out)
    } else {
        Err(st)
    }
}
