//! The few system calls needed, without further crates (x86_64 Linux).
#![allow(clippy::missing_safety_doc)]
use std::os::raw::{c_int, c_long, c_ulong};

extern "C" {
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
    fn prctl(op: c_int, a: c_ulong, b: c_ulong, c: c_ulong, d: c_ulong) -> c_int;
    fn kill(pid: c_int, sig: c_int) -> c_int;
    fn dup(fd: c_int) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn wait4(pid: c_int, st: *mut c_int, opt: c_int, ru: *mut Rusage) -> c_int;
    fn getppid() -> c_int;
    fn setsid() -> c_int;
    fn open(p: *const u8, fl: c_int, ...) -> c_int;
    fn fcntl(fd: c_int, cmd: c_int, ...) -> c_int;
    fn memfd_create(name: *const u8, flags: u32) -> c_int;
    fn mmap(p: *mut u8, n: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut u8;
    fn munmap(p: *mut u8, n: usize) -> c_int;
    fn posix_openpt(fl: c_int) -> c_int;
    fn grantpt(fd: c_int) -> c_int;
    fn unlockpt(fd: c_int) -> c_int;
    fn ptsname_r(fd: c_int, buf: *mut u8, n: usize) -> c_int;
    fn ioctl(fd: c_int, req: c_ulong, ...) -> c_int;
}

/// A slice of the same bytes over and over, which takes the memory of one copy only
pub struct Repeated {
    p: *mut u8,
    n: usize,
}

impl Repeated {
    /// None when the system does not allow it. The pattern is a multiple of 64 KiB.
    pub fn new(pattern: &[u8], times: usize) -> Option<Repeated> {
        use std::io::Write;
        use std::os::fd::{AsRawFd, FromRawFd};
        assert!(pattern.len() % 65536 == 0 && times > 0);
        let n = pattern.len() * times;
        unsafe {
            let fd = memfd_create(c"repeated".as_ptr() as *const u8, 1);
            if fd < 0 {
                return None;
            }
            let mut f = std::fs::File::from_raw_fd(fd);
            f.write_all(pattern).ok()?;
            // room: no access, private, anonymous, without reserving memory
            let p = mmap(std::ptr::null_mut(), n, 0, 0x2 | 0x20 | 0x4000, -1, 0);
            if p as isize == -1 {
                return None;
            }
            let r = Repeated { p, n };
            for i in 0..times {
                // read, shared, fixed
                let q = mmap(p.add(i * pattern.len()), pattern.len(), 1, 0x1 | 0x10, f.as_raw_fd(), 0);
                if q as isize == -1 {
                    return None;
                }
            }
            Some(r)
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.p, self.n) }
    }
}

impl Drop for Repeated {
    fn drop(&mut self) {
        unsafe {
            munmap(self.p, self.n);
        }
    }
}

#[repr(C)]
#[derive(Clone, Copy, Default, Debug)]
pub struct Rusage {
    pub utime: [c_long; 2],
    pub stime: [c_long; 2],
    pub maxrss: c_long,
    pub rest: [c_long; 13],
}

pub const RLIMIT_CPU: c_int = 0;
pub const RLIMIT_FSIZE: c_int = 1;
pub const RLIMIT_CORE: c_int = 4;
pub const RLIMIT_AS: c_int = 9;

pub fn limit(what: c_int, n: u64) {
    unsafe {
        setrlimit(what, &[n, n]);
    }
}
pub fn limit2(what: c_int, soft: u64, hard: u64) {
    unsafe {
        setrlimit(what, &[soft, hard]);
    }
}
/// be killed when the parent goes away
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9, 0, 0, 0);
        if getppid() == 1 {
            std::process::exit(3);
        }
    }
}
pub fn new_session() {
    unsafe {
        setsid();
    }
}
pub fn send_group(pid: u32, sig: i32) {
    unsafe {
        kill(-(pid as c_int), sig);
    }
}
pub fn send_signal(pid: u32, sig: i32) {
    unsafe {
        kill(pid as c_int, sig);
    }
}
/// Move stdout to a private descriptor; what others print goes to /dev/null
pub fn private_stdout() -> std::fs::File {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = dup(1);
        fcntl(fd, 2, 1); // close on exec
        let null = open(c"/dev/null".as_ptr() as *const u8, 1);
        dup2(null, 1);
        std::fs::File::from_raw_fd(fd)
    }
}
/// Wait for a child without blocking; (status, usage) when it has ended
pub fn try_wait(pid: u32) -> Option<(i32, Rusage)> {
    let mut st = 0;
    let mut ru = Rusage::default();
    let r = unsafe { wait4(pid as c_int, &mut st, 1, &mut ru) };
    if r == pid as c_int {
        Some((st, ru))
    } else {
        None
    }
}
pub fn wait(pid: u32) -> Option<(i32, Rusage)> {
    let mut st = 0;
    let mut ru = Rusage::default();
    let r = unsafe { wait4(pid as c_int, &mut st, 0, &mut ru) };
    if r == pid as c_int {
        Some((st, ru))
    } else {
        None
    }
}

/// (CPU seconds, state) of a process
pub fn cpu_of(pid: u32) -> Option<(f64, char)> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some((t / 100.0, f[0].chars().next()?))
}

/// A pseudo terminal: (the side of the user, the side of the program). None where there are none.
pub fn terminal() -> Option<(std::fs::File, std::fs::File)> {
    use std::os::fd::FromRawFd;
    const FLAGS: c_int = 2 | 0o400 | 0o2000000; // read and write, not our own terminal, close on exec
    unsafe {
        let m = posix_openpt(FLAGS);
        if m < 0 {
            return None;
        }
        let user = std::fs::File::from_raw_fd(m);
        let mut name = [0u8; 100];
        if grantpt(m) != 0 || unlockpt(m) != 0 || ptsname_r(m, name.as_mut_ptr(), 100) != 0 {
            return None;
        }
        let s = open(name.as_ptr(), FLAGS);
        if s < 0 {
            return None;
        }
        Some((user, std::fs::File::from_raw_fd(s)))
    }
}
/// make standard input the terminal of this process, in a session of its own
pub fn own_terminal() {
    unsafe {
        setsid();
        ioctl(0, 0x540E, 0);
    }
}
