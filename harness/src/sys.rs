//! Operating-system services (not available under Miri): fatal signals, CPU-time watchdog, forked children.
#[cfg(not(miri))]
mod imp {
    use std::os::raw::{c_int, c_long, c_void};
    extern "C" {
        fn signal(sig: c_int, h: usize) -> usize;
        fn setitimer(which: c_int, new: *const [c_long; 4], old: *mut c_void) -> c_int;
        fn fork() -> c_int;
        fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
        fn pipe(fds: *mut c_int) -> c_int;
        fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
        fn dup2(a: c_int, b: c_int) -> c_int;
        fn close(fd: c_int) -> c_int;
        fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
        fn munmap(a: *mut c_void, n: usize) -> c_int;
        fn setrlimit(r: c_int, lim: *const [u64; 2]) -> c_int;
        fn sigaltstack(ss: *const StackT, old: *mut StackT) -> c_int;
        fn sigaction(sig: c_int, act: *const SigAct, old: *mut SigAct) -> c_int;
    }
    #[repr(C)]
    struct StackT {
        sp: *mut c_void,
        flags: c_int,
        size: usize,
    }
    #[repr(C)]
    struct SigAct {
        handler: usize,
        mask: [u64; 16],
        flags: c_int,
        restorer: usize,
    }
    extern "C" fn on_fatal(sig: c_int) {
        // Not async-signal-safe in general; the process is lost anyway, and a second fault ends it.
        unsafe {
            for s in [4, 6, 7, 8, 11] {
                signal(s, 0);
            }
        }
        crate::ctx::fatal(match sig {
            4 => "SIGILL",
            6 => "SIGABRT",
            7 => "SIGBUS",
            8 => "SIGFPE",
            11 => "SIGSEGV",
            _ => "signal",
        });
    }
    extern "C" fn on_cpu(_: c_int) {
        crate::ctx::fatal("no progress: the case used more CPU time than hundreds of normal cases");
    }
    pub fn install(asan: bool) {
        unsafe {
            if !asan {
                let n = 1 << 16;
                let m = mmap(std::ptr::null_mut(), n, 3, 0x22, -1, 0);
                sigaltstack(&StackT { sp: m, flags: 0, size: n }, std::ptr::null_mut());
                for s in [4, 6, 7, 8, 11] {
                    let f: extern "C" fn(c_int) = on_fatal;
                    // SA_ONSTACK | SA_NODEFER
                    let a = SigAct { handler: f as usize, mask: [0; 16], flags: 0x0800_0000 | 0x4000_0000, restorer: 0 };
                    sigaction(s, &a, std::ptr::null_mut());
                }
                setrlimit(9, &[24 << 30, 24 << 30]);
            }
            let f: extern "C" fn(c_int) = on_cpu;
            signal(26, f as usize);
            setrlimit(4, &[0, 0]);
        }
    }
    /// Restarts the CPU-time watchdog.
    pub fn watchdog(secs: i64) {
        unsafe {
            setitimer(1, &[0, 0, secs as c_long, 0], std::ptr::null_mut());
        }
    }
    pub enum End {
        Exit(i32),
        Signal(i32),
    }
    /// Runs `f` in a forked child with stderr captured.
    pub fn child(f: impl FnOnce()) -> (End, String) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            let mut fds = [0 as c_int; 2];
            assert!(pipe(fds.as_mut_ptr()) == 0);
            let pid = fork();
            assert!(pid >= 0);
            if pid == 0 {
                for s in [4, 6, 7, 8, 11] {
                    signal(s, 0);
                }
                dup2(fds[1], 2);
                close(fds[0]);
                close(fds[1]);
                f();
                crate::ctx::quick_exit(0);
            }
            close(fds[1]);
            let mut out = Vec::new();
            let mut buf = [0u8; 4096];
            loop {
                let n = read(fds[0], buf.as_mut_ptr() as *mut c_void, buf.len());
                if n <= 0 {
                    break;
                }
                out.extend_from_slice(&buf[..n as usize]);
            }
            close(fds[0]);
            let mut st = 0;
            waitpid(pid, &mut st, 0);
            let end = if st & 0x7f == 0 { End::Exit((st >> 8) & 0xff) } else { End::Signal(st & 0x7f) };
            (end, String::from_utf8_lossy(&out).into_owned())
        }
    }
    /// A zero-filled region that uses no memory until written (`None` if there is no room for it).
    pub struct Zeros(*mut u8, usize);
    impl Zeros {
        pub fn new(n: usize) -> Option<Zeros> {
            unsafe {
                // Private, anonymous, not reserved.
                let p = mmap(std::ptr::null_mut(), n, 1, 0x4022, -1, 0);
                if p as isize == -1 {
                    None
                } else {
                    Some(Zeros(p as *mut u8, n))
                }
            }
        }
        pub fn bytes(&self) -> &[u8] {
            unsafe { std::slice::from_raw_parts(self.0, self.1) }
        }
    }
    impl Drop for Zeros {
        fn drop(&mut self) {
            unsafe {
                munmap(self.0 as *mut c_void, self.1);
            }
        }
    }
}
#[cfg(miri)]
mod imp {
    pub fn install(_asan: bool) {}
    pub fn watchdog(_secs: i64) {}
}
pub use imp::*;
