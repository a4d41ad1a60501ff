//! Stand-in for `nix`, and (under `--cfg liso_mc`) for `std` inside liso: `std` with everything
//! that touches threads, time, files, streams or the process replaced by the controlled runtime.
#![allow(clippy::all)]
pub use ::std::*;
pub use mcrt::{env, fs, io, os, panic, process, sync, thread, time};
pub use mcrt::{eprint, eprintln, print, println, thread_local};

pub use errno::Errno;
pub type Result2<T> = ::std::result::Result<T, Errno>;

pub mod errno {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Errno(pub i32);
    impl ::std::fmt::Display for Errno {
        fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
            write!(f, "errno {}", self.0)
        }
    }
    impl ::std::error::Error for Errno {}
    impl From<Errno> for ::std::io::Error {
        fn from(e: Errno) -> Self {
            ::std::io::Error::from_raw_os_error(e.0)
        }
    }
    impl Errno {
        pub const EINTR: Errno = Errno(4);
        pub const EBADF: Errno = Errno(9);
        pub fn from_io(e: ::std::io::Error) -> Errno {
            Errno(e.raw_os_error().unwrap_or(5))
        }
    }
}
/// For liso's own use of `libc` and `errno` (capture-stderr): under `--cfg liso_mc` both names mean
/// this crate.
#[allow(non_camel_case_types)]
pub type c_int = i32;
#[allow(non_camel_case_types)]
pub type size_t = usize;
#[allow(non_camel_case_types)]
pub type ssize_t = isize;
pub use ::std::ffi::c_void;
pub const EINTR: c_int = 4;
pub const EBADF: c_int = 9;
pub const EMFILE: c_int = 24;
pub const ENOSYS: c_int = 38;
pub const STDIN_FILENO: c_int = 0;
pub const STDOUT_FILENO: c_int = 1;
pub const STDERR_FILENO: c_int = 2;
static ERRNO: ::std::sync::atomic::AtomicI32 = ::std::sync::atomic::AtomicI32::new(0);
pub fn errno() -> Errno {
    errno::Errno(ERRNO.load(::std::sync::atomic::Ordering::Relaxed))
}
pub fn set_errno(e: Errno) {
    ERRNO.store(e.0, ::std::sync::atomic::Ordering::Relaxed)
}
fn ret<T>(r: ::std::io::Result<T>, f: impl FnOnce(T) -> isize) -> isize {
    match r {
        Ok(x) => f(x),
        Err(e) => {
            set_errno(errno::Errno::from_io(e));
            -1
        }
    }
}
/// # Safety
/// As in libc.
pub unsafe fn pipe(fds: *mut c_int) -> c_int {
    ret(mcrt::world::sys_pipe(), |(a, b)| {
        *fds = a;
        *fds.add(1) = b;
        0
    }) as c_int
}
/// # Safety
/// As in libc.
pub unsafe fn dup(fd: c_int) -> c_int {
    ret(mcrt::world::sys_dup(fd), |x| x as isize) as c_int
}
/// # Safety
/// As in libc.
pub unsafe fn dup2(a: c_int, b: c_int) -> c_int {
    ret(mcrt::world::sys_dup2(a, b), |x| x as isize) as c_int
}
/// # Safety
/// As in libc.
pub unsafe fn close(fd: c_int) -> c_int {
    ret(mcrt::world::sys_close(fd), |_| 0) as c_int
}
/// # Safety
/// As in libc.
pub unsafe fn isatty(fd: c_int) -> c_int {
    mcrt::rt::world().is_tty(fd) as c_int
}
/// # Safety
/// As in libc.
pub unsafe fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    ret(mcrt::world::sys_read(fd, ::std::slice::from_raw_parts_mut(buf as *mut u8, n)), |x| x as isize)
}
/// # Safety
/// As in libc.
pub unsafe fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    ret(mcrt::world::sys_write(fd, ::std::slice::from_raw_parts(buf as *const u8, n)), |x| x as isize)
}

pub mod libc {
    pub use crate::{c_int, c_void, close, dup, dup2, isatty, pipe, read, size_t, write, EINTR, ENOSYS};
    pub const STDIN_FILENO: i32 = 0;
    pub const STDOUT_FILENO: i32 = 1;
    pub const STDERR_FILENO: i32 = 2;
}

pub mod sys {
    pub mod pthread {
        pub type Pthread = u64;
        pub fn pthread_kill<T: Into<Option<super::signal::Signal>>>(
            t: Pthread,
            s: T,
        ) -> crate::Result2<()> {
            if let Some(s) = s.into() {
                mcrt::world::deliver(s as i32, Some(t as usize));
            }
            Ok(())
        }
        pub fn pthread_self() -> Pthread {
            mcrt::rt::current() as u64
        }
    }
    pub mod signal {
        use mcrt::world::SigDisp;
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        #[repr(i32)]
        pub enum Signal {
            SIGHUP = 1,
            SIGINT = 2,
            SIGQUIT = 3,
            SIGUSR1 = 10,
            SIGUSR2 = 12,
            SIGPIPE = 13,
            SIGALRM = 14,
            SIGTERM = 15,
            SIGCHLD = 17,
            SIGCONT = 18,
            SIGSTOP = 19,
            SIGTSTP = 20,
            SIGTTIN = 21,
            SIGTTOU = 22,
            SIGURG = 23,
            SIGIO = 29,
            SIGWINCH = 28,
        }
        pub use Signal::*;
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct SaFlags(u32);
        #[allow(non_upper_case_globals)]
        impl SaFlags {
            pub const SA_RESTART: SaFlags = SaFlags(1);
            pub const SA_NODEFER: SaFlags = SaFlags(2);
            pub const SA_RESETHAND: SaFlags = SaFlags(4);
            pub const SA_SIGINFO: SaFlags = SaFlags(8);
            pub const fn empty() -> SaFlags {
                SaFlags(0)
            }
            pub fn contains(&self, o: SaFlags) -> bool {
                self.0 & o.0 == o.0
            }
        }
        impl ::std::ops::BitOr for SaFlags {
            type Output = SaFlags;
            fn bitor(self, o: SaFlags) -> SaFlags {
                SaFlags(self.0 | o.0)
            }
        }
        #[derive(Clone, Copy, Debug)]
        pub struct SigSet;
        impl SigSet {
            pub fn empty() -> SigSet {
                SigSet
            }
            pub fn all() -> SigSet {
                SigSet
            }
        }
        #[derive(Clone, Copy)]
        pub enum SigHandler {
            SigDfl,
            SigIgn,
            Handler(extern "C" fn(i32)),
        }
        #[derive(Clone, Copy)]
        pub struct SigAction(SigDisp);
        impl SigAction {
            pub fn new(h: SigHandler, f: SaFlags, _m: SigSet) -> SigAction {
                SigAction(match h {
                    SigHandler::SigDfl => SigDisp::Default,
                    SigHandler::SigIgn => SigDisp::Ignore,
                    SigHandler::Handler(p) => SigDisp::Handler(p, f.contains(SaFlags::SA_RESTART)),
                })
            }
            pub fn handler(&self) -> SigHandler {
                match self.0 {
                    SigDisp::Default => SigHandler::SigDfl,
                    SigDisp::Ignore => SigHandler::SigIgn,
                    SigDisp::Handler(p, _) => SigHandler::Handler(p),
                }
            }
        }
        /// # Safety
        /// As in nix.
        pub unsafe fn sigaction(s: Signal, a: &SigAction) -> crate::Result2<SigAction> {
            Ok(SigAction(mcrt::world::sigaction(s as i32, a.0)))
        }
        /// # Safety
        /// As in nix.
        pub unsafe fn signal(s: Signal, h: SigHandler) -> crate::Result2<SigHandler> {
            let a = SigAction::new(h, SaFlags::empty(), SigSet);
            Ok(SigAction(mcrt::world::sigaction(s as i32, a.0)).handler())
        }
        pub fn raise(s: Signal) -> crate::Result2<()> {
            mcrt::world::deliver(s as i32, Some(mcrt::rt::current()));
            Ok(())
        }
        pub fn kill<T: Into<Option<Signal>>>(_p: crate::unistd::Pid, s: T) -> crate::Result2<()> {
            if let Some(s) = s.into() {
                mcrt::world::deliver(s as i32, None);
            }
            Ok(())
        }
    }
}

pub mod unistd {
    use crate::errno::Errno;
    use ::std::os::fd::{AsRawFd, IntoRawFd, RawFd};

    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub struct Pid(i32);
    impl Pid {
        pub fn this() -> Pid {
            Pid(1)
        }
        pub fn from_raw(p: i32) -> Pid {
            Pid(p)
        }
    }
    pub fn getpid() -> Pid {
        Pid(1)
    }
    #[derive(Debug)]
    pub struct OwnedFd(RawFd);
    impl AsRawFd for OwnedFd {
        fn as_raw_fd(&self) -> RawFd {
            self.0
        }
    }
    impl IntoRawFd for OwnedFd {
        fn into_raw_fd(self) -> RawFd {
            let r = self.0;
            ::std::mem::forget(self);
            r
        }
    }
    impl Drop for OwnedFd {
        fn drop(&mut self) {
            let _ = mcrt::world::sys_close(self.0);
        }
    }
    pub fn pipe() -> Result<(OwnedFd, OwnedFd), Errno> {
        mcrt::world::sys_pipe().map(|(a, b)| (OwnedFd(a), OwnedFd(b))).map_err(Errno::from_io)
    }
    pub fn dup(f: RawFd) -> Result<RawFd, Errno> {
        mcrt::world::sys_dup(f).map_err(Errno::from_io)
    }
    pub fn dup2(a: RawFd, b: RawFd) -> Result<RawFd, Errno> {
        mcrt::world::sys_dup2(a, b).map_err(Errno::from_io)
    }
    pub fn close(f: RawFd) -> Result<(), Errno> {
        mcrt::world::sys_close(f).map_err(Errno::from_io)
    }
    pub fn read(f: RawFd, b: &mut [u8]) -> Result<usize, Errno> {
        mcrt::world::sys_read(f, b).map_err(Errno::from_io)
    }
    pub fn write<F: AsRawFd>(f: F, b: &[u8]) -> Result<usize, Errno> {
        mcrt::world::sys_write(f.as_raw_fd(), b).map_err(Errno::from_io)
    }
    pub fn isatty(f: RawFd) -> Result<bool, Errno> {
        Ok(mcrt::rt::world().is_tty(f))
    }
}
