//! Everything outside the program: the terminal, file descriptors, files, environment, signals.
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::panic::PanicHookInfo;

use crate::fs::Fs;
use crate::rt::{self, block_until, die, point, progress, teardown, world, Failure, Nanos};
use crate::sync::RawLock;
use crate::term::{Kind, Modes, Term};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Obj {
    /// the terminal
    Tty,
    /// the redirected standard input / output
    InPipe,
    OutPipe,
    PipeR(usize),
    PipeW(usize),
}

#[derive(Clone, Copy)]
pub enum SigDisp {
    Default,
    Ignore,
    Handler(extern "C" fn(i32), bool),
}
impl std::fmt::Debug for SigDisp {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            SigDisp::Default => f.write_str("Default"),
            SigDisp::Ignore => f.write_str("Ignore"),
            SigDisp::Handler(_, r) => write!(f, "Handler(restart={r})"),
        }
    }
}

pub type Hook = Box<dyn Fn(&PanicHookInfo<'_>) + Sync + Send + 'static>;

pub struct Stop {
    pub modes: Modes,
    pub term: Term,
}

pub struct World {
    pub out_hash: u64,
    pub panic_hook: Option<Hook>,
    pub env: BTreeMap<String, String>,
    pub term: Term,
    pub raw: bool,
    pub raw_calls: u32,
    /// the threads that wrote to the terminal or changed its mode, in order, without repetitions in a row
    pub touched: Vec<usize>,
    pub size_fails: bool,
    pub fds: BTreeMap<i32, Obj>,
    pub pipes: Vec<(VecDeque<u8>, u32)>,
    /// what the user has typed (or piped in) and nobody has read yet, one entry per read
    pub input: VecDeque<Vec<u8>>,
    pub input_eof: bool,
    pub input_err: bool,
    /// threads sitting in a read of the real input
    pub readers: Vec<usize>,
    pub bytes_read: usize,
    pub stdin_buf: VecDeque<u8>,
    pub stdin_lock: RawLock,
    pub stdout_buf: Vec<u8>,
    /// who holds the lock of standard output, how often
    pub stdout_lock: Option<(usize, u32)>,
    /// bytes written to a redirected standard output
    pub out: Vec<u8>,
    /// every byte that reached the terminal
    pub tty_bytes: Vec<u8>,
    pub out_writes: u64,
    /// fail the n-th (from 0) and every later write to standard output
    pub fail_write_at: Option<u64>,
    /// how many writes fail before they work again
    pub fail_writes: u64,
    /// the failing write is partial: the first half of its bytes still get out
    pub fail_partial: bool,
    pub stderr: Vec<u8>,
    /// the next this many calls of pipe, dup and dup2 succeed; the one after fails
    pub fail_dup_at: Option<u32>,
    pub sigs: BTreeMap<i32, SigDisp>,
    pub stops: Vec<Stop>,
    /// what the shell writes while the process is stopped
    pub shell_text: String,
    pub stop_nanos: Nanos,
    /// (message, terminal modes) at each default panic message
    pub default_panics: Vec<(String, Modes)>,
    pub fs: Fs,
    /// events for the crossterm event back end
    pub events: VecDeque<Box<dyn std::any::Any>>,
    pub events_closed: bool,
    pub log: Vec<String>,
    /// panics whose message starts with one of these are part of what is being tried
    pub tolerate: Vec<&'static str>,
}

impl Default for World {
    fn default() -> Self {
        World::tty(20, 6)
    }
}

impl World {
    pub fn tty(w: usize, h: usize) -> World {
        World::new(Kind::Ansi, w, h)
    }
    pub fn new(kind: Kind, w: usize, h: usize) -> World {
        let mut fds = BTreeMap::new();
        for i in 0..3 {
            fds.insert(i, Obj::Tty);
        }
        let mut env = BTreeMap::new();
        env.insert(
            "TERM".to_string(),
            match kind {
                Kind::Ansi => "xterm".to_string(),
                Kind::Vt52 => "tw52".to_string(),
            },
        );
        World {
            out_hash: 0xcbf29ce484222325,
            panic_hook: None,
            env,
            term: Term::new(kind, w, h),
            raw: false,
            raw_calls: 0,
            touched: vec![],
            size_fails: false,
            fds,
            pipes: vec![],
            input: VecDeque::new(),
            input_eof: false,
            input_err: false,
            readers: vec![],
            bytes_read: 0,
            stdin_buf: VecDeque::new(),
            stdin_lock: RawLock::new(),
            stdout_buf: vec![],
            stdout_lock: None,
            out: vec![],
            tty_bytes: vec![],
            out_writes: 0,
            fail_write_at: None,
            fail_writes: u64::MAX,
            fail_partial: false,
            stderr: vec![],
            fail_dup_at: None,
            sigs: BTreeMap::new(),
            stops: vec![],
            shell_text: String::new(),
            stop_nanos: 0,
            default_panics: vec![],
            fs: Fs::default(),
            events: VecDeque::new(),
            events_closed: false,
            log: vec![],
            tolerate: vec![],
        }
    }
    pub fn pipe_in(mut self) -> World {
        self.fds.insert(0, Obj::InPipe);
        self
    }
    pub fn pipe_out(mut self) -> World {
        self.fds.insert(1, Obj::OutPipe);
        self
    }
    pub fn with_env(mut self, k: &str, v: &str) -> World {
        self.env.insert(k.into(), v.into());
        self
    }
    pub fn modes(&self) -> Modes {
        Modes {
            raw: self.raw,
            cursor_visible: self.term.cursor_visible,
            autowrap: self.term.autowrap,
            attr: self.term.attr,
            attr_default: self.term.attr_default(),
        }
    }
    /// What a program other than the one under test writes to the same standard output.
    pub fn tty_write_or_pipe(&mut self, b: &[u8]) {
        if self.is_tty(1) {
            self.tty_write(b);
        } else {
            self.hash_out(b);
            self.out.extend_from_slice(b);
        }
    }
    pub fn touch(&mut self) {
        if rt::rt().in_hook {
            return;
        }
        let id = rt::current();
        if self.touched.last() != Some(&id) {
            self.touched.push(id);
        }
    }
    fn hash_out(&mut self, b: &[u8]) {
        for &x in b {
            self.out_hash ^= x as u64;
            self.out_hash = self.out_hash.wrapping_mul(0x100000001b3);
        }
    }
    /// What the terminal driver does with bytes written to it.
    pub fn tty_write(&mut self, b: &[u8]) {
        self.hash_out(b);
        self.tty_bytes.extend_from_slice(b);
        if self.raw {
            self.term.feed(b);
        } else {
            for &x in b {
                if x == b'\n' {
                    self.term.feed(b"\r\n");
                } else {
                    self.term.feed(&[x]);
                }
            }
        }
    }
    pub fn is_tty(&self, fd: i32) -> bool {
        self.fds.get(&fd) == Some(&Obj::Tty)
    }
}

/// The user types (or a program pipes in) these bytes, available to one read.
pub fn type_bytes(b: &[u8]) {
    if !b.is_empty() {
        world().input.push_back(b.to_vec());
        progress();
    }
}
pub fn type_eof() {
    world().input_eof = true;
    progress();
}

fn errno(n: i32) -> io::Error {
    io::Error::from_raw_os_error(n)
}
pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;
pub const EBADF: i32 = 9;
pub const EMFILE: i32 = 24;
pub const EPIPE: i32 = 32;
pub const ENOSPC: i32 = 28;

pub fn sys_read(fd: i32, buf: &mut [u8]) -> io::Result<usize> {
    if teardown() {
        return Ok(0);
    }
    point("read");
    loop {
        let obj = *world().fds.get(&fd).ok_or_else(|| errno(EBADF))?;
        let me = rt::current();
        {
            let t = &mut rt::rt().threads[me];
            t.in_syscall = true;
            t.interrupted = false;
        }
        match obj {
            Obj::Tty | Obj::InPipe => {
                world().readers.push(me);
                block_until("read(input)", None, &|| {
                    let w = world();
                    !w.input.is_empty()
                        || w.input_eof
                        || w.input_err
                        || rt::rt().threads[me].interrupted
                });
                world().readers.retain(|x| *x != me);
            }
            Obj::PipeR(p) => {
                block_until("read(pipe)", None, &|| {
                    let w = world();
                    !w.pipes[p].0.is_empty()
                        || w.pipes[p].1 == 0
                        || rt::rt().threads[me].interrupted
                });
            }
            _ => {
                rt::rt().threads[me].in_syscall = false;
                return Err(errno(EBADF));
            }
        }
        let intr = {
            let t = &mut rt::rt().threads[me];
            t.in_syscall = false;
            std::mem::take(&mut t.interrupted)
        };
        let w = world();
        match obj {
            Obj::Tty | Obj::InPipe => {
                if let Some(mut chunk) = w.input.pop_front() {
                    let n = chunk.len().min(buf.len());
                    buf[..n].copy_from_slice(&chunk[..n]);
                    if n < chunk.len() {
                        let rest = chunk.split_off(n);
                        w.input.push_front(rest);
                    }
                    w.bytes_read += n;
                    progress();
                    return Ok(n);
                }
                if w.input_err {
                    return Err(errno(EIO));
                }
                if w.input_eof {
                    return Ok(0);
                }
            }
            Obj::PipeR(p) => {
                if !w.pipes[p].0.is_empty() {
                    let n = w.pipes[p].0.len().min(buf.len());
                    for b in buf.iter_mut().take(n) {
                        *b = w.pipes[p].0.pop_front().unwrap();
                    }
                    return Ok(n);
                }
                if w.pipes[p].1 == 0 {
                    return Ok(0);
                }
            }
            _ => unreachable!(),
        }
        if intr {
            let restart = w.sigs.values().any(|d| matches!(d, SigDisp::Handler(_, true)));
            if restart {
                continue;
            }
            return Err(errno(EINTR));
        }
    }
}

pub fn sys_write(fd: i32, buf: &[u8]) -> io::Result<usize> {
    if teardown() {
        return Ok(buf.len());
    }
    point("write");
    if buf.is_empty() {
        return Ok(0);
    }
    let w = world();
    let obj = *w.fds.get(&fd).ok_or_else(|| errno(EBADF))?;
    progress();
    if fd == 2 {
        w.stderr.extend_from_slice(buf);
    }
    match obj {
        Obj::Tty | Obj::OutPipe => {
            if fd == 1 {
                w.touch();
                let k = w.out_writes;
                w.out_writes += 1;
                if let Some(f) = w.fail_write_at {
                    if k >= f && k - f < w.fail_writes {
                        if k == f && w.fail_partial && buf.len() > 1 {
                            let half = &buf[..buf.len() / 2];
                            if obj == Obj::Tty {
                                w.tty_write(half);
                            } else {
                                w.out.extend_from_slice(half);
                            }
                            return Ok(half.len());
                        }
                        return Err(errno(if obj == Obj::Tty { EIO } else { EPIPE }));
                    }
                }
            }
            if obj == Obj::Tty {
                w.tty_write(buf);
            } else {
                w.hash_out(buf);
                w.out.extend_from_slice(buf);
            }
            Ok(buf.len())
        }
        Obj::PipeW(p) => {
            w.pipes[p].0.extend(buf.iter().copied());
            Ok(buf.len())
        }
        _ => Err(errno(EBADF)),
    }
}

fn free_fd(w: &World) -> i32 {
    (0..).find(|i| !w.fds.contains_key(i)).unwrap()
}
fn release(w: &mut World, o: Obj) {
    if let Obj::PipeW(p) = o {
        w.pipes[p].1 -= 1;
        progress();
    }
}
fn retain(w: &mut World, o: Obj) {
    if let Obj::PipeW(p) = o {
        w.pipes[p].1 += 1;
    }
}
fn may_fail() -> io::Result<()> {
    match &mut world().fail_dup_at {
        Some(0) => {
            world().fail_dup_at = None;
            Err(errno(EMFILE))
        }
        Some(n) => {
            *n -= 1;
            Ok(())
        }
        None => Ok(()),
    }
}
pub fn sys_pipe() -> io::Result<(i32, i32)> {
    point("pipe");
    may_fail()?;
    let w = world();
    w.pipes.push((VecDeque::new(), 1));
    let p = w.pipes.len() - 1;
    let r = free_fd(w);
    w.fds.insert(r, Obj::PipeR(p));
    let t = free_fd(w);
    w.fds.insert(t, Obj::PipeW(p));
    Ok((r, t))
}
pub fn sys_dup(fd: i32) -> io::Result<i32> {
    point("dup");
    may_fail()?;
    let w = world();
    let o = *w.fds.get(&fd).ok_or_else(|| errno(EBADF))?;
    let n = free_fd(w);
    w.fds.insert(n, o);
    retain(w, o);
    Ok(n)
}
pub fn sys_dup2(old: i32, new: i32) -> io::Result<i32> {
    point("dup2");
    may_fail()?;
    let w = world();
    let o = *w.fds.get(&old).ok_or_else(|| errno(EBADF))?;
    if old == new {
        return Ok(new);
    }
    retain(w, o);
    if let Some(x) = w.fds.insert(new, o) {
        release(w, x);
    }
    Ok(new)
}
pub fn sys_close(fd: i32) -> io::Result<()> {
    if teardown() {
        return Ok(());
    }
    point("close");
    let w = world();
    match w.fds.remove(&fd) {
        Some(o) => {
            release(w, o);
            Ok(())
        }
        None => Err(errno(EBADF)),
    }
}

pub const SIGHUP: i32 = 1;
pub const SIGSTOP: i32 = 19;
pub const SIGTSTP: i32 = 20;
pub const SIGCONT: i32 = 18;
pub const SIGCHLD: i32 = 17;
pub const SIGWINCH: i32 = 28;
pub const SIGURG: i32 = 23;

pub fn sigaction(sig: i32, d: SigDisp) -> SigDisp {
    point("sigaction");
    progress();
    match d {
        SigDisp::Default => world().sigs.remove(&sig).unwrap_or(SigDisp::Default),
        d => world().sigs.insert(sig, d).unwrap_or(SigDisp::Default),
    }
}

pub fn deliver(sig: i32, thread: Option<usize>) {
    point("kill");
    progress();
    let disp = world().sigs.get(&sig).copied().unwrap_or(SigDisp::Default);
    if sig == SIGSTOP || (sig == SIGTSTP && matches!(disp, SigDisp::Default)) {
        let w = world();
        let s = Stop { modes: w.modes(), term: w.term.clone() };
        w.stops.push(s);
        let t = w.shell_text.clone();
        w.tty_write(t.as_bytes());
        let n = w.stop_nanos;
        rt::rt().now += n;
        return;
    }
    match disp {
        SigDisp::Ignore => (),
        SigDisp::Handler(f, _) => {
            f(sig);
            if let Some(t) = thread {
                if let Some(t) = rt::rt().threads.get_mut(t) {
                    if t.in_syscall {
                        t.interrupted = true;
                    }
                }
            }
        }
        SigDisp::Default => {
            if ![SIGCONT, SIGCHLD, SIGWINCH, SIGURG, 0].contains(&sig) {
                die(Failure::Killed(format!("signal {sig}")));
            }
        }
    }
}

pub fn default_hook(info: &PanicHookInfo<'_>) {
    if !rt::active() || teardown() {
        return;
    }
    let msg = rt::payload_text(info.payload());
    let w = world();
    let m = w.modes();
    w.default_panics.push((msg.clone(), m));
    let line = format!("thread panicked:\n{msg}\n");
    w.stderr.extend_from_slice(line.as_bytes());
}

pub(crate) fn run_panic_hook(info: &PanicHookInfo<'_>) {
    let p: Option<*const (dyn Fn(&PanicHookInfo<'_>) + Sync + Send)> =
        world().panic_hook.as_ref().map(|h| &**h as *const _);
    match p {
        Some(h) => unsafe { (*h)(info) },
        None => default_hook(info),
    }
}
