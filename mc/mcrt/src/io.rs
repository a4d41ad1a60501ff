//! Simulated standard streams.
pub use ::std::io::*;
use crate::rt::{teardown, world};
use crate::world::{sys_read, sys_write};
use ::std::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};

pub trait IsTerminal {
    fn is_terminal(&self) -> bool;
}

#[derive(Debug)]
pub struct Stdin(());
#[derive(Debug)]
pub struct StdinLock<'a>(std::marker::PhantomData<(&'a (), *const ())>);
pub fn stdin() -> Stdin {
    Stdin(())
}
impl Stdin {
    pub fn lock(&self) -> StdinLock<'static> {
        if !teardown() {
            world().stdin_lock.lock("Stdin::lock");
        }
        StdinLock(std::marker::PhantomData)
    }
    pub fn read_line(&self, s: &mut String) -> Result<usize> {
        self.lock().read_line(s)
    }
    pub fn lines(self) -> Lines<StdinLock<'static>> {
        self.lock().lines()
    }
}
impl Drop for StdinLock<'_> {
    fn drop(&mut self) {
        if crate::rt::active() {
            world().stdin_lock.unlock();
        }
    }
}
impl Read for Stdin {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.lock().read(b)
    }
}
impl Read for StdinLock<'_> {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        if teardown() {
            return Ok(0);
        }
        if world().stdin_buf.is_empty() && b.len() >= 8192 {
            return sys_read(0, b);
        }
        let avail = self.fill_buf()?;
        let n = avail.len().min(b.len());
        b[..n].copy_from_slice(&avail[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for StdinLock<'_> {
    fn fill_buf(&mut self) -> Result<&[u8]> {
        if teardown() {
            return Ok(&[]);
        }
        if world().stdin_buf.is_empty() {
            let mut b = vec![0u8; 8192];
            let n = sys_read(0, &mut b)?;
            world().stdin_buf.extend(&b[..n]);
        }
        Ok(world().stdin_buf.make_contiguous())
    }
    fn consume(&mut self, n: usize) {
        if !teardown() {
            world().stdin_buf.drain(..n);
        }
    }
}

fn lock_out() {
    if teardown() {
        return;
    }
    let me = crate::rt::current();
    let free = || world().stdout_lock.map_or(true, |l| l.0 == me);
    match world().stdout_lock {
        Some((holder, _)) if holder != me && crate::rt::in_hook() => crate::rt::hook_waits(holder, &free),
        _ => {
            crate::rt::block_until("Stdout::lock", None, &free);
        }
    }
    if !teardown() {
        let n = world().stdout_lock.map_or(0, |l| l.1);
        world().stdout_lock = Some((me, n + 1));
    }
}
fn unlock_out() {
    if teardown() {
        return;
    }
    if let Some((me, n)) = world().stdout_lock {
        world().stdout_lock = if n > 1 { Some((me, n - 1)) } else { None };
        crate::rt::progress();
    }
}
fn locked<R>(f: impl FnOnce() -> R) -> R {
    struct Un;
    impl Drop for Un {
        fn drop(&mut self) {
            unlock_out()
        }
    }
    lock_out();
    let _u = Un;
    f()
}

const CAP: usize = 1024;
fn flush_out() -> Result<()> {
    while !world().stdout_buf.is_empty() {
        let b = world().stdout_buf.clone();
        match sys_write(1, &b) {
            Ok(0) => return Err(Error::new(ErrorKind::WriteZero, "failed to write the buffered data")),
            Ok(n) => {
                let w = world();
                let n = n.min(w.stdout_buf.len());
                w.stdout_buf.drain(..n);
            }
            Err(e) if e.kind() == ErrorKind::Interrupted => (),
            Err(e) => return Err(e),
        }
        if teardown() {
            break;
        }
    }
    Ok(())
}
fn buffer(data: &[u8]) -> Result<()> {
    if world().stdout_buf.len() + data.len() > CAP {
        flush_out()?;
    }
    if data.len() >= CAP {
        let mut d = data;
        while !d.is_empty() {
            let n = sys_write(1, d)?;
            d = &d[n..];
        }
    } else {
        world().stdout_buf.extend_from_slice(data);
    }
    Ok(())
}
fn write_out(data: &[u8]) -> Result<()> {
    locked(|| write_locked(data))
}
fn write_locked(data: &[u8]) -> Result<()> {
    if teardown() {
        return Ok(());
    }
    match data.iter().rposition(|b| *b == b'\n') {
        None => {
            if world().stdout_buf.last() == Some(&b'\n') {
                flush_out()?;
            }
            buffer(data)
        }
        Some(i) => {
            buffer(&data[..=i])?;
            flush_out()?;
            buffer(&data[i + 1..])
        }
    }
}

macro_rules! out_stream {
    ($name:ident, $lock:ident, $ctor:ident, $fd:expr, $write:expr, $flush:expr) => {
        #[derive(Debug)]
        pub struct $name(());
        #[derive(Debug)]
        pub struct $lock<'a>(std::marker::PhantomData<&'a ()>);
        pub fn $ctor() -> $name {
            $name(())
        }
        impl $name {
            pub fn lock(&self) -> $lock<'static> {
                if $fd == 1 {
                    lock_out();
                }
                $lock(std::marker::PhantomData)
            }
        }
        impl Drop for $lock<'_> {
            fn drop(&mut self) {
                if $fd == 1 && crate::rt::active() {
                    unlock_out();
                }
            }
        }
        impl Write for $name {
            fn write(&mut self, b: &[u8]) -> Result<usize> {
                ($write)(b)?;
                Ok(b.len())
            }
            fn flush(&mut self) -> Result<()> {
                $flush
            }
            fn write_fmt(&mut self, a: std::fmt::Arguments<'_>) -> Result<()> {
                let s = std::fmt::format(a);
                ($write)(s.as_bytes())
            }
        }
        impl Write for &$name {
            fn write(&mut self, b: &[u8]) -> Result<usize> {
                ($write)(b)?;
                Ok(b.len())
            }
            fn flush(&mut self) -> Result<()> {
                $flush
            }
        }
        impl Write for $lock<'_> {
            fn write(&mut self, b: &[u8]) -> Result<usize> {
                ($write)(b)?;
                Ok(b.len())
            }
            fn flush(&mut self) -> Result<()> {
                $flush
            }
        }
    };
}
fn werr(b: &[u8]) -> Result<()> {
    if teardown() {
        return Ok(());
    }
    sys_write(2, b)?;
    Ok(())
}
out_stream!(Stdout, StdoutLock, stdout, 1, write_out, {
    if teardown() {
        Ok(())
    } else {
        locked(flush_out)
    }
});
out_stream!(Stderr, StderrLock, stderr, 2, werr, Ok(()));

macro_rules! fds {
    ($($t:ty = $fd:expr),*) => {$(
        impl AsRawFd for $t { fn as_raw_fd(&self) -> RawFd { $fd } }
        impl AsFd for $t { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw($fd) } } }
        impl IsTerminal for $t { fn is_terminal(&self) -> bool { !teardown() && world().is_tty($fd) } }
    )*}
}
fds!(Stdin = 0, StdinLock<'_> = 0, Stdout = 1, StdoutLock<'_> = 1, Stderr = 2, StderrLock<'_> = 2);

pub fn _print(a: std::fmt::Arguments<'_>) {
    if let Err(e) = stdout().write_fmt(a) {
        panic!("failed printing to stdout: {e}");
    }
}
pub fn _eprint(a: std::fmt::Arguments<'_>) {
    let _ = stderr().write_fmt(a);
}
