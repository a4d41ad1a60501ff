//! Whether a stream is the simulated terminal.
use std::os::unix::io::AsRawFd;

pub trait IsTty {
    fn is_tty(&self) -> bool;
}
impl<S: AsRawFd> IsTty for S {
    fn is_tty(&self) -> bool {
        !mcrt::rt::teardown() && mcrt::rt::world().is_tty(self.as_raw_fd())
    }
}
