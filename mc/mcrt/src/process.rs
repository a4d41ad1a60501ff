pub use ::std::process::*;
use crate::rt::{die, Failure};
pub fn exit(code: i32) -> ! {
    die(Failure::Killed(format!("process::exit({code})")))
}
pub fn abort() -> ! {
    die(Failure::Killed("process::abort".into()))
}
