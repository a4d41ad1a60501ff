//! Simulated panic hooks.
pub use ::std::panic::*;
use crate::rt::{self, world};
pub type Hook = crate::world::Hook;
pub fn set_hook(h: Hook) {
    if rt::teardown() {
        std::mem::forget(h);
        return;
    }
    rt::point("set_hook");
    if rt::rt().in_hook {
        panic!("cannot modify the panic hook from a panicking thread");
    }
    rt::block_until("set_hook", None, &rt::no_hook_runs);
    let old = world().panic_hook.replace(h);
    drop(old);
}
pub fn take_hook() -> Hook {
    if rt::teardown() {
        return Box::new(crate::world::default_hook);
    }
    rt::point("take_hook");
    if rt::rt().in_hook {
        panic!("cannot modify the panic hook from a panicking thread");
    }
    rt::block_until("take_hook", None, &rt::no_hook_runs);
    world().panic_hook.take().unwrap_or_else(|| Box::new(crate::world::default_hook))
}
pub fn catch_unwind<F: FnOnce() -> R + UnwindSafe, R>(f: F) -> std::thread::Result<R> {
    ::std::panic::catch_unwind(f).map_err(rt::filter_unwind)
}
