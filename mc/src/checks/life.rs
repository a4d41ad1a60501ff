//! What is common to the checks of starting, stopping and handing over.
use std::panic::{catch_unwind, AssertUnwindSafe};

use liso::InputOutput;
use mcrt::rt;
use mcrt::world::{type_bytes, SigDisp};

use super::pipe::drain;
use crate::engine::{fail, Fail, Res};
use crate::sess::show_resp;

/// Install a panic hook that can be recognized, and a signal handler as well.
pub fn mark() {
    let id = 0x1150u32;
    mcrt::panic::set_hook(Box::new(move |info| {
        rt::world().log.push(format!("hook {id:x}"));
        mcrt::world::default_hook(info)
    }));
    rt::world().sigs.insert(1, SigDisp::Ignore);
    rt::world().sigs.insert(2, SigDisp::Ignore);
}
/// Is the hook of `mark` in force, and nothing else?
pub fn hook_restored() -> Res {
    let (n, b, m) = {
        let w = rt::world();
        w.log.retain(|l| !l.starts_with("hook"));
        (w.default_panics.len(), w.tty_bytes.len() + w.out.len() + w.stdout_buf.len(), w.modes())
    };
    let _ = catch_unwind(|| panic!("expected: who is told of this"));
    let w = rt::world();
    if !w.log.iter().any(|l| l == "hook 1150") {
        return fail("hook", "the panic hook that was installed before is not in force again");
    }
    w.log.retain(|l| !l.starts_with("hook"));
    if w.default_panics.len() != n + 1 {
        return fail("hook", format!("a panic was reported {} times", w.default_panics.len() - n));
    }
    if w.tty_bytes.len() + w.out.len() + w.stdout_buf.len() != b || w.modes() != m {
        return fail("hook", "a panic still writes to the terminal or changes its mode");
    }
    Ok(())
}
/// Everything that belongs to the terminal and the process is as it was before. (`hooked`: after
/// `mark`.)
pub fn restored(hooked: bool) -> Res {
    given_back(true, hooked)
}
/// The same; if the terminal does not work any more, without what takes writing to it.
pub fn given_back(writable: bool, hooked: bool) -> Res {
    {
        // by now already, not at some time later
        let w = rt::world();
        if w.raw {
            return fail("modes", "the terminal is left in raw mode");
        }
        if writable && !w.modes().normal() {
            return fail("modes", format!("the terminal is left in {:?}", w.modes()));
        }
        if !w.readers.is_empty() {
            return fail("stdin", "somebody still reads from standard input");
        }
        if !matches!(w.fds.get(&0), Some(mcrt::world::Obj::Tty | mcrt::world::Obj::InPipe)) {
            return fail("stdin", format!("standard input is {:?}", w.fds.get(&0)));
        }
    }
    rt::settle();
    let mut left = rt::unfinished();
    left.retain(|n| n != HELPER);
    if !left.is_empty() {
        return fail("threads", format!("threads still running: {left:?}"));
    }
    let w = rt::world();
    let m = w.modes();
    if m.raw || writable && !m.normal() {
        return fail("modes", format!("the terminal is left in {m:?}"));
    }
    if !w.readers.is_empty() {
        return fail("stdin", "somebody still reads from standard input");
    }
    let tty = w.is_tty(0);
    let fds: Vec<i32> = w.fds.keys().copied().collect();
    if fds != [0, 1, 2] {
        return fail("stdin", format!("file descriptors {fds:?} are open"));
    }
    let _ = tty;
    if !matches!(w.fds[&0], mcrt::world::Obj::Tty | mcrt::world::Obj::InPipe) {
        return fail("stdin", format!("standard input is {:?}", w.fds[&0]));
    }
    if writable && !w.stdout_buf.is_empty() {
        return fail("flush", format!("{:?} was not written out", String::from_utf8_lossy(&w.stdout_buf)));
    }
    if hooked {
        if !(w.sigs.len() == 2 && w.sigs.values().all(|d| matches!(d, SigDisp::Ignore))) {
            return fail("signals", format!("signal handlers are left as {:?}", w.sigs));
        }
        hook_restored()?;
    } else if !w.sigs.is_empty() {
        return fail("signals", format!("signal handlers are left as {:?}", w.sigs));
    }
    Ok(())
}
/// A new instance works: it reads a line and prints.
pub fn works_again(tty: bool) -> Res {
    works(tty, true)
}
/// The same on a screen on which remains of another instance may be.
pub fn works(tty: bool, clean: bool) -> Res {
    let r = catch_unwind(AssertUnwindSafe(|| -> Res {
        let mut io = InputOutput::new();
        let mut got = vec![];
        rt::settle();
        drain(&mut io, &mut got)?;
        got.clear();
        type_bytes(if tty { b"again\r" } else { b"again\n" });
        io.println("anew");
        rt::settle();
        drain(&mut io, &mut got)?;
        if !got.iter().any(|g| g == "Input(\"again\")") {
            return fail("again", format!("another instance read {got:?} instead of the line that was typed"));
        }
        drop(io);
        if tty {
            let t = &rt::world().term;
            if !t.all_rows().iter().any(|r| mcrt::term::Term::row_text(r) == "anew" || !clean && mcrt::term::Term::row_text(r).contains("anew")) {
                return fail("again", format!("another instance did not print: {}", t.dump()));
            }
        } else if !super::pipe::written().ends_with(b"anew\n") {
            return fail("again", "another instance did not print");
        }
        Ok(())
    }));
    match r {
        Ok(r) => r,
        Err(e) => {
            let e = rt::filter_unwind(e);
            fail("again", format!("another instance cannot be used: {}", rt::payload_text(&*e)))
        }
    }
}
/// The ways of shutting down.
pub const ENDS: usize = 3;
pub fn end_name(i: usize) -> &'static str {
    ["drop", "blocking_die", "die"][i]
}
pub fn end(io: InputOutput, how: usize) {
    match how {
        0 => drop(io),
        1 => io.blocking_die(),
        _ => block_on(io.die()),
    }
}
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap().block_on(f)
}
/// The same from a thread of its own that reports what was read meanwhile.
pub fn read_all(io: &mut InputOutput) -> Result<Vec<String>, Fail> {
    let mut v = vec![];
    while let Some(r) = io.try_read() {
        v.push(show_resp(&r));
        if v.len() > 1000 {
            return Err(Fail { key: "endless".into(), msg: "there is no end to the responses".into() });
        }
    }
    Ok(v)
}
/// Wait for a condition in a controlled way.
pub fn wait_for(what: &'static str, c: impl Fn() -> bool) {
    rt::block_until(what, None, &c);
}

/// The name of a thread of the harness that may outlive an instance.
pub const HELPER: &str = "helper of the harness";
