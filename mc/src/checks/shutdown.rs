//! P07, P29: giving everything back, in good times and in bad.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;

use liso::{Completion, Completor, InputOutput, Output, Response};
use mcrt::rt::{self, Opts};
use mcrt::term::{Row, Term};
use mcrt::thread;
use mcrt::world::{type_bytes, type_eof};

use super::life::{end, end_name, given_back, mark, restored, works, works_again, ENDS};
use super::screen::filled;
use super::threads::{is_pipe, worlds, STOPPED};
use super::util::{Shared, Words};
use crate::engine::{fail, Check, Ctx, Family, Res, Scen};
use crate::line::{bg, fg, look, show_row, st, t, Show, BOLD, INV, L, UNDER};
use crate::model::{show_ops, Ans, Comp, Key, Op, MS};
use crate::sess::{cfg, exec, exec_with, output_op, same, Cfg, Sess};

/// After shutdown: input and mode are given back, and (if the terminal works) everything else.
pub fn returned(writable: bool) -> Res {
    given_back(writable, false)
}

/// One thing that happens.
#[derive(Clone, Debug, Hash)]
enum Step {
    Op(Op),
    /// bytes the user types, in one read
    Type(&'static [u8]),
    Eof,
    /// everything settles
    Rest,
}
impl Step {
    fn show(&self) -> String {
        match self {
            Step::Op(o) => o.show(),
            s => format!("{s:?}"),
        }
    }
}
fn show_steps(v: &[Step]) -> String {
    v.iter().map(|s| s.show()).collect::<Vec<_>>().join("; ")
}
fn spec_lines(m: &mut crate::model::Model, s: &Step) {
    if let Step::Op(o @ (Op::Print(_) | Op::Wrap(_) | Op::Echo(_) | Op::Suspend(_))) = s {
        m.apply(o);
    }
}
fn plain_out(v: &mut Vec<u8>, s: &Step) {
    match s {
        Step::Op(Op::Print(l) | Op::Wrap(l)) => {
            v.extend(l.real().as_str().bytes());
            v.push(b'\n');
        }
        Step::Op(Op::Suspend(s)) => v.extend(s.bytes()),
        _ => (),
    }
}

/// Steps, then the end: what is left of it?
fn ended(c: &Cfg, setup: &[Op], steps: &[Step], how: usize) -> Res {
    mark();
    let pipe = is_pipe();
    let mut s = Sess::new(c);
    for o in setup {
        s.op(o);
        if o.is_key() {
            rt::settle();
        }
    }
    rt::settle();
    let mut out = vec![];
    let cleared = steps.iter().any(|s| matches!(s, Step::Type(b) if b.contains(&12)));
    for x in steps {
        match x {
            Step::Op(o @ Op::Suspend(text)) if pipe => {
                let (text, _) = (text.clone(), o);
                s.io().suspend_and_run(move || rt::world().tty_write_or_pipe(text.as_bytes()))
            }
            Step::Op(Op::Suspend(text)) => {
                let text = text.clone();
                s.io().suspend_and_run(move || rt::world().tty_write(text.as_bytes()))
            }
            Step::Op(o) => s.real(o),
            Step::Type(b) => type_bytes(b),
            Step::Eof => type_eof(),
            Step::Rest => rt::settle(),
        }
        spec_lines(&mut s.m, x);
        plain_out(&mut out, x);
    }
    let io = s.io.take().unwrap();
    end(io, how);
    restored(true)?;
    if pipe {
        if super::pipe::written() != out {
            return fail("output", format!("{:?} was written instead of {:?}", String::from_utf8_lossy(&super::pipe::written()), String::from_utf8_lossy(&out)));
        }
    } else if cleared {
        // how much had been printed when the screen was cleared is not said
        for (i, r) in rt::world().term.all_rows().iter().enumerate() {
            let text = Term::row_text(r);
            if ["> ", "stat", "note", "foo"].iter().any(|p| text.starts_with(p)) {
                return fail("left", format!("row {i} shows {} after shutdown", show_row(r)));
            }
        }
    } else {
        let rows = rt::world().term.all_rows();
        let blank: Row = vec![c.show.blank(); c.w];
        for i in 0..rows.len().max(s.m.committed.len()) {
            let want = s.m.committed.get(i).unwrap_or(&blank);
            let have = rows.get(i).unwrap_or(&blank);
            let ok = if i < s.m.committed.len() { same(have, want, true) } else { have.iter().zip(want).all(|(a, b)| look(a) == look(b)) };
            if !ok {
                return fail("left", format!("row {i} shows {} instead of {} after shutdown:\n{}", show_row(have), show_row(want), rt::world().term.dump()));
            }
        }
    }
    // what nobody read is the next reader's
    rt::world().input.clear();
    rt::world().stdin_buf.clear();
    if !rt::world().input_eof {
        works_again(!pipe)?;
        restored(true)?;
    }
    Ok(())
}

fn p07(thorough: bool) -> Check {
    let styled = vec![
        Op::Status(Some(st(UNDER, "status").and(bg(4, "x")))),
        Op::Prompt(st(BOLD, "> ").and(bg(2, "")), true, false),
        super::screen::typed("foo bar baz quux zot"),
        Op::Key(crate::model::ctl('A')),
    ];
    let mut cfgs: Vec<(String, Cfg, Vec<Op>)> = vec![
        ("12x6".into(), cfg(12, 6), vec![]),
        ("12x6 typed".into(), cfg(12, 6).hist(&["old"]), filled()),
        ("9x8 styled".into(), cfg(9, 8), styled.clone()),
        ("12x6 VT52".into(), cfg(12, 6).show(Show::Vt52(16, false)), filled()),
        ("12x6 VT52 white on black".into(), cfg(12, 6).show(Show::Vt52(16, true)), filled()),
    ];
    let pipe_setup = vec![];
    for (n, c) in worlds().into_iter().skip(2) {
        cfgs.push((n.into(), c, pipe_setup.clone()));
    }
    let ops = vec![
        Step::Op(Op::Print(t("abc"))),
        Step::Op(Op::Print(bg(3, "fill\nx"))),
        Step::Op(Op::Wrap(fg(2, "some words to be wrapped"))),
        Step::Op(Op::Status(Some(st(INV, "stat\nus")))),
        Step::Op(Op::Prompt(bg(6, "> "), true, true)),
        Step::Op(Op::Prompt(st(INV, "> no "), false, false)),
        Step::Op(Op::Notice(bg(1, "note"), 1000)),
        Step::Op(Op::Notice(t("note"), 0)),
        Step::Op(Op::Notice(t("note"), u64::MAX)),
        Step::Op(Op::Bell),
        Step::Op(Op::Suspend("sub\n".into())),
        Step::Op(Op::Custom(3)),
        Step::Op(Op::Completor(Some(Comp { id: 1, ans: Ans::Print("said".into()) }))),
        Step::Type(b"x"),
        Step::Type(b"yes\r\n"),
        Step::Type(b"\x1b"),
        Step::Type(b"\x1b[1;"),
        Step::Type(b"\xe4\xbd"),
        Step::Type(b"\x04"),
        Step::Type(b"\x0c"),
        Step::Type(b"ab\x03\x14cd"),
        Step::Eof,
        Step::Rest,
    ];
    let w = Words { a: ops.len() as u64, min: 0, max: if thorough { 3 } else { 2 } };
    let nc = (cfgs.len() * ENDS) as u64;
    let (al, c2, cfgs5, cfgs6) = (ops.clone(), cfgs.clone(), cfgs.clone(), cfgs.clone());
    let get = move |i: u64| {
        let k = i % nc;
        let v: Vec<Step> = w.get(i / nc).iter().map(|&k| al[k].clone()).collect();
        (k as usize / ENDS, k as usize % ENDS, v)
    };
    let g2 = get.clone();
    let f1 = Family::seq(
        "calls",
        "every sequence of calls, keys and pieces of keys, then shutting down in every way, at once or after settling",
        nc * w.total(),
        move |i, ctx: &mut Ctx| {
            let (c, e, v) = get(i);
            let (_, c, setup) = cfgs[c].clone();
            ctx.transitions += v.len() as u64;
            ctx.state(&(i % nc, &v));
            exec(c.world(), ctx, move || ended(&c, &setup, &v, e))
        },
        move |i| {
            let (c, e, v) = g2(i);
            format!("{}: [{}] then {}, then {}", c2[c].0, show_ops(&c2[c].2), show_steps(&v), end_name(e))
        },
    );
    // every response that nobody has read, and every two of them
    let keys: Vec<&'static [u8]> = (0u8..0x20)
        .filter(|b| ![0x0c, 0x1a].contains(b))
        .chain([0x7f])
        .map(|b| &*Box::leak(Box::new([b])) as &'static [u8])
        .chain([b"\xc2\x80" as &[u8], b"\xc2\x9f", b"a", b"\x1b[A", b"\x1bOP"])
        .collect();
    let nk = keys.len() as u64 + 1;
    let waiting = move |i: u64| {
        let step = |k: u64| match keys.get(k as usize) {
            Some(b) => Step::Type(b),
            None => Step::Op(Op::Custom(5)),
        };
        let (j, c, e) = (i / nc, (i % nc) as usize / ENDS, (i % nc) as usize % ENDS);
        let v = match (j % 2, j / 2) {
            (0, k) if k < nk => vec![step(k)],
            (1, k) if k < nk => vec![step(k), Step::Rest],
            (0, k) => vec![step((k - nk) / nk), Step::Rest, step((k - nk) % nk), Step::Rest],
            (_, k) => vec![step((k - nk) / nk), step((k - nk) % nk), Step::Rest, Step::Op(Op::Print(t("abc")))],
        };
        (c, e, v)
    };
    let waiting2 = waiting.clone();
    let f4 = Family::seq(
        "unread",
        "every one and two keys and control characters, and what they make unread, then shutting down in every way",
        nc * 2 * (nk + nk * nk),
        move |i, ctx: &mut Ctx| {
            let (c, e, v) = waiting(i);
            let (_, c, setup) = cfgs5[c].clone();
            ctx.transitions += v.len() as u64;
            ctx.state(&(i % nc, &v));
            exec(c.world(), ctx, move || ended(&c, &setup, &v, e))
        },
        move |i| {
            let (c, e, v) = waiting2(i);
            format!("{}: [{}] then {}, then {}", cfgs6[c].0, show_ops(&cfgs6[c].2), show_steps(&v), end_name(e))
        },
    );
    // generations
    let gens = if thorough { 40u64 } else { 12 };
    let f2 = Family::seq(
        "generations",
        "up to that many instances one after the other, ended in every pattern of ways",
        5 * gens * 9,
        move |i, ctx: &mut Ctx| {
            let (w, n, pat) = (i % 5, i / 5 % gens + 1, i / 5 / gens);
            ctx.state(&i);
            ctx.transitions += n;
            let c = worlds()[w as usize].1.clone();
            exec(c.world(), ctx, move || {
                mark();
                let pipe = is_pipe();
                for g in 0..n {
                    let mut io = InputOutput::new();
                    io.prompt("> ", true, false);
                    io.println(format!("gen {g}"));
                    type_bytes(if pipe { b"k\n" } else { b"k\r" });
                    rt::settle();
                    let mut got = vec![];
                    super::pipe::drain(&mut io, &mut got)?;
                    if got != ["Input(\"k\")"] {
                        return fail("input", format!("instance {g} got {got:?}"));
                    }
                    end(io, if g % 2 == 0 { pat as usize % 3 } else { pat as usize / 3 });
                    restored(true)?;
                }
                Ok(())
            })
        },
        move |i| format!("{}, {} instances, pattern {}", worlds()[(i % 5) as usize].0, i / 5 % gens + 1, i / 5 / gens),
    );
    // schedules
    let mut scens = vec![];
    for (wn, wc) in worlds().into_iter().take(4) {
        let pipe = !matches!(wn, "tty" | "VT52");
        for e in 0..ENDS {
            for kind in Busy::all() {
                if pipe && matches!(kind, Busy::Notice | Busy::Completor | Busy::Escape) {
                    continue;
                }
                if wn == "stdin piped" && !matches!(kind, Busy::Typing | Busy::Nothing) {
                    continue;
                }
                let c = wc.clone();
                scens.push(Scen {
                    name: format!("{wn}, {} while {}", end_name(e), kind.name()),
                    bound: if thorough { 4 } else { 3 },
                    run: Box::new(move |devs, ctx| {
                        let o = if matches!(kind, Busy::Notice | Busy::Escape) { Opts::explore().timers() } else { Opts::explore() };
                        exec_with(&o, devs, c.world(), ctx, move || busy(kind, e))
                    }),
                });
            }
        }
    }
    let f3 = Family::sched_free("busy", "every schedule of shutting down while the rest is busy, and of starting again", scens, super::util::free_bound(thorough));
    Check {
        families: vec![f1, f4, f2, f3],
        rule: "shutting down completes; by the time it does raw mode is off, cursor, wrapping, colours and styles are normal, standard input is the original one and nobody reads it; all threads end, handlers and panic hook are as before; the screen shows exactly what was printed; a new instance works".into(),
        assumptions: vec!["the crossterm event back end, which cannot be interrupted, is not in use".into()],
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Busy {
    Nothing,
    Typing,
    Escape,
    Printing,
    Suspended,
    Notice,
    Completor,
    Fresh,
    Eof,
}
impl Busy {
    fn all() -> Vec<Busy> {
        use Busy::*;
        vec![Nothing, Typing, Escape, Printing, Suspended, Notice, Completor, Fresh, Eof]
    }
    fn name(self) -> &'static str {
        match self {
            Busy::Nothing => "nothing happens",
            Busy::Typing => "the user types",
            Busy::Escape => "an escape sequence is coming in",
            Busy::Printing => "another thread prints",
            Busy::Suspended => "a function runs suspended",
            Busy::Notice => "notices run out",
            Busy::Completor => "a completor runs",
            Busy::Fresh => "everything is just starting",
            Busy::Eof => "standard input ends",
        }
    }
}
struct Slow;
impl Completor for Slow {
    fn complete(&mut self, out: &Output, _: &str, _: usize, _: std::num::NonZeroU32) -> Option<Completion> {
        rt::point("completing");
        out.println("a1");
        Some(Completion::InsertAtCursor { text: "completed".into() })
    }
}
fn busy(kind: Busy, e: usize) -> Res {
    rt::exploring(false);
    rt::world().tolerate.push(STOPPED);
    mark();
    let pipe = is_pipe();
    if kind == Busy::Fresh {
        rt::exploring(true);
    }
    let io = InputOutput::new();
    io.status(Some(st(UNDER, "status")).map(|l: L| l.real()));
    io.prompt(st(INV, "> ").real(), true, false);
    let mut lines = vec!["a1".to_string()];
    let other = Shared::new(RefCell::new(None));
    if kind != Busy::Fresh {
        rt::settle();
        rt::exploring(true);
    }
    match kind {
        Busy::Nothing | Busy::Fresh => io.println("a1"),
        Busy::Typing => {
            type_bytes(if pipe { b"ab\ncd" } else { b"ab\rcd" });
            io.println("a1");
            type_bytes(if pipe { b"\n" } else { b"x\x03" });
        }
        Busy::Escape => {
            type_bytes(b"a\x1b");
            io.println("a1");
            rt::point("between");
            type_bytes(b"[D");
        }
        Busy::Printing => {
            io.println("a1");
            let o = io.clone_output();
            *other.borrow_mut() = Some(thread::spawn(move || {
                for i in 1..=3 {
                    o.println(format!("b{i}"));
                }
            }));
        }
        Busy::Suspended => {
            io.println("a1");
            io.suspend_and_run(|| {
                rt::point("suspended");
                rt::point("suspended");
                rt::world().tty_write_or_pipe(b"s1\n");
            });
            type_bytes(b"k");
            lines.push("s1".into());
        }
        Busy::Notice => {
            io.println("a1");
            io.notice("note", Duration::from_millis(3));
            io.notice("note", Duration::from_millis(1));
        }
        Busy::Completor => {
            io.set_completor(Some(Box::new(Slow)));
            rt::settle();
            type_bytes(b"x\t");
            rt::settle();
            type_bytes(b"\r");
            lines = vec!["a1".into()];
        }
        Busy::Eof => {
            io.println("a1");
            type_eof();
        }
    }
    end(io, e);
    rt::exploring(false);
    {
        let w = rt::world();
        if w.raw || !w.modes().normal() {
            return fail("modes", format!("the terminal is left in {:?}", w.modes()));
        }
    }
    if let Some(h) = other.borrow_mut().take() {
        let _ = h.join();
    }
    restored(true)?;
    let rows: Vec<String> = if pipe {
        String::from_utf8_lossy(&super::pipe::written()).lines().map(|s| s.to_string()).collect()
    } else {
        rt::world().term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string()).filter(|r| !r.is_empty()).collect()
    };
    let mine: Vec<&String> = rows.iter().filter(|r| !r.starts_with('b')).collect();
    let theirs: Vec<String> = rows.iter().filter(|r| r.starts_with('b')).cloned().collect();
    let want: Vec<String> = (1..=theirs.len()).map(|i| format!("b{i}")).collect();
    if mine != lines.iter().collect::<Vec<_>>() || theirs != want || (kind != Busy::Printing && !theirs.is_empty()) {
        return fail("left", format!("{rows:?} is on screen after shutdown"));
    }
    rt::world().input.clear();
    rt::world().stdin_buf.clear();
    if kind != Busy::Eof {
        works_again(!pipe)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ P29

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
enum Pn {
    Print,
    Status,
    Styled,
    Notice,
    Key,
    Enter,
    /// a function of the application panics, on its own thread
    User,
    Thread,
    /// in a suspended function, in a completor
    Suspended,
    Completor,
    /// no panic
    Suspend,
    Rest,
    End(usize),
    /// creating a second instance panics
    Second,
}
const EXPECTED: &str = "expected: ";
struct Bad;
impl Completor for Bad {
    fn complete(&mut self, _: &Output, _: &str, _: usize, _: std::num::NonZeroU32) -> Option<Completion> {
        panic!("expected: completor")
    }
}
fn user_panic(what: &'static str) {
    // the panicking thread takes the lock of standard output first thing, so it may as well be free
    super::life::wait_for("stdout", || rt::world().stdout_lock.is_none());
    let r = catch_unwind(AssertUnwindSafe(|| panic!("expected: {what}")));
    let _ = r.map_err(rt::filter_unwind);
}
fn all_normal() -> Res {
    for (m, modes) in &rt::world().default_panics {
        if !modes.normal() {
            return fail("panic-modes", format!("while {m:?} was reported the terminal was in {modes:?}"));
        }
    }
    Ok(())
}
fn panicky(ops: &[Pn]) -> Res {
    rt::world().tolerate.extend([EXPECTED, STOPPED, "Tried to have multiple"]);
    mark();
    let mut io: Option<InputOutput> = Some(InputOutput::new());
    let mut worker_gone = false;
    let dead = |io: &mut Option<InputOutput>| matches!(io.as_mut().and_then(|i| i.try_read()), Some(Response::Dead));
    for p in ops {
        let n = rt::world().default_panics.len();
        let hooks = || rt::world().log.iter().filter(|l| *l == "hook 1150").count();
        let h0 = hooks();
        let mut panics = 0;
        let mut own_hook = false;
        if io.is_none() && !matches!(p, Pn::User | Pn::Thread) {
            io = Some(InputOutput::new());
            worker_gone = false;
        }
        let o = io.as_ref().map(|i| i.clone_output());
        let call = |f: &dyn Fn(&liso::OutputOnly)| {
            let o = o.as_ref().unwrap();
            catch_unwind(AssertUnwindSafe(|| f(o))).map_err(rt::filter_unwind).is_ok()
        };
        let mut ok = true;
        match p {
            Pn::Print => ok = call(&|o| o.println("line")),
            Pn::Status => ok = call(&|o| o.status(Some("status"))),
            Pn::Styled => {
                ok = call(&|o| {
                    output_op(o, &Op::Print(st(INV, "inv").and(fg(1, "red"))));
                    output_op(o, &Op::Prompt(st(BOLD, "> ").and(bg(2, "")), true, false));
                })
            }
            Pn::Notice => ok = call(&|o| o.notice("note", Duration::from_millis(50))),
            Pn::Key => type_bytes(b"k"),
            Pn::Enter => type_bytes(b"\r"),
            Pn::User => {
                user_panic("user");
                panics = 1;
                own_hook = io.is_none();
            }
            Pn::Thread => {
                let h = thread::spawn(|| {
                    super::life::wait_for("stdout", || rt::world().stdout_lock.is_none());
                    panic!("expected: thread")
                });
                let _ = h.join();
                panics = 1;
                own_hook = io.is_none();
            }
            Pn::Suspended => {
                ok = call(&|o| o.suspend_and_run(|| panic!("expected: suspended")));
                if ok {
                    panics = 1;
                    own_hook = true;
                    worker_gone = true;
                }
            }
            Pn::Suspend => ok = call(&|o| o.suspend_and_run(|| rt::world().tty_write(b"sub\n"))),
            Pn::Completor => {
                ok = call(&|o| o.set_completor(Some(Box::new(Bad))));
                if ok {
                    rt::settle();
                    type_bytes(b"\t");
                    panics = 1;
                    worker_gone = true;
                }
            }
            Pn::Rest => rt::settle(),
            Pn::Second => {
                let r = catch_unwind(AssertUnwindSafe(InputOutput::new)).map_err(rt::filter_unwind);
                if r.is_ok() {
                    return fail("two", "a second instance was created");
                }
                panics = 1;
                own_hook = false;
            }
            Pn::End(e) => {
                end(io.take().unwrap(), *e);
                restored(true)?;
            }
        }
        let _ = ok;
        all_normal()?;
        if matches!(p, Pn::Suspended | Pn::Completor) {
            rt::settle();
            all_normal()?;
            if panics > 0 && !worker_gone {
                return fail("panic", "no panic");
            }
        }
        let reported = rt::world().default_panics.iter().skip(n).filter(|x| x.0.starts_with(EXPECTED)).count();
        if panics > 0 && !matches!(p, Pn::Second) && reported < 1 {
            // a worker that is dead already does not panic again
            if !(worker_gone && matches!(p, Pn::Suspended | Pn::Completor)) {
                return fail("unreported", format!("the panic of {p:?} was reported {reported} times"));
            }
        }
        if own_hook && reported > 0 && hooks() == h0 {
            return fail("hook", format!("the panic hook in force for {p:?} is not the one that was installed before"));
        }
    }
    if worker_gone {
        rt::settle();
        if io.is_some() && !(0..4).any(|_| dead(&mut io)) {
            return fail("dead", "the output thread has panicked and Dead is not reported");
        }
    }
    drop(io);
    all_normal()?;
    rt::world().input.clear();
    restored(true)?;
    works(true, false)?;
    restored(true)
}

fn p29(thorough: bool) -> Check {
    let alpha = vec![
        Pn::Print,
        Pn::Status,
        Pn::Styled,
        Pn::Notice,
        Pn::Key,
        Pn::Enter,
        Pn::User,
        Pn::Thread,
        Pn::Suspended,
        Pn::Completor,
        Pn::Suspend,
        Pn::Rest,
        Pn::End(0),
        Pn::End(1),
        Pn::End(2),
        Pn::Second,
    ];
    let w = Words { a: alpha.len() as u64, min: 1, max: if thorough { 5 } else { 4 } };
    let ws: Vec<(&str, Cfg)> = vec![
        ("tty", cfg(14, 8)),
        ("VT52", cfg(14, 8).show(Show::Vt52(16, false))),
        ("VT52 white on black", cfg(14, 8).show(Show::Vt52(16, true))),
    ];
    let n = 3;
    let (al, ws2) = (alpha.clone(), ws.clone());
    let f1 = Family::seq(
        "panics",
        "every sequence of calls, keys, suspensions, instances and panics of every thread",
        w.total() * n,
        move |i, ctx: &mut Ctx| {
            let v: Vec<Pn> = w.get(i / n).iter().map(|&k| alpha[k]).collect();
            let c = ws[(i % n) as usize].1.clone();
            ctx.transitions += v.len() as u64;
            ctx.state(&(i % n, &v));
            exec(c.world(), ctx, move || panicky(&v))
        },
        move |i| format!("{}: {:?}", ws2[(i % n) as usize].0, w.get(i / n).iter().map(|&k| al[k]).collect::<Vec<_>>()),
    );
    let mut scens = vec![];
    for (wn, wc) in worlds().into_iter().take(2) {
        for kind in 0..4 {
            for e in [0, 2] {
                let c = wc.clone();
                scens.push(Scen {
                    name: format!(
                        "{wn}, a thread panics while {}, then {}",
                        ["another prints", "another suspends", "keys arrive", "Liso is being shut down"][kind],
                        end_name(e)
                    ),
                    bound: if thorough { 5 } else { 4 },
                    run: Box::new(move |devs, ctx| exec_with(&Opts::explore(), devs, c.world(), ctx, move || meanwhile(kind, e))),
                });
            }
        }
    }
    let f2 = Family::sched_free("threads", "every schedule of a thread's panic while Liso writes, suspends, reads or ends", scens, super::util::free_bound(thorough) + 1);
    // the terminal fails
    let f3 = super::responses::failing_writes("failing terminal", if thorough { 3 } else { 2 }, 6);
    Check {
        families: vec![f1, f2, f3],
        rule: "whenever a panic message is printed the terminal is in normal mode; while suspended and after shutdown the hook that was installed first is in force; after a panic of the output thread Dead is reported and everything is given back".into(),
        assumptions: vec!["what a panic hook does happens at once (it holds no other thread up, and no output comes between)".into()],
    }
}
fn meanwhile(kind: usize, e: usize) -> Res {
    rt::exploring(false);
    rt::world().tolerate.extend([EXPECTED, STOPPED]);
    mark();
    let io = InputOutput::new();
    io.status(Some(st(UNDER, "status")).map(|l: L| l.real()));
    io.prompt(bg(2, "> ").real(), true, false);
    rt::settle();
    rt::exploring(true);
    let h = thread::spawn(|| user_panic("thread"));
    let wrong: Shared<Cell<bool>> = Shared::default();
    match kind {
        0 => {
            io.println(st(INV, "a1").real());
            io.println("a2");
        }
        1 => {
            let w2 = wrong.clone();
            io.suspend_and_run(move || {
                let n = rt::world().log.iter().filter(|l| *l == "hook 1150").count();
                user_panic("suspended");
                if rt::world().log.iter().filter(|l| *l == "hook 1150").count() == n {
                    w2.set(true);
                }
            });
        }
        2 => type_bytes(b"key\r"),
        _ => (),
    }
    if kind < 3 {
        rt::settle();
        let _ = h.join();
        end(io, e);
        rt::exploring(false);
    } else {
        end(io, e);
        let _ = h.join();
        rt::exploring(false);
    }
    all_normal()?;
    if wrong.get() {
        return fail("hook", "the panic hook in force while suspended is not the one that was installed before");
    }
    restored(true)?;
    rt::world().input.clear();
    works(true, false)?;
    let _ = MS;
    restored(true)
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P07" => p07(thorough),
        "P29" => p29(thorough),
        _ => return None,
    })
}
#[allow(dead_code)]
fn _k(_: Key) {}
