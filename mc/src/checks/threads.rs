//! P03, P08, P09: several threads, several handles, several instances.
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use liso::{InputOutput, OutputOnly};
use mcrt::rt::{self, Opts};
use mcrt::term::{Row, Term};
use mcrt::thread;
use mcrt::world::{type_bytes, World};

use super::life::{end, end_name, restored, works_again, ENDS};
use super::pipe::written;
use super::util::{Shared, Words};
use crate::engine::{fail, Check, Ctx, Family, Res, Scen};
use crate::line::{bg, fg, look, show_row, st, t, Show, BOLD, INV, L, UNDER};
use crate::model::{show_ops, Key, Model, Op};
use crate::sess::{cfg, exec, exec_with, output_op, same, Cfg, Sess};

pub const STOPPED: &str = "Liso output has stopped";
#[cfg(feature = "global")]
pub const HAVE_GLOBAL: bool = true;
#[cfg(not(feature = "global"))]
pub const HAVE_GLOBAL: bool = false;
#[cfg(feature = "global")]
pub fn global() -> OutputOnly {
    liso::output()
}
#[cfg(not(feature = "global"))]
pub fn global() -> OutputOnly {
    panic!("there is no global output")
}

/// What one thread does: through a clone of the handle, or through the global output.
#[derive(Clone)]
pub struct Job {
    pub global: bool,
    pub ops: Vec<Op>,
}
fn job(ops: &[Op]) -> Job {
    Job { global: false, ops: ops.to_vec() }
}
fn gjob(ops: &[Op]) -> Job {
    Job { global: HAVE_GLOBAL, ops: ops.to_vec() }
}
fn is_line(op: &Op) -> bool {
    matches!(op, Op::Print(_) | Op::Wrap(_) | Op::Echo(_))
}
fn text_of(op: &Op) -> Option<&L> {
    match op {
        Op::Print(l) | Op::Wrap(l) => Some(l),
        _ => None,
    }
}
/// What a printed line looks like.
fn rows_of(cfg: &Cfg, op: &Op) -> Vec<Row> {
    let mut m = cfg.model();
    m.apply(op);
    m.committed
}
pub fn is_pipe() -> bool {
    let w = rt::world();
    !(w.is_tty(0) && w.is_tty(1)) || matches!(w.env.get("TERM").map(|s| s.as_str()), Some("dumb") | Some("pipe"))
}

/// Take what was printed apart into the lines of the threads: each whole, each once, each thread's in
/// order. `all`: are all of them there already? Returns the rows they take up.
fn take_apart(cfg: &Cfg, jobs: &[Job], rows: &[Row], all: bool) -> Result<Vec<Row>, crate::engine::Fail> {
    let want: Vec<Vec<Vec<Row>>> =
        jobs.iter().map(|j| j.ops.iter().filter(|o| is_line(o)).map(|o| rows_of(cfg, o)).collect()).collect();
    let mut at = vec![0; want.len()];
    let mut pos = 0;
    let mut found = vec![];
    'next: loop {
        for (j, w) in want.iter().enumerate() {
            if let Some(l) = w.get(at[j]) {
                if pos + l.len() <= rows.len() && l.iter().zip(&rows[pos..]).all(|(a, b)| same(a, b, true)) {
                    found.extend(l.iter().cloned());
                    pos += l.len();
                    at[j] += 1;
                    continue 'next;
                }
            }
        }
        break;
    }
    if all && at.iter().zip(&want).any(|(a, w)| *a != w.len()) {
        let shown: Vec<String> = rows.iter().map(show_row).collect();
        return fail("lines", format!("after {pos} rows comes none of the lines that are to come ({at:?} of the threads' lines are there): {shown:#?}"));
    }
    Ok(found)
}
fn take_apart_pipe(jobs: &[Job], out: &[u8], all: bool) -> Res {
    let want: Vec<Vec<Vec<u8>>> = jobs
        .iter()
        .map(|j| {
            j.ops
                .iter()
                .filter_map(text_of)
                .map(|l| {
                    let mut v = l.real().as_str().as_bytes().to_vec();
                    v.push(b'\n');
                    v
                })
                .collect()
        })
        .collect();
    let mut at = vec![0; want.len()];
    let mut rest = out;
    'next: loop {
        for (j, w) in want.iter().enumerate() {
            if let Some(l) = w.get(at[j]) {
                if rest.starts_with(l) {
                    rest = &rest[l.len()..];
                    at[j] += 1;
                    continue 'next;
                }
            }
        }
        break;
    }
    if !rest.is_empty() || all && at.iter().zip(&want).any(|(a, w)| *a != w.len()) {
        return fail(
            "lines",
            format!("after {at:?} of the threads' lines comes {:?}; all: {:?}", String::from_utf8_lossy(rest), String::from_utf8_lossy(out)),
        );
    }
    Ok(())
}
/// After shutdown, nothing is on screen but what was printed.
fn only(found: &[Row], cfg: &Cfg) -> Res {
    let tm = &rt::world().term;
    let blank = cfg.show.blank();
    for (i, r) in tm.all_rows().iter().enumerate().skip(found.len()) {
        if r.iter().any(|c| look(c) != look(&blank)) {
            return fail("left", format!("row {i} shows {}; printed were {} rows: {}", show_row(r), found.len(), tm.dump()));
        }
    }
    Ok(())
}

#[derive(Clone)]
struct Plan {
    cfg: Cfg,
    setup: Vec<Op>,
    jobs: Vec<Job>,
    /// typed by the user meanwhile, each arriving on its own
    keys: Vec<Op>,
    /// shut down as soon as the threads are done
    end: Option<usize>,
}

fn run_plan(p: Plan) -> Res {
    rt::exploring(false);
    let pipe = is_pipe();
    let mut s = Sess::new(&p.cfg);
    for o in &p.setup {
        s.op(o);
    }
    rt::settle();
    rt::exploring(true);
    let mut handles = vec![];
    for (k, j) in p.jobs[1..].iter().enumerate() {
        #[allow(deprecated)]
        let out = match (j.global, k % 2) {
            (true, _) => None,
            (_, 0) => Some(s.io().clone_output()),
            _ => Some(s.io().clone_sender()),
        };
        let ops = j.ops.clone();
        handles.push(thread::spawn(move || do_job(out, &ops)));
    }
    let out = if p.jobs[0].global { None } else { Some(s.io().clone_output()) };
    for k in &p.keys {
        s.real(k);
    }
    do_job(out, &p.jobs[0].ops);
    for h in handles {
        if h.join().is_err() {
            return fail("panic", "a printing thread panicked");
        }
    }
    for o in p.jobs.iter().flat_map(|j| &j.ops).filter(|o| !is_line(o)).chain(&p.keys) {
        s.m.apply(o);
    }
    if p.end.is_none() {
        rt::settle();
        rt::exploring(false);
        if pipe {
            take_apart_pipe(&p.jobs, &written(), true)?;
            s.drain();
            if s.got != s.m.responses {
                return fail("responses", format!("got {:?} instead of {:?}", s.got, s.m.responses));
            }
        } else {
            s.m.committed = take_apart(&p.cfg, &p.jobs, &rt::world().term.all_rows(), true)?;
            s.check()?;
            s.op(&Op::Print(t("later")));
            s.op(&Op::Key(Key::Ch('k')));
            s.check()?;
            let mut j = p.jobs.clone();
            j.push(job(&[Op::Print(t("later"))]));
            end(s.io.take().unwrap(), 0);
            let found = take_apart(&p.cfg, &j, &rt::world().term.all_rows(), true)?;
            return only(&found, &p.cfg).and_then(|_| restored(false));
        }
    }
    let e = p.end.unwrap_or(0);
    end(s.io.take().unwrap(), e);
    rt::exploring(false);
    if pipe {
        take_apart_pipe(&p.jobs, &written(), true)?;
    } else {
        let found = take_apart(&p.cfg, &p.jobs, &rt::world().term.all_rows(), true)?;
        only(&found, &p.cfg)?;
    }
    restored(false)
}
fn do_job(out: Option<OutputOnly>, ops: &[Op]) {
    for o in ops {
        match &out {
            Some(out) => output_op(out, o),
            None => {
                let g = global();
                output_op(&g, o)
            }
        }
    }
}

/// The worlds of the schedules: a terminal, a VT52, and without a terminal.
pub fn worlds() -> Vec<(&'static str, Cfg)> {
    let piped = |f: fn(World) -> World| {
        let mut c = cfg(16, 14);
        c.world = f;
        c
    };
    vec![
        ("tty", cfg(16, 14)),
        ("VT52", cfg(16, 14).show(Show::Vt52(16, false))),
        ("pipe", piped(|w| w.pipe_in().pipe_out())),
        ("stdin piped", piped(|w| w.pipe_in())),
        ("TERM=dumb", piped(|w| w.with_env("TERM", "dumb"))),
    ]
}
fn edit_setup() -> Vec<Op> {
    vec![Op::Status(Some(st(UNDER, "status"))), Op::Prompt(st(BOLD, "> "), true, false), super::screen::typed("in")]
}

fn p03(thorough: bool) -> Check {
    let a = |i: u32| Op::Print(t(&format!("a{i}")));
    let b = |i: u32| Op::Print(st(INV, &format!("b{i} is wider than it is\nand")));
    let c = |i: u32| Op::Wrap(fg(1, &format!("c{i} some words that wrap")));
    let long = |w: &str| Op::Print(bg(3, &format!("{w} {}", "long ".repeat(9))));
    let huge = |w: &str| Op::Print(t(&format!("{w}{}", "0123456789".repeat(150))));
    let keys = vec![Op::Key(Key::Ch('x')), Op::Key(Key::Left), Op::Key(Key::Ch('y'))];
    let mut plans: Vec<(String, Vec<Job>, Vec<Op>, Option<usize>)> = vec![
        ("two threads, two lines each".into(), vec![job(&[a(1), a(2)]), job(&[b(1), b(2)])], vec![], None),
        ("three threads".into(), vec![job(&[a(1)]), job(&[b(1)]), job(&[c(1)])], vec![], None),
        ("clone and global output".into(), vec![gjob(&[a(1), a(2)]), gjob(&[c(1)])], vec![], None),
        ("while typing".into(), vec![job(&[a(1)]), job(&[b(1)])], keys.clone(), None),
        ("multi-row and wrapped".into(), vec![job(&[long("a")]), job(&[c(1), b(1)])], vec![], None),
        (
            "several rows of plain text".into(),
            vec![job(&[Op::Print(t("a1\na2\n\na4")), Op::Wrap(t("c1 some words\nthat wrap"))]), gjob(&[Op::Print(t("b1\nb2")), Op::Echo(t("e1\ne2"))])],
            vec![],
            None,
        ),
        ("longer than the buffers".into(), vec![job(&[huge("a")]), job(&[huge("b")])], vec![], None),
        (
            "while status, prompt and notice change".into(),
            vec![
                job(&[a(1), a(2)]),
                job(&[Op::Status(Some(t("new"))), Op::Prompt(t("$ "), true, false), Op::Status(None)]),
            ],
            vec![],
            None,
        ),
        (
            "while a notice comes".into(),
            vec![job(&[a(1), Op::Notice(t("note"), 5000), b(2)]), job(&[c(1)])],
            vec![],
            None,
        ),
        ("echoes".into(), vec![job(&[a(1), Op::Echo(t("ae")), a(2)]), job(&[Op::Echo(bg(4, "be")), b(1)])], vec![], None),
    ];
    for e in 0..ENDS {
        plans.push((format!("two threads, then {}", end_name(e)), vec![job(&[a(1), b(1)]), gjob(&[c(1), a(2)])], keys[..1].to_vec(), Some(e)));
    }
    if thorough {
        plans.push(("three threads, two lines each".into(), vec![job(&[a(1), b(1)]), gjob(&[c(1), long("x")]), job(&[huge("h"), a(9)])], keys.clone(), None));
    }
    let mut scens = vec![];
    for (wn, wc) in worlds() {
        let pipe = !matches!(wn, "tty" | "VT52");
        for (i, (name, jobs, keys, e)) in plans.iter().enumerate() {
            // without a terminal there is less to vary
            if (wn == "stdin piped" || wn == "TERM=dumb") && !(i == 0 || e.is_some()) {
                continue;
            }
            let plan = Plan {
                cfg: wc.clone(),
                setup: if pipe { vec![] } else { edit_setup() },
                jobs: jobs.clone(),
                keys: if pipe { vec![] } else { keys.clone() },
                end: *e,
            };
            scens.push(Scen {
                name: format!("{wn}, {name}"),
                bound: if thorough { 4 } else if name.contains("typing") || jobs.len() > 2 { 2 } else { 3 },
                run: Box::new(move |devs, ctx| {
                    let p = plan.clone();
                    exec_with(&Opts::explore(), devs, p.cfg.world(), ctx, move || run_plan(p))
                }),
            });
        }
    }
    let f1 = Family::sched_free("threads", "every schedule of threads that print while the user types and the display changes", scens, super::util::free_bound(thorough));
    // calls of several handles one after the other, in batches of every kind
    let alpha: Vec<(usize, Op)> = vec![
        (0, Op::Print(t("a"))),
        (0, Op::Print(st(INV, "ai\nx"))),
        (1, Op::Print(t("a1\na2\n"))),
        (1, Op::Print(bg(2, "b wider than this"))),
        (1, Op::Wrap(t("some words for wrapping"))),
        (2, Op::Print(t("\u{4f60}\u{301}c"))),
        (2, Op::Echo(fg(1, "e"))),
        (3, Op::Key(Key::Ch('k'))),
        (3, Op::Key(Key::Left)),
        (4, Op::Advance(0)),
        (3, Op::Status(Some(t("s\nt")))),
        (3, Op::Prompt(bg(6, "$ "), true, true)),
    ];
    let n = alpha.len() as u64;
    let w = Words { a: n, min: 1, max: if thorough { 6 } else { 5 } };
    let al = Rc::new(alpha);
    let a2 = al.clone();
    let f2 = Family::seq(
        "handles",
        "every sequence of lines printed through two clones and the global output, in every division into batches, with keys and changes of the display between them",
        w.total(),
        move |i, ctx| {
            let v: Vec<(usize, Op)> = w.get(i).iter().map(|&k| al[k].clone()).collect();
            ctx.transitions += v.len() as u64;
            let c = cfg(12, 30);
            ctx.state(&v.iter().map(|x| x.1.clone()).collect::<Vec<_>>());
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                s.op(&Op::Prompt(t("> "), true, false));
                rt::settle();
                let h = [s.io().clone_output(), s.io().clone_output().clone()];
                for (who, o) in &v {
                    match who {
                        0 | 1 => output_op(&h[*who], o),
                        2 if HAVE_GLOBAL => output_op(&global(), o),
                        4 => (),
                        _ => s.real(o),
                    }
                    s.m.apply(o);
                    if *who == 4 || o.is_key() {
                        s.check()?;
                    }
                }
                s.check()?;
                end(s.io.take().unwrap(), 0);
                let tm = rt::world().term.all_rows();
                for (i, r) in s.m.committed.iter().enumerate() {
                    if !same(r, &tm[i], true) {
                        return fail("lines", format!("row {i} shows {} instead of {} after shutdown", show_row(&tm[i]), show_row(r)));
                    }
                }
                only(&s.m.committed, &c)
            })
        },
        move |i| {
            let v: Vec<Op> = w.get(i).iter().map(|&k| a2[k].1.clone()).collect();
            show_ops(&v)
        },
    );
    Check {
        families: vec![f2, f1],
        rule: "the screen (or the bytes written) is an interleaving of the threads' lines, each whole and once, each thread's in order; prompt, input, cursor and responses equal the reference's".into(),
        assumptions: vec!["the edit area fits on the screen".into()],
    }
}

// ------------------------------------------------------------------ P08

/// Every method of a handle.
pub fn methods() -> Vec<(&'static str, fn(&OutputOnly))> {
    vec![
        ("println", |o| o.println("late")),
        ("wrapln", |o| o.wrapln("late")),
        ("echoln", |o| o.echoln("late")),
        ("status", |o| o.status(Some("late"))),
        ("status(None)", |o| o.status::<&str>(None)),
        ("remove_status", |o| o.remove_status()),
        ("notice", |o| o.notice("late", std::time::Duration::from_secs(1))),
        ("prompt", |o| o.prompt("late", true, true)),
        #[allow(deprecated)]
        ("remove_prompt", |o| o.remove_prompt(true, true)),
        ("bell", |o| o.bell()),
        ("suspend_and_run", |o| o.suspend_and_run(|| rt::world().log.push("late".into()))),
        ("send_custom", |o| o.send_custom(1u32)),
        ("send_custom_box", |o| o.send_custom_box(Box::new(1u32))),
        ("set_completor", |o| o.set_completor(None)),
    ]
}
/// No method of this handle does anything but panic. When another instance is alive, its panic hook resets the
/// terminal, so that only text, bells and function calls count.
pub fn handle_dead(o: &OutputOnly) -> Res {
    rt::world().tolerate.push(STOPPED);
    let hooked = rt::world().panic_hook.is_some();
    let traces = || {
        let w = rt::world();
        let bytes = if hooked {
            let rows = w.term.all_rows().iter().map(|r| mcrt::term::Term::row_text(r)).collect::<String>();
            [rows.as_bytes(), &w.out].concat().windows(4).filter(|x| *x == b"late").count()
        } else {
            written().len() + w.tty_bytes.len()
        };
        (bytes, w.term.bells, w.log.iter().filter(|l| !l.starts_with("hook ")).cloned().collect::<Vec<_>>())
    };
    for (name, m) in methods() {
        let before = traces();
        let r = catch_unwind(AssertUnwindSafe(|| m(o)));
        let r = r.map_err(rt::filter_unwind);
        if r.is_ok() {
            return fail("no-panic", format!("{name} of a dead instance's handle returns as if nothing was wrong"));
        }
        rt::settle();
        if before != traces() {
            return fail("late-output", format!("{name} of a dead instance's handle still does something"));
        }
    }
    Ok(())
}

fn p08(thorough: bool) -> Check {
    // bursts
    let sizes: Vec<u64> = if thorough { (0..=80).chain([200, 500, 1000, 3000]).collect() } else { (0..=24).chain([100, 300, 1000]).collect() };
    let ws = worlds();
    let total = (sizes.len() * ENDS * ws.len() * 4) as u64;
    let dec = {
        let sizes = sizes.clone();
        move |mut i: u64| {
            let mut take = |n: usize| {
                let k = (i % n as u64) as usize;
                i /= n as u64;
                k
            };
            let w = take(5);
            let e = take(ENDS);
            let how = take(4);
            (w, e, how, sizes[take(sizes.len())])
        }
    };
    let d2 = dec.clone();
    let ws2 = ws.clone();
    let bursts = Family::seq(
        "bursts",
        "every number of lines queued right before shutting down in every way",
        total,
        move |i, ctx| {
            let (w, e, how, n) = dec(i);
            let c = ws[w].1.clone();
            ctx.state(&i);
            ctx.transitions += n;
            exec(c.world(), ctx, move || burst(c, e, how, n))
        },
        move |i| {
            let (w, e, how, n) = d2(i);
            format!("{}, {n} lines {}, then {}", ws2[w].0, ["from a fresh instance", "with a display", "with keys and requests between them", "with suspensions"][how], end_name(e))
        },
    );
    // schedules
    let mut scens = vec![];
    for (wn, wc) in worlds().into_iter().take(3) {
        for e in 0..ENDS {
            for kind in 0..3 {
                if kind == 2 && wn == "pipe" {
                    continue;
                }
                let c = wc.clone();
                scens.push(Scen {
                    name: format!(
                        "{wn}, {} while another thread {}",
                        end_name(e),
                        ["prints", "prints and was heard of before", "makes every call"][kind]
                    ),
                    bound: if thorough { 4 } else { 3 },
                    run: Box::new(move |devs, ctx| {
                        let c = c.clone();
                        exec_with(&Opts::explore(), devs, c.world(), ctx, move || race(c, e, kind))
                    }),
                });
            }
        }
    }
    let f2 = Family::sched_free("threads", "every schedule of shutting down while another thread uses its handle", scens, super::util::free_bound(thorough));
    Check {
        families: vec![bursts, f2],
        rule: "after shutdown every line whose printing happened before it is there, in order; afterwards all 14 methods of the surviving handles panic and write nothing, also while a later instance is alive".into(),
        assumptions: vec![],
    }
}
fn burst(c: Cfg, e: usize, how: usize, n: u64) -> Res {
    let io = InputOutput::new();
    let pipe = is_pipe();
    if how == 1 || how == 2 {
        io.status(Some(st(UNDER, "status")).map(|l| l.real()));
        io.prompt("> ", true, false);
        if how == 1 {
            rt::settle();
        }
        if !pipe {
            type_bytes(b"typed");
        }
    }
    let mut ops = vec![];
    for i in 0..n {
        let op = if i % 3 == 1 { Op::Wrap(t(&format!("{i} wrapped line of text"))) } else { Op::Print(fg((i % 7) as u8, &format!("line {i}"))) };
        output_op(&io, &op);
        ops.push(op);
        if how == 2 && i % 2 == 0 {
            io.send_custom(i as u32);
            io.notice("note", std::time::Duration::from_secs(i % 3));
            io.status(Some(format!("status {i}")));
        }
        if how == 3 && i % 5 == 0 {
            let s = format!("suspended {i}\n");
            ops.push(Op::Print(t(s.trim_end())));
            io.suspend_and_run(move || rt::world().tty_write_or_pipe(s.as_bytes()));
        }
    }
    let h = io.clone_output();
    end(io, e);
    if pipe {
        take_apart_pipe(&[job(&ops)], &written(), true)?;
    } else {
        let found = take_apart(&c, &[job(&ops)], &rt::world().term.all_rows(), true)?;
        only(&found, &c)?;
    }
    restored(false)?;
    handle_dead(&h)?;
    handle_dead(&h.clone())?;
    // nor does it reach the next instance
    let mut io = InputOutput::new();
    rt::settle();
    handle_dead(&h)?;
    while let Some(r) = io.try_read() {
        if !matches!(r, liso::Response::Input(_)) {
            return fail("late-output", format!("the next instance got {r:?}"));
        }
    }
    rt::world().input.clear();
    drop(io);
    restored(false)
}
fn race(c: Cfg, e: usize, kind: usize) -> Res {
    rt::exploring(false);
    rt::world().tolerate.push(STOPPED);
    let pipe = is_pipe();
    let io = InputOutput::new();
    if !pipe {
        io.prompt("> ", true, false);
    }
    rt::settle();
    rt::exploring(true);
    let told = Shared::new(Cell::new(false));
    let sent: Shared<Cell<usize>> = Shared::default();
    let b = io.clone_output();
    let (told2, sent2) = (told.clone(), sent.clone());
    let lines: Vec<Op> = (1..=3).map(|i| Op::Print(t(&format!("b{i}")))).collect();
    let l2 = lines.clone();
    let other = thread::spawn(move || {
        for (i, l) in l2.iter().enumerate() {
            output_op(&b, l);
            sent2.set(i + 1);
            if i == 0 {
                told2.set(true);
                rt::progress();
            }
            if kind == 2 && i == 1 {
                for (_, m) in methods().into_iter().filter(|m| !m.0.contains("ln") && m.0 != "suspend_and_run") {
                    m(&b);
                }
            }
        }
    });
    let a = Op::Print(t("a1"));
    output_op(&io, &a);
    if kind == 1 {
        super::life::wait_for("told", || told.get());
    }
    let before = sent.get();
    let h = io.clone_output();
    end(io, e);
    // from here on every call panics
    let after = sent.get();
    let r = catch_unwind(AssertUnwindSafe(|| h.println("late")));
    if r.map_err(rt::filter_unwind).is_ok() {
        return fail("no-panic", "println of a dead instance's handle returns as if nothing was wrong");
    }
    let _ = other.join();
    rt::exploring(false);
    if sent.get() > after + 1 {
        return fail("no-panic", format!("{} calls of another thread returned after shutdown", sent.get() - after));
    }
    let jobs = [job(&[a]), job(&lines)];
    if pipe {
        take_apart_pipe(&jobs, &written(), false)?;
    } else {
        let found = take_apart(&c, &jobs, &rt::world().term.all_rows(), false)?;
        only(&found, &c)?;
    }
    let text = if pipe {
        String::from_utf8_lossy(&written()).to_string()
    } else {
        rt::world().term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string() + "\n").collect()
    };
    let need: Vec<String> = std::iter::once("a1".to_string()).chain((1..=before).map(|i| format!("b{i}"))).collect();
    for n in need {
        if !text.lines().any(|l| l == n) {
            return fail("lines", format!("{n:?} was printed before shutting down and is not there: {text:?}"));
        }
    }
    restored(false)?;
    handle_dead(&h)
}

// ------------------------------------------------------------------ P09

const ALONE: &str = "Tried to have multiple";
const NOBODY: &str = "liso::output() called";

#[derive(Clone, Copy, Debug, PartialEq)]
enum G {
    New,
    End(usize),
    /// the future of `die` is dropped without having been polled / after one poll
    DropDie(bool),
    Say,
    Global,
    GlobalMacro,
    GlobalWrap,
    GlobalStatus,
    OldHandle,
    Key,
    /// another thread, which stays, uses the global output
    Other,
}
fn attempt<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let e = rt::filter_unwind(e);
        rt::payload_text(&*e)
    })
}
#[cfg(feature = "global")]
fn global_macros(wrap: bool, s: &str) {
    use liso::liso;
    if wrap {
        liso::wrapln!(s)
    } else {
        liso::println!(s)
    }
}
#[cfg(not(feature = "global"))]
fn global_macros(_: bool, _: &str) {
    unreachable!()
}

#[derive(Default)]
struct Desk {
    todo: Option<String>,
    done: Option<Result<(), String>>,
    leave: bool,
}
fn generations(c: Cfg, ops: &[G]) -> Res {
    rt::world().tolerate.extend([ALONE, NOBODY, STOPPED]);
    let pipe = is_pipe();
    let mut io: Option<InputOutput> = None;
    let mut old: Option<OutputOnly> = None;
    let mut lines: Vec<Op> = vec![];
    let mut inputs = 0;
    let mut got = vec![];
    let mut n = 0;
    let desk: Shared<RefCell<Desk>> = Shared::default();
    let mut helper = None;
    if ops.contains(&G::Other) {
        let d = desk.clone();
        let b = thread::Builder::new().name(super::life::HELPER.into());
        helper = Some(b.spawn(move || loop {
            let d2 = d.clone();
            rt::block_until("job", None, &move || d2.borrow().todo.is_some() || d2.borrow().leave);
            let Some(text) = d.borrow_mut().todo.take() else { break };
            let r = attempt(|| global().println(text.as_str()));
            d.borrow_mut().done = Some(r);
        }).unwrap());
    }
    for g in ops {
        n += 1;
        let text = format!("line {n}");
        let line = Op::Print(t(&text));
        match g {
            G::New => match attempt(InputOutput::new) {
                Ok(x) => {
                    if io.is_some() {
                        return fail("two", "a second instance was created while the first is alive");
                    }
                    io = Some(x);
                }
                Err(m) => {
                    if io.is_none() {
                        return fail("none", format!("no new instance can be created although there is none: {m}"));
                    }
                    if !m.starts_with(ALONE) {
                        return fail("panic", m);
                    }
                }
            },
            G::End(k) => {
                if let Some(x) = io.take() {
                    old = Some(x.clone_output());
                    end(x, *k);
                    restored(false)?;
                }
            }
            G::DropDie(polled) => {
                if let Some(x) = io.take() {
                    old = Some(x.clone_output());
                    let mut f = Box::pin(x.die());
                    if *polled {
                        super::responses::poll_once(f.as_mut());
                    }
                    drop(f);
                    restored(false)?;
                }
            }
            G::Say => {
                if let Some(io) = &io {
                    io.println(text.as_str());
                    lines.push(line);
                }
            }
            G::Other | G::Global | G::GlobalMacro | G::GlobalWrap | G::GlobalStatus => {
                let r = attempt(|| match g {
                    G::Other => {
                        desk.borrow_mut().todo = Some(text.clone());
                        let d = desk.clone();
                        rt::block_until("done", None, &move || d.borrow().done.is_some());
                        if let Err(m) = desk.borrow_mut().done.take().unwrap() {
                            panic!("{m}");
                        }
                    }
                    G::Global => global().println(text.as_str()),
                    G::GlobalMacro => global_macros(false, &text),
                    G::GlobalWrap => global_macros(true, &text),
                    _ => global().status(Some("st")),
                });
                match (&io, r) {
                    (Some(_), Ok(())) => {
                        if *g != G::GlobalStatus {
                            lines.push(line);
                        }
                    }
                    (None, Err(m)) if m.starts_with(NOBODY) => (),
                    (Some(_), Err(m)) => return fail("global", format!("the global output panics although an instance is alive: {m}")),
                    (None, Err(m)) => return fail("global", format!("the global output panics with {m}")),
                    (None, Ok(())) => return fail("global", "the global output can be used although no instance is alive"),
                }
            }
            G::OldHandle => {
                if let Some(h) = &old {
                    handle_dead(h)?;
                }
            }
            G::Key => {
                if io.is_some() {
                    type_bytes(if pipe { b"k\n" } else { b"k\r" });
                    rt::settle();
                    inputs += 1;
                }
            }
        }
        if let Some(io) = io.as_mut() {
            rt::settle();
            super::pipe::drain(io, &mut got)?;
            if got.len() != inputs {
                return fail("input", format!("{inputs} lines were typed, the responses are {got:?}"));
            }
        }
    }
    if let Some(x) = io.take() {
        drop(x);
    }
    if let Some(h) = helper {
        desk.borrow_mut().leave = true;
        let _ = h.join();
    }
    if pipe {
        take_apart_pipe(&[job(&lines)], &written(), true)?;
    } else {
        let found = take_apart(&c, &[job(&lines)], &rt::world().term.all_rows(), true)?;
        only(&found, &c)?;
    }
    restored(false)?;
    works_again(!pipe)
}

/// Two threads each want an instance for themselves.
struct Arena {
    live: Cell<u32>,
    /// how often each thread began to make and has got rid of an instance
    began: [Cell<u32>; 2],
    over: [Cell<u32>; 2],
    wrong: RefCell<Option<String>>,
    workers: RefCell<Vec<usize>>,
}
fn contend(a: &Shared<Arena>, me: usize, e: usize, tries: u32) {
    let it = 1 - me;
    for k in 0..tries {
        let idle = a.began[it].get() == a.over[it].get();
        let begun = a.began[it].get();
        a.began[me].set(a.began[me].get() + 1);
        match attempt(InputOutput::new) {
            Ok(io) => {
                a.live.set(a.live.get() + 1);
                if a.live.get() != 1 {
                    a.wrong.borrow_mut().get_or_insert("two instances are alive at the same time".into());
                }
                io.println(format!("{me}{k}"));
                if HAVE_GLOBAL {
                    if let Err(m) = attempt(|| global().println(format!("{me}{k}g"))) {
                        a.wrong.borrow_mut().get_or_insert(format!("the global output panics although an instance is alive: {m}"));
                    }
                }
                a.live.set(a.live.get() - 1);
                end(io, e);
            }
            Err(m) => {
                if !m.starts_with(ALONE) {
                    a.wrong.borrow_mut().get_or_insert(m);
                } else if idle && a.began[it].get() == begun {
                    a.wrong.borrow_mut().get_or_insert("no new instance can be created although there is none".into());
                }
            }
        }
        a.over[me].set(a.over[me].get() + 1);
    }
}
fn contest(pipe: bool, ends: [usize; 2], tries: u32, keys: &[u8]) -> Res {
    rt::world().tolerate.extend([ALONE, NOBODY]);
    let a = Shared::new(Arena {
        live: Cell::new(0),
        began: Default::default(),
        over: Default::default(),
        wrong: Default::default(),
        workers: Default::default(),
    });
    let a2 = a.clone();
    if !keys.is_empty() {
        type_bytes(keys);
    }
    let h = thread::spawn(move || contend(&a2, 1, ends[1], tries));
    contend(&a, 0, ends[0], tries);
    let _ = h.join();
    rt::exploring(false);
    if let Some(m) = a.wrong.borrow().clone() {
        return fail("alone", m);
    }
    // who had the terminal?
    let t = &rt::world().touched;
    let mut seen = vec![];
    for x in t {
        if seen.contains(x) {
            return fail("overlap", format!("two workers wrote to the terminal in turns: threads {t:?}"));
        }
        seen.push(*x);
    }
    let _ = &a.workers;
    let rows: Vec<String> = if pipe {
        String::from_utf8_lossy(&written()).lines().map(|s| s.to_string()).collect()
    } else {
        rt::world().term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string()).filter(|r| !r.is_empty()).collect()
    };
    // the lines of one instance are together
    let mut i = 0;
    while i < rows.len() {
        if HAVE_GLOBAL {
            if rows.get(i + 1) != Some(&format!("{}g", rows[i])) {
                return fail("lines", format!("the lines on screen are {rows:?}"));
            }
            i += 1;
        }
        i += 1;
    }
    rt::world().input.clear();
    restored(false)?;
    works_again(!pipe)
}

fn p09(thorough: bool) -> Check {
    let mut alpha = vec![G::New, G::End(0), G::End(1), G::End(2), G::DropDie(false), G::DropDie(true), G::Say, G::Key, G::OldHandle];
    if HAVE_GLOBAL {
        alpha.extend([G::Global, G::GlobalMacro, G::GlobalWrap, G::GlobalStatus]);
    }
    let ws: Vec<(&str, Cfg)> = worlds().into_iter().take(3).collect();
    let fam = |name: &str, about: &str, alpha: Vec<G>, max: u32| {
        let w = Words { a: alpha.len() as u64, min: 1, max };
        let n = ws.len() as u64;
        let (al, ws, ws2) = (alpha.clone(), ws.clone(), ws.clone());
        Family::seq(
            name,
            about,
            w.total() * n,
            move |i, ctx: &mut Ctx| {
                let ops: Vec<G> = w.get(i / n).iter().map(|&k| alpha[k]).collect();
                let c = ws[(i % n) as usize].1.clone();
                ctx.transitions += ops.len() as u64;
                ctx.state(&i);
                exec(c.world(), ctx, move || generations(c, &ops))
            },
            move |i| format!("{}: {:?}", ws2[(i % n) as usize].0, w.get(i / n).iter().map(|&k| al[k]).collect::<Vec<_>>()),
        )
    };
    let mut fams = vec![fam(
        "generations",
        "every sequence of creating, using, directly and globally, and shutting down instances",
        alpha,
        if thorough { 5 } else { 4 },
    )];
    if HAVE_GLOBAL {
        fams.push(fam(
            "many generations",
            "longer sequences over fewer operations, with a second thread that uses the global output",
            vec![G::New, G::End(0), G::Global, G::Other],
            if thorough { 9 } else { 7 },
        ));
    }
    fams.push(fam(
        "many generations of few operations",
        "longer sequences over fewer operations",
        vec![G::New, G::End(1), G::End(2), G::Say, G::OldHandle],
        if thorough { 7 } else { 6 },
    ));
    let mut scens = vec![];
    for (wn, wc) in worlds().into_iter().take(3) {
        for (e0, e1) in [(0, 0), (0, 1), (2, 0), (1, 2), (2, 2)] {
            for keys in [&b""[..], b"k"] {
                if !keys.is_empty() && (wn == "pipe" || (e0, e1) != (0, 0)) {
                    continue;
                }
                let c = wc.clone();
                scens.push(Scen {
                    name: format!("{wn}, one thread {}, the other {}, keys {keys:x?}", end_name(e0), end_name(e1)),
                    bound: if thorough { 4 } else { 3 },
                    run: Box::new(move |devs, ctx| {
                        let pipe = wn == "pipe";
                        exec_with(&Opts::explore(), devs, c.world(), ctx, move || contest(pipe, [e0, e1], 1 + thorough as u32, keys))
                    }),
                });
            }
        }
    }
    let f2 = Family::sched("threads", "every schedule of two threads that each create an instance, use it and shut it down", scens);
    fams.push(f2);
    Check {
        families: fams,
        rule: "creating succeeds exactly when no instance is alive; the global output reaches the live instance and panics without one; at no time have two workers the terminal; a refused attempt costs the live instance nothing but what the panic hook does".into(),
        assumptions: vec!["a panic while the terminal is in use puts it in normal mode (P29)".into()],
    }
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P03" => p03(thorough),
        "P08" => p08(thorough),
        "P09" => p09(thorough),
        _ => return None,
    })
}
#[allow(dead_code)]
fn _unused(_: &Model) {}
