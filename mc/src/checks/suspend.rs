//! P22, P27: handing the terminal over and taking it back.
use liso::InputOutput;
use mcrt::rt::{self, Opts};
use mcrt::term::Term;
use mcrt::world::{type_bytes, World};

use super::screen::{filled, typed};
use crate::engine::{fail, Check, Family, Res, Scen};
use crate::line::{bg, st, t, BOLD, INV, UNDER};
use crate::model::{ctl, Ans, Comp, Key, Op};
use crate::sess::{cfg, exec_with, run_ops, show_resp, Cfg, Pace, Sess, Space};

/// Each function found a clean terminal, and ran once.
fn handed_over(s: &mut Sess) -> Res {
    let log = &rt::world().log;
    let runs = log.iter().filter(|l| l.starts_with("suspended")).count();
    if runs != s.m.suspends.len() {
        return fail("runs", format!("{} functions were run {runs} times", s.m.suspends.len()));
    }
    for l in log {
        if l.starts_with("suspended") && l != "suspended normal=true" {
            return fail("modes", "the terminal was not in normal mode while the function ran");
        }
        if l.starts_with("clean") && l != "clean=true x=0" {
            return fail("erased", format!("prompt, status or input were on screen while the function ran ({l})"));
        }
    }
    Ok(())
}

fn p22(thorough: bool) -> Check {
    let mut cfgs: Vec<(String, Cfg, Vec<Op>)> = vec![];
    let styled = vec![
        Op::Status(Some(st(UNDER, "status").and(bg(4, "x")))),
        Op::Prompt(st(BOLD, "> ").and(bg(2, "")), true, false),
        typed("foo bar baz quux zot"),
        Op::Key(ctl('A')),
    ];
    for (w, h) in [(12, 6), (9, 12)] {
        cfgs.push((format!("{w}x{h}"), cfg(w, h), vec![]));
        cfgs.push((format!("{w}x{h} typed"), cfg(w, h).hist(&["old"]), filled()));
        cfgs.push((format!("{w}x{h} styled"), cfg(w, h), styled.clone()));
    }
    cfgs.push(("12x6 events".into(), cfg(12, 6).events(), filled()));
    cfgs.push(("12x6 VT52".into(), cfg(12, 6).show(crate::line::Show::Vt52(16, false)), filled()));
    let alpha = vec![
        Op::Suspend("sub\n".into()),
        Op::Suspend("two\nlines\n\u{2}".into()),
        Op::Suspend("".into()),
        Op::Suspend("a line wider than the screen is\n".into()),
        Op::Print(t("abc")),
        Op::Print(bg(3, "fill\nx")),
        Op::Status(Some(st(INV, "s\ns"))),
        Op::Status(None),
        Op::Prompt(t("no "), false, false),
        Op::Prompt(t("$ "), true, true),
        Op::Notice(t("note"), 1000),
        Op::Advance(1000),
        Op::Bell,
        Op::Key(Key::Ch('z')),
        Op::Key(Key::Left),
        Op::Key(Key::Ctl(13)),
        Op::Custom(3),
        Op::Completor(Some(Comp { id: 1, ans: Ans::Insert("i".into()) })),
        Op::Key(Key::Ctl(9)),
    ];
    let f1 = Space { cfgs, alpha, depth: if thorough { 4 } else { 3 }, paces: vec![Pace::Each, Pace::Burst] }.family(
        "calls",
        "every sequence of calls and keys around suspending, spaced out and batched",
        |s| {
            handed_over(s)?;
            // and it all goes on
            s.op(&Op::Prompt(t("> "), true, false));
            s.op(&Op::Print(t("later")));
            s.check()?;
            s.op(&Op::Key(Key::Ch('y')));
            s.check()?;
            s.op(&Op::Suspend("again\n".into()));
            s.check()?;
            s.op(&Op::Key(Key::Ctl(13)));
            s.check()?;
            handed_over(s)
        },
    );
    let f2 = super::pipe::calls(
        "pipe",
        vec![
            Op::Suspend("one".into()),
            Op::Suspend("two".into()),
            Op::Print(t("plain")),
            Op::Wrap(t("wrapped")),
            Op::Custom(1),
            Op::Key(Key::Ch('k')),
            Op::Bell,
        ],
        if thorough { 6 } else { 4 },
    );
    // schedules
    let mut scens = vec![];
    for (name, world) in worlds() {
        for keys in ["", "xy\r"] {
            for end in [false, true] {
                if name.starts_with("pipe") && !keys.is_empty() {
                    continue;
                }
                let b = if thorough { 3 } else { 2 };
                scens.push(Scen {
                    name: format!("{name}, two threads suspend and print, keys {keys:?}{}", if end { ", then shut down" } else { "" }),
                    bound: b,
                    run: Box::new(move |devs, ctx| {
                        exec_with(&Opts::explore(), devs, world(), ctx, move || threads(keys, end))
                    }),
                });
            }
        }
    }
    let f3 = Family::sched_free("threads", "every schedule of two threads that suspend and print while keys arrive", scens, super::util::free_bound(thorough));
    let f4 = many("many", "suspending dozens of times, alone and with other calls and keys between", thorough, Op::Suspend("sub\n".into()), handed_over);
    Check {
        families: vec![f1, f2, f3, f4],
        rule: "each function runs once, in its thread's order, on a terminal in normal mode with nothing of the edit area on screen, undisturbed by output; screen, cursor, responses equal the reference's afterwards".into(),
        assumptions: vec![
            "the function leaves the cursor at the start of a row (colours, styles, wrapping and cursor visibility it may leave as it likes)".into(),
        ],
    }
}
fn worlds() -> Vec<(&'static str, fn() -> World)> {
    vec![
        ("tty", || World::tty(20, 12)),
        ("VT52", || cfg(20, 12).show(crate::line::Show::Vt52(16, false)).world()),
        ("pipe", || World::tty(20, 12).pipe_in().pipe_out()),
    ]
}

fn threads(keys: &'static str, end: bool) -> Res {
    rt::exploring(false);
    let pipe = !rt::world().is_tty(1);
    let mut io = InputOutput::new();
    io.status(Some("status"));
    io.prompt("> ", true, false);
    rt::settle();
    rt::exploring(true);
    let o2 = io.clone_output();
    let j2 = mcrt::thread::spawn(move || job("b", o2));
    let o3 = io.clone_output();
    if !keys.is_empty() {
        type_bytes(keys.as_bytes());
    }
    job("a", o3);
    let _ = j2.join();
    if !end {
        rt::settle();
        rt::exploring(false);
    }
    let w = rt::world();
    let mut got = vec![];
    if !end {
        while let Some(r) = io.try_read() {
            got.push(show_resp(&r));
        }
        if !keys.is_empty() && got != ["Input(\"xy\")"] {
            return fail("keys", format!("the responses are {got:?}"));
        }
        if !pipe && !w.raw {
            return fail("raw", "raw mode is off after suspending");
        }
    }
    drop(io);
    rt::exploring(false);
    rt::settle();
    let rows: Vec<String> = if pipe {
        String::from_utf8_lossy(&w.out).lines().map(|s| s.to_string()).collect()
    } else {
        let mut v: Vec<String> = w.term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string()).collect();
        while v.last().is_some_and(|s| s.is_empty()) {
            v.pop();
        }
        v
    };
    for who in ["a", "b"] {
        let mine: Vec<&String> = rows.iter().filter(|r| r.starts_with(who)).collect();
        let want: Vec<String> = (1..=3).map(|i| format!("{who}{i}")).collect();
        if mine.iter().map(|s| s.as_str()).ne(want.iter().map(|s| s.as_str())) {
            return fail("order", format!("thread {who} left {mine:?}; all: {rows:?}"));
        }
    }
    if rows.len() != 6 {
        return fail("rows", format!("what is on screen at the end is {rows:?}"));
    }
    if let Some(b) = w.log.first() {
        return fail("suspended", b.clone());
    }
    super::life::restored(false)
}
/// Print, suspend, print; what is wrong while suspended is logged.
fn job(who: &'static str, out: liso::OutputOnly) {
    out.println(format!("{who}1"));
    out.suspend_and_run(move || {
        let bytes = || {
            let w = rt::world();
            if w.is_tty(1) {
                w.tty_bytes.len()
            } else {
                w.out.len()
            }
        };
        let w = rt::world();
        if !w.modes().normal() {
            w.log.push(format!("{who}: the terminal is in {:?}", w.modes()));
        }
        if w.is_tty(1) && (w.term.x != 0 || w.term.all_rows().iter().any(|r| Term::row_text(r).contains("status"))) {
            w.log.push(format!("{who}: the display is still there: {}", w.term.dump()));
        }
        let n = bytes();
        // let everybody else run
        for _ in 0..4 {
            rt::point("suspended");
        }
        if bytes() != n {
            w.log.push(format!("{who}: output while suspended"));
        }
        w.tty_write_or_pipe(format!("{who}2\n").as_bytes());
    });
    out.println(format!("{who}3"));
}

// ------------------------------------------------------------------ P27

fn p27(thorough: bool) -> Check {
    let mut cfgs: Vec<(String, Cfg, Vec<Op>)> = vec![];
    let styled = vec![
        Op::Status(Some(st(UNDER, "status").and(bg(4, "x")))),
        Op::Prompt(st(BOLD, "> ").and(bg(2, "")), true, false),
        typed("foo bar baz quux zot"),
        Op::Key(ctl('A')),
    ];
    let shell = |mut c: Cfg, s: &'static str| {
        c.shell = s;
        c
    };
    for s in ["", "$ fg\n", "$ fg\n\u{2}"] {
        cfgs.push((format!("12x30 {s:?}"), shell(cfg(12, 30), s), vec![]));
        cfgs.push((format!("12x30 typed {s:?}"), shell(cfg(12, 30).hist(&["old"]), s), filled()));
        cfgs.push((format!("12x40 styled {s:?}"), shell(cfg(12, 40), s), styled.clone()));
        cfgs.push((format!("12x30 events {s:?}"), shell(cfg(12, 30).events(), s), filled()));
        cfgs.push((
            format!("12x30 VT52 {s:?}"),
            shell(cfg(12, 30).show(crate::line::Show::Vt52(16, false)), s),
            filled(),
        ));
    }
    cfgs.push((
        "12x30 VT52 white on black".into(),
        shell(cfg(12, 30).show(crate::line::Show::Vt52(16, true)), "$ fg\n"),
        filled(),
    ));
    let alpha = vec![
        Op::Key(ctl('Z')),
        Op::Chunk(vec![Key::Ch('a'), ctl('Z'), Key::Ch('b')]),
        Op::Chunk(vec![ctl('Z'), ctl('Z')]),
        Op::Print(t("abc")),
        Op::Print(bg(3, "fill\nx")),
        Op::Status(Some(st(INV, "s\ns"))),
        Op::Status(None),
        Op::Prompt(t("no "), false, false),
        Op::Prompt(st(INV, "$ "), true, true),
        Op::Notice(t("note"), 1000),
        Op::Advance(1000),
        Op::Key(Key::Ch('z')),
        Op::Key(Key::Left),
        Op::Key(Key::Ctl(13)),
        Op::Suspend("sub\n".into()),
        typed("wide and long input"),
    ];
    let f1 = Space { cfgs, alpha, depth: if thorough { 4 } else { 3 }, paces: vec![Pace::Each, Pace::Burst] }.family(
        "calls",
        "every sequence of calls and keys around control-Z, spaced out and batched",
        |s| {
            s.op(&Op::Prompt(t("> "), true, false));
            s.check()?;
            for k in [ctl('Z'), Key::Ch('y'), ctl('Z'), Key::Left, Key::Ctl(13)] {
                s.op(&Op::Key(k));
                s.check()?;
            }
            s.op(&Op::Print(t("later")));
            s.check()?;
            stopped_clean(s)
        },
    );
    // schedules
    let mut scens = vec![];
    for (name, world) in worlds().into_iter().take(2) {
        for keys in ["\x1a", "a\x1ab\r", "\x1a\x1a"] {
            for mode in 0..3 {
                scens.push(Scen {
                    name: format!("{name}, keys {keys:?}, {}", ["then settling", "then shutting down", "a notice running out"][mode]),
                    bound: if thorough { 3 } else { 2 },
                    run: Box::new(move |devs, ctx| {
                        let o = if mode == 2 { Opts::explore().timers() } else { Opts::explore() };
                        exec_with(&o, devs, world(), ctx, move || stops(keys, mode))
                    }),
                });
            }
        }
    }
    let f2 = Family::sched_free("threads", "every schedule of stopping while another thread prints", scens, super::util::free_bound(thorough));
    let f3 = many("many", "stopping dozens of times, alone and with other calls and keys between", thorough, Op::Key(ctl('Z')), stopped_clean);
    Check {
        families: vec![f1, f2, f3],
        rule: "at every stop the terminal is in normal mode; afterwards the display is complete again below what was there, and keys, output and responses equal the reference's".into(),
        assumptions: vec![
            "a stop stops every thread of the process until it is continued".into(),
            "the shell leaves the cursor at the start of a row".into(),
        ],
    }
}
fn stopped_clean(s: &mut Sess) -> Res {
    let w = rt::world();
    if w.stops.len() != s.m.stops as usize {
        return fail("stops", format!("the process stopped {} times instead of {}", w.stops.len(), s.m.stops));
    }
    for st in &w.stops {
        if !st.modes.normal() {
            return fail("modes", format!("the process stopped with the terminal in {:?}", st.modes));
        }
    }
    Ok(())
}
fn stops(keys: &'static str, mode: usize) -> Res {
    rt::exploring(false);
    rt::world().shell_text = "$ fg\n".into();
    let mut io = InputOutput::new();
    io.status(Some("status"));
    io.prompt("> ", true, false);
    rt::settle();
    if mode == 2 {
        io.notice("note", std::time::Duration::from_millis(5));
    }
    rt::exploring(true);
    let out = io.clone_output();
    let j = mcrt::thread::spawn(move || {
        out.println("b1");
        out.println("b2");
    });
    type_bytes(keys.as_bytes());
    io.println("a1");
    let _ = j.join();
    let n = keys.matches('\x1a').count();
    let w = rt::world();
    if mode != 1 {
        rt::settle();
        rt::exploring(false);
        if mode == 2 {
            rt::advance(10_000_000);
        }
        let mut got = vec![];
        while let Some(r) = io.try_read() {
            got.push(show_resp(&r));
        }
        let want: &[&str] = if keys.contains('\r') { &["Input(\"ab\")"] } else { &[] };
        if got != want {
            return fail("keys", format!("the responses are {got:?}"));
        }
        if w.stops.len() != n {
            return fail("stops", format!("the process stopped {} times", w.stops.len()));
        }
        if !w.raw {
            return fail("raw", "raw mode is off after resuming");
        }
        let rows: Vec<String> = w.term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string()).collect();
        let last: Vec<&String> = rows.iter().rev().skip_while(|r| r.is_empty()).take(2).collect();
        if last.len() < 2 || last[0] != ">" || last[1] != "status" || (w.term.x, w.term.cursor_visible) != (2, true) {
            return fail("resume", format!("the display is not complete: {}", w.term.dump()));
        }
    }
    drop(io);
    rt::exploring(false);
    rt::settle();
    for s in &w.stops {
        if !s.modes.normal() {
            return fail("modes", format!("the process stopped with the terminal in {:?}", s.modes));
        }
    }
    let rows: Vec<String> = w.term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string()).collect();
    for l in ["a1", "b1", "b2"] {
        if rows.iter().filter(|r| *r == l).count() != 1 {
            return fail("lost", format!("{l:?} is not on screen once: {rows:?}"));
        }
    }
    if rows.iter().position(|r| r == "b1") > rows.iter().position(|r| r == "b2") {
        return fail("order", format!("lines are out of order: {rows:?}"));
    }
    if rows.iter().filter(|r| *r == "$ fg").count() != w.stops.len() {
        return fail("shell", format!("what the shell wrote is not there: {rows:?}"));
    }
    super::life::restored(false)
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P22" => p22(thorough),
        "P27" => p27(thorough),
        _ => return None,
    })
}

/// `op` again and again, alone or with something else in between.
fn many(name: &str, about: &str, thorough: bool, op: Op, judge: fn(&mut Sess) -> Res) -> Family {
    let between: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::Key(Key::Ch('z'))],
        vec![Op::Key(Key::Ch('z')), Op::Key(Key::Ctl(13))],
        vec![Op::Print(t("p"))],
        vec![Op::Status(Some(bg(2, "s"))), Op::Print(t("p"))],
        vec![Op::Notice(t("n"), 10), Op::Advance(10)],
        vec![Op::Prompt(t("$ "), true, true), Op::Bell],
    ];
    let nb = between.len() as u64;
    let max = if thorough { 130 } else { 40 };
    let mk = move |i: u64| -> (Cfg, Vec<Op>) {
        let (n, b) = (if i / nb / 2 == 0 { max } else { 17 }, &between[(i % nb) as usize]);
        let c = cfg(12, 30);
        let c = if i / nb % 2 == 1 { c.events() } else { c };
        let mut v = vec![];
        for _ in 0..n {
            v.push(op.clone());
            v.extend(b.iter().cloned());
        }
        (c, v)
    };
    let m2 = mk.clone();
    Family::seq(
        name,
        about,
        nb * 4,
        move |i, ctx| {
            let (c, ops) = mk(i);
            let setup = vec![Op::Prompt(t("> "), true, false), typed("xy")];
            let pace = if i / nb / 2 == 0 { Pace::Each } else { Pace::Burst };
            run_ops(&c, &setup, &ops, pace, ctx, judge)
        },
        move |i| {
            let (c, ops) = m2(i);
            format!("{}{} operations: {}...", if c.events { "events " } else { "" }, ops.len(), crate::model::show_ops(&ops[..ops.len().min(6)]))
        },
    )
}
