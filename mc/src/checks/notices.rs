//! P11: notices.

use std::rc::Rc;
use mcrt::rt::{self, Opts};
use mcrt::term::Term;
use mcrt::thread;
use mcrt::world::type_bytes;

use super::screen::{filled, typed};
use super::threads::worlds;
use super::util::Words;
use crate::engine::{fail, Check, Ctx, Family, Res, Scen};
use crate::line::{bg, st, t, Show, INV, UNDER};
use crate::model::{show_ops, Ans, Comp, Key, Op, MS};
use crate::sess::{cfg, exec, exec_with, Cfg, Pace, Sess, Space};

fn p11(thorough: bool) -> Check {
    let mut cfgs: Vec<(String, Cfg, Vec<Op>)> = vec![
        ("16x8".into(), cfg(16, 8), vec![]),
        ("12x6 typed".into(), cfg(12, 6).hist(&["old"]), filled()),
        (
            "9x9 styled".into(),
            cfg(9, 9),
            vec![Op::Status(Some(st(UNDER, "stat\nus"))), Op::Prompt(bg(2, "> "), true, false), typed("typed text")],
        ),
        ("16x8 events".into(), cfg(16, 8).events(), filled()),
        ("16x8 odd events".into(), cfg(16, 8).odd_events(), filled()),
        ("16x8 VT52".into(), cfg(16, 8).show(Show::Vt52(16, false)), filled()),
        ("16x8 no input".into(), cfg(16, 8), vec![Op::Prompt(t("> "), true, false), typed("in"), Op::Prompt(t("busy "), false, false)]),
    ];
    cfgs.push((
        "16x8 completor".into(),
        cfg(16, 8),
        vec![Op::Prompt(t("> "), true, false), typed("x"), Op::Completor(Some(Comp { id: 1, ans: Ans::Notice("from it".into(), 3) }))],
    ));
    let alpha = vec![
        Op::Notice(t("zero"), 0),
        Op::Notice(t("one"), 1),
        Op::Notice(st(INV, "two\nrows"), 2),
        Op::Notice(t("longer than the screen is wide"), 4),
        Op::Notice(t(""), 3),
        Op::Notice(t("ever"), u64::MAX),
        Op::Advance(1),
        Op::Advance(2),
        Op::Key(Key::Ch('k')),
        Op::Key(Key::Left),
        Op::Key(Key::Ctl(13)),
        Op::Key(Key::Ctl(3)),
        Op::Key(Key::Ctl(9)),
        Op::Key(Key::Ctl(0)),
        Op::Print(t("line")),
        Op::Prompt(t("$ "), true, true),
        Op::Prompt(t("wait "), false, false),
        Op::Status(Some(t("s"))),
        Op::Bell,
    ];
    let f1 = Space { cfgs, alpha, depth: if thorough { 4 } else { 3 }, paces: vec![Pace::Each, Pace::Burst] }.family(
        "calls",
        "every sequence of notices, passing time, keys and calls, spaced out and batched; then the display comes back",
        |s| {
            // everything runs out
            for ms in [1, 1, 1, 1, 2] {
                s.op(&Op::Advance(ms));
                s.check()?;
            }
            s.op(&Op::Prompt(t("> "), true, false));
            s.check()?;
            s.op(&Op::Key(Key::Ch('z')));
            s.check()
        },
    );
    // timing in depth
    let cf = vec![("16x5".to_string(), cfg(16, 5), vec![Op::Prompt(t("> "), true, false), typed("in")])];
    let alpha = vec![
        Op::Notice(t("n1"), 1),
        Op::Notice(t("n2"), 2),
        Op::Notice(t("n3"), 3),
        Op::Notice(t("n5"), 5),
        Op::Advance(1),
        Op::Key(Key::Ch('k')),
    ];
    let f2 = Space { cfgs: cf, alpha, depth: if thorough { 8 } else { 6 }, paces: vec![Pace::Each] }.family(
        "timing",
        "every longer sequence of notices of different durations, keys and steps of time",
        |s| {
            for _ in 0..6 {
                s.op(&Op::Advance(1));
                s.check()?;
            }
            Ok(())
        },
    );
    // many at once
    let mut counts: Vec<u64> = (1..=if thorough { 60 } else { 24 }).collect();
    counts.extend([40, 64, 65, 100, 128, 129, 260].iter().filter(|n| **n < 60 || thorough || **n <= 129));
    let max = counts.len() as u64;
    const ORDERS: u64 = 7;
    let dur = |order: u64, k: u64, n: u64| match order {
        0 => k + 1,
        1 => n - k,
        2 => 3,
        3 => {
            if k % 2 == 0 {
                k
            } else {
                n + n - k
            }
        }
        4 => 0,
        5 => k % 3,
        _ => {
            if k == 0 {
                1
            } else {
                50
            }
        }
    };
    let mk = Rc::new(move |i: u64| {
        let order = i % ORDERS;
        let burst = i / ORDERS % 3;
        let n = counts[(i / ORDERS / 3) as usize];
        let ops: Vec<Op> = (0..n).map(|k| Op::Notice(t(&format!("note {k}")), dur(order, k, n))).collect();
        (burst, ops)
    });
    let mk2 = mk.clone();
    let f3 = Family::seq(
        "many",
        "every number of notices of rising, falling, equal, alternating and no durations, batched, spaced out and in several sessions' worth",
        ORDERS * 3 * max,
        move |i, ctx: &mut Ctx| {
            let (burst, ops) = mk(i);
            ctx.transitions += ops.len() as u64;
            ctx.state(&ops);
            let c = cfg(16, if ops.len() > 60 { 25 } else { 6 });
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                s.op(&Op::Prompt(t("> "), true, false));
                s.op(&typed("in"));
                s.check()?;
                for o in &ops {
                    s.op(o);
                    match burst {
                        0 => (),
                        1 => s.check()?,
                        _ => {
                            s.op(&Op::Key(Key::Ch('k')));
                            s.check()?;
                            s.op(&Op::Advance(1));
                            s.check()?;
                        }
                    }
                }
                s.check()?;
                // (the longest lasts for less than twice as long as there are notices, or 50)
                for _ in 0..10 + (2 * ops.len()).max(50) {
                    s.op(&Op::Advance(1));
                    s.check()?;
                }
                // and all works on
                s.op(&Op::Notice(t("last"), 7));
                s.op(&Op::Advance(6));
                s.check()?;
                s.op(&Op::Advance(1));
                s.check()?;
                s.op(&Op::Key(Key::Ctl(13)));
                s.check()?;
                s.io = None;
                super::life::restored(false)
            })
        },
        move |i| {
            let (b, ops) = mk2(i);
            format!("{}: {}", ["batched", "spaced out", "with keys and time between them"][b as usize], show_ops(&ops))
        },
    );
    // long ones
    const LONG: [u64; 10] =
        [999, 1000, 1001, 65_535, 65_537, 60_000, 4_294_966, 4_294_967_297, 5_000_000_000, 400 * 86_400_000];
    let f5 = Family::seq(
        "long",
        "notices of up to more than a year, alone and followed by shorter and longer ones",
        (LONG.len() * (LONG.len() + 1)) as u64,
        |i, ctx: &mut Ctx| {
            let (a, b) = (i as usize % LONG.len(), i as usize / LONG.len());
            let c = cfg(16, 5);
            ctx.transitions += 8;
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                s.op(&Op::Prompt(t("> "), true, false));
                s.op(&typed("in"));
                s.check()?;
                s.op(&Op::Notice(t("first"), LONG[a]));
                s.check()?;
                let mut last = LONG[a];
                if let Some(&d) = LONG.get(b) {
                    s.op(&Op::Advance(LONG[a].min(d) / 2));
                    s.check()?;
                    s.op(&Op::Notice(t("second"), d));
                    s.check()?;
                    last = d;
                }
                for part in [last / 2, last - last / 2 - 1, 1, 1] {
                    s.op(&Op::Advance(part));
                    s.check()?;
                }
                s.op(&Op::Advance(LONG[a]));
                s.op(&Op::Key(Key::Ctl(13)));
                s.check()
            })
        },
        |i| format!("{} ms, then {:?} ms", LONG[i as usize % LONG.len()], LONG.get(i as usize / LONG.len())),
    );
    // while something keeps Liso busy
    let steps = [Held::Run(1), Held::Run(3), Held::Note(1), Held::Note(2), Held::Note(4), Held::Print];
    let held = Words { a: steps.len() as u64, min: 2, max: if thorough { 6 } else { 5 } };
    let f6 = Family::seq(
        "held up",
        "every sequence of notices, lines and functions to run that take time, all sent at once; then the display at every step of time",
        held.total(),
        move |i, ctx: &mut Ctx| {
            let ops: Vec<Held> = held.get(i).iter().map(|&k| steps[k]).collect();
            ctx.transitions += ops.len() as u64;
            ctx.state(&ops);
            let c = cfg(16, 8);
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                s.op(&Op::Prompt(t("> "), true, false));
                s.op(&typed("in"));
                s.check()?;
                let mut later = vec![];
                for (k, o) in ops.iter().enumerate() {
                    match *o {
                        Held::Run(ms) => {
                            s.io().suspend_and_run(move || thread::sleep(std::time::Duration::from_millis(ms)));
                            later.push(Op::Advance(ms));
                        }
                        Held::Note(ms) => {
                            let op = Op::Notice(t(&format!("note {k}")), ms);
                            s.real(&op);
                            later.push(op);
                        }
                        Held::Print => {
                            let op = Op::Print(t(&format!("line {k}")));
                            s.real(&op);
                            later.push(op);
                        }
                    }
                }
                for op in &later {
                    if let Op::Advance(_) = op {
                        s.real(op);
                    }
                    s.m.apply(op);
                }
                s.check()?;
                for _ in 0..6 {
                    s.op(&Op::Advance(1));
                    s.check()?;
                }
                s.op(&Op::Key(Key::Ctl(13)));
                s.check()
            })
        },
        move |i| format!("{:?}", held.get(i).iter().map(|&k| steps[k]).collect::<Vec<_>>()),
    );
    // schedules
    let mut scens = vec![];
    type Make = (&'static str, Vec<u64>, &'static str, u64);
    let plans: Vec<Make> = vec![
        ("one runs out", vec![3], "", 10),
        ("one runs out while typing", vec![3], "ab", 10),
        ("a second, shorter", vec![5, 2], "", 10),
        ("a second, longer", vec![2, 5], "", 10),
        ("no time at all", vec![0, 0, 1], "x", 10),
        ("many", vec![3, 2, 4, 1, 6, 5, 2], "", 10),
        ("a second that stays", vec![2, 1000], "", 10),
        ("the first stays, the second goes", vec![1000, 2], "", 10),
    ];
    for (wn, wc) in worlds().into_iter().take(2) {
        for (name, durs, keys, wait) in plans.clone() {
            for printing in [false, true] {
                let (c, durs) = (wc.clone(), durs.clone());
                scens.push(Scen {
                    name: format!("{wn}, {name}{}", if printing { ", another thread prints and sends notices" } else { "" }),
                    bound: if thorough { 4 } else { 3 },
                    run: Box::new(move |devs, ctx| {
                        let durs = durs.clone();
                        exec_with(&Opts::explore().timers(), devs, c.world(), ctx, move || racing(&durs, keys, wait, printing))
                    }),
                });
            }
        }
    }
    let f4 = Family::sched_free("timers", "every schedule of notices, their timers, keys and output of another thread", scens, super::util::free_bound(thorough));
    Check {
        families: vec![f1, f2, f3, f5, f6, f4],
        rule: "at every instant checked the display equals the reference's: the notice until its time is up, the user presses a key with input allowed, or another comes, then prompt and input as they were".into(),
        assumptions: vec![
            "the edit area fits on the screen".into(),
            "in schedules, threads take no time except where a timer fires first".into(),
        ],
    }
}

#[derive(Clone, Copy, Debug, Hash)]
enum Held {
    /// run a function that takes so many milliseconds
    Run(u64),
    Note(u64),
    Print,
}

fn racing(durs: &[u64], keys: &'static str, wait: u64, printing: bool) -> Res {
    rt::exploring(false);
    let mut io = liso::InputOutput::new();
    io.status(Some("status"));
    io.prompt("> ", true, false);
    rt::settle();
    rt::exploring(true);
    let h = printing.then(|| {
        let o = io.clone_output();
        thread::spawn(move || {
            o.println("b1");
            o.notice("other", std::time::Duration::from_millis(2));
            o.println("b2");
        })
    });
    let t0 = rt::now();
    for (i, d) in durs.iter().enumerate() {
        io.notice(format!("note {i}"), std::time::Duration::from_millis(*d));
    }
    type_bytes(keys.as_bytes());
    rt::settle();
    if let Some(h) = h {
        let _ = h.join();
        rt::settle();
    }
    rt::exploring(false);
    let shown = |what: &str| rt::world().term.all_rows().iter().filter(|r| Term::row_text(r).trim_end() == what).count();
    let prompt = format!("> {keys}");
    rt::advance(wait as u128 * MS);
    if durs.last() == Some(&1000) && keys.is_empty() && !printing && rt::now() < t0 + 1000 * MS {
        // not before its time
        if shown("note 1") != 1 || shown(&prompt) != 0 {
            return fail("early", format!("the notice is gone too early: {}", rt::world().term.dump()));
        }
    }
    if shown(prompt.trim_end()) != 1 && !durs.contains(&1000) {
        return fail("stays", format!("the notice has not gone away: {}", rt::world().term.dump()));
    }
    rt::advance(1000 * MS);
    let tm = &rt::world().term;
    if shown(prompt.trim_end()) != 1 || shown("status") != 1 || tm.all_rows().iter().any(|r| Term::row_text(r).starts_with("note") || Term::row_text(r).starts_with("other")) {
        return fail("stays", format!("the notice has not gone away: {}", tm.dump()));
    }
    if (tm.x, tm.cursor_visible) != (prompt.len(), true) {
        return fail("cursor", format!("the cursor is not back: {}", tm.dump()));
    }
    if printing && (shown("b1"), shown("b2")) != (1, 1) {
        return fail("lines", format!("printed lines are gone: {}", tm.dump()));
    }
    // another one still works
    io.notice("more", std::time::Duration::from_millis(3));
    rt::settle();
    if shown("more") != 1 {
        return fail("missing", format!("a later notice is not shown: {}", tm.dump()));
    }
    rt::advance(3 * MS);
    if shown(prompt.trim_end()) != 1 {
        return fail("stays", format!("a later notice does not go away: {}", tm.dump()));
    }
    type_bytes(b"\r");
    rt::settle();
    let mut got = vec![];
    super::pipe::drain(&mut io, &mut got)?;
    if got != [format!("Input({keys:?})")] {
        return fail("keys", format!("the responses are {got:?}"));
    }
    drop(io);
    super::life::restored(false)
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    (id == "P11").then(|| p11(thorough))
}
