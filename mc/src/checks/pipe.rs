//! P12: without a terminal.
use std::rc::Rc;
use std::time::Duration;

use liso::InputOutput;
use mcrt::rt::{self, Opts};
use mcrt::world::{type_bytes, type_eof, World};

use super::util::{characters, Mix, Words};
use crate::engine::{fail, Check, Ctx, Family, Res, Scen};
use crate::line::{bg, fg, st, t, BOLD, INV, L};
use crate::model::Op;
use crate::sess::{exec, exec_with, show_resp};

pub const MODES: usize = 5;
/// The ways of not having a terminal.
pub fn pipe_world(i: usize) -> World {
    let w = World::tty(20, 6);
    match i {
        0 => w.pipe_in().pipe_out(),
        1 => w.pipe_in(),
        2 => w.pipe_out(),
        3 => w.with_env("TERM", "dumb"),
        _ => w.with_env("TERM", "pipe"),
    }
}
fn mode_name(i: usize) -> &'static str {
    ["both piped", "stdin piped", "stdout piped", "TERM=dumb", "TERM=pipe"][i]
}
/// Everything that was written so far.
pub fn written() -> Vec<u8> {
    let w = rt::world();
    if w.is_tty(1) {
        w.tty_bytes.clone()
    } else {
        w.out.clone()
    }
}
pub fn drain(io: &mut InputOutput, got: &mut Vec<String>) -> Res {
    while let Some(r) = io.try_read() {
        let s = show_resp(&r);
        if s == "Dead" {
            return fail("dead", "Dead was reported although nothing failed");
        }
        got.push(s);
        if got.len() > 2000 {
            return fail("endless", "there is no end to the responses");
        }
    }
    Ok(())
}
fn untouched() -> Res {
    let w = rt::world();
    if w.raw_calls > 0 || w.raw {
        return fail("mode", "the mode of the terminal was changed");
    }
    if !w.is_tty(1) && !w.tty_bytes.is_empty() {
        return fail("tty", format!("the terminal got {:?}", String::from_utf8_lossy(&w.tty_bytes)));
    }
    if !w.stderr.is_empty() {
        return fail("stderr", format!("standard error got {:?}", String::from_utf8_lossy(&w.stderr)));
    }
    if let Some(p) = rt::rt_panics().first() {
        return fail("panic", format!("thread {} panicked: {}", p.thread, p.message));
    }
    Ok(())
}
/// The lines in these bytes: the complete ones, and the rest (as lossy text).
pub fn lines(b: &[u8]) -> (Vec<String>, Option<String>) {
    let mut v = vec![];
    let mut rest = b;
    while let Some(i) = rest.iter().position(|c| *c == b'\n') {
        let mut l = &rest[..i];
        if l.ends_with(b"\r") {
            l = &l[..l.len() - 1];
        }
        v.push(String::from_utf8_lossy(l).to_string());
        rest = &rest[i + 1..];
    }
    (v, if rest.is_empty() { None } else { Some(String::from_utf8_lossy(rest).to_string()) })
}
fn inputs(v: &[String]) -> Vec<String> {
    v.iter().map(|l| format!("Input({l:?})")).collect()
}

fn session(mode: usize, bytes: Vec<u8>, cuts: u64, eof: bool, end: usize, ctx: &mut Ctx) -> Res {
    exec(pipe_world(mode), ctx, move || {
        let mut io = InputOutput::new();
        let mut got = vec![];
        let mut from = 0;
        for i in 0..bytes.len() {
            if i + 1 == bytes.len() || cuts >> i & 1 == 1 {
                type_bytes(&bytes[from..=i]);
                from = i + 1;
                if cuts & 1 == 0 {
                    rt::settle();
                    drain(&mut io, &mut got)?;
                    let want = inputs(&lines(&bytes[..=i]).0);
                    if got != want {
                        return fail("input", format!("after {} bytes the responses are {got:?} instead of {want:?}", i + 1));
                    }
                }
            }
        }
        let (mut want, rest) = lines(&bytes);
        if eof {
            type_eof();
            want.extend(rest);
        }
        let want = inputs(&want);
        rt::settle();
        drain(&mut io, &mut got)?;
        rt::advance(10_000_000_000);
        drain(&mut io, &mut got)?;
        if got != want {
            return fail("input", format!("the responses are {got:?} instead of {want:?}"));
        }
        // still alive
        io.send_custom(7u32);
        io.println("alive");
        rt::settle();
        drain(&mut io, &mut got)?;
        if got.len() != want.len() + 1 || got.last().map(|s| s.as_str()) != Some("Custom(7)") {
            return fail("custom", format!("a custom value gave {got:?}"));
        }
        match end {
            0 => drop(io),
            _ => io.blocking_die(),
        }
        if written() != b"alive\n" {
            return fail("output", format!("{:?} was written", String::from_utf8_lossy(&written())));
        }
        untouched()
    })
}

fn out_alphabet() -> Vec<Op> {
    vec![
        Op::Print(t("plain")),
        Op::Print(t("")),
        Op::Print(st(BOLD, "bo").and(bg(2, "g")).reset().and(st(INV, "i"))),
        Op::Print(t("two\nlines\n")),
        Op::Print(t("ctl\x1b[31m\x07\t\u{85}")),
        Op::Print(t("\u{4f60}\u{301} a long line that is wider than the terminal is")),
        Op::Wrap(t("words that do not fit on one row of twenty \n cells\n")),
        Op::Wrap(st(BOLD, "w")),
        Op::Wrap(t(&"much wider than any terminal that is eighty cells wide ".repeat(3))),
        Op::Echo(t("echo")),
        Op::Status(Some(st(INV, "status"))),
        Op::Status(None),
        Op::Prompt(t("prompt> "), true, false),
        Op::Prompt(t("no"), false, true),
        Op::Notice(t("notice"), 100),
        Op::Bell,
        Op::Suspend("sub".into()),
        Op::Custom(5),
        Op::Completor(None),
        Op::SwapHist(vec!["x".into()]),
        Op::Advance(200),
    ]
}
#[derive(Default)]
struct Exp {
    out: String,
    resp: Vec<String>,
    runs: Vec<String>,
}
fn do_op(io: &InputOutput, op: &Op, e: &mut Exp, input: &'static str) {
    match op {
        Op::Print(l) => {
            io.println(l.real());
            e.out += &plain(l);
            e.out.push('\n');
        }
        Op::Wrap(l) => {
            io.wrapln(l.real());
            e.out += &plain(l);
            e.out.push('\n');
        }
        Op::Echo(l) => io.echoln(l.real()),
        Op::Status(l) => io.status(l.as_ref().map(|l| l.real())),
        Op::Prompt(l, a, c) => io.prompt(l.real(), *a, *c),
        Op::Notice(l, ms) => io.notice(l.real(), Duration::from_millis(*ms)),
        Op::Bell => io.bell(),
        Op::Suspend(s) => {
            let s = s.clone();
            e.runs.push(format!("run {s} {:?}", e.out));
            io.suspend_and_run(move || {
                let so_far = String::from_utf8_lossy(&written()).to_string();
                rt::world().log.push(format!("run {s} {so_far:?}"));
            })
        }
        Op::Custom(n) => {
            io.send_custom(*n);
            e.resp.push(format!("Custom({n})"));
        }
        Op::Completor(_) => io.set_completor(None),
        Op::SwapHist(_) => drop(io.swap_history(liso::History::new())),
        Op::Advance(ms) => {
            rt::settle();
            rt::advance(*ms as u128 * 1_000_000);
        }
        Op::Key(_) => {
            rt::settle();
            type_bytes(input.as_bytes());
            e.resp.push(format!("Input({:?})", input.trim_end()));
            rt::settle();
        }
        _ => unreachable!(),
    }
}
pub fn plain(l: &L) -> String {
    l.spec().ch.iter().map(|c| c.0).collect()
}
/// Responses of the two sources (input, custom values) keep their own order.
fn both(got: &[String], want: &[String]) -> bool {
    let f = |v: &[String], p: &str| v.iter().filter(|s| s.starts_with(p)).cloned().collect::<Vec<_>>();
    got.len() == want.len() && f(got, "Input") == f(want, "Input") && f(got, "Custom") == f(want, "Custom")
}

/// Every sequence of these calls without a terminal.
pub fn calls(name: &str, alpha: Vec<Op>, depth: u32) -> Family {
    let a2 = alpha.clone();
    let ow = Words { a: alpha.len() as u64, min: 1, max: depth };
    Family::seq(
        name,
        "every sequence of calls, in every way of not having a terminal, waiting after each or not at all",
        ow.total() * (MODES * 2) as u64,
        move |i, ctx| {
            let m = Mix(vec![MODES as u64, 2, ow.total()]).get(i);
            let ops: Vec<Op> = ow.get(m[2] as u64).iter().map(|&k| alpha[k].clone()).collect();
            let each = m[1] == 0;
            ctx.transitions += ops.len() as u64;
            let end = m[2] % 2;
            exec(pipe_world(m[0]), ctx, move || {
                let mut io = InputOutput::new();
                let mut e = Exp::default();
                let mut got = vec![];
                for (n, op) in ops.iter().enumerate() {
                    do_op(&io, op, &mut e, "typed\n");
                    if each || n + 1 == ops.len() {
                        rt::settle();
                        let w = written();
                        if w != e.out.as_bytes() {
                            return fail("output", format!("{:?} was written instead of {:?}", String::from_utf8_lossy(&w), e.out));
                        }
                        drain(&mut io, &mut got)?;
                        if !both(&got, &e.resp) {
                            return fail("responses", format!("the responses are {got:?} instead of {:?}", e.resp));
                        }
                    }
                }
                let runs: Vec<String> = rt::world().log.iter().filter(|l| l.starts_with("run ")).cloned().collect();
                if runs != e.runs {
                    return fail("suspend", format!("functions ran as {runs:?} instead of {:?}", e.runs));
                }
                // what is printed last is there when the shutdown is over
                io.println("last");
                e.out += "last\n";
                if end == 0 {
                    drop(io)
                } else {
                    io.blocking_die()
                }
                if written() != e.out.as_bytes() {
                    return fail("output", format!("at the end {:?} was written instead of {:?}", String::from_utf8_lossy(&written()), e.out));
                }
                untouched()
            })
        },
        move |i| {
            let m = Mix(vec![MODES as u64, 2, ow.total()]).get(i);
            let ops: Vec<Op> = ow.get(m[2] as u64).iter().map(|&k| a2[k].clone()).collect();
            format!("{} {}: {}", mode_name(m[0]), if m[1] == 0 { "each" } else { "burst" }, crate::model::show_ops(&ops))
        },
    )
}

fn p12(thorough: bool) -> Check {
    const TOKS: &[&[u8]] =
        &[b"a", b"\n", b"\r\n", b"\xc3\xa9", b" ", b"\x1b[A", b"\xff", b"\x04", b"\x03", b"\t", b"\xef\xbb\xbf", b"\0"];
    let words = Words { a: TOKS.len() as u64, min: 0, max: if thorough { 6 } else { 4 } };
    let bytes = move |i: u64| -> Vec<u8> { words.get(i).iter().flat_map(|&k| TOKS[k].to_vec()).collect() };
    // one way of delivery per case, all of them for the short ones
    let f1 = Family::seq(
        "input",
        "every short input, whole and byte by byte, with and without an end, in every way of not having a terminal",
        words.total() * (MODES * 4) as u64,
        move |i, ctx| {
            let n = (MODES * 4) as u64;
            let b = bytes(i / n);
            let k = (i % n) as usize;
            if b.ends_with(b"\r") {
                return Ok(());
            }
            ctx.transitions += b.len() as u64 + 1;
            let cuts = if k / MODES % 2 == 0 { 0 } else { !1u64 };
            session(k % MODES, b, cuts, k / MODES / 2 == 0, k % 2, ctx)
        },
        move |i| {
            let n = (MODES * 4) as u64;
            let k = (i % n) as usize;
            format!("{} {:?} case {}", mode_name(k % MODES), String::from_utf8_lossy(&bytes(i / n)), k / MODES)
        },
    );
    let texts: Rc<Vec<Vec<u8>>> = Rc::new(vec![
        b"ab\ncd\r\n\nef".to_vec(),
        "x\u{e9}\u{4f60}\r\n\u{1f600}\n".as_bytes().to_vec(),
        b"\n\n\r\n".to_vec(),
        b"one\xfftwo\nthree\n".to_vec(),
    ]);
    let t2 = texts.clone();
    let f2 = Family::seq(
        "cuts",
        "every way of cutting some inputs into reads",
        texts.iter().map(|t| 1u64 << (t.len() - 1)).sum::<u64>() * 2,
        move |i, ctx| {
            let (mut k, eof) = (i / 2, i % 2 == 0);
            for t in t2.iter() {
                let n = 1u64 << (t.len() - 1);
                if k < n {
                    ctx.transitions += t.len() as u64;
                    return session((k % MODES as u64) as usize, t.clone(), k << 1 & !1, eof, 0, ctx);
                }
                k -= n;
            }
            Ok(())
        },
        |i| format!("cut {i}"),
    );
    let f3 = Family::seq(
        "long",
        "long lines and many lines around the size of the read buffer",
        4 * 9 * 2,
        |i, ctx| {
            let m = Mix(vec![4, 9, 2]).get(i);
            let n = [1, 255, 1024, 8190, 8191, 8192, 8193, 16384, 20001][m[1]];
            let b: Vec<u8> = match m[0] {
                0 => vec![b'a'; n].into_iter().chain(*b"\nend\n").collect(),
                1 => std::iter::repeat_n("\u{4f60}", n / 3).collect::<String>().into_bytes().into_iter().chain(*b"\r\nend").collect(),
                2 => std::iter::repeat_n(*b"l\r\n", n / 40).flatten().collect(),
                _ => std::iter::repeat_n(b'\n', n / 40).collect(),
            };
            session(m[0] % MODES, b, 0, m[2] == 0, 1, ctx)
        },
        |i| format!("{:?}", Mix(vec![4, 9, 2]).get(i)),
    );
    let mut alpha = out_alphabet();
    alpha.push(Op::Key(crate::model::Key::Ch('k')));
    let f4 = calls("output", alpha, if thorough { 5 } else { 4 });
    // schedules
    let mut scens = vec![];
    for mode in 0..MODES {
        for (name, input, eof) in [("no input", "", false), ("lines", "l1\nl2\nrest", false), ("lines and end", "l1\nl2\nrest", true), ("end", "", true)] {
            for end in 0..2 {
                scens.push(Scen {
                    name: format!("{}, {name}, {}", mode_name(mode), ["drop", "blocking_die"][end]),
                    bound: if thorough { 3 } else { 2 },
                    run: Box::new(move |devs, ctx| {
                        exec_with(&Opts::explore(), devs, pipe_world(mode), ctx, move || race(input, eof, end))
                    }),
                });
            }
        }
    }
    let f5 = Family::sched_free("shutdown", "every schedule of printing, input arriving and ending, then starting anew", scens, super::util::free_bound(thorough) + 2);
    let mut scens = vec![];
    for mode in [0, 2, 3] {
        for eof in [false, true] {
            scens.push(Scen {
                name: format!("{}, reading everything{}", mode_name(mode), if eof { ", then the end" } else { "" }),
                bound: if thorough { 4 } else { 3 },
                run: Box::new(move |devs, ctx| {
                    exec_with(&Opts::explore(), devs, pipe_world(mode), ctx, move || {
                        let mut io = InputOutput::new();
                        type_bytes(b"one\r\ntwo\n");
                        io.send_custom(1u32);
                        type_bytes(b"three");
                        if eof {
                            type_eof();
                        }
                        io.println("out");
                        let mut got = vec![];
                        for _ in 0..3 + eof as usize {
                            got.push(show_resp(&io.read_blocking()));
                        }
                        rt::settle();
                        drain(&mut io, &mut got)?;
                        let mut want = inputs(&["one".to_string(), "two".to_string()]);
                        if eof {
                            want.extend(inputs(&["three".to_string()]));
                        }
                        want.push("Custom(1)".into());
                        if !both(&got, &want) {
                            return fail("responses", format!("the responses are {got:?} instead of {want:?} in some order"));
                        }
                        drop(io);
                        if written() != b"out\n" {
                            return fail("output", format!("{:?} was written", String::from_utf8_lossy(&written())));
                        }
                        untouched()
                    })
                }),
            });
        }
    }
    let f6 = Family::sched_free("reading", "every schedule of reading lines and custom values", scens, super::util::free_bound(thorough) + 2);
    let f8 = Family::seq(
        "long output",
        "long lines and many lines printed at once",
        5 * 7 * MODES as u64 * 2,
        |i, ctx| {
            let m = Mix(vec![5, 7, MODES as u64, 2]).get(i);
            let n = [255, 256, 1023, 2049, 4097, 8193, 70000][m[1]];
            ctx.transitions += 1;
            exec(pipe_world(m[2]), ctx, move || {
                let io = InputOutput::new();
                let mut lines = vec![];
                match m[0] {
                    0 => lines.push(t(&"0123456789".chars().cycle().take(n).collect::<String>())),
                    1 => lines.push(t(&"\u{4f60} x".repeat(n / 5))),
                    2 => lines.push((0..n / 100).fold(t("styled"), |l, k| l.and(fg((k % 8) as u8, "0123456789 ")).and(bg(2, &"b".repeat(89))))),
                    3 => lines.push(t(&"row\n".repeat(n / 4))),
                    _ => lines.extend((0..n / 20).map(|k| t(&format!("line {k}")))),
                }
                let mut out = String::new();
                for l in &lines {
                    if m[3] == 0 {
                        io.println(l.real());
                    } else {
                        io.wrapln(l.real());
                    }
                    out += &plain(l);
                    out.push('\n');
                }
                if n % 2 == 0 {
                    rt::settle();
                }
                drop(io);
                let w = written();
                if w != out.as_bytes() {
                    let k = w.iter().zip(out.as_bytes()).take_while(|(a, b)| a == b).count();
                    return fail("output", format!("{} bytes were written instead of {}; they differ from byte {k} on", w.len(), out.len()));
                }
                untouched()
            })
        },
        |i| {
            let m = Mix(vec![5, 7, MODES as u64, 2]).get(i);
            format!("{} kind {} size {} {}", mode_name(m[2]), m[0], m[1], ["println", "wrapln"][m[3]])
        },
    );
    let f7 = characters("characters", "every character within, before and after a line, in and out", true, |chars, ctx| {
        let mut b = vec![];
        let mut want = vec![];
        for c in chars.iter().filter(|c| !matches!(c, '\r' | '\n')) {
            for s in [format!("{c}"), format!("a{c}"), format!("{c}b{c}")] {
                b.extend(s.as_bytes());
                b.push(b'\n');
                want.push(s);
            }
        }
        let mode = chars.first().map_or(0, |c| *c as usize / 64 % MODES);
        session(mode, b, 0, false, 0, ctx)?;
        exec(pipe_world(mode), ctx, move || {
            let io = InputOutput::new();
            let mut out = String::new();
            for s in want {
                let l = t(&s);
                io.println(l.real());
                out += &plain(&l);
                out.push('\n');
            }
            drop(io);
            if written() != out.as_bytes() {
                return fail("output", format!("{:?} was written instead of {out:?}", String::from_utf8_lossy(&written())));
            }
            untouched()
        })
    });
    Check {
        families: vec![f1, f2, f3, f4, f5, f6, f7, f8],
        rule: "responses and bytes written equal the reference's; nothing else is written and the terminal mode is never touched".into(),
        assumptions: vec![
            "several carriage returns before a line feed, or one at the very end of the input, are unspecified".into(),
            "bytes that are not valid UTF-8 are replaced by U+FFFD".into(),
        ],
    }
}
fn race(input: &'static str, eof: bool, end: usize) -> Res {
    let io = InputOutput::new();
    io.println("a");
    type_bytes(input.as_bytes());
    if eof {
        type_eof();
    }
    io.println("b");
    let out = io.clone_output();
    if end == 0 {
        drop(io);
    } else {
        io.blocking_die();
    }
    if written() != b"a\nb\n" {
        return fail("output", format!("{:?} was written", String::from_utf8_lossy(&written())));
    }
    rt::exploring(false);
    rt::settle();
    if !rt::unfinished().is_empty() {
        return fail("threads", format!("threads still running: {:?}", rt::unfinished()));
    }
    let w = rt::world();
    if !w.readers.is_empty() || w.fds.len() != 3 {
        return fail("stdin", format!("descriptors {:?}, readers {:?}", w.fds, w.readers));
    }
    drop(out);
    // again
    let mut io = InputOutput::new();
    let mut got = vec![];
    rt::settle();
    drain(&mut io, &mut got)?;
    if !eof {
        type_bytes(b"\nnext\n");
        rt::settle();
        drain(&mut io, &mut got)?;
        if got.last().map(|s| s.as_str()) != Some("Input(\"next\")") {
            return fail("again", format!("a second instance read {got:?}"));
        }
    }
    io.println("c");
    drop(io);
    if written() != b"a\nb\nc\n" {
        return fail("output", format!("{:?} was written", String::from_utf8_lossy(&written())));
    }
    untouched()
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P12" => p12(thorough),
        _ => return None,
    })
}
