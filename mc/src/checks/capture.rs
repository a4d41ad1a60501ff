//! P30: standard error as output (a build of the library of its own, with `capture-stderr`).
use std::cell::RefCell;
use std::rc::Rc;

use liso::InputOutput;
use mcrt::rt::{self, Opts};
use mcrt::term::{Row, Term};
use mcrt::thread;
use mcrt::world::{sys_write, type_bytes, Obj, World};

use super::life::{end, end_name, restored, works_again, ENDS};
use super::util::{Mix, Shared, Words};
use crate::engine::{fail, Check, Ctx, Family, Res, Scen};
use crate::line::{bg, show_row, st, t, INV};
use crate::model::{err_line, ctl, Key, Model, Op};
use crate::sess::{cfg, exec, exec_with, same, Cfg, Pace, Sess, Space};

fn err(b: &[u8]) {
    let n = sys_write(2, b);
    if !rt::teardown() {
        assert_eq!(n.ok(), Some(b.len()), "writing to standard error failed");
    }
}
/// Standard error is what it was.
fn original(o: Obj) -> Res {
    let now = rt::world().fds.get(&2).copied();
    if now != Some(o) {
        return fail("stderr", format!("standard error is {now:?} instead of {o:?}"));
    }
    Ok(())
}
/// Write directly, and see it arrive as it is.
fn direct() -> Res {
    original(Obj::Tty)?;
    let n = rt::world().tty_bytes.len();
    err(b"direct\n");
    rt::settle();
    let w = rt::world();
    if &w.tty_bytes[n..] != b"direct\n" {
        return fail("stderr", format!("afterwards standard error got {:?}", String::from_utf8_lossy(&w.tty_bytes[n..])));
    }
    Ok(())
}
/// The rows on the screen (and above) are these, and then nothing but `rest`.
fn rows_are(want: &[Row], rest: &[u8], c: &Cfg) -> Res {
    let w = rt::world();
    let t = &w.term;
    // (the rest goes to the terminal as it is)
    if let (Some(e), true) = (t.errors.first(), std::str::from_utf8(rest).is_ok()) {
        return fail("sequence", format!("the terminal got something it does not understand: {e}"));
    }
    let rows = t.all_rows();
    let blank: Row = vec![c.show.blank(); c.w];
    for (i, r) in want.iter().enumerate() {
        let got = rows.get(i).unwrap_or(&blank);
        if !same(got, r, true) {
            return fail("screen", format!("row {i} shows {} instead of {}; screen:\n{}", show_row(got), show_row(r), t.dump()));
        }
    }
    if !w.tty_bytes.ends_with(rest) {
        return fail("rest", format!("the rest of standard error ({:?}) is not there as it is", String::from_utf8_lossy(rest)));
    }
    if rest.iter().any(|b| !(b' '..=b'~').contains(b)) {
        return Ok(());
    }
    let tail: String = rows.iter().skip(want.len()).map(Term::row_text).collect();
    let rest = String::from_utf8_lossy(rest).to_string();
    if tail.trim_end() != rest.trim_end() {
        return fail("screen", format!("after {} rows comes {tail:?} instead of {rest:?}; screen:\n{}", want.len(), t.dump()));
    }
    Ok(())
}
/// Shut down and see that everything is there, and given back.
fn finish(s: &mut Sess, how: usize) -> Res {
    let io = s.io.take().unwrap();
    end(io, how);
    original(Obj::Tty)?;
    rows_are(&s.m.committed, &s.m.err, &s.cfg)?;
    restored(false)?;
    direct()
}

fn chunks() -> Vec<Op> {
    [&b"one\n"[..], b"par", b"a\r\nb\n", b"\n", b"x\ny", b"\x1b[1mq\n\xc3", b"\xa9\xff\n", b"quite a long line, too\n"]
        .iter()
        .map(|b| Op::Stderr(b.to_vec()))
        .collect()
}
fn calls(depth: u32, few: bool) -> Space {
    let mut alpha = chunks();
    if few {
        alpha.truncate(4);
    }
    alpha.extend([
        Op::Print(bg(2, "p")),
        Op::Prompt(t("> "), true, false),
        Op::Key(Key::Ch('k')),
        Op::Key(ctl('M')),
    ]);
    if !few {
        alpha.extend([
            Op::Wrap(t("some words and more")),
            Op::Status(Some(st(INV, "status"))),
            Op::Notice(t("note"), 1000),
            Op::Advance(1000),
            Op::Bell,
            Op::Suspend("sub\n".into()),
            Op::Key(ctl('Z')),
            Op::Key(Key::Left),
        ]);
    }
    Space {
        cfgs: vec![("14x30".into(), cfg(14, 30), vec![]), ("14x6".into(), cfg(14, 6), vec![Op::Prompt(st(INV, "> "), true, false)])],
        alpha,
        depth,
        paces: vec![Pace::Each, Pace::Burst],
    }
}

/// What is written in pieces of every size arrives in lines.
fn bytes(depth: u32) -> Family {
    let mut pieces: Vec<(String, Vec<u8>)> = vec![];
    for n in [1usize, 3, 64, 127, 128, 129, 256] {
        for what in 0..5 {
            let mut b = vec![b'a' + pieces.len() as u8 % 26; n];
            let name = match what {
                0 => "letters",
                1 => {
                    b[n - 1] = b'\n';
                    "letters and a line break"
                }
                2 => {
                    b[0] = b'\n';
                    "a line break and letters"
                }
                3 => {
                    b.iter_mut().enumerate().for_each(|(i, c)| {
                        if i % 4 == 3 {
                            *c = b'\n'
                        }
                    });
                    "short lines"
                }
                _ if n >= 64 => {
                    b[n / 2] = b'\n';
                    "letters around a line break"
                }
                _ => continue,
            };
            pieces.push((format!("{n} {name}"), b));
        }
    }
    pieces.push(("0".into(), vec![]));
    let words = Words { a: pieces.len() as u64, min: 1, max: depth };
    let x = Rc::new((words, pieces));
    let y = x.clone();
    Family::seq(
        "bytes",
        "every sequence of pieces of every size around that of the buffer, with line breaks in them, read one by one or together",
        words.total() * 2,
        move |i, ctx: &mut Ctx| {
            let x = x.clone();
            let v = x.0.get(i / 2);
            exec(World::tty(300, 400), ctx, move || {
                let io = InputOutput::new();
                rt::settle();
                let c = cfg(300, 400);
                let mut m: Model = c.model();
                for &k in &v {
                    if i % 2 == 0 {
                        rt::settle();
                    }
                    err(&x.1[k].1);
                    m.apply(&Op::Stderr(x.1[k].1.clone()));
                }
                rt::settle();
                rows_are(&m.committed, b"", &c)?;
                drop(io);
                original(Obj::Tty)?;
                rows_are(&m.committed, &m.err, &c)?;
                restored(false)
            })
        },
        move |i| {
            format!(
                "{}: {}",
                if i % 2 == 0 { "one by one" } else { "together" },
                y.0.get(i / 2).iter().map(|k| y.1[*k].0.clone()).collect::<Vec<_>>().join(", ")
            )
        },
    )
}

/// Long lines, and many of them.
fn long(thorough: bool) -> Family {
    let mut lens: Vec<usize> = vec![255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 8193];
    if thorough {
        lens.extend([10_000, 16_384, 16_385, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000]);
    }
    const PIECES: [usize; 6] = [1, 100, 128, 129, 1024, usize::MAX];
    let n = (lens.len() * PIECES.len() * 2 * 3) as u64;
    let case = move |i: u64| {
        let i = i as usize;
        let len = lens[i % lens.len()];
        let i = i / lens.len();
        (len, PIECES[i % PIECES.len()], i / PIECES.len() % 2 == 0, i / PIECES.len() / 2)
    };
    let c2 = case.clone();
    Family::seq(
        "long",
        "long lines and many short ones, written in pieces of every size, read one by one or together",
        n,
        move |i, ctx: &mut Ctx| {
            let (len, piece, each, kind) = case(i);
            ctx.transitions += 1;
            exec(World::tty(300, 400), ctx, move || {
                let io = InputOutput::new();
                rt::settle();
                let c = cfg(300, 400);
                let mut m: Model = c.model();
                let mut b: Vec<u8> = (0..len).map(|k| b'a' + (k / 7 % 26) as u8).collect();
                match kind {
                    0 => b.push(b'\n'),
                    1 => (),
                    _ => b.iter_mut().skip(40).step_by(40).for_each(|x| *x = b'\n'),
                }
                let b = [&b"first\n"[..], &b, b"last"].concat();
                for p in b.chunks(piece.min(b.len())) {
                    err(p);
                    if each {
                        rt::settle();
                    }
                }
                m.apply(&Op::Stderr(b));
                rt::settle();
                rows_are(&m.committed, b"", &c)?;
                drop(io);
                original(Obj::Tty)?;
                rows_are(&m.committed, &m.err, &c)?;
                restored(false)
            })
        },
        move |i| {
            let (len, piece, each, kind) = c2(i);
            format!("{len} bytes ({}) in pieces of {piece}, {}", ["a line", "a line without an end", "lines"][kind], if each { "one by one" } else { "together" })
        },
    )
}

/// After a long line has made the buffer large: whole lines with the beginning of another behind them.
fn after_long(thorough: bool) -> Family {
    let first: &'static [usize] = if thorough { &[0, 100, 127, 128, 200, 255, 300, 600, 1024, 1500, 3000] } else { &[0, 200, 300, 600, 1500] };
    const SHORT: [&str; 4] = ["s\n", "\n", "s\nt\n\n", ""];
    const REST: [usize; 12] = [0, 1, 100, 127, 128, 129, 255, 256, 257, 400, 513, 1100];
    let mix = Rc::new(Mix(vec![first.len() as u64, SHORT.len() as u64, REST.len() as u64, 3]));
    let (m2, n) = (mix.clone(), mix.total());
    Family::seq(
        "after long",
        "a line, long or not, then lines and the beginning of one in one piece, then its end",
        n,
        move |i, ctx: &mut Ctx| {
            let v = mix.get(i);
            ctx.transitions += 1;
            exec(World::tty(300, 60), ctx, move || {
                let io = InputOutput::new();
                rt::settle();
                let c = cfg(300, 60);
                let mut m: Model = c.model();
                let letters = |n: usize, from: u8| (0..n).map(|k| from + (k / 7 % 26) as u8).collect::<Vec<u8>>();
                let pieces = [
                    [&letters(first[v[0]], b'a')[..], b"\n"].concat(),
                    [SHORT[v[1]].as_bytes(), &letters(REST[v[2]], b'A')].concat(),
                    [&b""[..], b"end\n", b"end\nu\nv"][v[3]].to_vec(),
                ];
                for p in &pieces {
                    err(p);
                    rt::settle();
                }
                m.apply(&Op::Stderr(pieces.concat()));
                rows_are(&m.committed, b"", &c)?;
                drop(io);
                original(Obj::Tty)?;
                rows_are(&m.committed, &m.err, &c)?;
                restored(false)
            })
        },
        move |i| {
            let v = m2.get(i);
            format!("a line of {}, then {:?} and {} more, then end {}", first[v[0]], SHORT[v[1]], REST[v[2]], v[3])
        },
    )
}

/// What happens to standard error over the lives of several instances.
#[derive(Clone, Copy, Debug)]
enum Life {
    New,
    End(usize),
    Line,
    Part,
    Print,
    /// the terminal stops working (and works again after the instance has ended)
    Break,
    Settle,
}
const LIVES: [Life; 8] =
    [Life::New, Life::End(0), Life::End(1), Life::End(2), Life::Line, Life::Part, Life::Print, Life::Break];
fn generations(depth: u32, failing: bool) -> Family {
    let n = if failing { 8 } else { 7 };
    let words = Words { a: n, min: 1, max: depth };
    let name = if failing { "failures" } else { "generations" };
    Family::seq(
        name,
        "every sequence of starting and ending instances and of writing to standard error in between",
        words.total(),
        move |i, ctx: &mut Ctx| {
            let mut v: Vec<Life> = words.get(i).iter().map(|k| LIVES[*k]).collect();
            v.push(Life::Settle);
            exec(World::tty(30, 40), ctx, move || {
                let mut io: Option<InputOutput> = None;
                let (mut broken, mut ever) = (false, false);
                // what was written while it could be captured, and what was to go elsewhere
                let mut lines = 0u32;
                let mut part = vec![];
                for l in v {
                    match l {
                        Life::New if io.is_none() => {
                            io = Some(InputOutput::new());
                            rt::settle();
                            if rt::world().is_tty(2) {
                                return fail("capture", "standard error is not captured");
                            }
                        }
                        Life::End(how) if io.is_some() => {
                            let n = rt::world().tty_bytes.len();
                            end(io.take().unwrap(), how);
                            original(Obj::Tty)?;
                            rt::world().fail_write_at = None;
                            let w = rt::world();
                            if !part.is_empty() && !w.tty_bytes[n..].ends_with(&part) {
                                return fail("part", format!("the rest of standard error ({:?}) is not there", String::from_utf8_lossy(&part)));
                            }
                            part.clear();
                            if broken {
                                // what could not be written stays in the buffer (P10)
                                rt::world().stdout_buf.clear();
                                super::life::given_back(false, false)?;
                            } else {
                                super::life::given_back(!ever, false)?;
                            }
                            broken = false;
                        }
                        Life::Line => {
                            lines += 1;
                            let s = format!("line{lines}\n");
                            let n = rt::world().tty_bytes.len();
                            let was = rt::world().fds[&2];
                            err(s.as_bytes());
                            rt::settle();
                            let got = String::from_utf8_lossy(&rt::world().tty_bytes[n..]).to_string();
                            let once = got.matches(&format!("line{lines}")).count() == 1;
                            if !once {
                                return fail("line", format!("\"line{lines}\" on standard error became {got:?} (instance: {}, broken: {broken}, was {was:?})", io.is_some()));
                            }
                            if io.is_none() && got != s {
                                return fail("line", format!("without an instance {s:?} became {got:?}"));
                            }
                            if io.is_some() && !broken && !got.contains("E: ") {
                                return fail("line", format!("{s:?} became {got:?}"));
                            }
                            part.clear();
                        }
                        Life::Part if io.is_some() && !broken => {
                            let n = rt::world().tty_bytes.len();
                            err(b"part");
                            part.extend(b"part");
                            rt::settle();
                            if rt::world().tty_bytes.len() != n {
                                return fail("part", "an unfinished line is shown");
                            }
                        }
                        Life::Print if io.is_some() && !broken => {
                            io.as_ref().unwrap().println("print");
                            rt::settle();
                        }
                        Life::Break if io.is_some() && !broken && part.is_empty() => {
                            let k = rt::world().out_writes;
                            rt::world().fail_write_at = Some(k);
                            io.as_ref().unwrap().println("fails");
                            rt::settle();
                            (broken, ever) = (true, true);
                        }
                        Life::Settle => rt::settle(),
                        _ => (),
                    }
                }
                let was = io.is_some();
                drop(io);
                original(Obj::Tty)?;
                if !broken {
                    super::life::given_back(!ever, false)?;
                    if !was {
                        direct()?;
                    }
                }
                Ok(())
            })
        },
        move |i| format!("{:?}", words.get(i).iter().map(|k| LIVES[*k]).collect::<Vec<_>>()),
    )
}

/// Where nothing is to be captured.
fn not_captured() -> Family {
    let cases: Vec<(usize, bool)> = (0..6).flat_map(|i| [(i, false), (i, true)]).collect();
    let c2 = cases.clone();
    Family::seq(
        "not captured",
        "without a terminal, or with standard error redirected, standard error is left alone",
        cases.len() as u64,
        move |i, ctx: &mut Ctx| {
            let (mode, burst) = cases[i as usize];
            let mut w = if mode < 5 { super::pipe::pipe_world(mode) } else { World::tty(20, 6) };
            if mode == 5 {
                w.fds.insert(2, Obj::OutPipe);
            }
            exec(w, ctx, move || {
                let was = rt::world().fds[&2];
                let io = InputOutput::new();
                if !burst {
                    rt::settle();
                }
                original(was)?;
                err(b"text\npart");
                io.println("x");
                rt::settle();
                original(was)?;
                let w = rt::world();
                let there = if was == Obj::OutPipe { w.out == b"text\npart" } else { String::from_utf8_lossy(&w.tty_bytes).contains("text\npart") };
                if !there {
                    return fail("stderr", "what was written to standard error did not get there as it is");
                }
                end(io, mode % ENDS);
                original(was)?;
                works_again(mode == 5)
            })
        },
        move |i| format!("{:?}", c2[i as usize]),
    )
}

/// The system calls that set it up can fail: it is said so, and everything else works.
fn refused() -> Family {
    Family::seq(
        "refused",
        "every system call that is needed for capturing fails",
        9,
        move |i, ctx: &mut Ctx| {
            let (at, how) = ((i / 3) as u32, (i % 3) as usize);
            let mut w = World::tty(60, 12);
            w.fail_dup_at = Some(at);
            exec(w, ctx, move || {
                let c = cfg(60, 12);
                let io = InputOutput::new();
                io.println("works");
                rt::settle();
                let rows: Vec<String> = rt::world().term.all_rows().iter().map(Term::row_text).collect();
                if !rows.iter().any(|r| r.contains("works")) {
                    return fail("lines", format!("the line is not there: {rows:?}"));
                }
                if !rows.iter().any(|r| r.contains("E: ") && r.contains("error 24")) {
                    return fail("said", format!("the error is not reported: {rows:?}"));
                }
                original(Obj::Tty)?;
                end(io, how);
                let _ = c;
                original(Obj::Tty)?;
                Ok(())
            })
        },
        move |i| format!("call {} fails, then {}", i / 3, end_name((i % 3) as usize)),
    )
}

/// A function that is run while Liso is suspended writes to standard error.
fn suspended() -> Family {
    Family::seq(
        "suspended",
        "standard error is written to while Liso is suspended",
        12,
        move |i, ctx: &mut Ctx| {
            exec(World::tty(30, 30), ctx, move || {
                let c = cfg(30, 30);
                let io = InputOutput::new();
                io.prompt("> ", true, false);
                rt::settle();
                let text: &'static [u8] = [&b"from within\n"[..], b"part", b"two\nlines\n"][(i % 3) as usize];
                io.suspend_and_run(move || err(text));
                if i / 3 % 2 == 1 {
                    io.println("after");
                }
                rt::settle();
                err(b"later\n");
                rt::settle();
                let mut m: Vec<Row> = vec![];
                let mut model = c.model();
                let mut all = text.to_vec();
                all.extend(b"later\n");
                // the line of the thread may come before or after those of the function
                let mut want: Vec<Vec<Row>> = vec![];
                for l in all.split_inclusive(|b| *b == b'\n') {
                    model.committed.clear();
                    model.apply(&Op::Print(err_line(&l[..l.len() - 1])));
                    want.push(model.committed.clone());
                }
                for r in want {
                    m.extend(r);
                }
                end(io, (i / 6) as usize);
                let rows = rt::world().term.all_rows();
                let got: Vec<Row> = rows
                    .into_iter()
                    .filter(|r| !Term::row_text(r).trim_end().is_empty() && Term::row_text(r).trim_end() != "after")
                    .collect();
                if got.len() != m.len() || got.iter().zip(&m).any(|(a, b)| !same(a, b, true)) {
                    return fail("screen", format!("the screen shows {:#?}", got.iter().map(show_row).collect::<Vec<_>>()));
                }
                original(Obj::Tty)?;
                restored(false)
            })
        },
        move |i| format!("case {i}"),
    )
}

/// The output is an interleaving of these sequences of lines, of each at least so many.
fn interleaved(seqs: &[Vec<String>], least: &[usize], rows: &[String]) -> Res {
    let mut at = vec![0; seqs.len()];
    for r in rows {
        match (0..seqs.len()).find(|&j| seqs[j].get(at[j]) == Some(r)) {
            Some(j) => at[j] += 1,
            None => return fail("lines", format!("{r:?} is not a line that may come now; all: {rows:?}")),
        }
    }
    for j in 0..seqs.len() {
        if at[j] < least[j] {
            return fail("lines", format!("only {} of {:?} are there: {rows:?}", at[j], seqs[j]));
        }
    }
    Ok(())
}
fn shown_rows() -> Vec<String> {
    rt::world().term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string()).filter(|r| !r.is_empty()).collect()
}
fn threads(bound: u32) -> Family {
    let mut scens = vec![];
    for how in 0..ENDS {
        for what in 0..6 {
            let name = [
                "two threads write to standard error, and one prints",
                "a thread writes pieces while the user types",
                "a thread writes while another shuts down",
                "lines right before shutting down",
                "one instance after the other",
                "the next instance starts as soon as it can",
            ][what];
            scens.push(Scen {
                name: format!("{name}, then {}", end_name(how)),
                bound,
                run: Box::new(move |devs, ctx| {
                    exec_with(&Opts::explore(), devs, World::tty(30, 30), ctx, move || scenario(what, how))
                }),
            });
        }
    }
    Family::sched_free("threads", "every schedule of threads that write to standard error, print, start and shut down", scens, bound - 2)
}
fn scenario(what: usize, how: usize) -> Res {
    rt::exploring(false);
    let mut io = InputOutput::new();
    rt::settle();
    if rt::world().is_tty(2) {
        return fail("capture", "standard error is not captured");
    }
    let e = |s: &str| format!("E: {s}");
    match what {
        0 => {
            rt::exploring(true);
            let o = io.clone_output();
            let ths = vec![
                thread::spawn(|| {
                    err(b"a1\n");
                    err(b"a2\n");
                }),
                thread::spawn(|| err(b"b1\nb2\n")),
                thread::spawn(move || {
                    o.println("c1");
                    o.println("c2");
                }),
            ];
            for t in ths {
                let _ = t.join();
            }
            rt::exploring(false);
            rt::settle();
            let seqs = [vec![e("a1"), e("a2")], vec![e("b1"), e("b2")], vec!["c1".to_string(), "c2".to_string()]];
            interleaved(&seqs, &[2, 2, 2], &shown_rows())?;
            end(io, how);
            interleaved(&seqs, &[2, 2, 2], &shown_rows())?;
        }
        1 => {
            rt::exploring(true);
            let th = thread::spawn(|| {
                err(b"a");
                err(b"1\na2");
                err(b"\na3\n");
            });
            type_bytes(b"k");
            type_bytes(b"l\r");
            let _ = th.join();
            rt::exploring(false);
            rt::settle();
            let mut got = vec![];
            super::pipe::drain(&mut io, &mut got)?;
            if got != ["Input(\"kl\")"] {
                return fail("input", format!("the responses are {got:?}"));
            }
            interleaved(&[vec![e("a1"), e("a2"), e("a3")], vec!["kl".into()]], &[3, 0], &shown_rows())?;
            end(io, how);
        }
        2 => {
            rt::exploring(true);
            let th = thread::spawn(|| {
                // at no moment is there no standard error
                for s in [&b"a1\n"[..], b"a2\n", b"a3\n"] {
                    err(s);
                }
            });
            end(io, how);
            let _ = th.join();
            rt::exploring(false);
            rt::settle();
            // captured or not, nothing comes twice; what is written while the capture ends may get
            // ahead of what is still on its way (the code says so)
            let mut rows: Vec<String> = shown_rows().iter().map(|r| r.trim_start_matches("E: ").to_string()).collect();
            let n = rows.len();
            rows.sort();
            rows.dedup();
            if rows.len() < n || rows.iter().any(|r| !["a1", "a2", "a3"].contains(&r.as_str())) {
                return fail("lines", format!("the screen shows {:?}", shown_rows()));
            }
            original(Obj::Tty)?;
        }
        3 => {
            err(b"a1\n");
            rt::settle();
            rt::exploring(true);
            io.println("b1");
            end(io, how);
            rt::exploring(false);
            interleaved(&[vec![e("a1"), "b1".into()]], &[2], &shown_rows())?;
        }
        4 => {
            rt::exploring(true);
            err(b"a1\n");
            end(io, how);
            original(Obj::Tty)?;
            let io = InputOutput::new();
            rt::exploring(false);
            rt::settle();
            if rt::world().is_tty(2) {
                return fail("capture", "standard error is not captured");
            }
            err(b"a2\n");
            rt::settle();
            if !shown_rows().contains(&e("a2")) {
                return fail("lines", format!("the screen shows {:?}", shown_rows()));
            }
            end(io, how);
        }
        _ => {
            // another thread waits for the moment in which an instance can be created
            let made: Shared<RefCell<Option<InputOutput>>> = Shared::new(RefCell::new(None));
            let m2 = made.clone();
            rt::world().tolerate.push("Tried to have multiple");
            rt::exploring(true);
            let th = thread::spawn(move || {
                for _ in 0..3 {
                    let r = std::panic::catch_unwind(InputOutput::new);
                    match r {
                        Ok(io) => {
                            *m2.borrow_mut() = Some(io);
                            break;
                        }
                        Err(e) => {
                            rt::filter_unwind(e);
                        }
                    }
                    mcrt::thread::yield_now();
                }
            });
            end(io, how);
            let _ = th.join();
            rt::exploring(false);
            rt::settle();
            let io = made.borrow_mut().take();
            if let Some(io) = io {
                if rt::world().is_tty(2) {
                    return fail("capture", "standard error of the second instance is not captured");
                }
                err(b"a2\n");
                rt::settle();
                if !shown_rows().contains(&e("a2")) {
                    return fail("lines", format!("the screen shows {:?}", shown_rows()));
                }
                end(io, how);
            }
        }
    }
    original(Obj::Tty)?;
    restored(false)
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    if id != "P30" {
        return None;
    }
    let d = thorough as u32;
    Some(Check {
        families: vec![
            calls(3 + d, false).family("calls", "every sequence of writes to standard error, calls and keys, then shutting down", |s| {
                finish(s, (s.m.committed.len() + s.m.err.len()) % ENDS)
            }),
            calls(5 + d, true).family("deep", "longer sequences of fewer operations", |s| finish(s, (s.m.committed.len() + s.m.err.len()) % ENDS)),
            bytes(2 + d),
            long(thorough),
            after_long(thorough),
            generations(5 + d, false),
            generations(5 + d, true),
            not_captured(),
            refused(),
            suspended(),
            threads(2 + d),
        ],
        rule: "each line written to standard error is shown once, whole and in order, as a line of output, the unfinished rest when shutting down; standard error is then what it was; without a terminal it is left alone".into(),
        assumptions: vec![
            "what is written while shutting down is under way may be lost".into(),
            "nobody else holds a copy of standard error (no child process)".into(),
        ],
    })
}
