//! P26: the same guarantees on a VT52.
use std::cell::RefCell;
use std::rc::Rc;

use mcrt::rt::{self, Opts};
use mcrt::term::Term;
use mcrt::world::type_bytes;

use super::editing::probe;
use super::screen::{filled, looks, typed};
use super::util::{char_ops, line_of, texts, Mix, Path, Words};
use crate::engine::{fail, Check, Ctx, Fail, Family, Res, Scen};
use crate::line::{bg, fg, look, show_row, st, t, Piece, Show, BOLD, INV, L, UNDER};
use crate::model::{ctl, Ans, Comp, Key, Op, ESC_MS, MS};
use crate::sess::{cfg, exec, exec_with, same, shut, Cfg, Pace, Sess, Space};

/// The palettes: colours and white on black.
pub const SHOWS: [(u8, bool); 6] = [(16, false), (16, true), (2, false), (2, true), (4, false), (4, true)];

fn vt(i: usize, w: usize, h: usize) -> (String, Cfg) {
    let (n, wob) = SHOWS[i];
    // only this size has four colours
    let (w, h) = if n == 4 { (80, 25) } else { (w, h) };
    (format!("{w}x{h} {n} colours{}", if wob { " white on black" } else { "" }), cfg(w, h).show(Show::Vt52(n, wob)))
}
/// After shutdown the terminal is as it was and shows only what was printed.
fn given_back(s: &mut Sess) -> Res {
    s.io = None;
    super::life::restored(false)?;
    let tm = &rt::world().term;
    let k = s.m.committed.len();
    let blank = s.cfg.show.blank();
    for (i, r) in tm.all_rows().iter().enumerate() {
        let ok = match s.m.committed.get(i) {
            Some(w) => same(r, w, true),
            None => r.iter().all(|c| look(c) == look(&blank)),
        };
        if !ok {
            return fail("left", format!("row {i} of {k} shows {} after shutdown:\n{}", show_row(r), tm.dump()));
        }
    }
    Ok(())
}

fn p26(thorough: bool) -> Check {
    let mut fams = vec![];
    // calls and keys
    let mut cfgs = vec![];
    for i in 0..6 {
        let (n, c) = vt(i, 12, 6);
        cfgs.push((n.clone(), c.clone(), vec![]));
        if SHOWS[i].0 != 4 {
            cfgs.push((format!("{n} typed"), c.hist(&["old"]), filled()));
        }
    }
    let alpha = vec![
        Op::Print(t("abc")),
        Op::Print(st(INV, "inv")),
        Op::Print(bg(2, "fill\nx")),
        Op::Print(t("\u{e9}\u{4f60}\u{301}\u{1f600}|")),
        Op::Wrap(t("some words to wrap")),
        Op::Status(Some(st(INV, "st\ns"))),
        Op::Status(Some(fg(1, "red").and(bg(4, "\u{4f60}")))),
        Op::Status(None),
        Op::Prompt(t("> "), true, false),
        Op::Prompt(bg(6, "$ "), true, true),
        Op::Prompt(st(INV, "no "), false, false),
        Op::Notice(t("note"), 1000),
        Op::Advance(1000),
        Op::Key(Key::Ch('z')),
        Op::Key(Key::Left),
        Op::Key(Key::Up),
        Op::Key(Key::Ctl(8)),
        Op::Key(Key::Ctl(13)),
        Op::Key(Key::Ctl(12)),
        Op::Key(Key::Esc),
        Op::Bell,
        Op::Suspend("sub\n".into()),
    ];
    fams.push(
        Space { cfgs, alpha, depth: if thorough { 4 } else { 3 }, paces: vec![Pace::Each, Pace::Burst] }.family(
            "calls",
            "every sequence of calls and keys, on every palette",
            given_back,
        ),
    );
    // each character
    fams.push(char_ops(
        "characters",
        "every character through every call",
        thorough,
        vt(0, 20, 8).1,
        vec![Op::Prompt(t("> "), true, false)],
        |c| {
            let s = format!("a{c}b");
            vec![
                Op::Print(t(&s)),
                Op::Status(Some(st(INV, &s))),
                Op::Prompt(t(&format!("{c}> ")), true, false),
                Op::Notice(t(&s), 100_000),
                Op::Wrap(t(&format!("{c}{c}"))),
            ]
        },
        |_| Ok(()),
    ));
    // looks
    let lk = Rc::new(looks(true));
    let n = lk.len() as u64;
    let mix = Rc::new(Mix(vec![n, n, 5, 6]));
    let build = {
        let lk = lk.clone();
        move |v: &[usize]| -> Vec<Op> {
            let span = |k: usize, text: &str| {
                let (s, f, b) = lk[k];
                L(vec![Piece::S(s), Piece::Fg(f), Piece::Bg(b), Piece::T(text.into())])
            };
            let l = line_of(&[span(v[0], "ab"), span(v[1], "c\u{4f60}")]);
            match v[2] {
                0 => vec![Op::Print(l), Op::Print(t("y")), Op::Prompt(t("> "), true, false), typed("in")],
                1 => vec![Op::Prompt(t("> "), true, false), Op::Status(Some(l)), Op::Print(t("y")), Op::Status(None)],
                2 => vec![Op::Prompt(l, true, false), typed("i"), Op::Key(Key::Ctl(13)), Op::Prompt(t("> "), true, false)],
                3 => vec![Op::Notice(l, 100), Op::Advance(100), Op::Print(t("y"))],
                _ => vec![Op::Suspend("q\n".into()), Op::Status(Some(span(v[0], "s"))), Op::Print(line_of(&[span(v[1], "x\n"), span(v[0], "y\n")]))],
            }
        }
    };
    let b2 = build.clone();
    let (m2, m3) = (mix.clone(), mix.clone());
    fams.push(Family::seq(
        "looks",
        "every pair of adjacent looks through every call that displays text, on every palette",
        mix.total(),
        move |i, ctx| {
            let v = m2.get(i);
            crate::sess::run_ops(&vt(v[3], 9, 6).1, &[], &build(&v), Pace::Each, ctx, given_back)
        },
        move |i| {
            let v = m3.get(i);
            format!("{}: {}", vt(v[3], 9, 6).0, crate::model::show_ops(&b2(&v)))
        },
    ));
    // looks one after the other
    let mut alpha = vec![Op::Print(t("p")), Op::Key(Key::Ch('k'))];
    for &(s, f, b) in lk.iter().filter(|l| l.0 & !INV == 0) {
        let sp = |x: &str| L(vec![Piece::S(s), Piece::Fg(f), Piece::Bg(b), Piece::T(x.into())]);
        alpha.push(Op::Status(Some(sp("st"))));
        alpha.push(Op::Print(sp("q")));
    }
    fams.push(
        Space {
            cfgs: (0..4).map(|i| { let (n, c) = vt(i, 7, 5); (n, c, vec![]) }).collect(),
            alpha,
            depth: if thorough { 4 } else { 3 },
            paces: vec![Pace::Each],
        }
        .family("changes", "every sequence of differently coloured statuses and lines", given_back),
    );
    // rows and columns beyond what fits in a byte
    let long = |n: usize| -> String { ('a'..='z').cycle().take(n).collect() };
    let rows = |n: usize| -> String { (0..n).map(|i| format!("{}\n", i % 10)).collect() };
    fams.push(
        Space {
            cfgs: [(0, 280, 12), (1, 270, 12), (2, 600, 12)]
                .into_iter()
                .map(|(i, w, h)| {
                    let (n, c) = vt(i, w, h);
                    (n, c, vec![Op::Prompt(bg(2, "> "), true, false), typed(&long(255))])
                })
                .collect(),
            alpha: vec![
                Op::Print(bg(4, "fill")),
                Op::Status(Some(t(&long(257)))),
                Op::Status(None),
                Op::Prompt(t(&long(300)), true, false),
                Op::Key(Key::Ch('z')),
                Op::Key(ctl('A')),
                Op::Key(ctl('E')),
                Op::Key(ctl('B')),
                Op::Key(Key::Ctl(8)),
            ],
            depth: 3,
            paces: vec![Pace::Each],
        }
        .family("wide", "sequences of calls and keys on screens wider than a byte can say", given_back),
    );
    fams.push(
        Space {
            cfgs: (0..2)
                .map(|i| {
                    let (n, c) = vt(i, 4, 600);
                    (n, c, vec![Op::Prompt(t(&rows(254)), true, false), typed("abcdef")])
                })
                .collect(),
            alpha: vec![
                Op::Print(t("a")),
                Op::Status(Some(t(&rows(260)))),
                Op::Status(None),
                Op::Prompt(t(&rows(258)), true, false),
                Op::Key(Key::Ch('z')),
                Op::Key(ctl('A')),
            ],
            depth: 3,
            paces: vec![Pace::Each],
        }
        .family("tall", "sequences of calls and keys with an edit area taller than a byte can say", given_back),
    );
    // shapes of text
    const TOKS: &[&str] = &["a", "b ", "\u{4f60}", "\u{301}", "\u{e9}", "\n"];
    let mut cs = vec![];
    for w in if thorough { 3..=7 } else { 3..=4 } {
        cs.push((format!("{w}x14"), cfg(w, 14).show(Show::Vt52(16, false))));
    }
    let paths = vec![
        Path { name: "println", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Print(t(s))] },
        Path { name: "wrapln", setup: vec![Op::Status(Some(t("s")))], make: |s| vec![Op::Wrap(t(s))] },
        Path { name: "status", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Status(Some(t(s))), Op::Status(Some(st(INV, s)))] },
        Path { name: "prompt", setup: vec![], make: |s| vec![Op::Prompt(t(s), true, false), typed("x")] },
        Path {
            name: "completed input",
            setup: vec![Op::Prompt(t("> "), true, false)],
            make: |s| {
                let s: String = s.replace('\n', "z");
                vec![
                    Op::Completor(Some(Comp { id: 1, ans: Ans::Replace(s.clone(), s.len()) })),
                    Op::Key(Key::Ctl(9)),
                    Op::Key(Key::Left),
                    Op::Key(Key::Ch('q')),
                ]
            },
        },
    ];
    fams.push(texts("shapes", "every short text through every call, on narrow screens", TOKS, if thorough { 6 } else { 4 }, paths, cs, |_| Ok(())));
    // editing
    let keys: Vec<Op> = (0..=31u8)
        .filter(|k| !matches!(k, 26 | 27))
        .map(Key::Ctl)
        .chain([Key::Ctl(127), Key::Ch('x'), Key::Ch(' '), Key::Esc])
        .map(Op::Key)
        .collect();
    let (name, c) = vt(0, 30, 8);
    fams.push(
        Space {
            cfgs: vec![(name, c.hist(&["one", "two"]), vec![Op::Prompt(t("> "), true, false), typed("ab cd"), Op::Key(ctl('B'))])],
            alpha: keys,
            depth: if thorough { 4 } else { 3 },
            paces: vec![Pace::Each],
        }
        .family("editing", "every sequence of keys", probe),
    );
    fams.push(terminals());
    fams.push(decoding(thorough));
    // schedules of shutting down
    let mut scens = vec![];
    for end in 0..super::life::ENDS {
        for keys in [&b""[..], b"a\x1b", b"\x80x", b"\x1b/", b"abc\r"] {
            for i in [0, 3] {
                scens.push(Scen {
                    name: format!("{}, keys {keys:x?}, {}", vt(i, 12, 6).0, super::life::end_name(end)),
                    bound: if thorough { 3 } else { 2 },
                    run: Box::new(move |devs, ctx| exec_with(&Opts::explore(), devs, vt(i, 12, 6).1.world(), ctx, move || stop(keys, end))),
                });
            }
        }
    }
    fams.push(Family::sched_free("shutdown", "every schedule of shutting down while keys arrive", scens, super::util::free_bound(thorough) + 1));
    Check {
        families: fams,
        rule: "cells, colours, cursor and responses equal the reference's for the palette; every string of bytes leaves the keys that follow it working; after shutdown the terminal is as before".into(),
        assumptions: vec![
            "the terminal starts with the colours that liso takes for its defaults".into(),
            "arrow keys of a VT52 are not supported: only that they insert nothing".into(),
            "the second byte of ESC Y and the like is the application's, never the user's".into(),
        ],
    }
}

/// Every terminal type that is documented, at several sizes, with every way of saying whether it is
/// white on black.
fn terminals() -> Family {
    const NAMES: [&str; 10] = ["st52", "tw52", "tt52", "at", "atari", "atarist", "atari_st", "vt52", "stv52", "stv52pc"];
    const ENDS: [&str; 3] = ["", "-m", "-x"];
    const SIZES: [(usize, usize); 5] = [(80, 50), (80, 25), (40, 25), (33, 9), (50, 80)];
    const SAID: [Option<&str>; 12] =
        [None, Some("0"), Some("1"), Some("n"), Some("No"), Some("y"), Some("Yes"), Some("false"), Some("F"), Some("true"), Some("T"), Some("2")];
    let mix = Rc::new(Mix(vec![10, 3, 5, 12]));
    let m2 = mix.clone();
    Family::seq(
        "terminals",
        "every documented terminal type, at several sizes, with every way of saying whether it is white on black",
        mix.total(),
        move |i, ctx| {
            let v = mix.get(i);
            let (name, (w, h)) = (NAMES[v[0]], SIZES[v[2]]);
            let mono = name == "vt52" || v[1] == 1;
            let known = mono || !name.contains("st") || v[2] < 3;
            let n = match (mono, name.contains("st"), v[2]) {
                (true, ..) => 2,
                (_, false, _) => 16,
                (_, _, 1) => 4,
                (_, _, 2) => 16,
                _ => 2,
            };
            let wob = SAID[v[3]].is_some_and(|s| matches!(s.as_bytes()[0], b'1' | b'y' | b'Y' | b't' | b'T'));
            let odd = v[3] == 11;
            let c = cfg(w, h).show(Show::Vt52(n, wob));
            let mut world = c.world();
            world.env.insert("TERM".into(), format!("{name}{}", ENDS[v[1]]));
            world.env.remove("ATARI_WHITE_ON_BLACK");
            world.fds.insert(2, mcrt::world::Obj::OutPipe);
            if let Some(s) = SAID[v[3]] {
                world.env.insert("ATARI_WHITE_ON_BLACK".into(), s.into());
            }
            let ops = vec![
                Op::Status(Some(fg(1, "red").and(bg(4, "\u{4f60}")).and(st(INV, "i")))),
                Op::Print(fg(2, "g").and(bg(6, "b\n")).and(fg(7, "w"))),
                Op::Prompt(bg(3, "> "), true, false),
                typed("in"),
                Op::Print(fg(5, "c").and(fg(4, "y")).and(bg(0, "k")).and(bg(1, "r"))),
                Op::Key(Key::Ctl(13)),
                Op::Status(None),
            ];
            ctx.transitions += ops.len() as u64;
            exec(world, ctx, move || {
                let mut s = Sess::new(&c);
                for op in &ops {
                    s.op(op);
                    s.check()?;
                }
                given_back(&mut s)?;
                let said = String::from_utf8_lossy(&rt::world().stderr).to_string();
                if known && !odd && !said.is_empty() {
                    return fail("complaint", format!("it complains {said:?}"));
                }
                Ok(())
            })
        },
        move |i| {
            let v = m2.get(i);
            format!("TERM={}{}, {:?}, ATARI_WHITE_ON_BLACK={:?}", NAMES[v[0]], ENDS[v[1]], SIZES[v[2]], SAID[v[3]])
        },
    )
}

/// What two-byte escape sequences and bytes with the high bit leave.
fn expected(b: &[u8]) -> Option<Vec<Key>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            0x1b => match b.get(i + 1) {
                // the answer to "identify yourself" is three bytes long
                Some(b'/') => match b.get(i + 2) {
                    Some(c) if (0x20..0x7f).contains(c) => i += 3,
                    _ => return None,
                },
                Some(c) if (0x20..0x7f).contains(c) => i += 2,
                _ => {
                    v.push(Key::Esc);
                    i += 1;
                }
            },
            c if c >= 0x80 => return None,
            c => {
                v.push(if c < 0x20 || c == 0x7f { Key::Ctl(c) } else { Key::Ch(c as char) });
                i += 1;
            }
        }
    }
    Some(v)
}
type Seen = (Vec<String>, Vec<String>, String);
fn deliver(bytes: &[u8], cuts: u64, ctx: &mut Ctx) -> Result<Seen, Fail> {
    let out: Rc<RefCell<Option<Seen>>> = Default::default();
    let o2 = out.clone();
    let bytes = bytes.to_vec();
    let c = vt(0, 40, 6).1.hist(&["hist"]);
    exec(c.world(), ctx, move || {
        let mut s = Sess::new(&c);
        s.op(&Op::Prompt(t("> "), true, false));
        s.op(&typed("ab"));
        s.op(&Op::Key(Key::Left));
        s.check()?;
        let mut from = 0;
        for i in 0..bytes.len() {
            if i + 1 == bytes.len() || cuts >> i & 1 == 1 {
                type_bytes(&bytes[from..=i]);
                rt::settle();
                from = i + 1;
            }
        }
        rt::advance(ESC_MS as u128 * MS);
        if let Some(keys) = expected(&bytes) {
            for k in &keys {
                s.m.key(k);
            }
            s.check()?;
        }
        type_bytes(b"ook\x05\r");
        rt::advance(ESC_MS as u128 * MS);
        rt::settle();
        s.drain();
        if let Some(p) = rt::rt_panics().first() {
            return fail("panic", format!("thread {} panicked: {}", p.thread, p.message));
        }
        if !s.got.iter().rev().find(|r| r.starts_with("Input(")).is_some_and(|r| r.contains('k')) {
            return fail("keys-lost", format!("the keys typed afterwards did not arrive: {:?}", s.got));
        }
        let tm = &rt::world().term;
        let rows: Vec<String> = tm.all_rows().iter().map(Term::row_text).collect();
        *o2.borrow_mut() = Some((s.got.clone(), rows, format!("{:?} {}", (tm.x, tm.y), tm.bells)));
        shut(s);
        super::life::restored(false)
    })?;
    let r = out.borrow_mut().take().unwrap();
    Ok(r)
}
fn decoding(thorough: bool) -> Family {
    let toks: Vec<u8> = vec![b'x', 0x1b, b'A', b'/', b'Z', b' ', b'\r', 0x7f, 0x80, 0xa9, 0xc3, 0xff, 0x02];
    let w = Words { a: toks.len() as u64, min: 1, max: if thorough { 5 } else { 4 } };
    let t2 = toks.clone();
    Family::seq(
        "bytes",
        "every short string of keys, escape sequences and bytes with the high bit set, cut at every set of places",
        w.total(),
        move |i, ctx| {
            let b: Vec<u8> = w.get(i).iter().map(|&k| toks[k]).collect();
            let whole = deliver(&b, 0, ctx)?;
            ctx.outcome(&whole);
            for cuts in 1u64..1 << (b.len() - 1) {
                ctx.transitions += b.len() as u64;
                let r = deliver(&b, cuts, ctx).map_err(|f| Fail { key: f.key, msg: format!("cut at {cuts:b}: {}", f.msg) })?;
                if r != whole {
                    return fail("split", format!("cut at {cuts:b} it gives {r:?}, whole {whole:?}"));
                }
            }
            Ok(())
        },
        move |i| format!("{:x?}", w.get(i).iter().map(|&k| t2[k]).collect::<Vec<u8>>()),
    )
}

fn stop(keys: &'static [u8], how: usize) -> Res {
    rt::exploring(false);
    let io = liso::InputOutput::new();
    io.status(Some(st(UNDER | BOLD, "status").real()));
    io.prompt(st(INV, "> ").real(), true, false);
    rt::settle();
    rt::exploring(true);
    type_bytes(keys);
    io.println("one");
    super::life::end(io, how);
    rt::exploring(false);
    super::life::restored(false)?;
    let rows: Vec<String> = rt::world().term.all_rows().iter().map(|r| Term::row_text(r).trim_end().to_string()).filter(|r| !r.is_empty()).collect();
    if rows != ["one"] {
        return fail("left", format!("{rows:?} is on screen after shutdown"));
    }
    super::life::works_again(true)
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    (id == "P26").then(|| p26(thorough))
}
