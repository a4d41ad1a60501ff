//! P01, P02, P16, P23, P24, P28: what is on the screen.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

use mcrt::rt;
use mcrt::term::Row;

use super::util::{char_ops, keys_of, line_of, texts, Mix, Path, Words};
use crate::engine::{fail, Check, Ctx, Family, Res};
use crate::line::{bg, fg, look, show_row, st, t, Piece, Show, BOLD, DIM, INV, ITAL, L, UNDER, WAYS};
use crate::model::{ctl, Ans, Comp, Key, Op};
use crate::sess::{cfg, exec, shut, Cfg, Pace, Sess, Space, TEXT};

pub fn typed(s: &str) -> Op {
    Op::Chunk(keys_of(s))
}
pub fn filled() -> Vec<Op> {
    vec![
        Op::Status(Some(t("stat"))),
        Op::Prompt(t("> "), true, false),
        typed("foo bar"),
        Op::Key(Key::Left),
    ]
}

pub fn p01_alpha() -> Vec<Op> {
    vec![
        Op::Print(t("a")),
        Op::Print(t("abcdefgh")),
        Op::Print(t("abcdefghijk\nx")),
        Op::Print(t("")),
        Op::Print(st(INV, "inv")),
        Op::Wrap(t("aa bbb cc dddd")),
        Op::Echo(t("e")),
        Op::Status(Some(t("st"))),
        Op::Status(Some(t("statusst"))),
        Op::Status(Some(t("two\nlines!"))),
        Op::Status(None),
        Op::RemoveStatus,
        Op::Prompt(t("> "), true, false),
        Op::Prompt(t("1234567 "), true, false),
        Op::Prompt(bg(2, "$ "), true, false),
        Op::Prompt(t(""), true, true),
        Op::Prompt(t("no "), false, false),
        Op::Notice(t("note"), 1000),
        Op::Advance(1000),
        Op::Key(Key::Ch('z')),
        Op::Key(Key::Ch('\u{4f60}')),
        Op::Key(Key::Ch('\u{301}')),
        Op::Key(ctl('A')),
        Op::Key(Key::Left),
        Op::Key(Key::Ctl(8)),
        Op::Key(Key::Ctl(13)),
        typed("hello w"),
    ]
}

pub fn p01(thorough: bool) -> Check {
    let mut f: Vec<Family> = vec![];
    let mut cfgs = vec![];
    for (w, h) in [(8, 6), (7, 12)] {
        cfgs.push((format!("{w}x{h}"), cfg(w, h).cmp(TEXT), vec![]));
        cfgs.push((format!("{w}x{h} typed"), cfg(w, h).cmp(TEXT), filled()));
    }
    cfgs.push(("8x6 events typed".into(), cfg(8, 6).events().cmp(TEXT), filled()));
    f.push(
        Space {
            cfgs: cfgs.clone(),
            alpha: p01_alpha(),
            depth: if thorough { 4 } else { 3 },
            paces: vec![Pace::Each, Pace::Burst],
        }
        .family("calls", "every sequence of calls and keys, spaced out and batched", |_| Ok(())),
    );
    // fewer symbols, longer
    f.push(
        Space {
            cfgs: vec![("8x6".into(), cfg(8, 6).cmp(TEXT), vec![]), ("5x9".into(), cfg(5, 9).cmp(TEXT), vec![])],
            alpha: vec![
                Op::Print(t("abcdefgh")),
                Op::Status(Some(t("st"))),
                Op::Status(None),
                Op::Prompt(t("123> "), true, false),
                Op::Prompt(st(UNDER, "$ "), true, false),
                Op::Notice(t("note"), 1000),
                Op::Key(Key::Ch('z')),
                Op::Key(Key::Ctl(8)),
                Op::Key(Key::Ctl(13)),
            ],
            depth: if thorough { 6 } else { 5 },
            paces: vec![Pace::Each, Pace::Burst],
        }
        .family("deep", "longer sequences over a smaller alphabet", |_| Ok(())),
    );
    // every small width: shapes of text against the right margin
    const TOKS: &[&str] = &["a", "b ", "\u{4f60}", "\u{301}", "\n"];
    let mut cs = vec![];
    for w in if thorough { 2..=7 } else { 2..=4 } {
        cs.push((format!("{w}x14"), cfg(w, 14).cmp(TEXT)));
    }
    let paths = vec![
        Path { name: "println", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Print(t(s))] },
        Path { name: "wrapln", setup: vec![Op::Status(Some(t("s")))], make: |s| vec![Op::Wrap(t(s))] },
        Path { name: "status", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Status(Some(t(s)))] },
        Path { name: "prompt", setup: vec![], make: |s| vec![Op::Prompt(t(s), true, false), typed("x")] },
        Path {
            name: "notice",
            setup: vec![Op::Prompt(t("> "), true, false), typed("y")],
            make: |s| vec![Op::Notice(t(s), 100), Op::Advance(100)],
        },
        Path {
            name: "input",
            setup: vec![Op::Status(Some(t("s")))],
            make: |s| {
                let s: String = s.replace('\n', "zz");
                let s = s.trim_start_matches('\u{301}');
                vec![typed(s), Op::Key(Key::Left), Op::Key(Key::Ch('q')), Op::Print(t("p"))]
            },
        },
    ];
    f.push(texts(
        "shapes",
        "every short text (letters, blanks, wide and combining characters, newlines) through every call, on narrow screens",
        TOKS,
        if thorough { 7 } else { 5 },
        paths,
        cs,
        |_| Ok(()),
    ));
    // many lines: scrolling
    f.push(
        Space {
            cfgs: vec![("8x5".into(), cfg(8, 5).cmp(TEXT), filled())],
            alpha: vec![
                Op::Print(t("a\nb\nc")),
                Op::Print(t("x")),
                Op::Status(Some(t("s1\ns2"))),
                Op::Status(Some(t("s"))),
                Op::Key(Key::Ctl(12)),
                Op::Notice(t("n1\nn2"), 500),
                Op::Advance(500),
                Op::Key(Key::Ch('z')),
            ],
            depth: if thorough { 6 } else { 4 },
            paces: vec![Pace::Each, Pace::Burst],
        }
        .family("scroll", "sequences on a screen that keeps scrolling, with clears", |_| Ok(())),
    );
    // rows and columns beyond what fits in a byte
    let long = |n: usize| -> String { ('a'..='z').cycle().take(n).collect() };
    let rows = |n: usize| -> String { (0..n).map(|i| format!("{}\n", i % 10)).collect() };
    f.push(
        Space {
            cfgs: vec![
                ("300x8".into(), cfg(300, 8).cmp(TEXT), vec![Op::Prompt(t("> "), true, false), typed(&long(254))]),
                ("400x8".into(), cfg(400, 8).cmp(TEXT), vec![Op::Prompt(t("> "), true, false), typed(&long(380))]),
                ("257x9".into(), cfg(257, 9).cmp(TEXT), vec![Op::Prompt(t("> "), true, false), typed(&long(300))]),
                ("1100x5".into(), cfg(1100, 5).cmp(TEXT), vec![Op::Prompt(t(&long(1001)), true, false), typed("ab")]),
            ],
            alpha: vec![
                Op::Print(t(&long(256))),
                Op::Print(st(UNDER, "u")),
                Op::Wrap(t(&"four ".repeat(70))),
                Op::Status(Some(t(&long(255)))),
                Op::Status(Some(t(&long(258)))),
                Op::Notice(t(&long(256)), 1000),
                Op::Key(Key::Ch('z')),
                Op::Key(Key::Ctl(8)),
                Op::Key(ctl('A')),
                Op::Key(ctl('E')),
                Op::Key(Key::Left),
            ],
            depth: if thorough { 4 } else { 3 },
            paces: vec![Pace::Each],
        }
        .family("wide", "sequences of calls and keys on terminals wider than a byte can say", |_| Ok(())),
    );
    // much at once
    f.push(
        Space {
            cfgs: vec![
                ("20x8".into(), cfg(20, 8).cmp(TEXT), vec![Op::Prompt(t("> "), true, false), typed("xy")]),
                ("20x8 events".into(), cfg(20, 8).events().cmp(TEXT), vec![Op::Prompt(t("> "), true, false), typed("xy")]),
            ],
            alpha: vec![
                Op::Print(t(&long(2100))),
                Op::Print(t(&rows(1100))),
                Op::Print((0..300).fold(t("s"), |l, k| l.and(st(if k % 2 == 0 { BOLD } else { 0 }, "0123456789 ")))),
                Op::Wrap(t(&"words ".repeat(400))),
                Op::Print(t("a")),
                Op::Key(Key::Ch('z')),
            ],
            depth: if thorough { 3 } else { 2 },
            paces: vec![Pace::Each, Pace::Burst],
        }
        .family("much", "printing thousands of characters and rows at once", |_| Ok(())),
    );
    f.push(
        Space {
            cfgs: vec![
                ("3x900".into(), cfg(3, 900).cmp(TEXT), vec![Op::Prompt(t(&rows(254)), true, false), typed("abcdef")]),
                ("3x900 long input".into(), cfg(3, 900).cmp(TEXT), vec![Op::Prompt(t("> "), true, false), typed(&long(840))]),
            ],
            alpha: vec![
                Op::Print(t("a")),
                Op::Print(t(&rows(260))),
                Op::Status(Some(t(&rows(257)))),
                Op::Status(None),
                Op::Prompt(t(&rows(258)), true, false),
                Op::Key(Key::Ch('z')),
                Op::Key(ctl('A')),
                Op::Key(ctl('E')),
            ],
            depth: if thorough { 4 } else { 3 },
            paces: vec![Pace::Each],
        }
        .family("tall", "sequences of calls and keys with an edit area taller than a byte can say", |_| Ok(())),
    );
    Check {
        families: f,
        rule: "screen rows, scrollback and cursor equal those of the reference layout after every settled operation".into(),
        assumptions: vec![
            "the edit area fits on the screen".into(),
            "the terminal behaves like the emulator (delayed wrap, xterm erase semantics)".into(),
            "character widths are those of unicode-width".into(),
        ],
    }
}

// ------------------------------------------------------------------ P02

#[derive(Clone)]
struct Edit {
    status: Option<L>,
    prompt: L,
    notice: Option<L>,
    input: &'static str,
    cursor: usize,
    allowed: bool,
}
fn show_edit(e: &Edit) -> String {
    format!(
        "status {} prompt {} notice {} input {:?} at {} {}",
        e.status.as_ref().map(|l| l.show()).unwrap_or("-".into()),
        e.prompt.show(),
        e.notice.as_ref().map(|l| l.show()).unwrap_or("-".into()),
        e.input,
        e.cursor,
        if e.allowed { "" } else { "(not allowed)" }
    )
}
/// Bring the display to state `e`; `settle`: let it draw every intermediate state.
fn go_to(s: &Sess, e: &Edit, settle: bool) {
    let step = |op: Op| {
        s.real(&op);
        if settle {
            rt::settle();
        }
    };
    // input is replaced by a completor (allowed only while input is allowed)
    s.real(&Op::Prompt(e.prompt.clone(), true, false));
    s.real(&Op::Completor(Some(Comp { id: 1, ans: Ans::Replace(e.input.into(), e.cursor) })));
    if settle {
        rt::settle();
    }
    s.send_key(&[Key::Ctl(9)]);
    if settle {
        rt::settle();
    }
    step(Op::Status(e.status.clone()));
    if !settle {
        // the key has to be dealt with before input is forbidden
        rt::settle();
    }
    if !e.allowed {
        step(Op::Prompt(e.prompt.clone().and(t("\u{200b}")), false, false));
        step(Op::Prompt(e.prompt.clone(), false, false));
    }
    if let Some(n) = &e.notice {
        step(Op::Notice(n.clone(), 1_000_000));
    }
    rt::settle();
}
/// The part of the screen from the first row of the edit area on, and the cursor in it.
type Shot = (Vec<Row>, Option<(usize, usize)>, u32);
fn shot(top: usize) -> Shot {
    let tm = &rt::world().term;
    let blank_tail = |r: &Row| r.iter().all(|c| look(c) == mcrt::term::Cell::blank(mcrt::term::Attr::PLAIN));
    let mut rows: Vec<Row> = tm.all_rows().into_iter().skip(top).collect();
    while rows.last().is_some_and(blank_tail) {
        rows.pop();
    }
    let rows = rows.into_iter().map(|r| r.iter().map(look).collect()).collect();
    (rows, tm.cursor_visible.then(|| (tm.x, tm.abs_y().wrapping_sub(top))), tm.errors.len() as u32)
}

fn catalogue(thorough: bool) -> Vec<Edit> {
    let plain = |status: Option<&str>, prompt: &str, input: &'static str, cursor: usize| Edit {
        status: status.map(t),
        prompt: t(prompt),
        notice: None,
        input,
        cursor,
        allowed: true,
    };
    let mut v = vec![
        plain(None, "", "", 0),
        plain(None, "> ", "", 0),
        plain(None, "> ", "abc", 3),
        plain(None, "> ", "abd", 3),
        plain(None, "> ", "ab", 0),
        plain(None, "> ", "abcdefgh", 8),
        plain(None, "> ", "abcdefgh", 5),
        plain(None, "> ", "abcdef", 6),
        plain(None, "> ", "abcde\u{4f60}", 5),
        plain(None, "> ", "abcde\u{301}x", 7),
        plain(None, "> ", "a\u{4f60}bc", 1),
        plain(None, "> ", "a\u{301}bc", 3),
        plain(None, "> ", "abcdefghijklmnopqrs", 19),
        plain(None, "> ", "abcdefghijklmnopqrs", 3),
        plain(Some("st"), "> ", "abc", 3),
        plain(Some("sx"), "> ", "abc", 3),
        plain(Some("statusst"), "> ", "abc", 1),
        plain(Some("statusstat"), "> ", "abc", 3),
        plain(Some("s\nt"), "> ", "abc", 3),
        plain(Some("s\n"), "", "abc", 3),
        plain(Some(""), "> ", "abc", 3),
        plain(Some("st"), "", "", 0),
        plain(Some("st"), "two\n", "x", 1),
        plain(Some("st"), "12345678", "x", 1),
        Edit { allowed: false, ..plain(Some("st"), "> ", "abc", 3) },
        Edit { notice: Some(t("note")), ..plain(Some("st"), "> ", "abc", 3) },
        Edit { notice: Some(st(INV, "no")), ..plain(None, "> ", "abc", 3) },
        Edit { notice: Some(t("a notice longer")), ..plain(None, "> ", "abc", 3) },
        Edit { status: Some(bg(1, "st")), ..plain(None, "> ", "abc", 3) },
        Edit { status: Some(bg(4, "st")), ..plain(None, "> ", "abc", 3) },
        Edit { status: Some(st(INV, "s").and(t("t"))), ..plain(None, "> ", "abc", 3) },
        Edit { prompt: bg(1, "> "), ..plain(None, "", "abc", 3) },
        Edit { prompt: bg(1, "> ").reset(), ..plain(None, "", "abc", 3) },
        Edit { prompt: st(UNDER, "> "), ..plain(Some("st"), "", "abc", 2) },
        Edit { prompt: st(BOLD, ">").and(st(0, " ")), ..plain(None, "", "abc", 2) },
        Edit { prompt: bg(2, "> "), ..plain(None, "", "abcdef", 6) },
        Edit { prompt: bg(2, "> "), ..plain(None, "", "abcdefg", 7) },
    ];
    if thorough {
        for i in [&"a"[..], "ab ", "a\u{4f60}", "\u{4f60}\u{4f60}\u{4f60}", "abcdefg\u{4f60}", "e\u{301}\u{301}e"] {
            v.push(plain(None, "> ", i, 0));
            v.push(plain(Some("st"), "", i, i.len()));
            v.push(Edit { prompt: st(INV, "?"), ..plain(None, "", i, i.len()) });
        }
    }
    v
}

fn p02(thorough: bool) -> Check {
    let mut fams = vec![];
    // every combination of what shows on a blank, as the look of an otherwise unchanged status
    let mut restyled = vec![];
    for style in [0, INV, UNDER, INV | UNDER] {
        for f in [None, Some(0), Some(3)] {
            for b in [None, Some(0), Some(3)] {
                for tail in 0..2 {
                    let l = span((style, f, b), "st");
                    let l = if tail == 0 { l } else { t("st").and(span((style, f, b), "")) };
                    restyled.push(Edit { status: Some(l), prompt: t("> "), notice: None, input: "", cursor: 0, allowed: true });
                }
            }
        }
    }
    // rows and columns beyond what fits in a byte
    let mut large = vec![];
    let long = |n: usize| -> String { ('a'..='z').cycle().take(n).collect() };
    let rows = |n: usize| -> String { (0..n).map(|i| format!("{}\n", i % 10)).collect() };
    for (status, prompt, input, cursor) in [
        (None, "> ".to_string(), long(300), 300),
        (None, "> ".into(), long(300), 1),
        (None, "> ".into(), long(255), 254),
        (Some("st".to_string()), "> ".into(), long(299) + "!", 300),
        (Some(rows(256)), "> ".into(), "ab".into(), 1),
        (Some(rows(255)), "$ ".into(), "ab".into(), 2),
        (Some("s".into()), rows(258), "ab".into(), 2),
        (Some(long(257)), ">".into(), long(257), 0),
    ] {
        let input: &'static str = Box::leak(input.into_boxed_str());
        large.push(Edit { status: status.as_deref().map(t), prompt: t(&prompt), notice: None, input, cursor, allowed: true });
    }
    for (steps, name, cat) in [
        (2u32, "large", large),
        (2, "pairs", catalogue(true)),
        (3, "triples", catalogue(true)),
        (4, "fours", if thorough { catalogue(false) } else { vec![] }),
        (2, "restyled", restyled),
    ] {
        let cat = Rc::new(cat);
        let n = cat.len() as u64;
        let sizes: Rc<Vec<(usize, usize)>> = Rc::new(if name == "large" { vec![(270, 700), (3, 900)] } else if steps == 2 || thorough { vec![(8, 8), (5, 12), (9, 7)] } else { vec![(8, 8)] });
        let modes = if steps == 2 { 4 } else { 2 };
        let mix = Mix(vec![sizes.len() as u64, modes, Words { a: n, min: steps, max: steps }.total()]);
        let total = mix.total();
        let mix = Rc::new(mix);
        let fresh: Rc<RefCell<HashMap<(usize, usize), Shot>>> = Default::default();
        let (c2, s2, m2) = (cat.clone(), sizes.clone(), mix.clone());
        fams.push(Family::seq(
            name,
            "every ordered combination of display states, drawn incrementally and compared with a fresh instance drawing the last one",
            total,
            move |i, ctx: &mut Ctx| {
                let v = mix.get(i);
                let (w, h) = sizes[v[0]];
                let settle = v[1] & 1 == 1;
                let printed = v[1] & 2 == 2;
                let seq = Words { a: n, min: steps, max: steps }.get(v[2] as u64);
                let last = *seq.last().unwrap();
                let key = (v[0], last);
                let have = fresh.borrow().get(&key).cloned();
                let want = match have {
                    Some(s) => s,
                    None => {
                        let digest = ctx.digest;
                        let e = cat[last].clone();
                        let out: Rc<RefCell<Option<Shot>>> = Default::default();
                        let o2 = out.clone();
                        let c = cfg(w, h);
                        exec(c.world(), ctx, move || {
                            let s = Sess::new(&c);
                            go_to(&s, &e, false);
                            // from scratch: once more after everything else is gone
                            *o2.borrow_mut() = Some(shot(0));
                            shut(s);
                            Ok(())
                        })?;
                        let s = out.borrow().clone().unwrap();
                        // a fresh redraw: print a line so that all of it is drawn again
                        let e = cat[last].clone();
                        let out: Rc<RefCell<Option<Shot>>> = Default::default();
                        let o2 = out.clone();
                        let c = cfg(w, h);
                        exec(c.world(), ctx, move || {
                            let s = Sess::new(&c);
                            go_to(&s, &e, false);
                            s.real(&Op::Print(t("P")));
                            rt::settle();
                            *o2.borrow_mut() = Some(shot(1));
                            shut(s);
                            Ok(())
                        })?;
                        let s2 = out.borrow().clone().unwrap();
                        if s != s2 {
                            return differ("drawing it again below a printed line", &s2, &s);
                        }
                        fresh.borrow_mut().insert(key, s.clone());
                        ctx.digest = digest;
                        s
                    }
                };
                let states: Vec<Edit> = seq.iter().map(|&k| cat[k].clone()).collect();
                let c = cfg(w, h);
                ctx.transitions += steps as u64;
                ctx.state(&(v[0], last));
                let r = exec(c.world(), ctx, move || {
                    let s = Sess::new(&c);
                    let mut top = 0;
                    for (k, e) in states.iter().enumerate() {
                        go_to(&s, e, settle);
                        if printed && k + 1 < states.len() {
                            s.real(&Op::Print(t("P")));
                            rt::settle();
                            top += 1;
                        }
                    }
                    if let Some(p) = rt::rt_panics().first() {
                        return fail("panic", p.message.clone());
                    }
                    let got = shot(top);
                    if got != want {
                        return differ("after the changes", &got, &want);
                    }
                    shut(s);
                    Ok(())
                });
                r
            },
            move |i| {
                let v = m2.get(i);
                let seq = Words { a: n, min: steps, max: steps }.get(v[2] as u64);
                format!(
                    "{:?} {}{}: {}",
                    s2[v[0]],
                    if v[1] & 1 == 1 { "step by step" } else { "batched" },
                    if v[1] & 2 == 2 { ", printing in between" } else { "" },
                    seq.iter().map(|&k| show_edit(&c2[k])).collect::<Vec<_>>().join(" => ")
                )
            },
        ));
    }
    fams.push(Family::seq(
        "endfills",
        "every pair of looks: those said to be indistinguishable on a blank look the same on it",
        32 * 9 * 9,
        |i, ctx| {
            let a = |i: u64| {
                let c = |n: u64| (n > 0).then(|| crate::line::color(n as u8 - 1));
                liso::LineChar {
                    index: 0,
                    ch: ' ',
                    style: liso::Style::from_bits_truncate((i % 32) as u32),
                    fg: c(i / 32 % 9),
                    bg: c(i / 288),
                }
            };
            // what can be seen of a blank: its background, and a line below it
            let seen = |c: &liso::LineChar| {
                let inv = c.style.contains(liso::Style::INVERSE);
                let (f, b) = if inv { (c.bg, c.fg) } else { (c.fg, c.bg) };
                let under = c.style.contains(liso::Style::UNDERLINE);
                (inv, b, under.then_some(f))
            };
            let x = a(i);
            ctx.execs += 1;
            for j in 0..32 * 81 {
                let y = a(j);
                ctx.transitions += 1;
                if x.endfills_same_as(&y) && seen(&x) != seen(&y) {
                    return fail("endfills", format!("{x:?} is said to fill like {y:?}"));
                }
            }
            Ok(())
        },
        |i| format!("look {i} against every other"),
    ));
    Check {
        families: fams,
        rule: "cells (with colours and styles) and cursor of the edit area equal those drawn from scratch by a fresh instance".into(),
        assumptions: vec!["the edit area fits on the screen".into()],
    }
}
fn differ(what: &str, got: &Shot, want: &Shot) -> Res {
    let f = |s: &Shot| {
        format!("{}\n  cursor {:?}", s.0.iter().map(|r| format!("  {}", show_row(r))).collect::<Vec<_>>().join("\n"), s.1)
    };
    fail("differs", format!("{what} the screen shows\n{}\ninstead of\n{}", f(got), f(want)))
}

// ------------------------------------------------------------------ P23

/// Every look: styles and colours in combination.
pub fn looks(all: bool) -> Vec<(u32, Option<u8>, Option<u8>)> {
    let mut v = vec![
        (0, None, None),
        (BOLD, None, None),
        (INV, None, None),
        (UNDER, None, None),
        (0, Some(1), None),
        (0, None, Some(2)),
        (0, Some(5), Some(6)),
        (BOLD | INV, Some(1), None),
        (DIM | ITAL, None, Some(2)),
        (UNDER, Some(3), Some(2)),
    ];
    if all {
        v.extend([
            (DIM, None, None),
            (ITAL, None, None),
            (BOLD | DIM | UNDER | INV | ITAL, Some(7), Some(0)),
            (0, Some(0), Some(7)),
            (INV, None, Some(1)),
            (0, Some(1), Some(1)),
        ]);
    }
    v
}
fn span((s, f, b): (u32, Option<u8>, Option<u8>), text: &str) -> L {
    L(vec![Piece::S(s), Piece::Fg(f), Piece::Bg(b), Piece::T(text.into())])
}

fn p23(thorough: bool) -> Check {
    let lk = Rc::new(looks(true));
    let n = lk.len() as u64;
    let mut fams = vec![];
    // three spans through every call, with three shapes of text
    let shapes: Rc<Vec<[&str; 3]>> = Rc::new(vec![
        ["a", "b", "c"],
        ["ab\ncd", "x", ""],
        ["abcdef", "gh", "ijk"],
        ["a\n", "b\n", ""],
        ["abcde", "\u{4f60}\u{4f60}", "\n\n"],
    ]);
    let cfgs: Rc<Vec<Cfg>> = Rc::new(vec![cfg(7, 6), { let mut c = cfg(7, 6); c.bce = false; c }]);
    let ways = 6u64;
    let mix = Rc::new(Mix(vec![n, n, n, ways, shapes.len() as u64, cfgs.len() as u64]));
    let build = {
        let (lk, shapes) = (lk.clone(), shapes.clone());
        move |v: &[usize]| -> Vec<Op> {
            let sh = shapes[v[4]];
            let l = line_of(&[span(lk[v[0]], sh[0]), span(lk[v[1]], sh[1]), span(lk[v[2]], sh[2])]);
            match v[3] {
                0 => vec![Op::Print(t("x")), Op::Print(l.clone()), Op::Print(t("y")), Op::Prompt(t("> "), true, false), typed("in")],
                1 => vec![Op::Prompt(t("> "), true, false), Op::Status(Some(l)), Op::Print(t("y")), Op::Status(None)],
                2 => vec![Op::Prompt(l, true, false), typed("i"), Op::Key(Key::Ctl(13)), Op::Prompt(t("> "), true, false)],
                3 => vec![Op::Notice(l, 100), Op::Advance(100), Op::Print(t("y"))],
                4 => vec![Op::Status(Some(span(lk[v[2]], "s"))), Op::Prompt(span(lk[v[1]], "> "), true, false), typed("q"), Op::Print(l), Op::Status(Some(t("z")))],
                _ => vec![Op::Status(Some(t("s"))), Op::Wrap(l), Op::Echo(span(lk[v[0]], "e"))],
            }
        }
    };
    let b2 = build.clone();
    let (m2, c2) = (mix.clone(), cfgs.clone());
    fams.push(Family::seq(
        "spans",
        "every triple of adjacent looks, in several shapes of text, through every call that displays text",
        mix.total(),
        move |i, ctx| {
            let v = m2.get(i);
            crate::sess::run_ops(&c2[v[5]], &[], &build(&v), Pace::Each, ctx, plain_after)
        },
        {
            let m2 = mix.clone();
            move |i| {
                let v = m2.get(i);
                format!("bce {}: {}", v[5] == 0, crate::model::show_ops(&b2(&v)))
            }
        },
    ));
    // looks changing over time, whole session
    let mut alpha = vec![Op::Print(t("p")), Op::Key(Key::Ch('k')), Op::Status(None)];
    for &l in lk.iter().take(10).skip(1) {
        alpha.push(Op::Status(Some(span(l, "st"))));
        if l.0 & BOLD == 0 {
            alpha.push(Op::Prompt(span(l, "> "), true, false));
        }
    }
    alpha.push(Op::Print(bg(3, "b\nb")));
    alpha.push(Op::Notice(st(INV, "n"), 100));
    alpha.push(Op::Advance(100));
    alpha.push(Op::Prompt(fg(1, "r").reset(), true, false));
    let mut nb = cfg(7, 5);
    nb.bce = false;
    fams.push(
        Space {
            cfgs: vec![("7x5".into(), cfg(7, 5), vec![]), ("7x5 no bce".into(), nb, filled())],
            alpha,
            depth: if thorough { 5 } else { 4 },
            paces: vec![Pace::Each, Pace::Burst],
        }
        .family("session", "every sequence of differently styled statuses, prompts and notices, with prints and keys", plain_after),
    );
    // one look for another, the text staying the same or nearly so
    const F: u64 = 3;
    let styles = [0, BOLD, UNDER, INV, INV | UNDER, DIM | INV];
    let nl = styles.len() as u64 * F * F;
    let kinds = 8u64;
    let pair = move |i: u64| -> (bool, Vec<Op>) {
        let v = Mix(vec![nl, nl, kinds, 2]).get(i);
        let of = |k: usize| {
            let k = k as u64;
            let c = |k: u64| (k > 0).then(|| k as u8);
            (styles[(k / F / F) as usize], c(k / F % F), c(k % F))
        };
        let (a, b) = (of(v[0]), of(v[1]));
        let p = |l: L| Op::Prompt(l, true, false);
        let ops = match v[2] {
            0 => vec![p(span(a, "> ")), p(span(b, "> "))],
            1 => vec![p(span(a, "ab\nc")), p(span(b, "ab\nc"))],
            2 => vec![p(span(a, "> ")), typed("in"), p(span(b, "> "))],
            3 => vec![p(span(a, "> ")), p(span(b, "> q"))],
            4 => vec![Op::Notice(span(a, "note"), 100), Op::Notice(span(b, "note"), 100)],
            5 => vec![p(span(a, "note")), Op::Notice(span(b, "note"), 100), Op::Advance(100)],
            6 => vec![Op::Status(Some(span(a, "st"))), p(span(a, "")), Op::Status(Some(span(b, "st")))],
            _ => vec![p(line_of(&[t("x"), span(a, "a\n")])), p(line_of(&[t("x"), span(b, "a\n")]))],
        };
        (v[3] == 0, ops)
    };
    fams.push(Family::seq(
        "changes",
        "every two looks of a prompt, notice or status, one after the other, with the same or nearly the same text",
        nl * nl * kinds * 2,
        move |i, ctx| {
            let (bce, ops) = pair(i);
            let mut c = cfg(7, 6);
            c.bce = bce;
            crate::sess::run_ops(&c, &[], &ops, Pace::Each, ctx, plain_after)
        },
        move |i| format!("bce {}: {}", pair(i).0, crate::model::show_ops(&pair(i).1)),
    ));
    // fills longer than a byte can say
    fams.push(
        Space {
            cfgs: vec![("300x6".into(), cfg(300, 6), vec![])],
            alpha: vec![
                Op::Print(bg(2, "fill")),
                Op::Print(st(INV, "a\nb")),
                Op::Print(st(UNDER, &"u".repeat(299))),
                Op::Wrap(bg(3, &"word ".repeat(61))),
                Op::Status(Some(bg(4, "st"))),
                Op::Status(Some(st(UNDER, "st\nx"))),
                Op::Prompt(bg(1, "> "), true, false),
                Op::Prompt(st(INV, &">".repeat(256)), true, false),
                Op::Notice(st(INV, "n"), 100),
                Op::Key(Key::Ch('k')),
            ],
            depth: if thorough { 5 } else { 4 },
            paces: vec![Pace::Each],
        }
        .family("wide", "sequences of filled lines on a terminal wider than a byte can say", plain_after),
    );
    // single attribute toggles inside one line
    let toggles: &[Piece] = &[
        Piece::S(0),
        Piece::S(BOLD),
        Piece::S(DIM),
        Piece::S(ITAL),
        Piece::S(UNDER),
        Piece::S(INV),
        Piece::Fg(None),
        Piece::Fg(Some(0)),
        Piece::Fg(Some(5)),
        Piece::Bg(None),
        Piece::Bg(Some(6)),
        Piece::Bg(Some(7)),
        Piece::Reset,
    ];
    let toggles = toggles.to_vec();
    let words = Words { a: toggles.len() as u64, min: 1, max: if thorough { 6 } else { 5 } };
    let make = move |i: u64| {
        let mut l = L(vec![]);
        for k in words.get(i) {
            l.0.push(toggles[k].clone());
            l.0.push(Piece::T("x".into()));
        }
        vec![Op::Print(l), Op::Print(t("y"))]
    };
    let mk2 = make.clone();
    fams.push(Family::seq(
        "toggles",
        "every sequence of single style and colour changes within a line",
        words.total(),
        move |i, ctx| crate::sess::run_ops(&cfg(9, 6), &[], &make(i), Pace::Burst, ctx, plain_after),
        move |i| crate::model::show_ops(&mk2(i)),
    ));
    // what liso says about the blanks of two looks
    const C: u64 = 9;
    let col = |k: u64| (k > 0).then(|| k as u8 - 1);
    let every = move |k: u64| ((k / C / C) as u32, col(k / C % C), col(k % C));
    fams.push(Family::seq(
        "blanks",
        "every pair of looks: blanks that are said to be the same are the same, and the other way round",
        32 * C * C,
        move |i, ctx| {
            let make = |k: u64| {
                let (s, f, b) = every(k);
                let l = span((s, f, b), " ").real();
                let c = l.chars().next().unwrap();
                (s, f, b, c)
            };
            let (s, f, b, c) = make(i);
            for j in 0..32 * C * C {
                let (s2, f2, b2, c2) = make(j);
                // what of a look a blank shows: whether and in which colour it is underlined,
                // and its background
                let shown = |s: u32, f, b| {
                    let (f, b) = if s & INV != 0 { (b, f) } else { (f, b) };
                    (s & (INV | UNDER), b, (s & UNDER != 0).then_some(f))
                };
                let same = shown(s, f, b) == shown(s2, f2, b2);
                let said = c.endfills_same_as(&c2);
                let sure = s == s2;
                ctx.transitions += 1;
                if said && !same || same && sure && !said {
                    return fail("blanks", format!("endfills_same_as says {said} for blanks in {s} {f:?} {b:?} and in {s2} {f2:?} {b2:?}"));
                }
                if (c == c2) != (i == j) {
                    return fail("equal", format!("blanks in {s} {f:?} {b:?} and in {s2} {f2:?} {b2:?} compare as {}", c == c2));
                }
            }
            Ok(())
        },
        move |i| format!("{:?} and every other look", every(i)),
    ));
    Check {
        families: fams,
        rule: "every cell of the screen has the look the reference layout gives it, also after shutdown".into(),
        assumptions: vec![
            "a blank's foreground, bold, dim and italic are invisible unless it is inverse or underlined".into(),
            "terminals with and without background-colour erase".into(),
        ],
    }
}
/// After shutdown the attributes are reset.
fn plain_after(s: &mut Sess) -> Res {
    if s.cfg.events {
        return Ok(());
    }
    s.io = None;
    let tm = &rt::world().term;
    if !tm.attr_default() {
        return fail("attr-after", format!("attributes {} remain after shutdown", tm.attr.short()));
    }
    let k = s.m.committed.len();
    for (i, r) in tm.all_rows().iter().enumerate().skip(k) {
        if r.iter().any(|c| look(c) != look(&s.cfg.show.blank())) {
            return fail("left", format!("row {i} still shows {} after shutdown", show_row(r)));
        }
    }
    for (i, (r, w)) in tm.all_rows().iter().zip(&s.m.committed).enumerate() {
        if !crate::sess::same(r, w, true) {
            return fail("left", format!("row {i} shows {} instead of {} after shutdown", show_row(r), show_row(w)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ P24

fn p24(thorough: bool) -> Check {
    let mut alpha = vec![];
    for p in ["> ", "other ", ""] {
        for a in [true, false] {
            for c in [true, false] {
                alpha.push(Op::Prompt(t(p), a, c));
            }
        }
    }
    alpha.extend([
        Op::Key(Key::Ch('z')),
        Op::Key(Key::Left),
        Op::Key(Key::Up),
        Op::Key(Key::Ctl(13)),
        Op::Print(t("p")),
        typed("ab\u{4f60}"),
        Op::Prompt(st(INV, "> "), true, false),
        Op::RemovePrompt(true, false),
        Op::RemovePrompt(false, true),
    ]);
    let cfgs = vec![
        ("8x6".to_string(), cfg(8, 6), vec![]),
        ("8x6 typed".to_string(), cfg(8, 6).hist(&["old"]), (vec![Op::Prompt(t("> "), true, false), typed("xyz"), Op::Key(Key::Left)])),
        ("8x6 in history".to_string(), cfg(8, 6).hist(&["old", "new"]), (vec![Op::Prompt(t("> "), true, false), typed("xyz"), Op::Key(Key::Up)])),
        ("8x6 events".to_string(), cfg(8, 6).events().hist(&["old"]), (vec![Op::Prompt(t("> "), true, false), typed("xy")])),
        ("8x6 notice".to_string(), cfg(8, 6).hist(&["old"]), (vec![Op::Prompt(t("> "), true, false), typed("xy"), Op::Notice(t("note"), 100000)])),
    ];
    let f = Space { cfgs: cfgs.clone(), alpha: alpha.clone(), depth: if thorough { 5 } else { 4 }, paces: vec![Pace::Each, Pace::Burst] }
        .family("prompts", "every sequence of prompt calls (text, permission, clearing) and keys", |s| {
            // the line as the program gets it
            if !s.m.allowed {
                let o = Op::Prompt(t("> "), true, false);
                s.op(&o);
                s.check()?;
            }
            let o = Op::Key(Key::Ch('\u{e9}'));
            s.op(&o);
            s.check()?;
            let o = Op::Key(Key::Ctl(13));
            s.op(&o);
            s.check()
        });
    Check {
        families: vec![f],
        rule: "screen, cursor, responses and the line finally entered equal those of the reference editor".into(),
        assumptions: vec!["keys are given to a prompt only after it has taken effect (settled)".into()],
    }
}

// ------------------------------------------------------------------ P28

fn p28(thorough: bool) -> Check {
    let mut alpha = p01_alpha();
    alpha.retain(|o| !matches!(o, Op::Wrap(_) | Op::Advance(_)));
    alpha.extend([
        Op::Bell,
        Op::Key(Key::Up),
        Op::Key(Key::Down),
        Op::Key(ctl('P')),
        Op::Key(ctl('N')),
        Op::Suspend("sub\n".into()),
        Op::Key(Key::Ctl(9)),
        Op::Key(Key::Ctl(4)),
        Op::Key(Key::Ctl(12)),
    ]);
    let ans = |a: Ans| Op::Completor(Some(Comp { id: 1, ans: a }));
    let cfgs = vec![
        ("8x6".to_string(), cfg(8, 6), vec![]),
        ("8x6 history".to_string(), cfg(8, 6).hist(&["one"]), filled()),
        ("8x6 completor".to_string(), cfg(8, 6), vec![ans(Ans::Bell)]),
        ("8x6 events".to_string(), cfg(8, 6).events().hist(&["one"]), vec![]),
    ];
    let f = Space { cfgs: cfgs.clone(), alpha: alpha.clone(), depth: if thorough { 4 } else { 3 }, paces: vec![Pace::Each, Pace::Burst] }
        .family("idle", "every short sequence of calls and keys: the terminal shows all of it as soon as everything is idle", |_| Ok(()));
    let small = vec![
        Op::Bell,
        Op::Print(t("p")),
        Op::Status(Some(t("s"))),
        Op::Prompt(t("> "), true, false),
        Op::Key(Key::Up),
        Op::Key(Key::Down),
        Op::Key(Key::Ch('x')),
        Op::Notice(t("n"), 1000),
        Op::Notice(t(""), 1000),
    ];
    let g = Space {
        cfgs: vec![("8x6".to_string(), cfg(8, 6), vec![]), ("8x6 history".to_string(), cfg(8, 6).hist(&["one"]), vec![])],
        alpha: small,
        depth: if thorough { 7 } else { 6 },
        paces: vec![Pace::Each, Pace::Burst],
    }
    .family("bells", "longer sequences with bells", |_| Ok(()));
    Check {
        families: vec![f, g],
        rule: "with all threads idle the terminal has received everything: screen, cursor and number of bells equal the reference's".into(),
        assumptions: vec![],
    }
}

// ------------------------------------------------------------------ P16

fn p16(thorough: bool) -> Check {
    const CTL: &[&str] = &[
        "\0", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "\x08", "\x09", "\x0b", "\x0c", "\x0d", "\x0e",
        "\x0f", "\x10", "\x11", "\x12", "\x13", "\x14", "\x15", "\x16", "\x17", "\x18", "\x19", "\x1a", "\x1b", "\x1c",
        "\x1d", "\x1e", "\x1f", "\x7f", "\u{80}", "\u{84}", "\u{85}", "\u{8d}", "\u{90}", "\u{9b}", "\u{9c}", "\u{9d}",
        "\u{9f}", "\u{2028}", "\u{2029}", "\x1b[2J", "\x1b[31m", "\u{9b}3A", "\x1b]0;t\x07", "\x1bc", "\x1b[?25h", "\r\n",
        "a", "\u{4f60}", "[", "\n",
    ];
    const FEW: &[&str] = &["\x1b", "[", "2J", "\r", "\x07", "\u{9b}", "\u{85}", "\x7f", "\n", "x", "\u{2028}"];
    let mk = |events: bool| {
        let mut p = vec![
            Path { name: "println", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Print(t(s))] },
            Path { name: "styled println", setup: vec![], make: |s| vec![Op::Print(st(INV | BOLD, s)), Op::Print(fg(1, s).and(bg(2, s)))] },
            Path { name: "wrapln", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Wrap(t(s))] },
            Path { name: "echoln", setup: vec![], make: |s| vec![Op::Echo(t(s))] },
            Path { name: "status", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Status(Some(t(s))), Op::Status(Some(t("x")))] },
            Path { name: "prompt", setup: vec![], make: |s| vec![Op::Prompt(t(s), true, false), Op::Key(Key::Ch('q'))] },
            Path { name: "notice", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Notice(t(s), 100), Op::Advance(100)] },
            Path {
                name: "completed",
                setup: vec![Op::Prompt(t("> "), true, false)],
                make: |s| {
                    let s = s.replace('\n', "");
                    vec![Op::Completor(Some(Comp { id: 1, ans: Ans::Replace(s.clone(), s.len()) })), Op::Key(Key::Ctl(9)), Op::Key(Key::Ch('k')), Op::Key(Key::Ctl(13))]
                },
            },
            Path {
                name: "inserted",
                setup: vec![Op::Prompt(t("> "), true, false), typed("ab"), Op::Key(Key::Left)],
                make: |s| {
                    let s = s.replace('\n', "");
                    vec![Op::Completor(Some(Comp { id: 1, ans: Ans::Insert(s) })), Op::Key(Key::Ctl(9)), Op::Key(Key::Ch('k')), Op::Key(Key::Left), Op::Key(Key::Ctl(8))]
                },
            },
            Path {
                name: "recalled",
                setup: vec![Op::Prompt(t("> "), true, false)],
                make: |s| {
                    let s = s.replace('\n', "");
                    vec![Op::SwapHist(vec![s]), Op::Key(Key::Up), Op::Key(Key::Ch('k')), Op::Key(Key::Left), Op::Key(ctl('A'))]
                },
            },
            Path {
                name: "yanked",
                setup: vec![Op::Prompt(t("> "), true, false)],
                make: |s| {
                    let s = s.replace('\n', "");
                    vec![Op::SwapHist(vec![s]), Op::Key(Key::Up), Op::Key(ctl('U')), Op::Key(ctl('Y')), Op::Key(ctl('Y')), Op::Key(Key::Ch('k'))]
                },
            },
        ];
        if events {
            p.retain(|p| !matches!(p.name, "wrapln" | "echoln" | "status"));
        }
        p
    };
    let typed_paths = vec![Path {
        name: "typed",
        setup: vec![Op::Prompt(t("> "), true, false)],
        make: |s| {
            // what would be a command is left to the other checks
            let keys: Vec<Key> = s.chars().filter(|c| *c as u32 >= 0xa0 || c.is_ascii_graphic()).map(Key::Ch).collect();
            vec![Op::Chunk(keys), Op::Key(Key::Left), Op::Key(Key::Ctl(13))]
        },
    }];
    let f1 = texts("every control character", "each control character and several escape sequences, alone and in pairs, through every path", CTL, 2, mk(false), vec![("20x8".into(), cfg(20, 8)), ("7x20".into(), cfg(7, 20))], only_known);
    let f2 = texts("mixtures", "sequences of control characters and text through every path", FEW, if thorough { 5 } else { 4 }, mk(false), vec![("20x8".into(), cfg(20, 8))], only_known);
    let mut ev = mk(true);
    ev.extend(typed_paths);
    let f3 = texts("events", "the same with the event back end", FEW, 2, ev, vec![("20x8".into(), cfg(20, 8).events())], only_known);
    // every way of making a line of it
    let ways = vec![
        Path { name: "println", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| (0..WAYS).map(|w| Op::Print(L(vec![Piece::Via(w, s.into())]))).collect() },
        Path { name: "println of more", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| (0..WAYS).map(|w| Op::Print(L(vec![Piece::T("a".into()), Piece::Via(w, s.into())]))).collect() },
        Path { name: "status", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| (0..WAYS).map(|w| Op::Status(Some(L(vec![Piece::Via(w, s.into())])))).collect() },
        Path { name: "prompt", setup: vec![], make: |s| (0..WAYS).map(|w| Op::Prompt(L(vec![Piece::Via(w, s.into())]), true, false)).collect() },
        Path { name: "notice", setup: vec![], make: |s| (0..WAYS).map(|w| Op::Notice(L(vec![Piece::Via(w, s.into())]), 100)).chain([Op::Advance(100)]).collect() },
    ];
    let f5 = texts("ways", "the same by every way of making a line of a text", CTL, 2, ways, vec![("20x20".into(), cfg(20, 20))], only_known);
    let f4 = texts("vt52", "the same on a VT52", CTL, 1, mk(false), vec![("20x8 vt52".into(), cfg(20, 8).show(Show::Vt52(2, false)))], only_known);
    let f6 = char_ops(
        "characters",
        "every character through every call",
        thorough,
        cfg(20, 8),
        vec![Op::Prompt(t("> "), true, false)],
        |c| {
            let s = format!("a{c}b");
            vec![
                Op::Print(t(&s)),
                Op::Status(Some(st(INV, &s))),
                Op::Prompt(t(&format!("{c}> ")), true, false),
                Op::Notice(t(&s), 100_000),
                Op::Wrap(t(&format!("{c}{c}"))),
            ]
        },
        only_known,
    );
    Check {
        families: vec![f1, f2, f3, f5, f4, f6],
        rule: "the screen shows each control character in its visible notation and nothing else has happened to the terminal".into(),
        assumptions: vec!["line breaks inside the input line are out of scope".into()],
    }
}
/// The terminal received only the sequences an ordinary session uses.
fn only_known(s: &mut Sess) -> Res {
    let tm = &rt::world().term;
    if s.m.bells != tm.bells {
        return fail("bell", format!("the text rang the bell {} times", tm.bells));
    }
    for b in &rt::world().tty_bytes {
        let placeholder = *b == 0x7f && matches!(s.cfg.show, Show::Vt52(..));
        let ok = placeholder || matches!(b, 0x1b | b'\r' | b'\n' | 7 | 8) || (0x20..=0x7e).contains(b) || *b >= 0x80;
        if !ok {
            return fail("control", format!("the terminal received the control character {b:#04x}"));
        }
    }
    if let Some(c) = String::from_utf8_lossy(&rt::world().tty_bytes).chars().find(|c| ('\u{80}'..='\u{9f}').contains(c) || matches!(c, '\u{2028}' | '\u{2029}')) {
        return fail("control", format!("the terminal received {c:?}"));
    }
    Ok(())
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P01" => p01(thorough),
        "P02" => p02(thorough),
        "P16" => p16(thorough),
        "P23" => p23(thorough),
        "P24" => p24(thorough),
        "P28" => p28(thorough),
        _ => return None,
    })
}
