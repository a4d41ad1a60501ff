//! P04, P05, P18, P21: keys, bytes, history navigation and completion.
use std::rc::Rc;

use mcrt::rt::{self, Opts};
use mcrt::world::type_bytes;

use super::screen::typed;
use super::util::{char_ops, characters, Mix, Words};
use crate::engine::{fail, Check, Ctx, Fail, Family, Res, Scen};
use crate::line::{st, t, BOLD, INV};
use crate::model::{ctl, show_ops, Ans, Comp, Key, Model, Op, ESC_MS, MS};
use crate::sess::{cfg, exec, exec_with, run_ops, shut, Cfg, Pace, Sess, Space};

fn probe_comp() -> Op {
    Op::Completor(Some(Comp { id: 99, ans: Ans::None }))
}
/// Make the line, the cursor and the kill buffer visible and compare them.
pub fn probe(s: &mut Sess) -> Res {
    let go = |s: &mut Sess, op: Op| -> Res {
        s.op(&op);
        s.check()
    };
    if !s.m.allowed {
        go(s, Op::Prompt(t("> "), true, false))?;
    }
    go(s, probe_comp())?;
    go(s, Op::Key(Key::Ctl(9)))?;
    logs(s)?;
    go(s, Op::Key(ctl('Y')))?;
    go(s, Op::Key(Key::Ctl(9)))?;
    logs(s)?;
    go(s, Op::Key(Key::Ctl(13)))?;
    match s.miscoded.first() {
        Some(m) => fail("code", m.clone()),
        None => Ok(()),
    }
}
pub fn logs(s: &Sess) -> Res {
    let got = s.comp_log();
    if got != s.m.comp_log {
        return fail("completor", format!("the completor was called with {got:?} instead of {:?}", s.m.comp_log));
    }
    Ok(())
}

/// Every key there is.
pub fn all_keys() -> Vec<Key> {
    let mut v: Vec<Key> = (0..=31u8).filter(|n| *n != 27 && *n != 26).map(Key::Ctl).collect();
    v.push(Key::Ctl(127));
    v.extend([
        Key::Ch('x'),
        Key::Ch(' '),
        Key::Ch('\u{4f60}'),
        Key::Ch('\u{301}'),
        Key::Ch('\u{e9}'),
        Key::Ch('\u{1f600}'),
        Key::Left,
        Key::Right,
        Key::Up,
        Key::Down,
        Key::Home,
        Key::End,
        Key::Del,
        Key::Esc,
        Key::Seq("\x1b[5~"),
        Key::Seq("\x1b[1;5C"),
        Key::Seq("\x1b[15~"),
        Key::Seq("\x1b[Z"),
        Key::Seq("\x1bOP"),
        Key::Seq("\x1b[[A"),
        Key::Seq("\x1bx"),
    ]);
    v
}

fn p04(thorough: bool) -> Check {
    let mut f = vec![];
    // every key in every small state of the line
    const TOKS: &[&str] = &["a", " ", "\u{4f60}", "e\u{301}", "\u{301}", "\u{1f600}"];
    let words = Words { a: TOKS.len() as u64, min: 0, max: if thorough { 5 } else { 3 } };
    let keys = Rc::new(all_keys());
    let nk = keys.len() as u64;
    // the state: text, cursor (number of steps to the left), kill buffer, back end, permission
    let make = {
        let keys = keys.clone();
        move |i: u64| {
            let key = keys[(i % nk) as usize].clone();
            let mut r = i / nk;
            let back_end = r % 3;
            r /= 3;
            let env = r % 4;
            r /= 4;
            let back = r % 5;
            r /= 5;
            let text = super::util::word(TOKS, &words.get(r));
            let mut setup = vec![Op::Prompt(t("> "), true, false)];
            if env == 1 {
                setup.extend([typed("kl"), Op::Key(ctl('U'))]);
            }
            setup.push(typed(&text));
            for _ in 0..back {
                setup.push(Op::Key(Key::Left));
            }
            match env {
                2 => setup.push(Op::Prompt(t("> "), false, false)),
                3 => setup.push(Op::Notice(st(INV, "note"), 1_000_000)),
                _ => (),
            }
            let mut c = cfg(30, 6).hist(&["old"]);
            match back_end {
                0 => (),
                1 => c = c.events(),
                _ => c = c.odd_events(),
            }
            (c, setup, key)
        }
    };
    let valid = move |i: u64| -> bool {
        // no more steps to the left than there are characters; sequences are for bytes only
        let r = i / nk / 3;
        let back = r / 4 % 5;
        let n = words.get(r / 20).len() as u64;
        back <= n
    };
    let m2 = make.clone();
    f.push(Family::seq(
        "every key",
        "every key in every line of up to a few characters, at every position, with and without kill buffer, permission and notice, with both back ends",
        words.total() * 5 * 4 * 3 * nk,
        move |i, ctx| {
            if !valid(i) {
                return Ok(());
            }
            let (c, setup, key) = make(i);
            if c.events && matches!(key, Key::Seq(_)) {
                return Ok(());
            }
            run_ops(&c, &setup, &[Op::Key(key)], Pace::Each, ctx, probe)
        },
        move |i| {
            let (c, setup, key) = m2(i);
            format!("{}[{}] then {}", if c.odd { "odd events " } else if c.events { "events " } else { "" }, show_ops(&setup), key.show())
        },
    ));
    // sequences
    let alpha: Vec<Op> = [
        Key::Ch('a'),
        Key::Ch(' '),
        Key::Ch('\u{4f60}'),
        Key::Ch('\u{301}'),
        Key::Left,
        Key::Right,
        ctl('A'),
        ctl('E'),
        Key::Ctl(8),
        Key::Del,
        ctl('W'),
        ctl('K'),
        ctl('U'),
        ctl('Y'),
        ctl('G'),
        ctl('D'),
        Key::Ctl(13),
        Key::Up,
        Key::Down,
        ctl('T'),
    ]
    .into_iter()
    .map(Op::Key)
    .collect();
    let pre = vec![Op::Prompt(t("> "), true, false), typed("ab \u{4f60}o\u{301}c d"), Op::Key(Key::Left), Op::Key(Key::Left), Op::Key(Key::Left)];
    let cfgs = vec![
        ("30x6".to_string(), cfg(30, 6), vec![]),
        ("30x6 typed".into(), cfg(30, 6).hist(&["h1", "h2"]), pre.clone()),
        ("7x6 events".into(), cfg(7, 6).events().hist(&["h1"]), pre.clone()),
        ("7x6 odd events".into(), cfg(7, 6).odd_events().hist(&["h1"]), pre.clone()),
    ];
    f.push(
        Space { cfgs, alpha, depth: if thorough { 5 } else { 4 }, paces: vec![Pace::Burst] }
            .family("sequences", "every sequence of editing keys", probe),
    );
    let alpha: Vec<Op> = [Key::Ch('a'), Key::Ch(' '), Key::Ch('\u{301}'), Key::Left, ctl('W'), Key::Ctl(8), Key::Del, ctl('K'), ctl('Y')]
        .into_iter()
        .map(Op::Key)
        .collect();
    f.push(
        Space {
            cfgs: vec![("30x6".to_string(), cfg(30, 6), vec![]), ("30x6 events".into(), cfg(30, 6).events(), vec![])],
            alpha,
            depth: if thorough { 7 } else { 5 },
            paces: vec![Pace::Burst],
        }
        .family("deep", "longer sequences of fewer keys", probe),
    );
    // long lines
    let long = |n: usize| -> Op {
        typed(&"some wo\u{301}rds and \u{4f60}\u{597d} other things, one\u{e9} ".chars().cycle().take(n).collect::<String>())
    };
    let mut alpha: Vec<Op> = [Key::Ch('x'), Key::Left, ctl('A'), ctl('E'), Key::Ctl(8), ctl('W'), ctl('K'), ctl('U'), ctl('Y'), Key::Ctl(13)]
        .into_iter()
        .map(Op::Key)
        .collect();
    alpha.push(long(260));
    f.push(
        Space {
            cfgs: [(250, false), (1020, false), (4090, false), (1020, true)]
                .into_iter()
                .map(|(n, events)| {
                    let c = cfg(80, 200);
                    let c = if events { c.events() } else { c };
                    (format!("{n} characters{}", if events { ", events" } else { "" }), c, vec![Op::Prompt(t("> "), true, false), long(n)])
                })
                .collect(),
            alpha,
            depth: if thorough { 3 } else { 2 },
            paces: vec![Pace::Burst],
        }
        .family("long lines", "sequences of editing keys in lines of hundreds and thousands of characters", probe),
    );
    // killing and yanking whole parts of lines
    const PARTS: &[&str] = &["a", " ", "\u{e9}", "\u{4f60}", "\u{1f600}", "e\u{301}", "\u{1f600}\u{1f600}\u{1f600}\u{1f600}"];
    let words = Words { a: PARTS.len() as u64, min: 1, max: if thorough { 5 } else { 3 } };
    let yank = move |i: u64| -> (bool, String, Vec<Op>) {
        let v = Mix(vec![6, 3, 2, words.total()]).get(i);
        let text = super::util::word(PARTS, &words.get(v[3] as u64));
        let mut keys = vec![Key::Left; v[0]];
        keys.push(if v[2] == 0 { ctl('U') } else { ctl('K') });
        match v[1] {
            0 => keys.extend([ctl('Y'), Key::Ch('x')]),
            1 => keys.extend([ctl('Y'), Key::Left, ctl('Y'), Key::Ctl(8), Key::Ch('x')]),
            _ => keys.extend([Key::Ctl(13), Key::Ch('p'), ctl('A'), ctl('Y'), ctl('Y'), ctl('W'), Key::Ch('x')]),
        }
        (i % 2 == 1, text, keys.into_iter().map(Op::Key).collect())
    };
    f.push(Family::seq(
        "killed",
        "every line of a few characters of all sizes, killed from and to every position, and yanked in several places",
        6 * 3 * 2 * words.total(),
        move |i, ctx| {
            let (events, text, ops) = yank(i);
            let c = if events { cfg(60, 6).events() } else { cfg(60, 6) };
            run_ops(&c, &[Op::Prompt(t("> "), true, false), typed(&text)], &ops, Pace::Each, ctx, probe)
        },
        move |i| {
            let (events, text, ops) = yank(i);
            format!("{}{text:?}: {}", if events { "events " } else { "" }, show_ops(&ops))
        },
    ));
    // permission
    let alpha = vec![
        Op::Prompt(t("> "), true, false),
        Op::Prompt(t("- "), false, false),
        Op::Prompt(t("- "), false, true),
        Op::Key(Key::Ch('a')),
        Op::Key(Key::Left),
        Op::Key(Key::Ctl(13)),
        Op::Key(ctl('C')),
        Op::Key(ctl('D')),
        Op::Key(ctl('U')),
        Op::Key(Key::Esc),
        Op::Key(Key::Ctl(9)),
        Op::Key(Key::Up),
    ];
    f.push(
        Space {
            cfgs: vec![
                ("30x6".to_string(), cfg(30, 6).hist(&["h"]), vec![Op::Prompt(t("> "), true, false), typed("xy")]),
                ("30x6 events".into(), cfg(30, 6).events().hist(&["h"]), vec![Op::Prompt(t("> "), true, false), typed("xy")]),
                ("30x6 odd events".into(), cfg(30, 6).odd_events().hist(&["h"]), vec![Op::Prompt(t("> "), true, false), typed("xy")]),
            ],
            alpha,
            depth: if thorough { 5 } else { 4 },
            paces: vec![Pace::Each],
        }
        .family("permission", "keys while input is and is not allowed", probe),
    );
    for (name, c) in [("characters", cfg(30, 6)), ("characters as events", cfg(30, 6).events())] {
        f.push(char_ops(
            name,
            "every character typed between others, passed over, erased, and entered",
            thorough,
            c,
            vec![Op::Prompt(t("> "), true, false)],
            |c| {
                if (c as u32) < 0x20 || c as u32 == 0x7f {
                    // a control key
                    return vec![];
                }
                vec![
                    Op::Chunk(vec![Key::Ch('a'), Key::Ch(c), Key::Ch('b'), Key::Left, Key::Left]),
                    Op::Chunk(vec![Key::Ch('x'), ctl('E'), Key::Ch(c), Key::Ch(c), Key::Ctl(8)]),
                    Op::Chunk(vec![Key::Ch('y'), Key::Ch(c), Key::Ch('z'), ctl('W')]),
                    Op::Key(Key::Ctl(13)),
                ]
            },
            probe,
        ));
    }
    Check {
        families: f,
        rule: "line, cursor, kill buffer, screen and responses equal those of the reference editor; the completor sees line and cursor".into(),
        assumptions: vec!["the terminal sends the sequences documented for it".into()],
    }
}

// ------------------------------------------------------------------ P05

/// The keys that a byte string means, as far as that is laid down: None for malformed ones.
pub fn decode(b: &[u8]) -> Option<Vec<Key>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            0x1b => match b.get(i + 1) {
                None => {
                    v.push(Key::Esc);
                    i += 1;
                }
                Some(c) if *c < 0x20 || *c >= 0x7f => {
                    v.push(Key::Esc);
                    i += 1;
                }
                Some(b'[') => {
                    let mut j = i + 2;
                    if b.get(j) == Some(&b'[') {
                        j += 1;
                    } else {
                        while j < b.len() && (0x20..0x40).contains(&b[j]) {
                            j += 1;
                        }
                    }
                    let last = *b.get(j)?;
                    if !(0x40..0x7f).contains(&last) {
                        return None;
                    }
                    v.push(match &b[i + 2..=j] {
                        b"A" => Key::Up,
                        b"B" => Key::Down,
                        b"C" => Key::Right,
                        b"D" => Key::Left,
                        b"H" => Key::Home,
                        b"F" => Key::End,
                        b"3~" => Key::Del,
                        _ => Key::Seq(""),
                    });
                    i = j + 1;
                }
                Some(b'O') => {
                    let last = *b.get(i + 2)?;
                    if last >= 0x7f {
                        return None;
                    }
                    v.push(Key::Seq(""));
                    // (a control character is a key of its own)
                    i += if last < 0x20 { 2 } else { 3 };
                }
                Some(_) => {
                    v.push(Key::Seq(""));
                    i += 2;
                }
            },
            c if c < 0x80 => {
                v.push(if c < 0x20 || c == 0x7f { Key::Ctl(c) } else { Key::Ch(c as char) });
                i += 1;
            }
            _ => {
                let n = match b[i] {
                    0xc2..=0xdf => 2,
                    0xe0..=0xef => 3,
                    0xf0..=0xf4 => 4,
                    _ => return None,
                };
                let s = std::str::from_utf8(b.get(i..i + n)?).ok()?;
                v.push(Key::Ch(s.chars().next().unwrap()));
                i += n;
            }
        }
    }
    Some(v)
}

/// What the program could see of the session, to be the same however the bytes arrive.
type Seen = (Vec<String>, Vec<String>, String);

/// Deliver `bytes` cut after the positions in `cuts`; a wait before the chunks in `waits`.
fn deliver(bytes: &[u8], cuts: u64, wait: u64, want: Option<Vec<Key>>, ctx: &mut Ctx) -> Result<Seen, Fail> {
    let out: Rc<std::cell::RefCell<Option<Seen>>> = Default::default();
    let o2 = out.clone();
    let bytes = bytes.to_vec();
    let c = cfg(40, 6).hist(&["hist"]);
    exec(c.world(), ctx, move || {
        let mut s = Sess::new(&c);
        s.op(&Op::Prompt(t("> "), true, false));
        s.op(&typed("ab"));
        s.op(&Op::Key(Key::Left));
        s.check()?;
        let mut from = 0;
        for i in 0..bytes.len() {
            let last = i + 1 == bytes.len();
            if last || cuts >> i & 1 == 1 {
                type_bytes(&bytes[from..=i]);
                rt::settle();
                from = i + 1;
                if wait > 0 && !last {
                    rt::advance(wait as u128 * MS);
                }
            }
        }
        rt::advance(ESC_MS as u128 * MS);
        if let Some(keys) = &want {
            for k in keys {
                s.m.key(k);
            }
            s.check()?;
        }
        // what follows still arrives
        type_bytes(b"ook\x05\r");
        rt::advance(ESC_MS as u128 * MS);
        rt::settle();
        s.drain();
        if let Some(p) = rt::rt_panics().first() {
            return fail("panic", format!("thread {} panicked: {}", p.thread, p.message));
        }
        let ok = s.got.iter().rev().find(|r| r.starts_with("Input(")).is_some_and(|r| r.contains('k'));
        if !ok {
            return fail("keys-lost", format!("the keys typed afterwards did not arrive: {:?}", s.got));
        }
        let tm = &rt::world().term;
        let rows: Vec<String> = tm.all_rows().iter().map(mcrt::term::Term::row_text).collect();
        *o2.borrow_mut() = Some((s.got.clone(), rows, format!("{:?} {}", (tm.x, tm.y), tm.bells)));
        shut(s);
        Ok(())
    })?;
    let r = out.borrow_mut().take().unwrap();
    Ok(r)
}
fn bytes_family(name: &str, about: &str, total: u64, make: impl Fn(u64) -> Vec<u8> + Clone + 'static, max_cuts: u32, wait: u64) -> Family {
    let mk = make.clone();
    Family::seq(
        name,
        about,
        total,
        move |i, ctx| {
            let b = make(i);
            if b.is_empty() || b.contains(&0x1a) {
                return Ok(());
            }
            let want = decode(&b);
            let whole = deliver(&b, 0, 0, want.clone(), ctx)?;
            ctx.outcome(&whole);
            ctx.transitions += b.len() as u64;
            let n = b.len() as u32 - 1;
            for cuts in 1u64..1 << n.min(16) {
                if cuts.count_ones() > max_cuts {
                    continue;
                }
                if wait > 0 && (0..n).any(|k| cuts >> k & 1 == 1 && timed(&b, k as usize)) {
                    continue;
                }
                let r = deliver(&b, cuts, wait, want.clone(), ctx).map_err(|f| Fail { key: f.key, msg: format!("cut at {cuts:b}: {}", f.msg) })?;
                ctx.transitions += b.len() as u64;
                if r != whole {
                    return fail("split", format!("cut at {cuts:b} it gives {r:?}, whole {whole:?}"));
                }
            }
            Ok(())
        },
        move |i| format!("{:?}", String::from_utf8_lossy(&mk(i)).to_string() + &format!(" {:x?}", mk(i))),
    )
}
/// Whether waiting after byte `k` changes the meaning: right after an escape.
fn timed(b: &[u8], k: usize) -> bool {
    b[k] == 0x1b || (k > 0 && b[k - 1] == 0x1b && b[k] == b'O')
}

fn p05(thorough: bool) -> Check {
    let toks: Vec<&'static [u8]> = vec![
        b"x", b"\r", b"\x1b", b"\x1b[A", b"\x1b[D", b"[", b"\xc3\xa9", b"\xe4\xbd\xa0", b"\xf0\x9f\x98\x80", b"\x1b[5~", b"\x1bOP", b"\x7f",
        b"\x01",
    ];
    let w1 = Words { a: toks.len() as u64, min: 1, max: 3 };
    let t1 = toks.clone();
    let cat = move |toks: &[&'static [u8]], v: Vec<usize>| -> Vec<u8> { v.iter().flat_map(|&k| toks[k].to_vec()).collect() };
    let f1 = bytes_family(
        "well-formed",
        "every short sequence of keys, characters of all lengths, known and unknown escape sequences, cut at every set of places",
        w1.total(),
        move |i| cat(&t1, w1.get(i)),
        if thorough { 16 } else { 2 },
        0,
    );
    let t2 = toks.clone();
    let w2 = Words { a: toks.len() as u64, min: 1, max: 2 };
    let f2 = bytes_family(
        "slow",
        "the same with pauses longer than the escape delay wherever they mean nothing",
        w2.total(),
        move |i| cat(&t2, w2.get(i)),
        16,
        ESC_MS,
    );
    let bad: Vec<u8> = vec![b'x', 0x1b, b'[', b'O', b'3', b'~', b'\r', 0x7f, 0x80, 0xbf, 0xc3, 0xe4, 0xbd, 0xa0, 0xed, 0xf0, 0xff, 0xc0];
    let w3 = Words { a: bad.len() as u64, min: 1, max: if thorough { 5 } else { 4 } };
    let b3 = bad.clone();
    let f3 = bytes_family(
        "malformed",
        "every short string of bytes from a set that contains the beginnings, middles and ends of characters and sequences and invalid bytes",
        w3.total(),
        move |i| w3.get(i).iter().map(|&k| b3[k]).collect(),
        if thorough { 16 } else { 2 },
        0,
    );
    let f4 = bytes_family("pairs", "every pair of bytes", 0x10000, |i| vec![(i >> 8) as u8, i as u8], 1, 0);
    // every escape sequence there is
    let mut all: Vec<Vec<u8>> = vec![];
    for last in 0x20..0x7fu8 {
        if last >= 0x40 {
            for p in ["", "1", "12", "1;5", "?25", ";", " ", "!", "1;2;3;4", "0$"] {
                all.push([b"\x1b[", p.as_bytes(), &[last], b"x"].concat());
            }
        }
        all.push(vec![0x1b, b'[', b'[', last, b'x']);
        all.push(vec![0x1b, b'O', last, b'x']);
        all.push(vec![0x1b, last, b'x', b'y']);
    }
    all.retain(|b| decode(b).is_some());
    let n9 = all.len() as u64;
    let f9 = bytes_family(
        "all sequences",
        "escape sequences with every final byte, with and without parameters, and what follows them, cut at every place",
        n9,
        move |i| all[i as usize].clone(),
        if thorough { 16 } else { 2 },
        0,
    );
    // pastes of any length up to twice the read buffer
    const LATE: [&str; 12] = [
        "x", "\u{e9}", "\u{4f60}", "\u{1f600}", "\x1b[D", "\x1bOD", "\x1bOx", "\x1bq", "\x1b[3~", "\x1b[1;5q", "\x1b[[A", "\x01",
    ];
    let late: Vec<usize> = if thorough { (0..540).collect() } else { (0..270).step_by(3).chain(250..262).chain(508..516).collect() };
    let parts = Rc::new(Mix(vec![LATE.len() as u64, 3, late.len() as u64]));
    let parts_total = parts.total();
    let make = move |i: u64| {
        let v = parts.get(i);
        let mut b = vec![b'y'; late[v[2]]];
        b.extend(LATE[v[0]].as_bytes());
        let rest = match v[1] {
            0 => 1,
            1 => 100,
            // a full read
            _ => (256 - b.len() as i64).max(2) as usize - 1,
        };
        b.extend(vec![b'z'; rest]);
        b.push(b'\r');
        b
    };
    let m2 = make.clone();
    let f5 = Family::seq(
        "long",
        "characters and escape sequences at every place of a read and across its end, more and less behind them",
        parts_total,
        move |i, ctx| {
            let b = make(i);
            ctx.transitions += b.len() as u64;
            let c = cfg(40, 24);
            let Some(keys) = decode(&b) else { return fail("infra", format!("no decoding of {b:?}")) };
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                s.op(&Op::Prompt(t("> "), true, false));
                s.check()?;
                type_bytes(&b);
                for k in &keys {
                    s.m.key(k);
                }
                s.check()?;
                shut(s);
                Ok(())
            })
        },
        move |i| format!("{:?}", String::from_utf8_lossy(&m2(i))),
    );
    // unsupported sequences of any length
    let lens: Vec<usize> = (0..if thorough { 600 } else { 40 }).chain([60, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 511, 512, 513, 1030]).collect();
    let l2 = lens.clone();
    let f8 = Family::seq(
        "long sequences",
        "unsupported escape sequences of any length, at once, cut anywhere near the ends or the middle, or byte by byte, before and after other keys",
        lens.len() as u64 * 3 * 6 * 2,
        move |i, ctx| {
            let n = lens[(i / 36) as usize];
            let fill: &[u8] = [&b"1"[..], b"12;", b"? "][(i % 3) as usize];
            let cut = i / 3 % 6;
            let mut b = if i / 18 % 2 == 1 { "pq\u{e9}".as_bytes().to_vec() } else { vec![] };
            let at = b.len();
            b.extend(b"\x1b[");
            b.extend(fill.iter().cycle().take(n));
            b.push(if fill[0] == b'?' { b'h' } else { b'm' });
            let end = b.len();
            b.extend("\u{4f60}x".as_bytes());
            let cuts: Vec<usize> = match cut {
                0 => vec![],
                1 => vec![at + 2],
                2 => vec![at + 2 + n / 2],
                3 => vec![end - 1],
                4 => vec![at + 1, end - 1, end + 1],
                _ => (1..b.len()).collect(),
            };
            let keys = decode(&b).unwrap();
            let c = cfg(40, 20);
            ctx.transitions += b.len() as u64;
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                s.op(&Op::Prompt(t("> "), true, false));
                s.check()?;
                let mut from = 0;
                for k in 1..=b.len() {
                    if k == b.len() || cuts.contains(&k) {
                        type_bytes(&b[from..k]);
                        rt::settle();
                        from = k;
                    }
                }
                for k in &keys {
                    s.m.key(k);
                }
                s.op(&typed("ok"));
                s.check()?;
                shut(s);
                Ok(())
            })
        },
        move |i| format!("{} bytes of kind {}, cut {}, {}", l2[(i / 36) as usize], i % 3, i / 3 % 6, i / 18 % 2),
    );
    // lone escape timing
    let f6 = Family::seq(
        "escape",
        "a lone escape, the rest of a sequence arriving within and after the escape delay",
        8 * 4,
        |i, ctx| {
            let rest: &[u8] = [&b""[..], b"[A", b"x", b"[", b"\x1b", b"\r", b"\xc3\xa9", b"O"][(i % 8) as usize];
            let late = (i / 8) as u64; // in eighths of the delay: 4, 7, 9, 16
            let part = [4u64, 7, 9, 16][late as usize];
            let delay = 1_000_000_000u128 / 24;
            let c = cfg(40, 6).hist(&["hist"]);
            let rest = rest.to_vec();
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                s.op(&Op::Prompt(t("> "), true, false));
                s.check()?;
                type_bytes(b"\x1b");
                rt::settle();
                rt::advance(delay * part as u128 / 8);
                s.drain();
                if part > 8 {
                    s.m.key(&Key::Esc);
                    s.m.now += 42 * MS;
                    s.check()?;
                    type_bytes(&rest);
                    rt::advance(2 * delay);
                    if let Some(k) = decode(&rest) {
                        k.iter().for_each(|k| s.m.key(k));
                        s.check()?;
                    }
                } else {
                    if !s.got.is_empty() {
                        return fail("early", format!("{:?} was reported before the escape delay was over", s.got));
                    }
                    type_bytes(&rest);
                    rt::settle();
                    rt::advance(2 * delay);
                    let mut b = b"\x1b".to_vec();
                    b.extend(&rest);
                    if let Some(k) = decode(&b) {
                        k.iter().for_each(|k| s.m.key(k));
                        s.check()?;
                    }
                }
                shut(s);
                Ok(())
            })
        },
        |i| format!("rest {} after {}", i % 8, i / 8),
    );
    let f7 = characters("characters", "every character, its bytes arriving one by one", true, |chars, ctx| {
        let c = cfg(30, 6);
        let chars = chars.to_vec();
        exec(c.world(), ctx, move || {
            let mut s = Sess::new(&c);
            s.op(&Op::Prompt(t("> "), true, false));
            s.check()?;
            for c in chars.iter().filter(|c| **c as u32 >= 0x20 && **c as u32 != 0x7f) {
                let text = format!("a{c}b");
                for b in text.as_bytes() {
                    type_bytes(&[*b]);
                    rt::settle();
                }
                text.chars().for_each(|c| s.m.key(&Key::Ch(c)));
                s.op(&Op::Key(Key::Ctl(13)));
            }
            s.check()?;
            shut(s);
            Ok(())
        })
    });
    Check {
        families: vec![f1, f2, f3, f4, f9, f5, f8, f6, f7],
        rule: "keys equal those of a reference decoder, are the same for all ways of cutting the bytes, and later keys still arrive".into(),
        assumptions: vec![
            "malformed strings: only that all cuts agree and nothing is stuck".into(),
            "a pause longer than the escape delay right after an escape is meant to end it".into(),
        ],
    }
}

// ------------------------------------------------------------------ P18

fn nav_probe(s: &mut Sess) -> Res {
    // the kill buffer is not what this is about; the line and the rest of the way are
    let go = |s: &mut Sess, op: Op| -> Res {
        s.op(&op);
        s.check()
    };
    if !s.m.allowed {
        go(s, Op::Prompt(t("> "), true, false))?;
    }
    go(s, Op::Key(Key::Down))?;
    go(s, Op::Key(Key::Up))?;
    go(s, Op::Key(Key::Up))?;
    go(s, Op::Key(Key::Down))?;
    go(s, Op::Key(Key::Down))?;
    go(s, Op::Key(Key::Down))?;
    go(s, Op::Key(Key::Ch('\u{e9}')))?;
    go(s, Op::Key(Key::Ctl(13)))
}

fn p18(thorough: bool) -> Check {
    let h = |v: &[&str]| Op::SwapHist(v.iter().map(|s| s.to_string()).collect());
    let keys = [
        Key::Up,
        Key::Down,
        Key::Ch('x'),
        Key::Ctl(8),
        Key::Ctl(13),
        ctl('G'),
        ctl('D'),
        ctl('U'),
        Key::Left,
    ];
    let mut alpha: Vec<Op> = keys.into_iter().map(Op::Key).collect();
    alpha.extend([
        Op::Prompt(t("> "), true, true),
        h(&[]),
        h(&["b"]),
        h(&["c", "b", "a"]),
        h(&["n1", "a", "n2", "n3"]),
    ]);
    let p = || Op::Prompt(t("> "), true, false);
    let cfgs = vec![
        ("20x6 abc".to_string(), cfg(20, 6).hist(&["a", "b", "c"]), vec![p(), typed("new")]),
        ("20x6 empty".into(), cfg(20, 6), vec![p()]),
        ("20x6 abc at b".into(), cfg(20, 6).hist(&["a", "b", "c"]), vec![p(), typed("new"), Op::Key(Key::Up), Op::Key(Key::Up)]),
        ("20x6 abc events".into(), cfg(20, 6).hist(&["a", "b", "c"]).events(), vec![p(), typed("new"), Op::Key(Key::Up)]),
        (
            "20x6 limit 2".into(),
            Cfg { limit: Some(2), ..cfg(20, 6).hist(&["a", "b"]) },
            vec![p(), typed("new"), Op::Key(Key::Up)],
        ),
        (
            "20x6 duplicates".into(),
            Cfg { strip: false, ..cfg(20, 6).hist(&["a", "b", "c"]) },
            vec![p(), typed("b"), Op::Key(Key::Ctl(13)), typed("n"), Op::Key(Key::Up)],
        ),
    ];
    let mut f = vec![Space { cfgs: cfgs.clone(), alpha: alpha.clone(), depth: if thorough { 5 } else { 4 }, paces: vec![Pace::Each] }
        .family("walks", "every walk through the history, with editing, entering, discarding, clearing and swapping", nav_probe)];
    let small: Vec<Op> = vec![Op::Key(ctl('P')), Op::Key(ctl('N')), Op::Key(Key::Ch('x')), Op::Key(Key::Ctl(13)), h(&["b", "n"]), h(&["a"])];
    f.push(
        Space { cfgs: cfgs.into_iter().take(3).collect(), alpha: small, depth: if thorough { 8 } else { 6 }, paces: vec![Pace::Each] }
            .family("longer walks", "longer walks of fewer moves", nav_probe),
    );
    // lines that are there more than once: the newest counts
    let twice: Vec<Op> =
        vec![Op::Key(Key::Up), Op::Key(Key::Down), Op::Key(Key::Ch('x')), h(&["b", "a", "b"]), h(&["a", "b", "a", "c"]), h(&["a", "a"])];
    let c2 = |l: &[&str]| Cfg { strip: false, ..cfg(20, 6).hist(l) };
    f.push(
        Space {
            cfgs: vec![
                ("aba".to_string(), c2(&["a", "b", "a"]), vec![p(), typed("new")]),
                ("bab".into(), c2(&["b", "a", "b"]), vec![p(), typed("new"), Op::Key(Key::Up)]),
                ("ab".into(), c2(&["a", "b"]), vec![p(), typed("new"), Op::Key(Key::Up)]),
            ],
            alpha: twice,
            depth: if thorough { 7 } else { 5 },
            paces: vec![Pace::Each],
        }
        .family("duplicates", "walks through histories with lines that are there more than once", nav_probe),
    );
    // lines that are nearly the same
    let near: Vec<Op> = vec![
        Op::Key(Key::Up),
        Op::Key(Key::Down),
        Op::Key(Key::Ch(' ')),
        Op::Key(Key::Ctl(13)),
        h(&["a", "a ", " a", "A", ""]),
        h(&["", "A", "a", "ab"]),
        h(&["a\u{e9}", "ae\u{301}", "a "]),
    ];
    f.push(
        Space {
            cfgs: vec![
                ("near".to_string(), cfg(20, 6).hist(&["a", " a", "", "a "]), vec![p()]),
                ("near typed".into(), cfg(20, 6).hist(&["ab", "a ", "A", "a"]), vec![p(), typed("a"), Op::Key(Key::Up)]),
                ("accents".into(), cfg(20, 6).hist(&["ae\u{301}", "", "a\u{e9}"]), vec![p(), typed("a"), Op::Key(Key::Up)]),
            ],
            alpha: near,
            depth: if thorough { 6 } else { 5 },
            paces: vec![Pace::Each],
        }
        .family("near duplicates", "walks through histories with empty lines and lines that are nearly the same", nav_probe),
    );
    const LENS: [usize; 6] = [100, 254, 255, 256, 257, 300];
    f.push(Family::seq(
        "long histories",
        "all the way up and down histories of hundreds of lines, swapping in between",
        (LENS.len() * LENS.len()) as u64,
        |i, ctx| {
            let (a, b) = (LENS[i as usize % LENS.len()], LENS[i as usize / LENS.len()]);
            let lines = |n: usize| -> Vec<String> { (0..n).map(|k| format!("l{}", k * 7 % n)).collect() };
            let (la, lb) = (lines(a), lines(b));
            let la: Vec<&str> = la.iter().map(|s| s.as_str()).collect();
            let c = Cfg { limit: Some(1000), ..cfg(20, 6).hist(&la) };
            let up = || Op::Key(Key::Up);
            let mut ops: Vec<Op> = (0..a + 2).map(|_| up()).collect();
            ops.extend((0..a + 2).map(|_| Op::Key(Key::Down)));
            ops.extend((0..a / 2).map(|_| up()));
            ops.push(Op::SwapHist(lb));
            ops.extend((0..b + 1).map(|_| up()));
            ops.extend((0..b + 1).map(|_| Op::Key(Key::Down)));
            run_ops(&c, &[Op::Prompt(t("> "), true, false), typed("new")], &ops, Pace::Each, ctx, nav_probe)
        },
        |i| format!("{} lines, then {}", LENS[i as usize % LENS.len()], LENS[i as usize / LENS.len()]),
    ));
    // swapping while the keys are being dealt with
    let mut scens = vec![];
    let olds: &[&[&str]] = &[&["a", "b", "c"], &["a"]];
    let news: &[&[&str]] = &[&[], &["b"], &["c", "b", "a", "d"], &["n1", "n2"]];
    for old in olds {
        for new in news {
            let up = Key::Up;
            for (before, keys) in [
                (0, vec![up.clone(), up.clone()]),
                (0, vec![up.clone(), Key::Down]),
                (0, vec![up.clone(), Key::Ctl(13), up.clone()]),
                (1, vec![Key::Down]),
                (1, vec![up.clone()]),
                (2, vec![Key::Down, Key::Down]),
                (2, vec![Key::Ch('x'), Key::Down]),
                (3, vec![Key::Down, up.clone()]),
            ] {
                let (old, new) = (old.to_vec(), new.to_vec());
                let name = format!(
                    "history {old:?}, {before} lines up, swapped for {new:?} during {:?}",
                    keys.iter().map(|k| k.show()).collect::<Vec<_>>()
                );
                scens.push(Scen {
                    name,
                    bound: if thorough { 3 } else { 2 },
                    run: Box::new(move |devs, ctx| {
                        let c = cfg(20, 6).hist(&old);
                        let (new, keys) = (new.clone(), keys.clone());
                        exec_with(&Opts::explore().free(), devs, c.world(), ctx, move || swap_race(c, before, new, keys))
                    }),
                });
            }
        }
    }
    f.push(Family::sched("swap race", "the history is swapped and read by the program while keys are being dealt with, every schedule", scens));
    Check {
        families: f,
        rule: "line, screen, bells and responses equal those of the reference; under races: the result is that of some order of keys and swap".into(),
        assumptions: vec!["a line edited while it is not in the swapped-in history becomes the new line".into()],
    }
}

/// The outcome is that of some interleaving of the keys and the swap.
fn swap_race(c: Cfg, before: usize, new: Vec<&'static str>, keys: Vec<Key>) -> Res {
    rt::exploring(false);
    let mut s = Sess::new(&c);
    s.op(&Op::Prompt(t("> "), true, false));
    s.op(&typed("new"));
    for _ in 0..before {
        s.op(&Op::Key(Key::Up));
    }
    s.check()?;
    let base = s.m.clone();
    let swap = Op::SwapHist(new.iter().map(|s| s.to_string()).collect());
    rt::exploring(true);
    for k in &keys {
        s.send_key(std::slice::from_ref(k));
    }
    s.real(&swap);
    rt::settle();
    rt::exploring(false);
    // possible models: the swap after any number of keys; the worker hears of it later still
    let mut possible: Vec<Model> = vec![];
    for at in 0..=keys.len() {
        let mut m = base.clone();
        for (i, k) in keys.iter().enumerate() {
            if i == at {
                m.apply(&swap);
            }
            m.key(k);
        }
        if at == keys.len() {
            m.apply(&swap);
        }
        possible.push(m);
    }
    s.drain();
    if let Some(p) = rt::rt_panics().first() {
        return fail("panic", format!("thread {} panicked: {}", p.thread, p.message));
    }
    let after: &[Key] = &[Key::Down, Key::Up, Key::Up, Key::Up, Key::Down, Key::Down, Key::Down, Key::Down, Key::Ch('x'), Key::Ctl(13)];
    let mut errs = vec![];
    let mut live: Vec<Model> = vec![];
    for m in possible {
        s.m = m.clone();
        match s.compare() {
            Ok(()) => live.push(m),
            Err(e) => errs.push(e.msg),
        }
    }
    for k in after {
        if live.is_empty() {
            break;
        }
        s.send_key(std::slice::from_ref(k));
        rt::settle();
        s.drain();
        let mut next = vec![];
        for mut m in live {
            m.key(k);
            s.m = m.clone();
            match s.compare() {
                Ok(()) => next.push(m),
                Err(e) => errs.push(format!("after {}: {}", k.show(), e.msg)),
            }
        }
        live = next;
    }
    if let Some(p) = rt::rt_panics().first() {
        return fail("panic", format!("thread {} panicked: {}", p.thread, p.message));
    }
    if live.is_empty() {
        return fail("race", format!("no order of keys and swap explains what happened: {}", errs.join(" / ")));
    }
    shut(s);
    Ok(())
}

// ------------------------------------------------------------------ P21

fn p21(thorough: bool) -> Check {
    let comp = |id: u32, ans: Ans| Op::Completor(Some(Comp { id, ans }));
    let alpha = vec![
        Op::Key(Key::Ctl(9)),
        Op::Key(Key::Ctl(9)),
        Op::Chunk(vec![Key::Ctl(9), Key::Ctl(9)]),
        Op::Key(Key::Ch('x')),
        Op::Key(Key::Left),
        Op::Key(Key::Ctl(13)),
        Op::Key(Key::Up),
        Op::Key(ctl('C')),
        comp(1, Ans::None),
        comp(2, Ans::Insert("in\u{4f60}".into())),
        comp(3, Ans::Replace("a\u{e9}b c".into(), 3)),
        comp(4, Ans::Presses),
        comp(10, Ans::Move(1)),
        comp(5, Ans::Print("shown".into())),
        comp(6, Ans::Notice("note".into(), 1000)),
        comp(7, Ans::Bell),
        comp(8, Ans::Remove),
        Op::Completor(None),
        Op::Prompt(t("> "), false, false),
        Op::Prompt(t("> "), true, false),
        Op::Notice(st(BOLD, "n"), 1000),
    ];
    let mut alpha = alpha;
    alpha.remove(1);
    let p = || Op::Prompt(t("> "), true, false);
    let pre = vec![p(), comp(9, Ans::Insert("-".into())), typed("q\u{e9} r"), Op::Key(Key::Left)];
    let cfgs = vec![
        ("20x6".to_string(), cfg(20, 6), vec![p()]),
        ("20x6 typed".into(), cfg(20, 6).hist(&["h"]), pre.clone()),
        ("20x6 events".into(), cfg(20, 6).events().hist(&["h"]), pre.clone()),
        ("20x6 odd events".into(), cfg(20, 6).odd_events().hist(&["h"]), pre.clone()),
    ];
    let last = |s: &mut Sess| -> Res {
        logs(s)?;
        if !s.m.allowed {
            s.op(&Op::Prompt(t("> "), true, false));
            s.check()?;
        }
        s.op(&Op::Key(Key::Ch('w')));
        s.check()?;
        s.op(&Op::Key(Key::Ctl(9)));
        s.check()?;
        logs(s)?;
        s.op(&Op::Key(Key::Ctl(13)));
        s.check()
    };
    let mut f = vec![
        Space { cfgs: cfgs.clone(), alpha, depth: if thorough { 4 } else { 3 }, paces: vec![Pace::Each, Pace::Burst] }
            .family("calls", "every sequence of setting completors, pressing Tab and other keys", last),
    ];
    // every line and every cursor
    const TOKS: &[&str] = &["a", " ", "\u{4f60}", "e\u{301}", "\u{e9}"];
    let words = Words { a: TOKS.len() as u64, min: 0, max: 4 };
    let answers: Vec<Ans> = vec![
        Ans::None,
        Ans::Insert("".into()),
        Ans::Insert("x".into()),
        Ans::Insert("\u{4f60}\u{301}".into()),
        Ans::Replace("".into(), 0),
        Ans::Replace("abc".into(), 0),
        Ans::Replace("abc".into(), 3),
        Ans::Replace("a\u{4f60}c".into(), 4),
        Ans::Replace("a\u{e9}".into(), 3),
        Ans::Replace("\u{4f60}e\u{301}".into(), 6),
        Ans::Replace("a".into(), 1),
        Ans::Move(0),
        Ans::Move(1),
        Ans::Move(2),
        Ans::Presses,
        Ans::Print("p".into()),
        Ans::Notice("n".into(), 500),
        Ans::Bell,
        Ans::Remove,
    ];
    let na = answers.len() as u64;
    let make = move |i: u64| {
        let a = answers[(i % na) as usize].clone();
        let presses = i / na % 3 + 1;
        let back = i / na / 3 % 5;
        let events = i / na / 15 % 2 == 1;
        let text = super::util::word(TOKS, &words.get(i / na / 30));
        let mut setup = vec![Op::Prompt(t("> "), true, false), typed(&text)];
        setup.extend((0..back).map(|_| Op::Key(Key::Left)));
        let mut ops = vec![Op::Completor(Some(Comp { id: 1, ans: a }))];
        ops.extend((0..presses).map(|_| Op::Key(Key::Ctl(9))));
        ops.extend([Op::Key(Key::Ch('y')), Op::Key(Key::Ctl(9)), Op::Key(Key::Ctl(13))]);
        (if events { cfg(30, 6).events() } else { cfg(30, 6) }, setup, ops)
    };
    let m2 = make.clone();
    f.push(Family::seq(
        "answers",
        "every answer to one to three presses, in every short line at every position",
        words.total() * 30 * na,
        move |i, ctx| {
            let (c, setup, ops) = make(i);
            run_ops(&c, &setup, &ops, Pace::Each, ctx, |s| logs(s))
        },
        move |i| {
            let (_, setup, ops) = m2(i);
            format!("[{}] then {}", show_ops(&setup), show_ops(&ops))
        },
    ));
    // what counts as another key
    let others: Vec<Key> = all_keys().into_iter().filter(|k| !matches!(k, Key::Seq(_)) && *k != Key::Ctl(9) && *k != ctl('Z')).collect();
    let no = others.len() as u64;
    let make = move |i: u64| {
        let key = others[(i % no) as usize].clone();
        let r = i / no;
        let c = cfg(30, 6).hist(&["h1", "h2"]);
        let c = [c.clone(), c.clone().events(), c.odd_events()][(r % 3) as usize].clone();
        let tab = || Op::Key(Key::Ctl(9));
        let mut ops = vec![Op::Completor(Some(Comp { id: 1, ans: if r / 3 % 2 == 1 { Ans::Presses } else { Ans::None } }))];
        ops.extend((0..r / 6 % 3 + 1).map(|_| tab()));
        match r / 18 % 3 {
            0 => ops.push(Op::Key(key)),
            1 => ops.extend([Op::Key(key.clone()), Op::Key(key)]),
            // typed at once
            _ => ops = vec![ops[0].clone(), Op::Chunk(vec![Key::Ctl(9), key, Key::Ctl(9)])],
        }
        ops.extend([tab(), tab(), Op::Key(Key::Ctl(13)), tab(), Op::Key(Key::Ctl(13))]);
        let setup = vec![Op::Prompt(t("> "), true, false), typed("a bc"), Op::Key(Key::Left)];
        (c, setup, ops)
    };
    let m2 = make.clone();
    f.push(Family::seq(
        "other keys",
        "every key between presses of Tab",
        no * 54,
        move |i, ctx| {
            let (c, setup, ops) = make(i);
            run_ops(&c, &setup, &ops, Pace::Each, ctx, |s| logs(s))
        },
        move |i| {
            let (c, setup, ops) = m2(i);
            format!("{}[{}] then {}", if c.odd { "odd events " } else if c.events { "events " } else { "" }, show_ops(&setup), show_ops(&ops))
        },
    ));
    // many presses
    const MANY: [u64; 6] = [100, 254, 255, 256, 257, 300];
    f.push(Family::seq(
        "many presses",
        "hundreds of consecutive presses, and what follows them",
        MANY.len() as u64 * 4,
        |i, ctx| {
            let (n, how) = (MANY[(i / 4) as usize], i % 4);
            let c = if how & 1 == 1 { cfg(30, 6).events() } else { cfg(30, 6) };
            let mut ops = vec![];
            if how & 2 == 2 {
                ops.extend((0..n).map(|_| Op::Key(Key::Ctl(9))));
            } else {
                ops.push(Op::Chunk((0..n).map(|_| Key::Ctl(9)).collect()));
            }
            ops.extend([Op::Key(Key::Ch('y')), Op::Key(Key::Ctl(9)), Op::Key(Key::Ctl(13))]);
            let setup = vec![Op::Prompt(t("> "), true, false), typed("ab"), Op::Completor(Some(Comp { id: 1, ans: Ans::None }))];
            run_ops(&c, &setup, &ops, Pace::Each, ctx, |s| logs(s))
        },
        |i| format!("{} presses, way {}", MANY[(i / 4) as usize], i % 4),
    ));
    // long answers
    const SIZES: [usize; 9] = [63, 64, 65, 127, 128, 255, 256, 1024, 4097];
    f.push(Family::seq(
        "long answers",
        "answers of hundreds and thousands of characters, inserted and replacing, to lines short and long",
        SIZES.len() as u64 * 2 * 4 * 2,
        |i, ctx| {
            let m = Mix(vec![SIZES.len() as u64, 2, 4, 2]).get(i);
            let text: String = "wo\u{e9}rd \u{4f60}".chars().cycle().take(SIZES[m[0]]).collect();
            let ans = match m[2] {
                0 => Ans::Insert(text.clone()),
                1 => Ans::Replace(text.clone(), 0),
                2 => Ans::Replace(text.clone(), text.len()),
                _ => Ans::Replace(text.clone(), text.char_indices().nth(SIZES[m[0]] / 2).unwrap().0),
            };
            let c = if m[1] == 1 { cfg(80, 400).events() } else { cfg(80, 400) };
            let line = if m[3] == 0 { "ab".to_string() } else { "long line ".repeat(40) };
            let setup = vec![Op::Prompt(t("> "), true, false), typed(&line), Op::Key(Key::Left), Op::Completor(Some(Comp { id: 1, ans }))];
            let ops = [Key::Ctl(9), Key::Ch('x'), Key::Ctl(9), Key::Left, Key::Ctl(9), ctl('W'), Key::Ctl(9), Key::Ctl(13)].map(Op::Key);
            run_ops(&c, &setup, &ops, Pace::Each, ctx, |s| logs(s))
        },
        |i| format!("{:?}", Mix(vec![SIZES.len() as u64, 2, 4, 2]).get(i)),
    ));
    Check {
        families: f,
        rule: "calls of the completor (line, cursor, presses) and screen, responses, bells equal the reference's".into(),
        assumptions: vec!["completors give cursors on character boundaries".into()],
    }
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P04" => p04(thorough),
        "P05" => p05(thorough),
        "P18" => p18(thorough),
        "P21" => p21(thorough),
        _ => return None,
    })
}
