//! P13, P14, P15, P25: lines of text by themselves.
use std::borrow::Cow;
use std::rc::Rc;

use liso::{liso, liso_add, Color, Line, Style};
use mcrt::term::Attr;

use super::util::{characters, texts, word, Mix, Path, Words};
use crate::engine::{fail, Check, Ctx, Fail, Family, Res};
use crate::line::{ansi, bg, color, cw, fg, is_ctl, st, style_of, t, with_style, SLine, BOLD, DIM, INV, ITAL, L, UNDER};
use crate::model::{from_line, Op};
use crate::sess::cfg;

// ------------------------------------------------------------------ P13

/// One way of adding to a line, and what it means.
#[derive(Clone)]
struct Step {
    name: String,
    real: Rc<dyn Fn(&mut Line)>,
    spec: Rc<dyn Fn(&mut SLine)>,
}
fn step(name: impl Into<String>, real: impl Fn(&mut Line) + 'static, spec: impl Fn(&mut SLine) + 'static) -> Step {
    Step { name: name.into(), real: Rc::new(real), spec: Rc::new(spec) }
}
fn set(l: &mut SLine, f: impl Fn(u32) -> u32) {
    l.end = with_style(l.end, f(style_of(l.end)));
}
fn style_steps() -> Vec<Step> {
    let mut v = vec![];
    for b in [0, BOLD, INV, UNDER | ITAL] {
        let s = Style::from_bits_truncate(b);
        v.push(step(format!("set_style({b})"), move |l| drop(l.set_style(s)), move |l| set(l, |_| b)));
    }
    for b in [BOLD, INV, DIM | INV] {
        let s = Style::from_bits_truncate(b);
        v.push(step(format!("toggle_style({b})"), move |l| drop(l.toggle_style(s)), move |l| set(l, |x| x ^ b)));
        v.push(step(format!("activate_style({b})"), move |l| drop(l.activate_style(s)), move |l| set(l, |x| x | b)));
        v.push(step(format!("deactivate_style({b})"), move |l| drop(l.deactivate_style(s)), move |l| set(l, |x| x & !b)));
    }
    v.push(step("clear_style", |l| drop(l.clear_style()), |l| set(l, |_| 0)));
    v
}
fn color_steps() -> Vec<Step> {
    let mut v = vec![];
    for c in [None, Some(0), Some(5)] {
        v.push(step(format!("set_fg_color({c:?})"), move |l| drop(l.set_fg_color(c.map(color))), move |l| l.end.fg = c.map(ansi)));
        v.push(step(format!("set_bg_color({c:?})"), move |l| drop(l.set_bg_color(c.map(color))), move |l| l.end.bg = c.map(ansi)));
        for d in [None, Some(5)] {
            v.push(step(
                format!("set_colors({c:?}, {d:?})"),
                move |l| drop(l.set_colors(c.map(color), d.map(color))),
                move |l| {
                    l.end.fg = c.map(ansi);
                    l.end.bg = d.map(ansi);
                },
            ));
        }
    }
    v
}
fn text_steps(ts: &'static [&'static str]) -> Vec<Step> {
    ts.iter().map(|s| step(format!("add_text({s:?})"), move |l| drop(l.add_text(*s)), move |l| l.text(s))).collect()
}
fn other_steps() -> Vec<Step> {
    let mut v = vec![
        step("reset_all", |l| drop(l.reset_all()), |l| l.end = Attr::PLAIN),
        step("reset_and_break", |l| l.reset_and_break(), |l| {
            l.text("\n");
            l.end = Attr::PLAIN;
        }),
    ];
    for o in [
        t("p\x1b"),
        st(BOLD, "b").and(bg(1, "c")),
        st(INV, "i").reset(),
        t("x").and(st(UNDER, "")),
        fg(3, ""),
        st(DIM, "d\u{2028}e").and(st(0, "f\n")),
    ] {
        let (r, s) = (o.real(), o.spec());
        v.push(step(format!("append_line({})", o.show()), move |l| l.append_line(&r), move |l| l.append(&s)));
    }
    let e = Line::new();
    v.push(step("append_line(empty)", move |l| l.append_line(&e), |_| ()));
    v
}
/// Each form of the macros.
fn macro_steps() -> Vec<Step> {
    let mut v = vec![];
    macro_rules! st {
        ($name:ident, $bits:expr) => {
            v.push(step(concat!("liso_add!(", stringify!($name), ")"), |l| { liso_add!(l, $name); }, |l| set(l, |_| $bits)));
            v.push(step(concat!("liso_add!(+", stringify!($name), ")"), |l| { liso_add!(l, +$name); }, |l| set(l, |x| x | $bits)));
            v.push(step(concat!("liso_add!(-", stringify!($name), ")"), |l| { liso_add!(l, -$name); }, |l| set(l, |x| x & !$bits)));
            v.push(step(concat!("liso_add!(^", stringify!($name), ")"), |l| { liso_add!(l, ^$name); }, |l| set(l, |x| x ^ $bits)));
            v.push(step(
                concat!("liso_add!(\"<\", +", stringify!($name), ", \"y\", -", stringify!($name), ", \">\")"),
                |l| { liso_add!(l, "<", +$name, "y", -$name, ">"); },
                |l| {
                    l.text("<");
                    set(l, |x| x | $bits);
                    l.text("y");
                    set(l, |x| x & !$bits);
                    l.text(">");
                },
            ));
        };
    }
    // what follows each form is added as well
    macro_rules! on {
        ($name:ident, $bits:expr) => {
            v.push(step(
                concat!("liso_add!(every form of ", stringify!($name), ", each with text after it)"),
                |l| { liso_add!(l, $name "1", ^$name "2", ^$name, "3", -$name "4", +$name "5", plain "6", $name, "7",); },
                |l| {
                    for (f, c) in [(0, "1"), (1, "2"), (1, "3"), (2, "4"), (3, "5"), (4, "6"), (0, "7")] {
                        set(l, |x| match f {
                            0 => $bits,
                            1 => x ^ $bits,
                            2 => x & !$bits,
                            3 => x | $bits,
                            _ => 0,
                        });
                        l.text(c);
                    }
                },
            ));
        };
    }
    on!(bold, BOLD);
    on!(dim, DIM);
    on!(underline, UNDER);
    on!(inverse, INV);
    on!(reverse, INV);
    on!(italic, ITAL);
    st!(bold, BOLD);
    st!(dim, DIM);
    st!(underline, UNDER);
    st!(inverse, INV);
    st!(reverse, INV);
    st!(italic, ITAL);
    v.push(step("liso_add!(plain)", |l| { liso_add!(l, plain); }, |l| set(l, |_| 0)));
    v.push(step("liso_add!(reset)", |l| { liso_add!(l, reset); }, |l| l.end = Attr::PLAIN));
    v.push(step("liso_add!(reset, \"r\")", |l| { liso_add!(l, reset, "r"); }, |l| {
        l.end = Attr::PLAIN;
        l.text("r");
    }));
    macro_rules! co {
        ($($name:ident $cap:ident $n:expr),*) => {$(
            v.push(step(concat!("liso_add!(fg = ", stringify!($name), ")"), |l| { liso_add!(l, fg = $name); }, |l| l.end.fg = Some(ansi($n))));
            v.push(step(concat!("liso_add!(bg = ", stringify!($cap), ", \"c\")"), |l| { liso_add!(l, bg = $cap, "c"); }, |l| { l.end.bg = Some(ansi($n)); l.text("c"); }));
            v.push(step(concat!("liso_add!(fg = expr ", stringify!($cap), ")"), |l| { let c = Some(Color::$cap); liso_add!(l, fg = c); }, |l| l.end.fg = Some(ansi($n))));
        )*};
    }
    co!(black Black 0, red Red 1, green Green 2, yellow Yellow 3, blue Blue 4, cyan Cyan 5, magenta Magenta 6, white White 7);
    v.push(step("liso_add!(fg = none)", |l| { liso_add!(l, fg = none); }, |l| l.end.fg = None));
    v.push(step("liso_add!(bg = none)", |l| { liso_add!(l, bg = none); }, |l| l.end.bg = None));
    v.push(step("liso_add!(each color form with text after it)", |l| {
        let c = Some(Color::Green);
        let f = |n: u8| if n == 0 { None } else { Some(Color::Blue) };
        liso_add!(l, fg = red, "1", bg = none, "2", fg = none, "3", bg = Cyan, "4", fg = c, "5", bg = c, "6", fg = f(0), "7", bg = f(1), "8", fg = f(1), bg = f(0));
    }, |l| {
        for (f, n, c) in [(true, Some(1), "1"), (false, None, "2"), (true, None, "3"), (false, Some(6), "4"), (true, Some(2), "5"), (false, Some(2), "6"), (true, None, "7"), (false, Some(4), "8"), (true, Some(4), ""), (false, None, "")] {
            if f { l.end.fg = n } else { l.end.bg = n }
            l.text(c);
        }
    }));
    v.push(step("liso_add!(ansi and strings with text after them)", |l| { let s = String::from("s"); liso_add!(l, ansi "\x1b[1m1", "2", s, reset, "3", &*format!("{}", 4),, ansi String::from("\x1b[4m5"), "6", ); }, |l| {
        set(l, |x| x | BOLD);
        l.text("12s");
        l.end = Attr::PLAIN;
        l.text("34");
        set(l, |x| x | UNDER);
        l.text("56");
    }));
    v.push(step("liso_add!(bg = expr, fg = expr, \"m\")", |l| { let c = [Some(Color::Red), None]; liso_add!(l, bg = (c[0]), fg = (c[1]), "m"); }, |l| {
        l.end.bg = Some(1);
        l.end.fg = None;
        l.text("m");
    }));
    v.push(step("liso_add!(\"text\")", |l| { liso_add!(l, "te\u{9b}t"); }, |l| l.text("te\u{9b}t")));
    v.push(step("liso_add!(string)", |l| { let s = String::from("s\n"); liso_add!(l, s); }, |l| l.text("s\n")));
    v.push(step("liso_add!(ansi)", |l| { liso_add!(l, ansi "a\x1b[1mb"); }, |l| {
        l.text("a");
        set(l, |x| x | BOLD);
        l.text("b");
    }));
    v.push(step("append_line(liso!(...))", |l| l.append_line(&liso!("l", bold, "m", fg = cyan, "n", reset)), |l| {
        let mut o = SLine::default();
        o.text("l");
        set(&mut o, |_| BOLD);
        o.text("m");
        o.end.fg = Some(6);
        o.text("n");
        o.end = Attr::PLAIN;
        l.ch.push(o.ch[0]);
        l.ch.push(o.ch[1]);
        l.ch.push(o.ch[2]);
        l.end = Attr::PLAIN;
    }));
    v
}

/// A line says about itself what it should.
fn agree(r: &Line, s: &SLine) -> Res {
    let want = s.string();
    if r.as_str() != want {
        return fail("text", format!("the text is {:?} instead of {:?}", r.as_str(), want));
    }
    if r.len() != want.len() || r.is_empty() != want.is_empty() {
        return fail("length", format!("len() is {}, is_empty() is {} for {:?}", r.len(), r.is_empty(), want));
    }
    let got = from_line(r);
    if got.end != s.end {
        return fail("active", format!("the active style is {} instead of {}", got.end.short(), s.end.short()));
    }
    let mut at = 0;
    for ((c, a), lc) in s.ch.iter().zip(r.chars()) {
        if lc.index != at {
            return fail("index", format!("{c:?} is said to be at byte {} instead of {at}", lc.index));
        }
        at += c.len_utf8();
        let _ = a;
    }
    if got.ch != s.ch {
        let n = got.ch.iter().zip(&s.ch).position(|(a, b)| a != b).unwrap_or(got.ch.len().min(s.ch.len()));
        return fail(
            "styling",
            format!("character {n} of {want:?} is {:?} instead of {:?}", got.ch.get(n), s.ch.get(n)),
        );
    }
    Ok(())
}
fn panics(f: impl FnOnce() -> Res) -> Res {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            fail("panic", format!("it panicked: {m}"))
        }
    }
}
fn quiet() {
    use std::sync::Once;
    static O: Once = Once::new();
    O.call_once(|| std::panic::set_hook(Box::new(|_| ())));
}

fn build_all(steps: &[Step], w: &[usize]) -> (Line, SLine) {
    let mut l = Line::new();
    let mut s = SLine::default();
    for &i in w {
        (steps[i].real)(&mut l);
        (steps[i].spec)(&mut s);
    }
    (l, s)
}
fn names(steps: &[Step], w: &[usize]) -> String {
    w.iter().map(|&i| steps[i].name.clone()).collect::<Vec<_>>().join(", ")
}
fn steps_family(
    name: &str,
    about: &str,
    steps: Vec<Step>,
    depth: u32,
    judge: impl Fn(&Line, &SLine, &[usize]) -> Res + 'static,
) -> Family {
    let words = Words { a: steps.len() as u64, min: 0, max: depth };
    let steps = Rc::new(steps);
    let s2 = steps.clone();
    Family::seq(
        name,
        about,
        words.total(),
        move |i, ctx: &mut Ctx| {
            quiet();
            let w = words.get(i);
            let r = panics(|| {
                let (l, s) = build_all(&steps, &w);
                ctx.state(&s);
                judge(&l, &s, &w)
            });
            ctx.execs += 1;
            ctx.transitions += w.len() as u64;
            r
        },
        move |i| names(&s2, &words.get(i)),
    )
}

/// Two steps in turn, many times over.
fn repeated(steps: Vec<Step>, times: &'static [usize], judge: impl Fn(&Line, &SLine, &[usize]) -> Res + 'static) -> Family {
    let n = steps.len() as u64;
    let steps = Rc::new(steps);
    let s2 = steps.clone();
    let word = move |i: u64| -> (Vec<usize>, usize) { (vec![(i % n) as usize, (i / n % n) as usize], times[(i / n / n) as usize]) };
    Family::seq(
        "repeated",
        "every pair of steps in turn, hundreds of times",
        n * n * times.len() as u64,
        move |i, ctx: &mut Ctx| {
            quiet();
            let (w, k) = word(i);
            let w: Vec<usize> = w.into_iter().cycle().take(2 * k).collect();
            ctx.execs += 1;
            ctx.transitions += w.len() as u64;
            panics(|| {
                let (l, s) = build_all(&steps, &w);
                ctx.state(&s);
                judge(&l, &s, &w)
            })
        },
        move |i| {
            let (w, k) = word(i);
            format!("{k} times {}", names(&s2, &w))
        },
    )
}

const CONTROLS: &[&str] = &[
    "\0", "\x01", "\x07", "\x08", "\t", "\x0b", "\x0c", "\r", "\x0e", "\x1a", "\x1b", "\x1c", "\x1f", "\x7f", "\u{80}",
    "\u{85}", "\u{9b}", "\u{9f}", "\u{a0}", "\u{2027}", "\u{2028}", "\u{2029}", "\u{202a}", "\n", "a", " ", "\u{e9}",
    "\u{4f60}", "\u{301}", "\u{ad}", "\u{200b}", "\u{feff}", "\u{1f600}", "\u{10ffff}",
];

fn p13(thorough: bool) -> Check {
    let mut f = vec![];
    let all = || {
        let mut v = text_steps(&["", "a", "b\x1bc", "\u{85}", "\n", "\u{e9}\x07\x08"]);
        v.extend(style_steps());
        v.extend(color_steps());
        v.extend(other_steps());
        v
    };
    f.push(steps_family(
        "calls",
        "every sequence of line-building calls",
        all(),
        if thorough { 5 } else { 4 },
        |l, s, _| agree(l, s),
    ));
    let mut small = text_steps(&["a", "\x1b", ""]);
    small.extend(style_steps().into_iter().filter(|s| matches!(s.name.as_str(), "set_style(0)" | "set_style(1)" | "toggle_style(8)" | "deactivate_style(8)")));
    small.extend(color_steps().into_iter().filter(|s| matches!(s.name.as_str(), "set_fg_color(None)" | "set_bg_color(Some(0))" | "set_colors(Some(0), Some(5))")));
    small.extend(other_steps().into_iter().take(5));
    f.push(steps_family("deep", "longer sequences over fewer calls", small, if thorough { 7 } else { 6 }, |l, s, _| agree(l, s)));
    let mut m = macro_steps();
    m.extend(text_steps(&["a"]));
    f.push(steps_family("macros", "every sequence of macro forms", m, 4, |l, s, _| agree(l, s)));
    f.push(repeated(all(), if thorough { &[100, 255, 256, 257, 1000] } else { &[130, 257] }, |l, s, _| agree(l, s)));
    // conversions and texts
    let words = Words { a: CONTROLS.len() as u64, min: 0, max: if thorough { 5 } else { 4 } };
    f.push(Family::seq(
        "texts",
        "every short text with control characters and others, in every style, by every way of making a line of it",
        words.total() * 3,
        move |i, ctx| {
            quiet();
            let s = word(CONTROLS, &words.get(i / 3));
            let start = i % 3;
            ctx.execs += 1;
            ctx.transitions += 1;
            panics(|| {
                let mut want = SLine::default();
                let begin: L = match start {
                    0 => t(""),
                    1 => st(INV | BOLD, "").and(bg(2, "")),
                    _ => t("x").and(fg(1, "")),
                };
                let mut l = begin.real();
                let mut spec = begin.spec();
                spec.text(&s);
                l.add_text(s.as_str());
                agree(&l, &spec)?;
                let mut l = begin.real();
                l.add_text(s.clone());
                agree(&l, &spec)?;
                let mut l = begin.real();
                l.add_text(Cow::Borrowed(s.as_str()));
                agree(&l, &spec)?;
                ctx.state(&spec);
                if start == 0 {
                    want.text(&s);
                    for l in [
                        Line::from_str(&s),
                        Line::from_string(s.clone()),
                        Line::from_cow(Cow::Borrowed(&s)),
                        Line::from(s.clone()),
                        Line::from(s.as_str()),
                        Line::from(Cow::<str>::Owned(s.clone())),
                        s.parse::<Line>().unwrap(),
                    ] {
                        agree(&l, &want)?;
                    }
                }
                Ok(())
            })
        },
        move |i| format!("{:?} in look {}", word(CONTROLS, &words.get(i / 3)), i % 3),
    ));
    let many = Words { a: CONTROLS.len() as u64, min: 1, max: if thorough { 3 } else { 2 } };
    const REPS: [usize; 5] = [20, 43, 86, 129, 600];
    let long = move |i: u64| word(CONTROLS, &many.get(i / 10)).repeat(REPS[(i / 2 % 5) as usize]);
    f.push(Family::seq(
        "long texts",
        "every short text with control characters and others, repeated up to hundreds of times, added at once",
        many.total() * 10,
        move |i, ctx| {
            quiet();
            let s = long(i);
            ctx.execs += 1;
            ctx.transitions += 1;
            panics(|| {
                let begin = if i % 2 == 0 { t("") } else { st(INV | BOLD, "x").and(bg(2, "")) };
                let mut l = begin.real();
                let mut spec = begin.spec();
                l.add_text(s.as_str());
                spec.text(&s);
                agree(&l, &spec)?;
                l.append_line(&begin.real());
                l.add_text(s.as_str());
                spec.append(&begin.spec());
                spec.text(&s);
                ctx.state(&spec);
                agree(&l, &spec)
            })
        },
        move |i| format!("{:?} in look {}", long(i), i % 2),
    ));
    // every char
    f.push(Family::seq(
        "chars",
        "every Unicode scalar value",
        0x110000 / 0x100,
        |i, ctx| {
            quiet();
            ctx.execs += 1;
            panics(|| {
                for c in (i * 256..i * 256 + 256).filter_map(|n| char::from_u32(n as u32)) {
                    let mut l = st(UNDER, "<").real();
                    let mut s = st(UNDER, "<").spec();
                    let x = format!("{c}>");
                    l.add_text(x.as_str());
                    s.text(&x);
                    ctx.transitions += 1;
                    agree(&l, &s)?;
                    let x = format!("{c}a{c}");
                    let mut s = SLine::default();
                    s.text(&x);
                    for l in [Line::from_str(&x), Line::from_string(x.clone()), Line::from_cow(Cow::Borrowed(&x)), liso!(x.clone())] {
                        agree(&l, &s)?;
                    }
                }
                Ok(())
            })
        },
        |i| format!("characters {:#x}..", i * 256),
    ));
    Check {
        families: f,
        rule: "text, per-character styling, active style and accessors equal those of a plain list of styled characters".into(),
        assumptions: vec!["appending a line whose only content is a style set and cleared again is unspecified".into()],
    }
}

// ------------------------------------------------------------------ P14

/// The result is the original with runs of blanks turned into line breaks (or breaks inserted).
fn only_breaks(a: &[(char, Attr)], b: &[(char, Attr)]) -> bool {
    // positions of `a` that the prefix of `b` read so far may correspond to
    let mut at = vec![false; a.len() + 1];
    at[0] = true;
    for x in b {
        let mut nu = vec![false; a.len() + 1];
        for i in 0..=a.len() {
            if !at[i] {
                continue;
            }
            if i < a.len() && a[i] == *x {
                nu[i + 1] = true;
            }
            if x.0 == '\n' {
                // an inserted break, replacing any number of blanks; it looks like one of them, or
                // else like one of its neighbours
                let mut like = false;
                let mut j = i;
                while j < a.len() && a[j].0 == ' ' {
                    like |= a[j].1 == x.1;
                    j += 1;
                    nu[j] |= like;
                }
                nu[i] |= i > 0 && a[i - 1].1 == x.1 || i < a.len() && a[i].1 == x.1;
                // an existing break may come with another look only if it is the same break
                if i < a.len() && a[i].0 == '\n' && a[i].1 == x.1 {
                    nu[i + 1] = true;
                }
            }
        }
        at = nu;
    }
    at[a.len()]
}
fn line_width(l: &[(char, Attr)]) -> usize {
    let s: String = l.iter().map(|c| c.0).collect();
    s.trim_end_matches(' ').chars().map(cw).sum()
}
fn check_wrap(l: &Line, width: usize) -> Res {
    let a = from_line(l);
    let mut r = l.clone();
    r.wrap_to_width(width);
    let b = from_line(&r);
    let show = || format!("{:?} wrapped to {width} became {:?}", a.string(), b.string());
    if b.end != a.end {
        return fail("active", format!("{}: the active style changed from {} to {}", show(), a.end.short(), b.end.short()));
    }
    if !only_breaks(&a.ch, &b.ch) {
        return fail("content", show());
    }
    let breaks = |x: &SLine| x.ch.iter().filter(|c| c.0 == '\n').count();
    if breaks(&b) < breaks(&a) {
        return fail("break-lost", show());
    }
    for line in b.ch.split(|c| c.0 == '\n') {
        let w = line_width(line);
        let kept = line.iter().rposition(|c| c.0 != ' ').map_or(0, |n| n + 1);
        let visible = line[..kept].iter().filter(|c| cw(c.0) > 0).count();
        if w > width && visible > 1 {
            return fail("too-wide", format!("{}: a line is {w} wide", show()));
        }
    }
    if a.ch.split(|c| c.0 == '\n').all(|l| line_width(l) <= width) && b.ch != a.ch {
        return fail("needless", show());
    }
    // what has been wrapped is still a good line
    let mut more = r.clone();
    more.add_text("\x1b!");
    let mut spec = b.clone();
    spec.text("\x1b!");
    agree(&more, &spec)
}

fn p14(thorough: bool) -> Check {
    const TOKS: &[&str] = &["a", " ", "\n", "bc", "\u{4f60}", "\u{301}", "-", "\u{e9}"];
    const LONG: &[&str] = &["a", " ", "\n", "bcd"];
    // other kinds of blanks and of places to break
    const ODD: &[&str] =
        &["a", " ", "bc", "\u{a0}", "\u{3000}", "\u{200b}", "\u{ad}", "\u{2028}", "\u{2014}", "\u{1f600}\u{200d}", "\u{5d0}"];
    let mut f = vec![];
    for (name, toks, depth, widths) in [
        ("short", TOKS, if thorough { 7 } else { 5 }, 8u64),
        ("odd", ODD, if thorough { 6 } else { 5 }, 8),
        ("long", LONG, if thorough { 11 } else { 9 }, 9),
    ] {
        let words = Words { a: toks.len() as u64, min: 0, max: depth };
        // how the looks change along the text
        let looks = 4u64;
        let make = move |i: u64| {
            let v = words.get(i / looks / widths);
            let mut l = L(vec![]);
            for (k, &x) in v.iter().enumerate() {
                match i % looks {
                    0 => (),
                    1 => l = l.and(st(if k % 2 == 0 { 0 } else { BOLD }, "")),
                    2 => l = l.and(if k % 3 == 1 { bg(1, "") } else if k % 3 == 0 { L(vec![crate::line::Piece::Bg(None)]) } else { t("") }),
                    _ => {
                        if k == v.len() / 2 {
                            l = l.and(st(INV, ""))
                        }
                    }
                }
                l = l.and(t(toks[x]));
            }
            if i % looks == 2 {
                l = l.and(fg(2, ""));
            }
            (l, (i / looks % widths) as usize + 1)
        };
        f.push(Family::seq(
            name,
            "every text of letters, blanks, wide, combining and accented characters, hyphens and line breaks, with looks changing along it, wrapped to every width",
            words.total() * looks * widths,
            move |i, ctx| {
                quiet();
                let (l, w) = make(i);
                ctx.execs += 1;
                ctx.transitions += 1;
                let l = l.real();
                ctx.state(&(l.as_str(), w));
                panics(|| check_wrap(&l, w))
            },
            move |i| {
                let (l, w) = make(i);
                format!("{} to {w}", l.show())
            },
        ));
    }
    // long texts and large widths
    const PARTS: &[&str] = &["abcdefg", " ", "x", "  ", "\u{4f60}"];
    const WIDE: [usize; 11] = [40, 80, 127, 128, 129, 254, 255, 256, 257, 300, 1000];
    let words = Words { a: PARTS.len() as u64, min: 1, max: if thorough { 5 } else { 4 } };
    let make = move |i: u64| {
        let n = WIDE.len() as u64;
        let s: String = word(PARTS, &words.get(i / n / 2));
        let s = s.repeat(1 + 700 / s.len());
        let l = if i / n % 2 == 0 {
            t(&s)
        } else {
            let k = (0..=s.len() / 2).rev().find(|&k| s.is_char_boundary(k)).unwrap();
            t(&s[..k]).and(bg(1, &s[k..]))
        };
        (l, WIDE[(i % n) as usize])
    };
    f.push(Family::seq(
        "large",
        "long repetitive texts wrapped to large widths",
        words.total() * WIDE.len() as u64 * 2,
        move |i, ctx| {
            quiet();
            let (l, w) = make(i);
            ctx.execs += 1;
            ctx.transitions += 1;
            let l = l.real();
            ctx.state(&(l.as_str(), w));
            panics(|| check_wrap(&l, w))
        },
        move |i| {
            let (l, w) = make(i);
            format!("{} to {w}", l.show())
        },
    ));
    const SESS: &[&str] = &["a", "bc", " ", "\n", "\u{4f60}", "de-f"];
    f.push(texts(
        "wrapln",
        "wrapln on narrow terminals shows the line as wrapped to the width of the terminal",
        SESS,
        if thorough { 6 } else { 5 },
        vec![
            Path { name: "wrapln", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Wrap(t(s))] },
            Path { name: "styled wrapln", setup: vec![], make: |s| vec![Op::Wrap(st(INV, s).and(bg(3, s)))] },
        ],
        vec![("3x30".into(), cfg(3, 30)), ("5x30".into(), cfg(5, 30)), ("6x30".into(), cfg(6, 30).events())],
        |_| Ok(()),
    ));
    f.push(texts(
        "wide terminals",
        "wrapln of long text on wide terminals",
        SESS,
        if thorough { 4 } else { 2 },
        vec![
            Path { name: "wrapln", setup: vec![Op::Prompt(t("> "), true, false)], make: |s| vec![Op::Wrap(t(&s.repeat(280)))] },
            Path { name: "styled wrapln", setup: vec![], make: |s| vec![Op::Wrap(st(INV, &s.repeat(90)).and(bg(3, &s.repeat(40))))] },
        ],
        [81, 127, 128, 129, 200, 255, 256, 257, 300, 600].iter().map(|&w| (format!("{w}x30"), cfg(w, 30))).collect(),
        |_| Ok(()),
    ));
    f.push(characters("characters", "every character within words, between them and at the ends, in every narrow width", true, |chars, ctx| {
        quiet();
        // where the two versions of unicode-width in use disagree, the width is unspecified
        let agreed = |c: char| unicode_width_2::UnicodeWidthChar::width(c).unwrap_or(0) == cw(c);
        for c in chars.iter().filter(|c| agreed(**c)) {
            let mut l = Line::new();
            l.add_text(format!("a{c}bc d{c} {c}{c} e {c}f"));
            for w in 1..=7 {
                ctx.execs += 1;
                panics(|| check_wrap(&l, w)).map_err(|f| Fail { key: f.key, msg: format!("{c:?} in width {w}: {}", f.msg) })?;
            }
        }
        Ok(())
    }));
    Check {
        families: f,
        rule: "the wrapped line is the original with blanks at break points replaced by line breaks, and fits".into(),
        assumptions: vec!["the width of a character is what unicode-width says".into()],
    }
}

// ------------------------------------------------------------------ P15

/// The reference interpretation of text with SGR sequences.
fn ansi_spec(l: &mut SLine, s: &str) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\x1b' && c.get(i + 1) == Some(&'[') {
            let mut j = i + 2;
            while j < c.len() && ('0'..='?').contains(&c[j]) {
                j += 1;
            }
            if c.get(j) == Some(&'m') {
                sgr(l, &c[i + 2..j].iter().collect::<String>());
                i = j + 1;
                continue;
            }
        }
        l.text(&c[i].to_string());
        i += 1;
    }
}
fn sgr(l: &mut SLine, params: &str) {
    let p: Vec<&str> = params.split(';').collect();
    let num = |s: &str| -> Option<u64> {
        if s.is_empty() {
            Some(0)
        } else if s.chars().all(|c| c.is_ascii_digit()) {
            Some(s.parse().unwrap_or(u64::MAX))
        } else {
            None
        }
    };
    let mut i = 0;
    while i < p.len() {
        let code = num(p[i]);
        i += 1;
        let Some(code) = code else { continue };
        let a = &mut l.end;
        match code {
            0 => *a = Attr::PLAIN,
            1 => a.bold = true,
            2 => a.dim = true,
            3 => a.italic = true,
            4 => a.underline = true,
            7 => a.inverse = true,
            21 => a.bold = false,
            22 => {
                a.bold = false;
                a.dim = false;
            }
            23 => a.italic = false,
            24 => a.underline = false,
            27 => a.inverse = false,
            30..=37 => a.fg = Some((code - 30) as u8),
            39 => a.fg = None,
            40..=47 => a.bg = Some((code - 40) as u8),
            49 => a.bg = None,
            38 | 48 | 58 => {
                let kind = p.get(i).and_then(|s| num(s));
                i += 1;
                match kind {
                    Some(5) => i += 1,
                    Some(2) => i += 3,
                    _ => (),
                }
            }
            _ => (),
        }
    }
}
fn ansi_family(name: &str, about: &str, total: u64, make: impl Fn(u64) -> String + Clone + 'static) -> Family {
    let mk = make.clone();
    let begins = || [t(""), st(BOLD | UNDER, "x").and(fg(1, "y")), bg(4, "").and(st(INV, ""))];
    Family::seq(
        name,
        about,
        total * 3,
        move |i, ctx| {
            quiet();
            let s = make(i / 3);
            ctx.execs += 1;
            ctx.transitions += 1;
            panics(|| {
                let b = &begins()[(i % 3) as usize];
                let mut l = b.real();
                let mut spec = b.spec();
                l.add_ansi_text(s.as_str());
                ansi_spec(&mut spec, &s);
                ctx.state(&spec);
                agree(&l, &spec)
            })
        },
        move |i| format!("{:?} in look {}", mk(i / 3), i % 3),
    )
}
fn p15(thorough: bool) -> Check {
    const TOKS: &[&str] = &["\x1b", "[", "m", ";", "1", "3", "\x1b[", "x", "\u{e9}", "\n", "0", "?", " "];
    let w1 = Words { a: TOKS.len() as u64, min: 0, max: if thorough { 7 } else { 6 } };
    let f1 = ansi_family(
        "raw",
        "every short string of escape, bracket, digits, separators and text: valid, truncated and malformed sequences",
        w1.total(),
        move |i| word(TOKS, &w1.get(i)),
    );
    let n = 120u64;
    let f2 = ansi_family("codes", "every pair of codes below 120 in one sequence", n * n, move |i| {
        format!("a\x1b[{};{}mb", i / n, i % n)
    });
    const CODES: &[&str] = &[
        "", "0", "1", "2", "4", "7", "21", "22", "24", "27", "31", "39", "45", "49", "38", "48", "58", "5", "99", "01",
        "4294967296", "3:1", "?1",
    ];
    let w3 = Words { a: CODES.len() as u64, min: 1, max: 5 };
    let f3 = ansi_family("lists", "every list of codes, with extended colours and unsupported codes anywhere in it", w3.total(), move |i| {
        let v = w3.get(i);
        format!("\x1b[{}mz", v.iter().map(|&k| CODES[k]).collect::<Vec<_>>().join(";"))
    });
    const SEQS: &[&str] = &[
        "a", "\x1b[1m", "\x1b[31;44m", "\x1b[m", "\x1b[0m", "\x1b[27m", "\x1b[7m", "\x1b[2J", "\x1b]0;t\x07", "\x1b[38;5;1m",
        "\x1b[", "\x1b", "\u{9b}1m", "\n", "\u{4f60}",
    ];
    let w4 = Words { a: SEQS.len() as u64, min: 0, max: if thorough { 6 } else { 5 } };
    let f4 = ansi_family("sequences", "every sequence of sequences and text", w4.total(), move |i| word(SEQS, &w4.get(i)));
    const MANY: [u64; 6] = [8, 16, 33, 129, 256, 1000];
    let n = CODES.len() as u64;
    let f6 = ansi_family("long lists", "every pair of codes in turn many times over in one sequence, then every other code", n * n * n * 6, move |i| {
        let m = Mix(vec![n, n, n, 6]).get(i);
        let v: Vec<&str> = (0..MANY[m[3]] as usize - 1).map(|k| CODES[m[k % 2]]).chain([CODES[m[2]]]).collect();
        format!("\x1b[{}mz", v.join(";"))
    });
    let n = SEQS.len() as u64;
    let f7 = ansi_family("long sequences", "every pair of sequences in turn many times over, then every other sequence and text", n * n * n * 6, move |i| {
        let m = Mix(vec![n, n, n, 6]).get(i);
        (0..MANY[m[3]] as usize).map(|k| SEQS[m[k % 2]]).collect::<String>() + SEQS[m[2]] + "z"
    });
    let f5 = characters("characters", "every character before, within, at the end of and after a sequence", true, |chars, ctx| {
        quiet();
        for c in chars {
            let s = format!("{c}\x1b{c}[1m\x1b[{c}3m\x1b[3{c}m\x1b[4;{c};31mx{c}\x1b[m{c}{c}");
            ctx.execs += 1;
            panics(|| {
                let mut l = Line::new();
                let mut spec = SLine::default();
                l.add_ansi_text(s.as_str());
                ansi_spec(&mut spec, &s);
                ctx.state(&spec);
                agree(&l, &spec)
            })
            .map_err(|f| Fail { key: f.key, msg: format!("{s:?}: {}", f.msg) })?;
        }
        Ok(())
    });
    Check {
        families: vec![f1, f2, f3, f4, f5, f6, f7],
        rule: "text and styling equal those of a reference interpreter of SGR sequences".into(),
        assumptions: vec!["the supported codes are those listed in the source".into()],
    }
}

// ------------------------------------------------------------------ P25

fn p25(thorough: bool) -> Check {
    let judge = |l: &Line, s: &SLine, w: &[usize]| -> Res {
        let text = serde_json::to_string(l).map_err(|e| crate::engine::Fail { key: "serialize".into(), msg: e.to_string() })?;
        let ways: Vec<(&str, Result<Line, serde_json::Error>)> = vec![
            ("text", serde_json::from_str::<Line>(&text)),
            ("bytes", serde_json::from_slice::<Line>(&serde_json::to_vec_pretty(l).unwrap())),
            ("reader", serde_json::from_reader::<_, Line>(std::io::Cursor::new(&text))),
            ("value", serde_json::from_value::<Line>(serde_json::to_value(l).unwrap())),
        ];
        for (way, r) in ways {
            let r = match r {
                Ok(r) => r,
                Err(e) => return fail("deserialize", format!("{text} does not come back ({way}): {e}")),
            };
            if r != *l {
                return fail("unequal", format!("{text} comes back as {r:?} ({way})"));
            }
            agree(&r, s)?;
            // it can go on like the original
            let k = w.last().copied().unwrap_or(0);
            let (mut a, mut b) = (l.clone(), r);
            for x in [&mut a, &mut b] {
                x.add_text("t\x1b");
                match k % 4 {
                    0 => drop(x.toggle_style(Style::BOLD)),
                    1 => drop(x.set_bg_color(Some(Color::Cyan))),
                    2 => x.append_line(&liso!("q", underline, "r")),
                    _ => x.reset_and_break(),
                }
                x.add_text("u");
            }
            if a != b {
                return fail("extended", format!("{text}, extended: {a:?} and {b:?}"));
            }
            b.wrap_to_width(3);
            a.wrap_to_width(3);
            if a != b {
                return fail("wrapped", format!("{text}, wrapped: {a:?} and {b:?}"));
            }
        }
        Ok(())
    };
    let mut v = text_steps(&["", "a", "b\x1bc", "\"\\\u{2028}", "\n", "\u{e9}\x07", "\u{1f600} "]);
    v.extend(style_steps());
    v.extend(color_steps());
    v.extend(other_steps());
    let f1 = steps_family("calls", "every line that a short sequence of calls builds", v, if thorough { 5 } else { 4 }, judge);
    // every style and colour
    let mix = Mix(vec![32, 9, 9, 2]);
    let make = |v: &[usize]| {
        let c = |i: usize| (i > 0).then(|| color(i as u8 - 1));
        let mut l = Line::new();
        if v[3] == 1 {
            l.add_text("x");
        }
        l.set_style(Style::from_bits_truncate(v[0] as u32)).set_colors(c(v[1]), c(v[2])).add_text("y");
        let mut s = SLine::default();
        if v[3] == 1 {
            s.text("x");
        }
        s.end = with_style(s.end, v[0] as u32);
        s.end.fg = (v[1] > 0).then(|| ansi(v[1] as u8 - 1));
        s.end.bg = (v[2] > 0).then(|| ansi(v[2] as u8 - 1));
        s.text("y");
        (l, s)
    };
    let (total, m2) = (mix.total(), Mix(mix.0.clone()));
    let f2 = Family::seq(
        "looks",
        "every combination of styles and colours",
        total,
        move |i, ctx| {
            quiet();
            ctx.execs += 1;
            ctx.transitions += 1;
            panics(|| {
                let (l, s) = make(&mix.get(i));
                ctx.state(&s);
                judge(&l, &s, &[i as usize])
            })
        },
        move |i| format!("look {:?}", m2.get(i)),
    );
    // every character
    let f3 = Family::seq(
        "chars",
        "every Unicode scalar value",
        0x110000 / 0x100,
        move |i, ctx| {
            quiet();
            ctx.execs += 1;
            ctx.transitions += 256;
            panics(|| {
                let mut s = SLine::default();
                for c in (i * 256..i * 256 + 256).filter_map(|n| char::from_u32(n as u32)) {
                    s.text(&c.to_string());
                }
                let raw: String = (i * 256..i * 256 + 256).filter_map(|n| char::from_u32(n as u32)).collect();
                let l = Line::from_str(&raw);
                ctx.state(&s);
                judge(&l, &s, &[0])
            })
        },
        |i| format!("characters {:#x}..", i * 256),
    );
    let mut v = text_steps(&["a", "b\x1bc", "\u{e9}\n"]);
    v.extend(style_steps());
    v.extend(color_steps());
    v.extend(other_steps());
    let f4 = repeated(v, if thorough { &[100, 255, 256, 257, 1000] } else { &[130, 257] }, judge);
    let _ = is_ctl;
    Check {
        families: vec![f1, f2, f3, f4],
        rule: "the line read back equals the original and goes on like it".into(),
        assumptions: vec!["the format is JSON (text, bytes, value tree)".into()],
    }
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P13" => p13(thorough),
        "P14" => p14(thorough),
        "P15" => p15(thorough),
        "P25" => p25(thorough),
        _ => return None,
    })
}
