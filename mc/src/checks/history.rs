//! P17, P19, P20: the history, its files and its autosaving.
use std::cell::RefCell;
use std::num::NonZeroUsize;
use std::os::unix::fs::MetadataExt;
use std::path::PathBuf;
use std::rc::Rc;

use liso::History;
use mcrt::fs::Plan;
use mcrt::rt::{self, Opts};
use mcrt::world::World;

use super::screen::typed;
use super::util::{characters, word, Mix, Words};
use crate::engine::{fail, scratch, Check, Ctx, Family, Res};
use crate::line::{st, t, INV};
use crate::model::{ctl, Key, Op, MS};
use crate::sess::{cfg, exec, shut, Cfg, Pace, Sess, Space};

fn text(lines: &[String]) -> String {
    lines.iter().map(|l| format!("{l}\n")).collect()
}
fn expect_lines(what: &str, h: &History, want: &[String]) -> Res {
    let got = h.get_lines();
    if got != want && got.len().max(want.len()) > 40 {
        let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
        return fail(
            "lines",
            format!("{what}: the history has {} lines instead of {}; line {k} is {:?} instead of {:?}", got.len(), want.len(), got.get(k), want.get(k)),
        );
    }
    if h.get_lines() != want {
        return fail("lines", format!("{what}: the history is {:?} instead of {:?}", h.get_lines(), want));
    }
    Ok(())
}

// ------------------------------------------------------------------ P17

#[derive(Clone, Debug)]
enum HOp {
    Add(&'static str),
    Limit(Option<usize>),
    Strip(bool),
    /// read the n-th of the prepared files
    Read(usize),
    /// write to a file and read it back
    RoundTrip,
}
struct HModel {
    lines: Vec<String>,
    limit: Option<usize>,
    strip: bool,
}
impl HModel {
    fn new() -> HModel {
        HModel { lines: vec![], limit: Some(100), strip: true }
    }
    fn add(&mut self, l: &str) {
        if self.strip {
            self.lines.retain(|x| x != l);
        }
        self.lines.push(l.to_string());
        if let Some(n) = self.limit {
            let k = self.lines.len().saturating_sub(n);
            self.lines.drain(..k);
        }
    }
}
/// (content, lines to be read or None for an error)
type Prepared = (Option<&'static [u8]>, Option<Vec<&'static str>>);
fn prepared() -> Vec<Prepared> {
    vec![
        (None, None),
        (Some(b""), Some(vec![])),
        (Some(b"x\ny\nx\n"), Some(vec!["x", "y", "x"])),
        (Some(b"x\r\na"), Some(vec!["x", "a"])),
        (Some(b"\xef\xbb\xbfb\n\n"), Some(vec!["b", ""])),
        (Some(b"ok\n\xff\xfe\n"), None),
        (Some(b"1\n2\n3\n4\n5\n"), Some(vec!["1", "2", "3", "4", "5"])),
        (Some(b"q\r\r\nz\r"), Some(vec!["q", "z"])),
    ]
}

fn p17(thorough: bool) -> Check {
    let mut alpha = vec![
        HOp::Add("a"),
        HOp::Add("b"),
        HOp::Add(""),
        HOp::Add("x"),
        HOp::Limit(Some(1)),
        HOp::Limit(Some(2)),
        HOp::Limit(Some(3)),
        HOp::Limit(None),
        HOp::Strip(false),
        HOp::Strip(true),
        HOp::RoundTrip,
    ];
    alpha.extend((0..prepared().len()).map(HOp::Read));
    let words = Words { a: alpha.len() as u64, min: 1, max: if thorough { 5 } else { 4 } };
    let a2 = alpha.clone();
    let f1 = Family::seq(
        "operations",
        "every sequence of adding, limiting, stripping, reading and writing",
        words.total(),
        move |i, ctx| {
            let ops: Vec<HOp> = words.get(i).iter().map(|&k| alpha[k].clone()).collect();
            ctx.transitions += ops.len() as u64;
            let dir = scratch();
            exec(World::tty(20, 6), ctx, move || {
                let mut h = History::new();
                let mut m = HModel::new();
                for (n, op) in ops.iter().enumerate() {
                    match op {
                        HOp::Add(l) => {
                            if let Err(e) = h.add_line(l.to_string()) {
                                return fail("error", format!("adding a line failed: {e}"));
                            }
                            m.add(l);
                        }
                        HOp::Limit(l) => {
                            h.set_limit(l.map(|l| NonZeroUsize::new(l).unwrap()));
                            m.limit = *l;
                        }
                        HOp::Strip(s) => {
                            h.set_strip_duplicates(*s);
                            m.strip = *s;
                        }
                        HOp::Read(k) => {
                            let (content, want) = prepared().swap_remove(*k);
                            let p = dir.join("in");
                            match content {
                                Some(c) => std::fs::write(&p, c).unwrap(),
                                None => {
                                    let _ = std::fs::remove_file(&p);
                                }
                            }
                            match (h.read_history_from(&p), want) {
                                (Ok(n), Some(w)) => {
                                    if n != w.len() {
                                        return fail("count", format!("{n} lines reported for {w:?}"));
                                    }
                                    m.lines = w.iter().map(|s| s.to_string()).collect();
                                }
                                (Err(_), None) => (),
                                (r, w) => return fail("read", format!("reading {w:?} gave {r:?}")),
                            }
                        }
                        HOp::RoundTrip => {
                            let p = dir.join("out");
                            if let Err(e) = h.write_history_to(&p) {
                                return fail("error", format!("writing failed: {e}"));
                            }
                            let got = std::fs::read(&p).unwrap();
                            if got != text(&m.lines).as_bytes() {
                                return fail("written", format!("{:?} was written for {:?}", String::from_utf8_lossy(&got), m.lines));
                            }
                            if let Err(e) = h.read_history_from(&p) {
                                return fail("error", format!("reading back failed: {e}"));
                            }
                        }
                    }
                    expect_lines(&format!("after operation {n} {op:?}"), &h, &m.lines)?;
                }
                Ok(())
            })
        },
        move |i| format!("{:?}", words.get(i).iter().map(|&k| a2[k].clone()).collect::<Vec<_>>()),
    );
    // all kinds of texts, sizes around the buffers
    const TOKS: &[&str] = &["a", " ", "\t", "\u{e9}", "\u{4f60}", "\u{1f600}", "\x1b", "\u{feff}", "\u{2028}", "\r", "\0", "\u{85}"];
    let tw = Words { a: TOKS.len() as u64, min: 0, max: if thorough { 4 } else { 3 } };
    let f2 = Family::seq(
        "texts",
        "lines of all kinds of characters survive being written and read back",
        tw.total(),
        move |i, ctx| {
            let s = word(TOKS, &tw.get(i));
            if s.ends_with('\r') {
                return Ok(());
            }
            let dir = scratch();
            exec(World::tty(20, 6), ctx, move || {
                let mut h = History::new();
                h.set_strip_duplicates(false);
                let mut want = vec![];
                if !s.starts_with('\u{feff}') {
                    want.push(s.clone());
                } else {
                    want.push("first".to_string());
                }
                want.extend([s.clone(), "\u{feff}".to_string() + "z", s.clone()]);
                for l in &want {
                    let _ = h.add_line(l.clone());
                }
                let p = dir.join("t");
                if let Err(e) = h.write_history_to(&p) {
                    return fail("error", format!("writing failed: {e}"));
                }
                let mut g = History::new();
                match g.read_history_from(&p) {
                    Ok(n) if n == want.len() => (),
                    r => return fail("read", format!("reading back gave {r:?}")),
                }
                expect_lines("read back", &g, &want)
            })
        },
        move |i| format!("{:?}", word(TOKS, &tw.get(i))),
    );
    let f5 = Family::seq(
        "defaults",
        "up to 210 lines, all different or repeating, in a history with the default settings, however it was made",
        4 * 3 * 211,
        |i, ctx| {
            let (n, how, every) = (i / 12, i % 4, [0, 7, 101][(i / 4 % 3) as usize]);
            let dir = scratch();
            exec(World::tty(20, 6), ctx, move || {
                let mut h = match how {
                    0 => History::new(),
                    1 => History::default(),
                    2 => {
                        std::fs::write(dir.join("d"), "").unwrap();
                        let mut h = History::new();
                        h.read_history_from(dir.join("d")).unwrap();
                        h
                    }
                    _ => History::from_file(dir.join("none")).unwrap(),
                };
                let mut m = HModel::new();
                for k in 0..n {
                    let l = format!("l{}", if every > 0 { k % every } else { k });
                    if let Err(e) = h.add_line(l.clone()) {
                        return fail("error", format!("adding a line failed: {e}"));
                    }
                    m.add(&l);
                }
                let r = expect_lines(&format!("after {n} lines"), &h, &m.lines);
                h.set_autosave_handler(None);
                r
            })
        },
        |i| format!("{} lines, repeating after {}, made in way {}", i / 12, [0, 7, 101][(i / 4 % 3) as usize], i % 4),
    );
    const LIMITS: [usize; 9] = [1, 99, 100, 101, 254, 255, 256, 257, 300];
    let f6 = Family::seq(
        "limits",
        "large limits, kept while twice as many lines are added, raised, lowered and removed",
        LIMITS.len() as u64 * (LIMITS.len() as u64 + 1) * 2,
        |i, ctx| {
            let m = Mix(vec![LIMITS.len() as u64, LIMITS.len() as u64 + 1, 2]).get(i);
            let (first, second, strip) = (LIMITS[m[0]], LIMITS.get(m[1]).copied(), m[2] == 0);
            exec(World::tty(20, 6), ctx, move || {
                let mut h = History::new();
                let mut m = HModel::new();
                h.set_strip_duplicates(strip);
                m.strip = strip;
                for limit in [Some(first), second] {
                    h.set_limit(limit.map(|l| NonZeroUsize::new(l).unwrap()));
                    m.limit = limit;
                    for k in 0..620 {
                        let l = format!("l{}", k % 310);
                        if let Err(e) = h.add_line(l.clone()) {
                            return fail("error", format!("adding a line failed: {e}"));
                        }
                        m.add(&l);
                        expect_lines(&format!("limit {limit:?}, after {k} lines"), &h, &m.lines)?;
                    }
                }
                Ok(())
            })
        },
        |i| format!("{:?} {LIMITS:?}", Mix(vec![LIMITS.len() as u64, LIMITS.len() as u64 + 1, 2]).get(i)),
    );
    const MANY: [usize; 8] = [999, 1000, 1001, 1023, 1024, 1025, 4097, 8200];
    let f8 = Family::seq(
        "many lines",
        "thousands of lines, with large limits and none, written and read back",
        8 * 4 * 2,
        |i, ctx| {
            let m = Mix(vec![8, 4, 2]).get(i);
            let (n, limit, strip) = (MANY[m[0]], [None, Some(1000), Some(1024), Some(5000)][m[1]], m[2] == 0);
            let dir = scratch();
            exec(World::tty(20, 6), ctx, move || {
                let mut h = History::new();
                h.set_strip_duplicates(strip).set_limit(limit.and_then(NonZeroUsize::new));
                let mut want: Vec<String> = (0..n).map(|k| format!("line {k}")).collect();
                want.extend(["last".into(), "line 7".into()]);
                for l in &want {
                    if let Err(e) = h.add_line(l.clone()) {
                        return fail("error", format!("adding a line failed: {e}"));
                    }
                }
                if strip {
                    want.remove(7);
                }
                if let Some(l) = limit.filter(|l| *l < want.len()) {
                    want.drain(..want.len() - l);
                }
                expect_lines("added", &h, &want)?;
                let p = dir.join("t");
                if let Err(e) = h.write_history_to(&p) {
                    return fail("error", format!("writing failed: {e}"));
                }
                let mut g = History::new();
                match g.read_history_from(&p) {
                    Ok(k) if k == want.len() => (),
                    r => return fail("read", format!("reading back {} lines gave {r:?}", want.len())),
                }
                expect_lines("read back", &g, &want)
            })
        },
        |i| format!("{:?}", Mix(vec![8, 4, 2]).get(i)),
    );
    let mix = Mix(vec![3, 4, 9]);
    let f3 = Family::seq(
        "sizes",
        "lines and histories around the sizes of the buffers used for reading and writing",
        mix.total(),
        |i, ctx| {
            let m = Mix(vec![3, 4, 9]).get(i);
            let ch = ["a", "\u{e9}", "\u{4f60}"][m[0]];
            let n = [1, 2, 3, 150][m[1]];
            let len = [4094usize, 4095, 4096, 8190, 8191, 8192, 8193, 16384, 20000][m[2]];
            let dir = scratch();
            exec(World::tty(20, 6), ctx, move || {
                let mut h = History::new();
                h.set_strip_duplicates(false).set_limit(None);
                let want: Vec<String> = (0..n).map(|k| ch.repeat((len + k) / ch.len())).collect();
                for l in &want {
                    let _ = h.add_line(l.clone());
                }
                let p = dir.join("t");
                if let Err(e) = h.write_history_to(&p) {
                    return fail("error", format!("writing failed: {e}"));
                }
                let mut g = History::new();
                match g.read_history_from(&p) {
                    Ok(k) if k == n => (),
                    r => return fail("read", format!("reading back gave {r:?}")),
                }
                if g.get_lines() != want {
                    return fail("lines", "a big history changed when written and read back");
                }
                Ok(())
            })
        },
        |i| format!("{:?}", Mix(vec![3, 4, 9]).get(i)),
    );
    // what the user enters
    let h = |v: &[&str]| Op::SwapHist(v.iter().map(|s| s.to_string()).collect());
    let alpha: Vec<Op> = vec![
        Op::Key(Key::Ch('a')),
        Op::Key(Key::Ch('b')),
        Op::Key(Key::Ctl(13)),
        Op::Key(Key::Ctl(10)),
        Op::Key(Key::Up),
        Op::Key(ctl('G')),
        Op::Key(ctl('D')),
        Op::Chunk(vec![Key::Ch('c'), Key::Ctl(13), Key::Ch('a'), Key::Ctl(13)]),
        h(&["b", "z"]),
        Op::Prompt(t("> "), false, false),
        Op::Prompt(t("> "), true, false),
    ];
    let cfgs = vec![
        ("default".to_string(), cfg(20, 6), vec![Op::Prompt(t("> "), true, false)]),
        ("limit 2".into(), Cfg { limit: Some(2), ..cfg(20, 6).hist(&["a", "q"]) }, vec![Op::Prompt(t("> "), true, false)]),
        ("with duplicates".into(), Cfg { strip: false, limit: Some(3), ..cfg(20, 6).hist(&["a"]) }, vec![Op::Prompt(t("> "), true, false)]),
        ("events".into(), cfg(20, 6).hist(&["a"]).events(), vec![Op::Prompt(t("> "), true, false)]),
    ];
    let f4 = Space { cfgs, alpha, depth: if thorough { 5 } else { 4 }, paces: vec![Pace::Burst] }.family(
        "entered",
        "every sequence of typing, entering, discarding, navigating and swapping",
        |s| {
            let got = s.io().read_history().get_lines().to_vec();
            if got != s.m.hist {
                return fail("entered", format!("the history is {got:?} instead of {:?}", s.m.hist));
            }
            Ok(())
        },
    );
    let f7 = characters("characters", "lines of every character, written and read back", true, |chars, ctx| {
        let mut want = vec!["first".to_string()];
        for c in chars.iter().filter(|c| !matches!(c, '\n' | '\r')) {
            want.extend([format!("a{c}b"), format!("{c}"), format!("{c}{c} ")]);
        }
        let dir = scratch();
        exec(World::tty(20, 6), ctx, move || {
            let mut h = History::new();
            h.set_limit(None);
            for l in &want {
                if let Err(e) = h.add_line(l.clone()) {
                    return fail("error", format!("adding {l:?} failed: {e}"));
                }
            }
            expect_lines("added", &h, &want)?;
            let p = dir.join("t");
            if let Err(e) = h.write_history_to(&p) {
                return fail("error", format!("writing failed: {e}"));
            }
            if std::fs::read(&p).unwrap() != text(&want).as_bytes() {
                return fail("written", format!("{:?} was written for {want:?}", std::fs::read_to_string(&p)));
            }
            let mut g = History::new();
            match g.read_history_from(&p) {
                Ok(n) if n == want.len() => (),
                r => return fail("read", format!("reading back gave {r:?}")),
            }
            expect_lines("read back", &g, &want)
        })
    });
    Check {
        families: vec![f1, f2, f3, f5, f6, f7, f8, f4],
        rule: "the lines equal those of the reference after every operation; files hold the lines, each followed by a line feed".into(),
        assumptions: vec!["lines with line breaks, a carriage return at the end or a byte order mark at the very beginning are not kept by the file format".into()],
    }
}

// ------------------------------------------------------------------ P19

struct Start {
    x: Option<&'static str>,
    backup: Option<&'static str>,
    build: Option<&'static str>,
}
impl Start {
    const ALL: u64 = 24;
    fn get(i: usize) -> Start {
        Start {
            x: [None, Some("o1\no2\n"), Some(""), Some("o1\n")][i % 4],
            backup: [None, Some("b1\nb2\n"), Some("")][i / 4 % 3],
            build: [None, Some("junk\npart")][i / 12 % 2],
        }
    }
    fn lines(&self) -> Vec<String> {
        let of = |s: &str| s.lines().map(|l| l.to_string()).collect::<Vec<_>>();
        match (self.x, self.backup) {
            (Some(x), _) if !x.is_empty() => of(x),
            (_, Some(b)) => of(b),
            _ => vec![],
        }
    }
}
fn lay(dir: &PathBuf, s: &Start) {
    for (n, c) in [("h", s.x), ("h~", s.backup), ("h^", s.build)] {
        let p = dir.join(n);
        match c {
            Some(c) => std::fs::write(p, c).unwrap(),
            None => {
                let _ = std::fs::remove_file(p);
            }
        }
    }
}
/// What is saved, one save after the other.
#[derive(Clone, Debug)]
enum Body {
    /// one line added, saved when dropped
    Drop,
    /// each line saved at once
    Each(usize),
    /// a long line, which takes several writes
    Big,
    /// many lines, of which only some are kept
    Limit,
    /// written with the plain function on dropping, through a handler of the program's own
    Two,
}
fn bodies() -> Vec<Body> {
    vec![Body::Drop, Body::Each(1), Body::Each(2), Body::Big, Body::Limit, Body::Two]
}
#[derive(Default, Clone, Debug)]
struct Track {
    /// what a reload may give
    allowed: Vec<Vec<String>>,
    /// where the file operations of the first save begin
    base: u64,
    bad: Option<String>,
    errors: Vec<(String, bool)>,
}
fn load(dir: &PathBuf) -> Result<Vec<String>, String> {
    match History::from_file(dir.join("h")) {
        Ok(mut h) => {
            h.set_autosave_handler(None);
            Ok(h.get_lines().to_vec())
        }
        Err(e) => Err(e.to_string()),
    }
}
/// Load with plans switched off.
fn load_now(dir: &PathBuf) -> Result<Vec<String>, String> {
    let plan = std::mem::replace(&mut rt::world().fs.plan, Plan::None);
    let (count, fired) = (rt::world().fs.count, rt::world().fs.fired);
    let r = load(dir);
    let fs = &mut rt::world().fs;
    fs.plan = plan;
    fs.count = count;
    fs.fired = fired;
    fs.log.truncate(count as usize);
    r
}
fn save_body(dir: &PathBuf, body: &Body, tr: &Rc<RefCell<Track>>, second: Option<Plan>) {
    let mut h = match History::from_file(dir.join("h")) {
        Ok(h) => h,
        Err(e) => {
            tr.borrow_mut().bad = Some(format!("loading failed: {e}"));
            return;
        }
    };
    {
        let mut t = tr.borrow_mut();
        t.allowed = vec![h.get_lines().to_vec()];
        t.base = rt::world().fs.count;
    }
    let one = NonZeroUsize::new(1);
    let mut lines: Vec<String> = h.get_lines().to_vec();
    let mut attempt = |h: &mut History, l: &str, limit: usize| {
        lines.retain(|x| x != l);
        lines.push(l.to_string());
        let k = lines.len().saturating_sub(limit);
        lines.drain(..k);
        tr.borrow_mut().allowed.push(lines.clone());
        let before = rt::world().fs.fired;
        let r = h.add_line(l.to_string());
        let fired = rt::world().fs.fired && !before;
        let now = load_now(dir);
        let mut t = tr.borrow_mut();
        if r.is_ok() {
            t.allowed = vec![lines.clone()];
        }
        t.errors.push((format!("{r:?}"), fired));
        match now {
            Ok(l) if t.allowed.contains(&l) => (),
            l => t.bad = Some(format!("saving gave {r:?} and loading again then gives {l:?} instead of one of {:?}", t.allowed)),
        }
    };
    match body {
        Body::Drop => {
            let _ = h.add_line("n1".into());
            tr.borrow_mut().allowed.push(h.get_lines().to_vec());
        }
        Body::Each(n) => {
            h.set_autosave_interval(one);
            for k in 0..*n {
                attempt(&mut h, ["n1", "n2"][k], 100);
                if k == 0 {
                    if let Some(p) = second {
                        arm(p);
                    }
                }
            }
        }
        Body::Big => {
            h.set_autosave_interval(one);
            attempt(&mut h, &"big".repeat(4000), 100);
        }
        Body::Limit => {
            h.set_limit(NonZeroUsize::new(2)).set_autosave_interval(one);
            attempt(&mut h, "o2", 2);
        }
        Body::Two => {
            // the first of two lines is not saved by itself
            h.set_autosave_interval(NonZeroUsize::new(2));
            let _ = h.add_line("n1".into());
            lines.push("n1".to_string());
            let _ = &lines;
            tr.borrow_mut().allowed.push(h.get_lines().to_vec());
            let mut l = h.get_lines().to_vec();
            l.push("n2".into());
            tr.borrow_mut().allowed.push(l.clone());
            if h.add_line("n2".into()).is_ok() {
                tr.borrow_mut().allowed = vec![l];
            } else {
                tr.borrow_mut().errors.push(("Err".into(), true));
            }
        }
    }
    drop(h);
}
/// Make a plan count from here.
fn arm(p: Plan) {
    let fs = &mut rt::world().fs;
    let b = fs.count;
    fs.plan = match p {
        Plan::None => Plan::None,
        Plan::Crash { at, keep } => Plan::Crash { at: at + b, keep },
        Plan::Fail { at, keep, errno, sticky } => Plan::Fail { at: at + b, keep, errno, sticky },
    };
}
struct Ran {
    tr: Track,
    crashed: bool,
    fired: bool,
    log: Vec<mcrt::fs::Op>,
    dirty: std::collections::BTreeMap<u64, u64>,
    failure: Res,
}
fn run_save(dir: &PathBuf, start: &Start, body: &Body, plan: Plan, second: Option<Plan>, ctx: &mut Ctx) -> Ran {
    lay(dir, start);
    let tr: Rc<RefCell<Track>> = Default::default();
    let t2 = tr.clone();
    let (d2, b2) = (dir.clone(), body.clone());
    let mut w = World::tty(20, 6);
    w.fs.plan = plan;
    let seen = Rc::new(RefCell::new((false, vec![], Default::default())));
    let s2 = seen.clone();
    let o = rt::run_with(&Opts::seq(), &[], w, move || save_body(&d2, &b2, &t2, second), move |w| {
        *s2.borrow_mut() = (w.fs.fired, std::mem::take(&mut w.fs.log), std::mem::take(&mut w.fs.dirty));
    });
    ctx.execs += 1;
    ctx.transitions += 1;
    let crashed = matches!(&o.failure, Some(rt::Failure::Killed(s)) if s == "crash");
    let failure = if crashed {
        Ok(())
    } else if let Some(f) = &o.failure {
        fail("failure", format!("{f:?}"))
    } else if let Some(p) = o.panics.first() {
        fail("panic", p.message.clone())
    } else {
        Ok(())
    };
    let tr = tr.borrow().clone();
    let s = std::mem::take(&mut *seen.borrow_mut());
    Ran { tr, crashed, fired: s.0, log: s.1, dirty: s.2, failure }
}
/// Load in a fresh execution.
fn reload(dir: &PathBuf, allowed: &[Vec<String>], what: &str, ctx: &mut Ctx) -> Res {
    let (d, a, w) = (dir.clone(), allowed.to_vec(), what.to_string());
    exec(World::tty(20, 6), ctx, move || match load(&d) {
        Ok(l) if a.contains(&l) => Ok(()),
        r => fail("lost", format!("{w}: loading gives {r:?} instead of one of {a:?}")),
    })
}
fn short(n: usize) -> Vec<usize> {
    if n <= 64 {
        (0..=n).collect()
    } else {
        let mut v = vec![0, 1, 2, 3, n / 2, n - 2, n - 1, n];
        v.extend((1..=n / 4096).map(|k| k * 4096));
        v
    }
}
/// The states in which a crash of the system may leave the files whose data had not been written out.
fn torn(dir: &PathBuf, dirty: &std::collections::BTreeMap<u64, u64>) -> Vec<(String, PathBuf, Vec<u8>)> {
    let mut v = vec![];
    for n in ["h", "h~", "h^"] {
        let p = dir.join(n);
        let Ok(m) = std::fs::metadata(&p) else { continue };
        let Some(&safe) = dirty.get(&m.ino()) else { continue };
        let whole = std::fs::read(&p).unwrap();
        for k in short(whole.len()) {
            if k < safe as usize || k >= whole.len() {
                continue;
            }
            v.push((format!("{n} cut to {k} bytes"), p.clone(), whole[..k].to_vec()));
            if k > 0 {
                let mut z = whole.clone();
                z[k..].fill(0);
                v.push((format!("{n} zero from byte {k}"), p.clone(), z));
            }
        }
        let mut z = whole.clone();
        z[safe as usize..].fill(0);
        v.push((format!("{n} zero"), p.clone(), z));
    }
    v
}
fn after_crash(dir: &PathBuf, r: &Ran, what: &str, ctx: &mut Ctx) -> Res {
    r.failure.clone()?;
    if let Some(b) = &r.tr.bad {
        return fail("lost", format!("{what}: {b}"));
    }
    let mut state: Vec<u8> = vec![];
    for n in ["h", "h~", "h^"] {
        state.extend(std::fs::read(dir.join(n)).unwrap_or_else(|_| b"-".to_vec()));
        state.push(0);
    }
    ctx.state(&state);
    ctx.outcome(&(r.crashed, state, r.dirty.len()));
    reload(dir, &r.tr.allowed, what, ctx)?;
    if r.crashed {
        for (name, p, content) in torn(dir, &r.dirty) {
            let keep = std::fs::read(&p).unwrap();
            std::fs::write(&p, &content).unwrap();
            reload(dir, &r.tr.allowed, &format!("{what}, system crash with {name}"), ctx)?;
            std::fs::write(&p, keep).unwrap();
        }
    }
    // it goes on from there
    let (d, w) = (dir.clone(), what.to_string());
    exec(World::tty(20, 6), ctx, move || {
        let mut h = match History::from_file(d.join("h")) {
            Ok(h) => h,
            Err(e) => return fail("lost", format!("{w}: loading fails: {e}")),
        };
        let _ = h.add_line("later".into());
        let want = h.get_lines().to_vec();
        drop(h);
        match load(&d) {
            Ok(l) if l == want => Ok(()),
            r => fail("stuck", format!("{w}: saving later does not work: {r:?} instead of {want:?}")),
        }
    })
}
fn describe(log: &[mcrt::fs::Op], at: u64) -> String {
    log.get(at as usize).map(|o| o.what.clone()).unwrap_or_else(|| "nothing".into())
}
/// All plans for the file operations from `base` on.
fn crashes(log: &[mcrt::fs::Op], base: u64) -> Vec<Plan> {
    let mut v = vec![];
    for (k, op) in log.iter().enumerate().skip(base as usize) {
        match op.len {
            None => v.push(Plan::Crash { at: k as u64, keep: 0 }),
            Some(n) => v.extend(short(n).into_iter().map(|keep| Plan::Crash { at: k as u64, keep })),
        }
    }
    v.push(Plan::Crash { at: log.len() as u64, keep: 0 });
    v
}
fn failures(log: &[mcrt::fs::Op], base: u64) -> Vec<Plan> {
    let mut v = vec![];
    for (k, op) in log.iter().enumerate().skip(base as usize) {
        for errno in [5, 28, 4, 13] {
            for sticky in [false, true] {
                if errno == 4 && sticky {
                    continue;
                }
                for keep in op.len.map(|n| short(n.saturating_sub(1)).into_iter().step_by(3).collect()).unwrap_or(vec![0]) {
                    v.push(Plan::Fail { at: k as u64, keep, errno, sticky });
                }
            }
        }
    }
    v
}

fn p19(_thorough: bool) -> Check {
    let starts = Start::ALL;
    let nb = bodies().len() as u64;
    let show = |i: u64| {
        let s = Start::get((i % Start::ALL) as usize);
        format!("file {:?}, backup {:?}, left over {:?}; {:?}", s.x, s.backup, s.build, bodies()[(i / Start::ALL) as usize])
    };
    let f1 = Family::seq(
        "crashes",
        "the program or the system stops at every file operation and inside every write, unsynced data torn",
        starts * nb,
        |i, ctx| {
            let start = Start::get((i % Start::ALL) as usize);
            let body = bodies().swap_remove((i / Start::ALL) as usize);
            let dir = scratch();
            let dry = run_save(&dir, &start, &body, Plan::None, None, ctx);
            dry.failure.clone()?;
            if dry.tr.allowed.is_empty() || dry.tr.bad.is_some() {
                return fail("save", format!("{:?}", dry.tr.bad));
            }
            if dry.log.len() as u64 <= dry.tr.base {
                return fail("save", "nothing was saved");
            }
            let first = load_start(&dir, &start, ctx)?;
            if first != start.lines() {
                return fail("load", format!("loading gives {first:?} instead of {:?}", start.lines()));
            }
            // a run without faults leaves exactly the new history
            let clean = run_save(&dir, &start, &body, Plan::None, None, ctx);
            let want = clean.tr.allowed.last().unwrap().clone();
            reload(&dir, &[want], "no crash", ctx)?;
            for plan in crashes(&dry.log, dry.tr.base) {
                let r = run_save(&dir, &start, &body, plan, None, ctx);
                let Plan::Crash { at, keep } = plan else { unreachable!() };
                let what = format!("crash at operation {at} ({}) after {keep} bytes", describe(&dry.log, at));
                after_crash(&dir, &r, &what, ctx)?;
            }
            Ok(())
        },
        show,
    );
    let f2 = Family::seq(
        "failures",
        "every file operation of a save fails, with several errors, once or for good, after part of a write",
        starts * nb,
        |i, ctx| {
            let start = Start::get((i % Start::ALL) as usize);
            let body = bodies().swap_remove((i / Start::ALL) as usize);
            let dir = scratch();
            let dry = run_save(&dir, &start, &body, Plan::None, None, ctx);
            dry.failure.clone()?;
            for plan in failures(&dry.log, dry.tr.base) {
                let r = run_save(&dir, &start, &body, plan, None, ctx);
                let Plan::Fail { at, keep, errno, sticky } = plan else { unreachable!() };
                let op = describe(&dry.log, at);
                let what = format!("operation {at} ({op}) fails with {errno} after {keep} bytes{}", if sticky { ", later ones too" } else { "" });
                let grave = errno != 4 && (keep == 0 || sticky) && !op.starts_with("remove") && !op.starts_with("open") && !op.starts_with("metadata");
                if grave && r.fired && !matches!(body, Body::Drop) {
                    let told = r.tr.errors.iter().any(|(e, _)| e.starts_with("Err"));
                    if !told {
                        return fail("unreported", format!("{what}: no error was reported"));
                    }
                }
                after_crash(&dir, &r, &what, ctx)?;
            }
            Ok(())
        },
        show,
    );
    let f3 = Family::seq(
        "twice",
        "a save fails at every operation, and the next one fails or crashes at every operation",
        starts,
        |i, ctx| {
            let start = Start::get(i as usize);
            let dir = scratch();
            let body = Body::Each(2);
            let dry = run_save(&dir, &start, &Body::Each(1), Plan::None, None, ctx);
            dry.failure.clone()?;
            let base = dry.tr.base;
            let n = dry.log.len() as u64 - base;
            let firsts: Vec<Plan> = failures(&dry.log, base)
                .into_iter()
                .filter(|p| matches!(p, Plan::Fail { errno: 28, keep, .. } if *keep <= 3))
                .collect();
            for p in firsts {
                for at in 0..=n {
                    for keep in [0usize, 4] {
                        for q in [Plan::Crash { at, keep }, Plan::Fail { at, keep, errno: 5, sticky: true }] {
                            let r = run_save(&dir, &start, &body, p, Some(q), ctx);
                            after_crash(&dir, &r, &format!("{p:?} and then {q:?}"), ctx)?;
                        }
                    }
                }
            }
            Ok(())
        },
        |i| format!("start {i}"),
    );
    Check {
        families: vec![f1, f2, f3],
        rule: "loading again gives the history before the save or the one being saved, exactly the new one after success; failures are reported; saving works afterwards".into(),
        assumptions: vec![
            "directory operations reach the disk in the order in which they are made".into(),
            "data that was not synced may be cut off or zero from any byte on after a crash of the system".into(),
        ],
    }
}
fn load_start(dir: &PathBuf, start: &Start, ctx: &mut Ctx) -> Result<Vec<String>, crate::engine::Fail> {
    lay(dir, start);
    let out: Rc<RefCell<Vec<String>>> = Default::default();
    let (o2, d) = (out.clone(), dir.clone());
    exec(World::tty(20, 6), ctx, move || match load(&d) {
        Ok(l) => {
            *o2.borrow_mut() = l;
            Ok(())
        }
        Err(e) => fail("load", e),
    })?;
    let l = out.borrow().clone();
    Ok(l)
}

// ------------------------------------------------------------------ P20

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum SOp {
    Add,
    Interval(Option<usize>),
    /// a handler that succeeds / fails / none
    Handler(Option<bool>),
}
fn handler(id: usize, ok: bool) -> Box<liso::AutosaveHandlerFn> {
    Box::new(move |h: &History| {
        rt::world().log.push(format!("save {id} {:?}", h.get_lines()));
        if ok {
            Ok(())
        } else {
            Err(std::io::Error::new(std::io::ErrorKind::Other, format!("no {id}")))
        }
    })
}
/// The reference for autosaving.
#[derive(Clone, Default)]
struct Saver {
    lines: Vec<String>,
    interval: Option<usize>,
    handler: Option<(usize, bool)>,
    count: usize,
    unsaved: bool,
    log: Vec<String>,
}
impl Saver {
    fn call(&mut self) -> Option<String> {
        let (id, ok) = self.handler?;
        self.log.push(format!("save {id} {:?}", self.lines));
        if ok {
            self.unsaved = false;
            None
        } else {
            Some(format!("no {id}"))
        }
    }
    /// the error that is to be reported
    fn add(&mut self, l: &str) -> Option<String> {
        self.lines.retain(|x| x != l);
        self.lines.push(l.into());
        self.unsaved = true;
        let n = self.interval?;
        self.count += 1;
        if self.count >= n {
            self.count = 0;
            return self.call();
        }
        None
    }
    fn drop(&mut self) {
        if self.unsaved {
            self.call();
        }
    }
}
fn saves() -> Vec<String> {
    rt::world().log.iter().filter(|l| l.starts_with("save ")).cloned().collect()
}
fn same_saves(when: &str, want: &[String]) -> Res {
    let got = saves();
    if got != want {
        return fail("saves", format!("{when}: the handler calls are {got:?} instead of {want:?}"));
    }
    Ok(())
}

fn p20(thorough: bool) -> Check {
    let alpha = [
        SOp::Add,
        SOp::Interval(None),
        SOp::Interval(Some(1)),
        SOp::Interval(Some(2)),
        SOp::Interval(Some(3)),
        SOp::Handler(Some(true)),
        SOp::Handler(Some(false)),
        SOp::Handler(None),
    ];
    let words = Words { a: alpha.len() as u64, min: 1, max: if thorough { 8 } else { 6 } };
    let f1 = Family::seq(
        "calls",
        "every sequence of adding lines and setting interval and handler, then dropping",
        words.total(),
        move |i, ctx| {
            let ops: Vec<SOp> = words.get(i).iter().map(|&k| alpha[k]).collect();
            ctx.transitions += ops.len() as u64;
            exec(World::tty(20, 6), ctx, move || {
                let mut h = History::new();
                // changing one interval to another in between may or may not start the counting
                // anew, so there can be several answers
                let mut ms = vec![Saver::default()];
                for (n, op) in ops.iter().enumerate() {
                    match *op {
                        SOp::Add => {
                            let l = format!("l{n}");
                            let want: Vec<_> = ms.iter_mut().map(|m| m.add(&l)).collect();
                            let got = h.add_line(l).err().map(|e| e.to_string());
                            if !want.contains(&got) {
                                return fail("error", format!("adding reported {got:?} instead of {:?}", want[0]));
                            }
                            let mut it = want.iter();
                            let (log, first) = (saves(), ms[0].clone());
                            ms.retain(|m| *it.next().unwrap() == got && m.log == log);
                            if ms.is_empty() {
                                return same_saves(&format!("after {op:?}"), &first.log);
                            }
                        }
                        SOp::Interval(x) => {
                            h.set_autosave_interval(x.map(|x| NonZeroUsize::new(x).unwrap()));
                            if x.is_some() {
                                let anew = ms.iter().filter(|m| m.count > 0).map(|m| Saver { count: 0, ..m.clone() });
                                ms.extend(anew.collect::<Vec<_>>());
                            }
                            for m in &mut ms {
                                m.interval = x;
                                if x.is_none() {
                                    m.count = 0;
                                }
                            }
                        }
                        SOp::Handler(x) => {
                            h.set_autosave_handler(x.map(|ok| handler(n, ok)));
                            for m in &mut ms {
                                m.handler = x.map(|ok| (n, ok));
                            }
                        }
                    }
                    same_saves(&format!("after {op:?}"), &ms[0].log)?;
                }
                drop(h);
                let mut m = ms.swap_remove(0);
                m.drop();
                same_saves("after dropping", &m.log)
            })
        },
        move |i| format!("{:?}", words.get(i).iter().map(|&k| alpha[k]).collect::<Vec<_>>()),
    );
    // long runs of additions for every interval
    const EVERY: [usize; 17] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 100, 255, 256, 257, 300];
    let mix = Mix(vec![2, EVERY.len() as u64, 3, 3]);
    let f2 = Family::seq(
        "runs",
        "up to 24 additions with every interval up to 12, and two and a bit intervals of longer ones, of different and repeated lines, with and without a limit",
        mix.total(),
        move |i, ctx| {
            let m = Mix(vec![2, EVERY.len() as u64, 3, 3]).get(i);
            let (ok, n, lines, limit) = (m[0] == 0, EVERY[m[1]], [usize::MAX, 1, 2][m[2]], [None, Some(1), Some(3)][m[3]]);
            exec(World::tty(20, 6), ctx, move || {
                let mut h = History::new();
                let mut hm = HModel { limit, ..HModel::new() };
                h.set_limit(limit.map(|l| NonZeroUsize::new(l).unwrap()));
                h.set_autosave_interval(NonZeroUsize::new(n)).set_autosave_handler(Some(handler(0, ok)));
                let mut log = vec![];
                let adds = if n <= 12 { 24 } else { 2 * n + 3 };
                for k in 0..adds {
                    let l = format!("{}", k % lines);
                    hm.add(&l);
                    let due = (k + 1) % n == 0;
                    if due {
                        log.push(format!("save 0 {:?}", hm.lines));
                    }
                    let got = h.add_line(l).is_err();
                    if got != (due && !ok) {
                        return fail("error", format!("adding line {k} reported {}", if got { "an error" } else { "nothing wrong" }));
                    }
                    same_saves(&format!("after {} lines", k + 1), &log)?;
                }
                drop(h);
                if adds % n != 0 || !ok {
                    log.push(format!("save 0 {:?}", hm.lines));
                }
                same_saves("after dropping", &log)
            })
        },
        move |i| {
            let m = Mix(vec![2, EVERY.len() as u64, 3, 3]).get(i);
            format!("interval {}, {}, lines {}, limit {}", EVERY[m[1]], if m[0] == 0 { "saved" } else { "failing" }, m[2], m[3])
        },
    );
    // in a session
    let mut fams = vec![f1, f2];
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum E {
        Enter,
        Empty,
        Discard,
        Key,
        Swap(bool),
        Wait,
        Chunk,
    }
    let alpha = [E::Enter, E::Empty, E::Discard, E::Key, E::Swap(true), E::Swap(false), E::Wait, E::Chunk];
    let words = Words { a: alpha.len() as u64, min: 0, max: if thorough { 5 } else { 4 } };
    let mix = move |i: u64| {
        let m = Mix(vec![3, 2, 3, words.total()]).get(i);
        let ops: Vec<E> = words.get(m[3] as u64).iter().map(|&k| alpha[k]).collect();
        ([None, Some(1), Some(2)][m[0]], m[1] == 0, m[2], ops)
    };
    fams.push(Family::seq(
        "session",
        "every sequence of entering lines and swapping histories in a session, then dropping it, killing it, with and without waiting before",
        18 * words.total(),
        move |i, ctx| {
            let (interval, ok, end, ops) = mix(i);
            ctx.transitions += ops.len() as u64;
            let c = cfg(50, 6);
            exec(c.world(), ctx, move || {
                let mut s = Sess::new(&c);
                let mut savers: Vec<Saver> = vec![];
                let mut log: Vec<String> = vec![];
                let fresh = |id: usize, ok: bool| {
                    let mut h = History::new();
                    h.set_autosave_interval(interval.map(|x: usize| NonZeroUsize::new(x).unwrap()));
                    h.set_autosave_handler(Some(handler(id, ok)));
                    (h, Saver { interval, handler: Some((id, ok)), ..Default::default() })
                };
                let (h, m) = fresh(0, ok);
                let old = s.io().swap_history(h);
                drop(old);
                savers.push(m);
                s.op(&Op::Prompt(t("> "), true, false));
                s.check()?;
                let mut k = 0;
                let enter = |s: &mut Sess, savers: &mut Vec<Saver>, line: &str| {
                    let e = savers.last_mut().unwrap().add(line);
                    if let Some(e) = e {
                        s.m.notice = None;
                        s.m.notice = Some((
                            st(INV, &format!("Unable to write history: {e}")).spec(),
                            s.m.now + 3000 * MS,
                        ));
                    }
                };
                for op in &ops {
                    k += 1;
                    match op {
                        E::Enter => {
                            let l = format!("l{k}");
                            s.op(&typed(&l));
                            s.op(&Op::Key(Key::Ctl(13)));
                            let line = s.m.hist.last().unwrap().clone();
                            enter(&mut s, &mut savers, &line);
                        }
                        E::Empty => {
                            s.op(&Op::Key(ctl('U')));
                            s.op(&Op::Key(ctl('K')));
                            s.op(&Op::Key(Key::Ctl(13)));
                            enter(&mut s, &mut savers, "");
                        }
                        E::Chunk => {
                            s.op(&Op::Key(ctl('G')));
                            for l in ["p", "q"] {
                                s.real(&typed(l));
                                s.m.apply(&typed(l));
                                s.op(&Op::Key(Key::Ctl(13)));
                                enter(&mut s, &mut savers, l);
                            }
                        }
                        E::Discard => s.op(&Op::Key(ctl('G'))),
                        E::Key => s.op(&Op::Key(Key::Ch('x'))),
                        E::Wait => s.op(&Op::Advance(3001)),
                        E::Swap(ok) => {
                            rt::settle();
                            let (h, m) = fresh(k, *ok);
                            let old = s.io().swap_history(h);
                            s.m.apply(&Op::SwapHist(vec![]));
                            drop(old);
                            let mut o = savers.pop().unwrap();
                            o.drop();
                            log.append(&mut o.log);
                            savers.push(m);
                        }
                    }
                    let mut want = log.clone();
                    s.check()?;
                    want.extend(savers.last().unwrap().log.clone());
                    same_saves(&format!("after {op:?}"), &want)?;
                }
                let mut o = savers.pop().unwrap();
                if end == 2 {
                    // entered right before the end: whether it still counts is a matter of timing
                    s.io = None;
                } else if end == 1 {
                    let io = s.io.take().unwrap();
                    io.blocking_die();
                } else {
                    shut(s);
                }
                o.drop();
                log.append(&mut o.log);
                same_saves("at the end", &log)
            })
        },
        move |i| format!("{:?}", mix(i)),
    ));
    // a history that has been in use before, and is used again after
    let top = if thorough { 6u64 } else { 4 };
    let mix = move |i: u64| Mix(vec![2, 5, top as usize, top as usize, top as usize, 2].into_iter().map(|x: usize| x as u64).collect()).get(i);
    fams.push(Family::seq(
        "in and out",
        "every number of lines added to a history before it is swapped in, while it is in and after it is swapped out again, for every interval",
        2 * 5 * top * top * top * 2,
        move |i, ctx| {
            let m = mix(i);
            let (ok, n, before, during, after, tty) = (m[0] == 0, m[1], m[2], m[3], m[4], m[5] == 0);
            ctx.transitions += (before + during + after) as u64;
            let w = if tty { World::tty(50, 6) } else { World::tty(50, 6).pipe_in() };
            exec(w, ctx, move || {
                let io = liso::InputOutput::new();
                let mut h = History::new();
                h.set_autosave_interval(NonZeroUsize::new(n)).set_autosave_handler(Some(handler(0, ok)));
                let mut saver = Saver { interval: (n > 0).then_some(n), handler: Some((0, ok)), ..Default::default() };
                let mut k = 0;
                let mut add = |h: &mut History, saver: &mut Saver| -> Res {
                    k += 1;
                    let l = format!("l{k}");
                    let want = saver.add(&l);
                    let got = h.add_line(l).err().map(|e| e.to_string());
                    if got != want {
                        return fail("error", format!("adding reported {got:?} instead of {want:?}"));
                    }
                    same_saves(&format!("after {k} lines"), &saver.log)
                };
                for _ in 0..before {
                    add(&mut h, &mut saver)?;
                }
                drop(io.swap_history(h));
                rt::settle();
                for d in 0..during {
                    let l = format!("typed {d}");
                    if tty {
                        mcrt::world::type_bytes(format!("{l}\r").as_bytes());
                        saver.add(&l);
                    } else {
                        mcrt::world::type_bytes(format!("{l}\n").as_bytes());
                    }
                    rt::settle();
                    same_saves(&format!("after typing {d}"), &saver.log)?;
                }
                let mut h = io.swap_history(History::new());
                rt::settle();
                same_saves("after swapping", &saver.log)?;
                if h.get_lines() != saver.lines {
                    return fail("lines", format!("the history has {:?} instead of {:?}", h.get_lines(), saver.lines));
                }
                for _ in 0..after {
                    add(&mut h, &mut saver)?;
                }
                drop(h);
                saver.drop();
                same_saves("after dropping", &saver.log)?;
                drop(io);
                same_saves("at the end", &saver.log)
            })
        },
        move |i| format!("{:?}", mix(i)),
    ));
    // without a terminal
    fams.push(Family::seq(
        "pipe",
        "a history with unsaved lines owned by an instance without a terminal",
        8,
        |i, ctx| {
            let mut w = World::tty(20, 6);
            if i & 1 == 1 {
                w = w.pipe_in();
            } else {
                w = w.pipe_out();
            }
            let unsaved = i & 2 == 2;
            let ended = i & 4 == 4;
            exec(w, ctx, move || {
                let io = liso::InputOutput::new();
                let mut h = History::new();
                if unsaved {
                    let _ = h.add_line("x".into());
                }
                h.set_autosave_handler(Some(handler(0, true)));
                let old = io.swap_history(h);
                drop(old);
                if ended {
                    mcrt::world::type_eof();
                    rt::settle();
                }
                drop(io);
                let want = vec!["save 0 [\"x\"]".to_string()];
                same_saves("at the end", if unsaved { &want } else { &[] })
            })
        },
        |i| format!("{i}"),
    ));
    // every schedule of the shutdown
    let mut scens = vec![];
    for mode in 0..3 {
        for end in 0..2 {
            scens.push(crate::engine::Scen {
                name: format!("{} ended by {}", ["terminal", "pipe", "terminal with input"][mode], ["drop", "blocking_die"][end]),
                bound: if thorough { 3 } else { 2 },
                run: Box::new(move |devs, ctx| {
                    let w = if mode == 1 { World::tty(20, 6).pipe_in() } else { World::tty(20, 6) };
                    crate::sess::exec_with(&Opts::explore(), devs, w, ctx, move || {
                        let io = liso::InputOutput::new();
                        let mut h = History::new();
                        let _ = h.add_line("x".into());
                        h.set_autosave_handler(Some(handler(0, true)));
                        drop(io.swap_history(h));
                        if mode == 2 {
                            mcrt::world::type_bytes(b"y\r");
                        }
                        if end == 0 {
                            drop(io);
                        } else {
                            io.blocking_die();
                        }
                        let n = saves().len();
                        let got = saves();
                        if n != 1 || !(got[0] == "save 0 [\"x\"]" || (mode == 2 && got[0] == "save 0 [\"x\", \"y\"]")) {
                            return fail("saves", format!("at the end the handler calls are {got:?}"));
                        }
                        rt::settle();
                        if saves().len() != 1 {
                            return fail("saves", format!("after the end the handler calls are {:?}", saves()));
                        }
                        Ok(())
                    })
                }),
            });
        }
    }
    fams.push(Family::sched_free("shutdown", "every schedule of ending an instance that owns unsaved lines", scens, super::util::free_bound(thorough) + 1));
    Check {
        families: fams,
        rule: "calls of the handler, with the lines they saw, and reported errors equal the reference's; the last call is made before the drop returns".into(),
        assumptions: vec!["changing from one interval to another while lines are counted is unspecified".into()],
    }
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P17" => p17(thorough),
        "P19" => p19(thorough),
        "P20" => p20(thorough),
        _ => return None,
    })
}
