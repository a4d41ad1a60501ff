//! Sessions: the same operations applied to the real thing and to the reference model.
use std::cell::RefCell;
use std::num::NonZeroU32;
use std::rc::Rc;

use liso::{Completion, Completor, History, InputOutput, Output, Response};
use mcrt::rt::{self, Outcome, Opts};
use mcrt::term::{Cell, Kind, Row};
use mcrt::world::{type_bytes, World};

use crate::engine::{fail, Ctx, Fail, Res};
use crate::line::{look, show_row, Show};
use crate::model::{show_ops, Ans, Comp, Key, Model, Op, ESC_MS, MS};

#[derive(Clone)]
pub struct Cfg {
    pub w: usize,
    pub h: usize,
    pub show: Show,
    /// keys arrive as terminal events instead of bytes
    pub events: bool,
    /// ... in their less usual forms
    pub odd: bool,
    pub hist: Vec<String>,
    pub limit: Option<usize>,
    pub strip: bool,
    pub cmp: Cmp,
    pub bce: bool,
    pub shell: &'static str,
    /// setting up the world further
    pub world: fn(World) -> World,
}
#[derive(Clone, Copy)]
pub struct Cmp {
    pub text: bool,
    pub attrs: bool,
    pub cursor: bool,
    pub resp: bool,
    pub bells: bool,
    pub modes: bool,
}
pub const ALL: Cmp = Cmp { text: true, attrs: true, cursor: true, resp: true, bells: true, modes: true };
pub const TEXT: Cmp = Cmp { text: true, attrs: false, cursor: true, resp: false, bells: false, modes: false };
pub const NONE: Cmp = Cmp { text: false, attrs: false, cursor: false, resp: false, bells: false, modes: false };

pub fn cfg(w: usize, h: usize) -> Cfg {
    Cfg {
        w,
        h,
        show: Show::Ansi,
        events: false,
        odd: false,
        hist: vec![],
        limit: None,
        strip: true,
        cmp: ALL,
        bce: true,
        shell: "",
        world: |w| w,
    }
}
impl Cfg {
    pub fn cmp(mut self, c: Cmp) -> Cfg {
        self.cmp = c;
        self
    }
    pub fn events(mut self) -> Cfg {
        self.events = true;
        self
    }
    /// With the event back end: keys in their less usual forms, with events in between that mean nothing.
    pub fn odd_events(mut self) -> Cfg {
        self.events = true;
        self.odd = true;
        self
    }
    pub fn hist(mut self, h: &[&str]) -> Cfg {
        self.hist = h.iter().map(|s| s.to_string()).collect();
        self
    }
    pub fn show(mut self, s: Show) -> Cfg {
        self.show = s;
        self
    }
    pub fn world(&self) -> World {
        let mut w = World::new(
            match self.show {
                Show::Ansi => Kind::Ansi,
                Show::Vt52(..) => Kind::Vt52,
            },
            self.w,
            self.h,
        );
        if let Show::Vt52(n, wob) = self.show {
            w.env.insert("TERM".into(), if n == 2 { "vt52".into() } else { "tw52".into() });
            if n == 4 {
                w.env.insert("TERM".into(), "atarist".into());
            }
            if wob {
                w.env.insert("ATARI_WHITE_ON_BLACK".into(), "1".into());
            }
        }
        if self.events {
            w.env.insert("LISO_CROSSTERM_INPUT".into(), "1".into());
        }
        w.term.bce = self.bce;
        if let Show::Vt52(..) = self.show {
            // the colours such a terminal starts with are those liso takes for its defaults
            let b = self.show.blank();
            w.term.attr = b.a;
            w.term.base = Some(b.a);
            w.term.grid.iter_mut().flatten().for_each(|c| *c = b.clone());
        }
        w.shell_text = messy(self.shell, w.term.kind == mcrt::term::Kind::Vt52);
        (self.world)(w)
    }
    pub fn model(&self) -> Model {
        let mut m = Model::new(self.w, self.show);
        m.hist = self.hist.clone();
        m.hist_limit = self.limit.unwrap_or(100);
        m.strip = self.strip;
        m
    }
}

pub fn show_resp(r: &Response) -> String {
    match r {
        Response::Custom(b) => match b.downcast_ref::<u32>() {
            Some(n) => format!("Custom({n})"),
            None => "Custom(?)".into(),
        },
        r => format!("{r:?}"),
    }
}

struct RealComp(Comp);
impl Completor for RealComp {
    fn complete(
        &mut self,
        output: &Output,
        input: &str,
        cursor: usize,
        presses: NonZeroU32,
    ) -> Option<Completion> {
        rt::world().log.push(format!("{}|{:?}|{}|{}", self.0.id, input, cursor, presses));
        match &self.0.ans {
            Ans::None => None,
            Ans::Insert(s) => Some(Completion::InsertAtCursor { text: s.clone() }),
            Ans::Presses => Some(Completion::InsertAtCursor { text: presses.to_string() }),
            Ans::Replace(s, n) => {
                Some(Completion::ReplaceWholeLine { new_line: s.clone(), new_cursor: *n })
            }
            Ans::Move(n) => Some(Completion::ReplaceWholeLine {
                new_line: input.to_string(),
                new_cursor: crate::model::nth_place(input, *n),
            }),
            Ans::Print(s) => {
                output.println(s.as_str());
                None
            }
            Ans::Notice(s, ms) => {
                output.notice(s.as_str(), std::time::Duration::from_millis(*ms));
                None
            }
            Ans::Bell => {
                output.bell();
                None
            }
            Ans::Remove => {
                output.set_completor(None);
                None
            }
        }
    }
}

fn odd_key_events(k: &Key) -> Vec<crossterm::event::Event> {
    use crossterm::event::{Event, KeyCode, KeyModifiers, MouseEvent, MouseEventKind};
    let mut e = key_event(k);
    if let Event::Key(e) = &mut e {
        match k {
            Key::Ctl(n @ (9 | 10 | 13)) => {
                e.code = KeyCode::Char((n + 96) as char);
                e.modifiers = KeyModifiers::CONTROL;
            }
            _ => (),
        }
        e.modifiers |= KeyModifiers::SHIFT;
    }
    let mouse = MouseEvent { kind: MouseEventKind::Moved, column: 1, row: 2, modifiers: KeyModifiers::CONTROL };
    vec![Event::FocusLost, Event::Mouse(mouse), e, Event::FocusGained]
}
pub fn key_event(k: &Key) -> crossterm::event::Event {
    use crossterm::event::{Event, KeyCode, KeyEvent, KeyModifiers};
    let none = KeyModifiers::empty();
    let (c, m) = match k {
        Key::Ch(c) => (KeyCode::Char(*c), none),
        Key::Ctl(8) | Key::Ctl(127) => (KeyCode::Backspace, none),
        Key::Ctl(9) => (KeyCode::Tab, none),
        Key::Ctl(13) => (KeyCode::Enter, none),
        Key::Ctl(27) | Key::Esc => (KeyCode::Esc, none),
        Key::Ctl(28) => (KeyCode::Char('\\'), KeyModifiers::CONTROL),
        Key::Ctl(n) if *n >= 27 || *n == 0 => {
            (KeyCode::Char((n + 64) as char), KeyModifiers::CONTROL)
        }
        Key::Ctl(n) => (KeyCode::Char((n + 96) as char), KeyModifiers::CONTROL),
        Key::Left => (KeyCode::Left, none),
        Key::Right => (KeyCode::Right, none),
        Key::Up => (KeyCode::Up, none),
        Key::Down => (KeyCode::Down, none),
        Key::Home => (KeyCode::Home, none),
        Key::End => (KeyCode::End, none),
        Key::Del => (KeyCode::Delete, none),
        Key::Seq(_) => (KeyCode::F(5), none),
    };
    Event::Key(KeyEvent::new(c, m))
}

/// The real side of what every output handle can do.
pub fn output_op(io: &Output, op: &Op) {
    match op {
        Op::Print(l) => io.println(l.real()),
        Op::Wrap(l) => io.wrapln(l.real()),
        Op::Echo(l) => io.echoln(l.real()),
        Op::Status(l) => io.status(l.as_ref().map(|l| l.real())),
        Op::RemoveStatus => io.remove_status(),
        #[allow(deprecated)]
        Op::RemovePrompt(a, c) => io.remove_prompt(*a, *c),
        Op::Prompt(l, a, c) => io.prompt(l.real(), *a, *c),
        Op::Notice(l, ms) => io.notice(
            l.real(),
            if *ms == u64::MAX { std::time::Duration::MAX } else { std::time::Duration::from_millis(*ms) },
        ),
        Op::Bell => io.bell(),
        Op::Suspend(s) => {
            let s = s.clone();
            io.suspend_and_run(move || {
                let m = rt::world().modes();
                rt::world().log.push(format!("suspended normal={}", m.normal()));
                let y = rt::world().term.abs_y();
                let below = rt::world().term.all_rows().iter().skip(y).all(|r| {
                    r.iter().all(|c| c.s.is_empty() || c.s == " ")
                });
                rt::world().log.push(format!("clean={below} x={}", rt::world().term.x));
                let text = messy(&s, rt::world().term.kind == mcrt::term::Kind::Vt52);
                rt::world().tty_write(text.as_bytes());
            })
        }
        Op::Custom(n) if n % 2 == 1 => io.send_custom_box(Box::new(*n)),
        Op::Custom(n) => io.send_custom(*n),
        Op::Completor(c) => {
            io.set_completor(c.clone().map(|c| Box::new(RealComp(c)) as Box<dyn Completor>))
        }
        op => panic!("not an operation of an output handle: {}", op.show()),
    }
}

/// In what is written while Liso is suspended: leave the terminal in a mess.
pub const MESS: char = '\u{2}';
fn messy(s: &str, vt52: bool) -> String {
    s.replace(MESS, if vt52 { "\x1bb1\x1bc4\x1bp\x1bv\x1be" } else { "\x1b[1;4;7;31;45m\x1b[?7h\x1b[?25h" })
}

/// Which control code a response names, and which it should.
pub fn codes(r: &Response) -> (u8, u8) {
    let want = match r {
        Response::Input(_) => 10,
        Response::Discarded(_) => 7,
        Response::Custom(_) => 0,
        Response::Quit => 3,
        Response::Finish => 4,
        Response::Info => 20,
        Response::Dead | Response::Break => 28,
        Response::Escape => 27,
        Response::Swap => 24,
        Response::Unknown(x) => *x,
        _ => r.as_unknown(),
    };
    (r.as_unknown(), want)
}

pub struct Sess {
    pub io: Option<InputOutput>,
    pub m: Model,
    pub cfg: Cfg,
    pub got: Vec<String>,
    /// responses that name the wrong control code
    pub miscoded: Vec<String>,
    seen_stops: u32,
    last_err: bool,
}

impl Sess {
    pub fn new(cfg: &Cfg) -> Sess {
        let io = InputOutput::new();
        if !cfg.hist.is_empty() || cfg.limit.is_some() || !cfg.strip {
            let mut h = History::new();
            h.set_limit(None);
            h.set_strip_duplicates(false);
            for l in &cfg.hist {
                let _ = h.add_line(l.clone());
            }
            h.set_limit(std::num::NonZeroUsize::new(cfg.limit.unwrap_or(100)));
            h.set_strip_duplicates(cfg.strip);
            io.swap_history(h);
        }
        Sess { io: Some(io), m: cfg.model(), cfg: cfg.clone(), got: vec![], miscoded: vec![], seen_stops: 0, last_err: false }
    }
    pub fn io(&self) -> &InputOutput {
        self.io.as_ref().unwrap()
    }
    pub fn send_key(&self, keys: &[Key]) {
        if self.cfg.events {
            for k in keys {
                if self.cfg.odd {
                    for e in odd_key_events(k) {
                        rt::world().events.push_back(Box::new(e));
                    }
                    continue;
                }
                rt::world().events.push_back(Box::new(key_event(k)));
            }
            mcrt::rt::progress();
        } else {
            let mut b = vec![];
            for k in keys {
                match (self.cfg.show, k) {
                    // liso does not know the arrow keys of a VT52; the control keys do the same
                    (Show::Vt52(..), Key::Left) => b.push(2),
                    (Show::Vt52(..), Key::Right) => b.push(6),
                    (Show::Vt52(..), Key::Home) => b.push(1),
                    (Show::Vt52(..), Key::End) => b.push(5),
                    (Show::Vt52(..), Key::Up) => b.push(16),
                    (Show::Vt52(..), Key::Down) => b.push(14),
                    (Show::Vt52(..), Key::Del) => panic!("no such key on a VT52"),
                    _ => b.extend(k.bytes()),
                }
            }
            type_bytes(&b);
        }
    }
    /// The real side of an operation.
    pub fn real(&self, op: &Op) {
        let io = self.io();
        match op {
            Op::Key(k) => {
                self.send_key(std::slice::from_ref(k));
                if *k == Key::Esc {
                    rt::settle();
                    rt::advance(ESC_MS as u128 * MS);
                }
            }
            Op::Chunk(v) => self.send_key(v),
            Op::Advance(ms) => {
                rt::settle();
                rt::advance(*ms as u128 * MS);
            }
            Op::SwapHist(h) => {
                let mut n = History::new();
                n.set_strip_duplicates(false).set_limit(None);
                for l in h {
                    let _ = n.add_line(l.clone());
                }
                n.set_strip_duplicates(self.cfg.strip);
                n.set_limit(std::num::NonZeroUsize::new(self.cfg.limit.unwrap_or(100)));
                io.swap_history(n);
            }
            Op::Stderr(b) => {
                let n = mcrt::world::sys_write(2, b);
                assert_eq!(n.ok(), Some(b.len()), "writing to standard error failed");
            }
            op => output_op(io, op),
        }
    }
    pub fn op(&mut self, op: &Op) {
        // what the completor asks for is queued behind keys that have already arrived
        let asks = op.is_key()
            && self.m.completor.as_ref().is_some_and(|c| {
                matches!(c.ans, Ans::Print(_) | Ans::Notice(..) | Ans::Bell | Ans::Remove)
            });
        if let (true, Op::Chunk(v)) = (asks, op) {
            for k in v {
                self.op(&Op::Key(k.clone()));
            }
            return;
        }
        // standard error takes another way than everything else
        let err = matches!(op, Op::Stderr(_));
        if err != std::mem::replace(&mut self.last_err, err) {
            rt::settle();
        }
        self.real(op);
        self.m.apply(op);
        if asks {
            rt::settle();
        }
    }
    pub fn drain(&mut self) {
        if let Some(io) = self.io.as_mut() {
            let mut n = 0;
            while let Some(r) = io.try_read() {
                let dead = matches!(r, Response::Dead);
                self.got.push(show_resp(&r));
                let (code, want) = codes(&r);
                if code != want {
                    self.miscoded.push(format!("{r:?} names the code {code} instead of {want}"));
                }
                n += 1;
                if dead || n > 1000 {
                    break;
                }
            }
        }
    }
    /// Settle and compare everything that is to be compared.
    pub fn check(&mut self) -> Res {
        rt::settle();
        self.m.tick();
        self.drain();
        let panics = rt::rt_panics();
        if let Some(p) = panics.first() {
            return fail("panic", format!("thread {} panicked: {}", p.thread, p.message));
        }
        if self.m.stops != self.seen_stops {
            self.resumed()?;
        }
        self.compare()
    }
    /// After a stop: what was on screen stays, the shell wrote below it, and the display comes after.
    fn resumed(&mut self) -> Res {
        self.seen_stops = self.m.stops;
        let t = &rt::world().term;
        let rows = t.all_rows();
        let (edit, pos) = self.m.edit_rows();
        // the new display stands at the cursor
        let top = if self.m.notice.is_none() {
            t.abs_y().checked_sub(pos.1)
        } else {
            (t.abs_y() + 1).checked_sub(edit.len())
        };
        let Some(top) = top else {
            return fail("resume", format!("no display after resuming: {}", t.dump()));
        };
        if top < self.m.committed.len() {
            return fail("resume", format!("the display covers printed lines after resuming: {}", t.dump()));
        }
        let old = self.m.committed.len();
        self.m.committed.extend(rows[old..top].iter().cloned());
        if !self.cfg.shell.is_empty() {
            for l in self.cfg.shell.trim_end_matches(MESS).lines() {
                let have = rows[old..top].iter().any(|r| mcrt::term::Term::row_text(r) == l);
                if !have {
                    return fail("resume", format!("what the shell wrote ({l:?}) is gone: {}", t.dump()));
                }
            }
        }
        Ok(())
    }
    pub fn compare(&mut self) -> Res {
        let t = &rt::world().term;
        if let Some(e) = t.errors.first() {
            return fail("sequence", format!("the terminal got something it does not understand: {e}"));
        }
        if self.m.cleared {
            self.m.cleared = false;
            let n = t.scrollback.len();
            self.m.committed.truncate(n);
            if self.m.committed.len() < n {
                let have = t.scrollback[self.m.committed.len()..n].to_vec();
                self.m.committed.extend(have);
            }
        }
        let (edit, pos) = self.m.edit_rows();
        let cmp = self.cfg.cmp;
        if cmp.text || cmp.attrs {
            let rows = t.all_rows();
            let k = self.m.committed.len();
            let n = rows.len().max(k + edit.len());
            let blank: Row = vec![self.cfg.show.blank(); self.cfg.w];
            for i in 0..n {
                let want = if i < k {
                    &self.m.committed[i]
                } else {
                    edit.get(i - k).unwrap_or(&blank)
                };
                let got = rows.get(i).unwrap_or(&blank);
                if !same(got, want, cmp.attrs) {
                    return fail(
                        "screen",
                        format!(
                            "row {i} shows {} instead of {}; screen:\n{}",
                            show_row(got),
                            show_row(want),
                            t.dump()
                        ),
                    );
                }
            }
        }
        if cmp.cursor {
            let vis = self.m.cursor_shown();
            if t.cursor_visible != vis {
                return fail(
                    "cursor-visible",
                    format!("the cursor is {}; screen:\n{}", if vis { "hidden" } else { "visible" }, t.dump()),
                );
            }
            let want = (pos.0, self.m.committed.len() + pos.1);
            if vis && (t.x, t.abs_y()) != want {
                return fail(
                    "cursor",
                    format!("the cursor is at {:?} instead of {:?}; screen:\n{}", (t.x, t.abs_y()), want, t.dump()),
                );
            }
        }
        if cmp.modes && !rt::world().raw {
            return fail("raw", "the terminal is not in raw mode");
        }
        if cmp.resp && self.got != self.m.responses {
            return fail("responses", format!("got {:?} instead of {:?}", self.got, self.m.responses));
        }
        if cmp.bells && t.bells != self.m.bells {
            return fail("bells", format!("the bell rang {} times instead of {}", t.bells, self.m.bells));
        }
        Ok(())
    }
    pub fn comp_log(&self) -> Vec<String> {
        rt::world().log.iter().filter(|l| l.contains('|')).cloned().collect()
    }
}

pub fn same(a: &Row, b: &Row, attrs: bool) -> bool {
    if attrs {
        let n = a.len().max(b.len());
        (0..n).all(|i| match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) => x == y || look(x) == look(y),
            _ => false,
        })
    } else {
        let n = a.len().max(b.len());
        let s = |r: &Row, i: usize| -> (String, u8) {
            match r.get(i) {
                None => (String::new(), 1),
                Some(c) if c.s == " " => (String::new(), 1),
                Some(c) => (c.s.clone(), c.w),
            }
        };
        (0..n).all(|i| s(a, i) == s(b, i))
    }
}
pub fn row_eq(a: &Cell, b: &Cell) -> bool {
    look(a) == look(b)
}

/// Failures of the execution itself.
pub fn outcome_ok<R>(o: &Outcome<R>) -> Res {
    if let Some(f) = &o.failure {
        return match f {
            rt::Failure::Divergence(d) => fail("infra", d.clone()),
            rt::Failure::Deadlock(d) => fail("deadlock", format!("nothing can go on: {d}")),
            rt::Failure::Livelock(d) => fail("livelock", format!("threads wait for ever without progress: {d}")),
            rt::Failure::StepLimit(d) => fail("endless", format!("the program runs without end: {d}")),
            rt::Failure::Killed(d) => fail("killed", d.clone()),
        };
    }
    Ok(())
}

/// Run `f` as the main thread of one sequential execution.
pub fn exec(world: World, ctx: &mut Ctx, f: impl FnOnce() -> Res + 'static) -> Res {
    exec_with(&Opts::seq(), &[], world, ctx, f).1
}

pub fn exec_with(
    opts: &Opts,
    devs: &[rt::Dev],
    world: World,
    ctx: &mut Ctx,
    f: impl FnOnce() -> Res + 'static,
) -> (Vec<rt::Point>, Res) {
    let dump: Rc<RefCell<(String, u64, Vec<&'static str>)>> = Rc::new(RefCell::new(Default::default()));
    let d2 = dump.clone();
    let verbose = ctx.verbose;
    let opts = &if opts.explore && crate::engine::free() { opts.clone().free() } else { opts.clone() };
    let o = rt::run_with(opts, devs, world, f, move |w| {
        let mut d = d2.borrow_mut();
        d.1 = w.out_hash;
        d.2 = w.tolerate.clone();
        if verbose {
            d.0 = format!("{}\nmodes {:?}\n{:?}", w.term.dump(), w.modes(), String::from_utf8_lossy(&w.tty_bytes));
        }
    });
    ctx.execs += 1;
    ctx.observe(dump.borrow().1);
    ctx.observe(o.steps);
    // what was written is an outcome; where a schedule could have gone on otherwise is a state
    if ctx.outcomes.len() < 1 << 21 {
        ctx.outcomes.insert(dump.borrow().1);
    }
    if opts.explore && ctx.states.len() < 1 << 21 {
        ctx.states.extend(o.state_hashes.iter().copied());
    }
    if verbose {
        println!("--- {} steps, {} choice points", o.steps, o.points.len());
        println!("{}", dump.borrow().0);
        for p in &o.panics {
            println!("panic in {}: {}", p.thread, p.message);
        }
        println!("failure: {:?}; left over: {:?}", o.failure, o.leftover);
    }
    let r = judge(&o, &dump.borrow().2);
    (o.points, r)
}
fn judge(o: &Outcome<Res>, tolerate: &[&str]) -> Res {
    outcome_ok(o)?;
    match &o.result {
        Some(Err(f)) => Err(f.clone()),
        Some(Ok(())) => {
            let odd = |p: &&rt::PanicRec| !p.message.starts_with("expected") && !tolerate.iter().any(|t| p.message.starts_with(t));
            match o.panics.iter().find(odd) {
                Some(p) => fail("panic", format!("thread {} panicked: {}", p.thread, p.message)),
                None => Ok(()),
            }
        }
        None => fail(
            "panic",
            format!("the main thread panicked: {} ({:?})", o.main_panic.as_deref().unwrap_or("?"), o.panics),
        ),
    }
}

impl Drop for Sess {
    fn drop(&mut self) {
        if self.cfg.events && self.io.is_some() && rt::active() {
            rt::world().events_closed = true;
            mcrt::rt::progress();
        }
    }
}
pub fn shut(mut s: Sess) {
    if s.cfg.events {
        rt::world().events_closed = true;
        mcrt::rt::progress();
    }
    s.io = None;
}

/// How the operations of a sequence follow each other.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pace {
    /// everything settles after each operation
    Each,
    /// nothing settles before the end, except where order would be lost
    Burst,
}

/// Apply `setup` and then `ops`, comparing whenever things have settled.
pub fn run_ops(
    cfg: &Cfg,
    setup: &[Op],
    ops: &[Op],
    pace: Pace,
    ctx: &mut Ctx,
    extra: impl Fn(&mut Sess) -> Res + 'static,
) -> Res {
    let c = cfg.clone();
    let (setup, ops) = (setup.to_vec(), ops.to_vec());
    let n = setup.len() + ops.len();
    let seen: Rc<RefCell<Vec<u64>>> = Rc::new(RefCell::new(vec![]));
    let s2 = seen.clone();
    let r = exec(cfg.world(), ctx, move || {
        let mut s = Sess::new(&c);
        for op in &setup {
            s.op(op);
            if op.is_key() || matches!(op, Op::Advance(_)) {
                rt::settle();
                s.m.tick();
                s.drain();
            }
        }
        rt::settle();
        s.m.tick();
        for (i, op) in ops.iter().enumerate() {
            s.op(op);
            s2.borrow_mut().push(crate::engine::hash_of(&s.m));
            let last = i + 1 == ops.len();
            let next_key = ops.get(i + 1).is_some_and(|o| o.is_key());
            if last || pace == Pace::Each || (op.is_key() && !next_key) || matches!(op, Op::Advance(_)) {
                s.check()?;
            }
        }
        if ops.is_empty() {
            s.check()?;
        }
        extra(&mut s)?;
        shut(s);
        Ok(())
    });
    ctx.transitions += n as u64;
    for h in seen.borrow().iter() {
        ctx.states.insert(*h);
    }
    r.map_err(|f: Fail| Fail { key: f.key, msg: f.msg })
}

/// All sequences over `alpha` of length 1..=depth, shortest first, in every configuration.
pub struct Space {
    pub cfgs: Vec<(String, Cfg, Vec<Op>)>,
    pub alpha: Vec<Op>,
    pub depth: u32,
    pub paces: Vec<Pace>,
}
impl Space {
    fn seqs(&self) -> u64 {
        let a = self.alpha.len() as u64;
        (1..=self.depth).map(|d| a.pow(d)).sum()
    }
    pub fn total(&self) -> u64 {
        self.seqs() * (self.cfgs.len() * self.paces.len()) as u64
    }
    pub fn get(&self, mut i: u64) -> (&(String, Cfg, Vec<Op>), Pace, Vec<Op>) {
        let c = self.cfgs.len() as u64;
        let p = self.paces.len() as u64;
        let cfg = &self.cfgs[(i % c) as usize];
        i /= c;
        let pace = self.paces[(i % p) as usize];
        i /= p;
        let a = self.alpha.len() as u64;
        let mut d = 1;
        while i >= a.pow(d) {
            i -= a.pow(d);
            d += 1;
        }
        let mut ops = vec![];
        for _ in 0..d {
            ops.push(self.alpha[(i % a) as usize].clone());
            i /= a;
        }
        ops.reverse();
        (cfg, pace, ops)
    }
    pub fn describe(&self, i: u64) -> String {
        let ((name, _, setup), pace, ops) = self.get(i);
        format!("{name}: [{}] then ({pace:?}) {}", show_ops(setup), show_ops(&ops))
    }
    pub fn family(
        self,
        name: &str,
        about: &str,
        extra: impl Fn(&mut Sess) -> Res + Clone + 'static,
    ) -> crate::engine::Family {
        let s = Rc::new(self);
        let s2 = s.clone();
        crate::engine::Family::seq(
            name,
            about,
            s.total(),
            move |i, ctx| {
                let ((_, cfg, setup), pace, ops) = s.get(i);
                run_ops(cfg, setup, &ops, pace, ctx, extra.clone())
            },
            move |i| s2.describe(i),
        )
    }
}
