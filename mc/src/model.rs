//! The reference model of a terminal session: what the documentation promises, in plain code.
use crate::line::{rows_edit, rows_printed, SLine, Show, L};
use mcrt::term::{Attr, Row};

pub const MS: u128 = 1_000_000;
/// comfortably more than liso's escape delay of 1/24 s
pub const ESC_MS: u64 = 42;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Key {
    Ch(char),
    /// a control character (0..=31 or 127)
    Ctl(u8),
    Left,
    Right,
    Up,
    Down,
    Home,
    End,
    Del,
    Esc,
    /// an escape sequence that is not supported
    Seq(&'static str),
}
impl Key {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Key::Ch(c) => c.to_string().into_bytes(),
            Key::Ctl(n) => vec![*n],
            Key::Left => b"\x1b[D".to_vec(),
            Key::Right => b"\x1b[C".to_vec(),
            Key::Up => b"\x1b[A".to_vec(),
            Key::Down => b"\x1b[B".to_vec(),
            Key::Home => b"\x1b[H".to_vec(),
            Key::End => b"\x1b[F".to_vec(),
            Key::Del => b"\x1b[3~".to_vec(),
            Key::Esc => b"\x1b".to_vec(),
            Key::Seq(s) => s.as_bytes().to_vec(),
        }
    }
    pub fn show(&self) -> String {
        match self {
            Key::Ch(c) => format!("{c:?}"),
            Key::Ctl(127) => "^?".into(),
            Key::Ctl(n) => format!("^{}", (n + 64) as char),
            k => format!("{k:?}"),
        }
    }
}
pub fn ctl(c: char) -> Key {
    Key::Ctl((c as u8) & 31)
}

/// What a completor answers.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ans {
    None,
    Insert(String),
    /// new line, cursor (bytes)
    Replace(String, usize),
    Print(String),
    Notice(String, u64),
    Bell,
    /// insert the number of presses
    Presses,
    /// the same line with the cursor before its n-th character (counted modulo)
    Move(usize),
    /// replace the whole completor request by setting another one / removing it
    Remove,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Comp {
    pub id: u32,
    pub ans: Ans,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Print(L),
    Wrap(L),
    Echo(L),
    Status(Option<L>),
    RemoveStatus,
    RemovePrompt(bool, bool),
    Prompt(L, bool, bool),
    Notice(L, u64),
    Bell,
    Key(Key),
    /// several keys arriving in one read
    Chunk(Vec<Key>),
    Advance(u64),
    /// suspend_and_run a function printing this text
    Suspend(String),
    Custom(u32),
    Completor(Option<Comp>),
    SwapHist(Vec<String>),
    /// something writes to standard error (P30)
    Stderr(Vec<u8>),
}
impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Print(l) => format!("println({})", l.show()),
            Op::Wrap(l) => format!("wrapln({})", l.show()),
            Op::Echo(l) => format!("echoln({})", l.show()),
            Op::Status(None) => "status(None)".into(),
            Op::RemoveStatus => "remove_status".into(),
            Op::RemovePrompt(a, c) => format!("remove_prompt({a}, {c})"),
            Op::Status(Some(l)) => format!("status({})", l.show()),
            Op::Prompt(l, a, c) => format!(
                "prompt({}{}{})",
                l.show(),
                if *a { "" } else { ", no input" },
                if *c { ", clear" } else { "" }
            ),
            Op::Notice(l, d) => format!("notice({}, {d}ms)", l.show()),
            Op::Bell => "bell".into(),
            Op::Key(k) => format!("key {}", k.show()),
            Op::Chunk(k) => {
                format!("keys {}", k.iter().map(|k| k.show()).collect::<Vec<_>>().join(""))
            }
            Op::Advance(d) => format!("wait {d}ms"),
            Op::Suspend(s) => format!("suspend_and_run({s:?})"),
            Op::Custom(n) => format!("send_custom({n})"),
            Op::Completor(c) => format!("set_completor({c:?})"),
            Op::Stderr(b) => format!("stderr({:?})", String::from_utf8_lossy(b)),
            Op::SwapHist(h) => format!("swap_history({h:?})"),
        }
    }
    pub fn is_key(&self) -> bool {
        matches!(self, Op::Key(_) | Op::Chunk(_))
    }
}
/// How a line that was written to standard error is shown.
pub fn err_line(b: &[u8]) -> L {
    let s = String::from_utf8_lossy(b);
    let s = s.strip_suffix('\r').unwrap_or(&s);
    crate::line::fg(1, "").and(crate::line::st(crate::line::BOLD, "E: ")).and(crate::line::st(0, s))
}
pub fn show_ops(ops: &[Op]) -> String {
    ops.iter().map(|o| o.show()).collect::<Vec<_>>().join("; ")
}

#[derive(Clone, Debug, Hash, PartialEq, Eq)]
pub struct Model {
    pub w: usize,
    pub show: Show,
    pub now: u128,
    pub status: Option<SLine>,
    pub prompt: Option<SLine>,
    pub notice: Option<(SLine, u128)>,
    pub allowed: bool,
    pub input: String,
    /// in bytes
    pub cursor: usize,
    pub clipboard: String,
    pub hist: Vec<String>,
    pub hist_limit: usize,
    pub strip: bool,
    pub nav: Option<usize>,
    pub orphan: Option<String>,
    pub orig: Option<String>,
    pub presses: u32,
    pub completor: Option<Comp>,
    pub comp_log: Vec<String>,
    /// rows above the edit area
    pub committed: Vec<Row>,
    pub responses: Vec<String>,
    pub bells: u32,
    /// the screen was cleared: the number of rows above is whatever the terminal scrolled away
    pub cleared: bool,
    /// the process was stopped
    pub stops: u32,
    pub suspends: Vec<String>,
    /// what was written to standard error since the last line break
    pub err: Vec<u8>,
}

/// The byte position of the n-th of all positions in the string.
pub fn nth_place(s: &str, n: usize) -> usize {
    let v: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    v[n % v.len()]
}
impl Model {
    pub fn new(w: usize, show: Show) -> Model {
        Model {
            w,
            show,
            now: 0,
            status: None,
            prompt: None,
            notice: None,
            allowed: true,
            input: String::new(),
            cursor: 0,
            clipboard: String::new(),
            err: vec![],
            hist: vec![],
            hist_limit: 100,
            strip: true,
            nav: None,
            orphan: None,
            orig: None,
            presses: 0,
            completor: None,
            comp_log: vec![],
            committed: vec![],
            responses: vec![],
            bells: 0,
            cleared: false,
            stops: 0,
            suspends: vec![],
        }
    }
    /// byte offsets at which a character with its zero-width followers starts
    fn starts(&self) -> Vec<usize> {
        let mut v = vec![];
        for (i, c) in self.input.char_indices() {
            if i == 0 || crate::line::cw(c) > 0 {
                v.push(i);
            }
        }
        v
    }
    fn prev(&self) -> usize {
        self.starts().into_iter().rev().find(|&s| s < self.cursor).unwrap_or(0)
    }
    fn next(&self) -> usize {
        self.starts().into_iter().find(|&s| s > self.cursor).unwrap_or(self.input.len())
    }
    fn say(&mut self, s: impl Into<String>) {
        self.responses.push(s.into());
    }
    fn leave_history(&mut self) {
        self.nav = None;
        self.orphan = None;
        self.orig = None;
    }
    pub fn add_history(&mut self, l: &str) {
        if self.strip {
            self.hist.retain(|x| x != l);
        }
        while self.hist.len() >= self.hist_limit {
            self.hist.remove(0);
        }
        self.hist.push(l.to_string());
    }
    fn enter(&mut self) {
        let s = std::mem::take(&mut self.input);
        self.cursor = 0;
        self.leave_history();
        self.add_history(&s);
        self.say(format!("Input({s:?})"));
    }
    fn clear_input(&mut self) {
        self.input.clear();
        self.cursor = 0;
        self.leave_history();
    }
    fn hist_prev(&mut self) {
        let to = match self.nav {
            None => self.hist.len().checked_sub(1),
            Some(0) => None,
            Some(x) => Some(x - 1),
        };
        match to {
            None => self.bells += 1,
            Some(i) => {
                if self.nav.is_none() {
                    self.orphan = Some(self.input.clone());
                }
                self.show_hist(i);
            }
        }
    }
    fn hist_next(&mut self) {
        match self.nav {
            None => self.bells += 1,
            Some(x) if x + 1 >= self.hist.len() => {
                self.input = self.orphan.take().unwrap_or_default();
                self.cursor = self.input.len();
                self.leave_history();
            }
            Some(x) => self.show_hist(x + 1),
        }
    }
    fn show_hist(&mut self, i: usize) {
        self.input = self.hist[i].clone();
        self.cursor = self.input.len();
        self.nav = Some(i);
        self.orig = Some(self.hist[i].clone());
    }
    fn swap_hist(&mut self, h: &[String]) {
        self.hist = h.to_vec();
        if self.nav.is_some() {
            let o = self.orig.clone().unwrap();
            match self.hist.iter().rposition(|x| *x == o) {
                Some(i) => self.nav = Some(i),
                None => self.leave_history(),
            }
        }
    }
    fn insert(&mut self, s: &str) {
        self.input.insert_str(self.cursor, s);
        self.cursor += s.len();
    }
    fn tab(&mut self) {
        self.presses += 1;
        let Some(c) = self.completor.clone() else { return };
        self.comp_log.push(format!("{}|{:?}|{}|{}", c.id, self.input, self.cursor, self.presses));
        match c.ans {
            Ans::None => (),
            Ans::Insert(s) => self.insert(&s),
            Ans::Presses => {
                let s = self.presses.to_string();
                self.insert(&s)
            }
            Ans::Replace(s, n) => {
                self.input = s;
                self.cursor = n;
            }
            Ans::Move(n) => self.cursor = nth_place(&self.input, n),
            Ans::Print(s) => self.commit(&SLine::plain(&s)),
            Ans::Notice(s, ms) => self.notice = Some((SLine::plain(&s), self.now + ms as u128 * MS)),
            Ans::Bell => self.bells += 1,
            Ans::Remove => self.completor = None,
        }
    }
    pub fn commit(&mut self, l: &SLine) {
        let r = rows_printed(l, self.w, self.show);
        self.committed.extend(r);
    }
    pub fn key(&mut self, k: &Key) {
        if !self.allowed {
            return;
        }
        if let Key::Seq(_) = k {
            return;
        }
        self.notice = None;
        if *k != Key::Ctl(9) {
            self.presses = 0;
        }
        match k {
            // liso only takes printable characters from the keyboard
            Key::Ch(c) if c.is_control() || matches!(c, '\u{2028}' | '\u{2029}') => (),
            Key::Ch(c) => self.insert(&c.to_string()),
            Key::Left | Key::Ctl(2) => self.cursor = self.prev(),
            Key::Right | Key::Ctl(6) => self.cursor = self.next(),
            Key::Home | Key::Ctl(1) => self.cursor = 0,
            Key::End | Key::Ctl(5) => self.cursor = self.input.len(),
            Key::Up | Key::Ctl(16) => self.hist_prev(),
            Key::Down | Key::Ctl(14) => self.hist_next(),
            Key::Del => {
                let n = self.next();
                self.input.replace_range(self.cursor..n, "");
            }
            Key::Ctl(8) | Key::Ctl(127) => {
                let p = self.prev();
                self.input.replace_range(p..self.cursor, "");
                self.cursor = p;
            }
            Key::Ctl(23) => {
                let st = self.starts();
                let mut i = st.iter().filter(|s| **s < self.cursor).count();
                let sp = |m: &Model, i: usize| m.input[st[i]..].starts_with(char::is_whitespace);
                while i > 0 && sp(self, i - 1) {
                    i -= 1;
                }
                while i > 0 && !sp(self, i - 1) {
                    i -= 1;
                }
                let to = st.get(i).copied().unwrap_or(self.cursor);
                if to < self.cursor {
                    self.input.replace_range(to..self.cursor, "");
                    self.cursor = to;
                }
            }
            Key::Ctl(11) => {
                if self.cursor < self.input.len() {
                    self.clipboard = self.input.split_off(self.cursor);
                }
            }
            Key::Ctl(21) => {
                if self.cursor > 0 {
                    let rest = self.input.split_off(self.cursor);
                    self.clipboard = std::mem::replace(&mut self.input, rest);
                    self.cursor = 0;
                }
            }
            Key::Ctl(25) => {
                let c = self.clipboard.clone();
                self.insert(&c);
            }
            Key::Ctl(3) => self.say("Quit"),
            Key::Ctl(4) => {
                if self.input.is_empty() {
                    self.say("Finish");
                } else {
                    self.clear_input();
                }
            }
            Key::Ctl(7) => {
                let s = self.input.clone();
                self.clear_input();
                self.say(format!("Discarded({s:?})"));
            }
            Key::Ctl(12) => {
                self.cleared = true;
            }
            Key::Ctl(20) => self.say("Info"),
            Key::Ctl(24) => self.say("Swap"),
            Key::Ctl(26) => self.stops += 1,
            Key::Ctl(9) => self.tab(),
            Key::Esc | Key::Ctl(27) => self.say("Escape"),
            Key::Ctl(28) => self.say("Break"),
            Key::Ctl(10) | Key::Ctl(13) => self.enter(),
            Key::Ctl(n) => self.say(format!("Unknown({n})")),
            Key::Seq(_) => (),
        }
    }
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Print(l) | Op::Echo(l) => self.commit(&l.spec()),
            Op::Stderr(b) => {
                for &x in b {
                    if x != b'\n' {
                        self.err.push(x);
                        continue;
                    }
                    let l = std::mem::take(&mut self.err);
                    self.commit(&err_line(&l).spec());
                }
            }
            Op::Wrap(l) => {
                let mut r = l.real();
                r.wrap_to_width(self.w);
                self.commit(&from_line(&r));
            }
            Op::Status(l) => self.status = l.as_ref().map(|l| l.spec()),
            Op::RemoveStatus => self.status = None,
            Op::RemovePrompt(a, c) => {
                self.prompt = None;
                self.allowed = *a;
                if *c {
                    self.clear_input();
                }
            }
            Op::Prompt(l, a, c) => {
                let l = l.spec();
                self.prompt = if l.ch.is_empty() { None } else { Some(l) };
                self.allowed = *a;
                if *c {
                    self.clear_input();
                }
            }
            Op::Notice(l, ms) => self.notice = Some((l.spec(), self.now + *ms as u128 * MS)),
            Op::Bell => self.bells += 1,
            Op::Key(k) => self.key(k),
            Op::Chunk(v) => v.iter().for_each(|k| self.key(k)),
            Op::Advance(ms) => self.now += *ms as u128 * MS,
            Op::Suspend(s) => {
                for l in s.trim_end_matches(crate::sess::MESS).lines() {
                    self.commit(&SLine::plain(l));
                }
                self.suspends.push(s.clone());
            }
            Op::Custom(n) => self.say(format!("Custom({n})")),
            Op::Completor(c) => self.completor = c.clone(),
            Op::SwapHist(h) => self.swap_hist(h),
        }
        if matches!(op, Op::Key(Key::Esc)) {
            self.now += ESC_MS as u128 * MS;
        }
    }
    /// Everything due by now has happened.
    pub fn tick(&mut self) {
        if let Some((_, d)) = self.notice {
            if d <= self.now {
                self.notice = None;
            }
        }
    }
    /// status, then notice or prompt and input; where the cursor is among its characters
    pub fn edit_line(&self) -> (SLine, Option<usize>) {
        let mut l = SLine::default();
        if let Some(s) = &self.status {
            l = s.clone();
            l.ch.push(('\n', l.end));
            l.end = Attr::PLAIN;
        }
        if let Some((n, _)) = &self.notice {
            l.append(n);
            return (l, None);
        }
        if let Some(p) = &self.prompt {
            l.append(p);
        }
        l.text(&self.input[..self.cursor]);
        let at = l.ch.len();
        l.text(&self.input[self.cursor..]);
        (l, Some(at))
    }
    pub fn cursor_shown(&self) -> bool {
        self.notice.is_none() && self.allowed
    }
    pub fn edit_rows(&self) -> (Vec<Row>, (usize, usize)) {
        let (l, c) = self.edit_line();
        rows_edit(&l, c, self.w, self.show)
    }
}

pub fn from_line(l: &liso::Line) -> SLine {
    use crate::line::{ansi, color_index, with_style};
    let a = |s: liso::Style, f: Option<liso::Color>, b: Option<liso::Color>| {
        let mut a = with_style(Attr::PLAIN, s.bits());
        a.fg = f.map(|c| ansi(color_index(c)));
        a.bg = b.map(|c| ansi(color_index(c)));
        a
    };
    let (f, b) = l.get_colors();
    SLine {
        ch: l.chars().map(|c| (c.ch, a(c.style, c.fg, c.bg))).collect(),
        end: a(l.get_style(), f, b),
    }
}
