//! Styled lines, twice: as liso `Line`s (built through its public interface) and as the reference
//! notion of a line, a plain list of styled characters.
use liso::{Color, Line, Style};
use mcrt::term::{Attr, Cell, Row};
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Piece {
    T(String),
    /// set the style to exactly these bits
    S(u32),
    Fg(Option<u8>),
    Bg(Option<u8>),
    Reset,
    /// text that becomes part of the line in one of the other ways there are
    Via(u8, String),
}
/// How many ways `Piece::Via` knows.
pub const WAYS: u8 = 12;
fn via(l: &mut Line, way: u8, s: &str) {
    use std::borrow::Cow;
    let made = match way {
        0 => Line::from_str(s),
        1 => Line::from_string(s.to_string()),
        2 => Line::from_cow(Cow::Borrowed(s)),
        3 => Line::from_cow(Cow::Owned(s.to_string())),
        4 => Line::from(s),
        5 => Line::from(s.to_string()),
        6 => Line::from(Cow::Borrowed(s)),
        7 => Line::from(Cow::<str>::Owned(s.to_string())),
        8 => s.parse().unwrap(),
        9 => {
            l.add_text(s.to_string());
            return;
        }
        10 => {
            l.add_text(Cow::<str>::Owned(s.to_string()));
            return;
        }
        _ => liso::liso!(s),
    };
    if l.is_empty() {
        *l = made;
    } else {
        l.append_line(&made);
    }
}
pub const BOLD: u32 = 1;
pub const DIM: u32 = 2;
pub const UNDER: u32 = 4;
pub const INV: u32 = 8;
pub const ITAL: u32 = 16;

/// A line to be built, both really and in the model.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct L(pub Vec<Piece>);

pub fn t(s: &str) -> L {
    L(vec![Piece::T(s.into())])
}
pub fn st(style: u32, s: &str) -> L {
    L(vec![Piece::S(style), Piece::T(s.into())])
}
pub fn fg(c: u8, s: &str) -> L {
    L(vec![Piece::Fg(Some(c)), Piece::T(s.into())])
}
pub fn bg(c: u8, s: &str) -> L {
    L(vec![Piece::Bg(Some(c)), Piece::T(s.into())])
}
impl L {
    pub fn and(mut self, o: L) -> L {
        self.0.extend(o.0);
        self
    }
    pub fn reset(mut self) -> L {
        self.0.push(Piece::Reset);
        self
    }
    pub fn real(&self) -> Line {
        let mut l = Line::new();
        for p in &self.0 {
            match p {
                Piece::T(s) => {
                    l.add_text(s.as_str());
                }
                Piece::S(b) => {
                    l.set_style(Style::from_bits_truncate(*b));
                }
                Piece::Fg(c) => {
                    l.set_fg_color(c.map(color));
                }
                Piece::Bg(c) => {
                    l.set_bg_color(c.map(color));
                }
                Piece::Reset => {
                    l.reset_all();
                }
                Piece::Via(way, s) => via(&mut l, *way, s),
            }
        }
        l
    }
    pub fn spec(&self) -> SLine {
        let mut l = SLine::default();
        for p in &self.0 {
            match p {
                Piece::T(s) => l.text(s),
                Piece::Via(_, s) => l.text(s),
                Piece::S(b) => l.end = with_style(l.end, *b),
                Piece::Fg(c) => l.end.fg = c.map(ansi),
                Piece::Bg(c) => l.end.bg = c.map(ansi),
                Piece::Reset => l.end = Attr::PLAIN,
            }
        }
        l
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for p in &self.0 {
            match p {
                Piece::T(x) => s += &format!("{x:?}"),
                Piece::S(b) => s += &format!("[style {b}]"),
                Piece::Fg(c) => s += &format!("[fg {c:?}]"),
                Piece::Bg(c) => s += &format!("[bg {c:?}]"),
                Piece::Reset => s += "[reset]",
                Piece::Via(way, x) => s += &format!("{x:?} by way {way}"),
            }
        }
        s
    }
}

/// Numbering used in the alphabets: liso's own order (Black Red Green Yellow Blue Cyan Magenta White)
pub fn color(i: u8) -> Color {
    match i {
        0 => Color::Black,
        1 => Color::Red,
        2 => Color::Green,
        3 => Color::Yellow,
        4 => Color::Blue,
        5 => Color::Cyan,
        6 => Color::Magenta,
        _ => Color::White,
    }
}
/// the ANSI number of that colour
pub fn ansi(i: u8) -> u8 {
    match i {
        5 => 6,
        6 => 5,
        x => x,
    }
}
pub fn color_index(c: Color) -> u8 {
    match c {
        Color::Black => 0,
        Color::Red => 1,
        Color::Green => 2,
        Color::Yellow => 3,
        Color::Blue => 4,
        Color::Cyan => 5,
        Color::Magenta => 6,
        Color::White => 7,
    }
}
pub fn with_style(mut a: Attr, b: u32) -> Attr {
    a.bold = b & BOLD != 0;
    a.dim = b & DIM != 0;
    a.underline = b & UNDER != 0;
    a.inverse = b & INV != 0;
    a.italic = b & ITAL != 0;
    a
}
pub fn style_of(a: Attr) -> u32 {
    (a.bold as u32) * BOLD
        | (a.dim as u32) * DIM
        | (a.underline as u32) * UNDER
        | (a.inverse as u32) * INV
        | (a.italic as u32) * ITAL
}

/// The reference notion of a line: its characters, each with its look, and the look in force at
/// the end.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct SLine {
    pub ch: Vec<(char, Attr)>,
    pub end: Attr,
}
pub fn is_ctl(c: char) -> bool {
    (c.is_control() && c != '\n') || c == '\u{2028}' || c == '\u{2029}'
}
/// visible notation of a control character
pub fn notation(c: char) -> String {
    let n = c as u32;
    if n < 32 {
        format!("^{}", char::from_u32(n + 64).unwrap())
    } else {
        format!("U+{n:04X}")
    }
}
impl SLine {
    pub fn text(&mut self, s: &str) {
        for c in s.chars() {
            if is_ctl(c) {
                let mut a = self.end;
                a.inverse = !a.inverse;
                for d in notation(c).chars() {
                    self.ch.push((d, a));
                }
            } else {
                self.ch.push((c, self.end));
            }
        }
    }
    pub fn plain(s: &str) -> SLine {
        let mut l = SLine::default();
        l.text(s);
        l
    }
    pub fn append(&mut self, o: &SLine) {
        self.ch.extend(o.ch.iter().cloned());
        if !o.ch.is_empty() || o.end != Attr::PLAIN {
            self.end = o.end;
        }
    }
    pub fn string(&self) -> String {
        self.ch.iter().map(|c| c.0).collect()
    }
}

pub fn cw(c: char) -> usize {
    UnicodeWidthChar::width(c).unwrap_or(0)
}
pub fn fills(a: Attr) -> bool {
    a.inverse || a.underline || a.bg.is_some()
}

/// What kind of terminal the model draws for.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Show {
    Ansi,
    /// colours, white on black
    Vt52(u8, bool),
}
impl Show {
    pub fn attr(&self, a: Attr) -> Attr {
        match *self {
            Show::Ansi => a,
            Show::Vt52(n, wob) => {
                let (f, b) = palette(n, wob, a.fg, a.bg);
                let (f, b) = if a.inverse { (b, f) } else { (f, b) };
                Attr { fg: Some(f), bg: Some(b), ..Attr::PLAIN }
            }
        }
    }
    pub fn blank(&self) -> Cell {
        Cell::blank(self.attr(Attr::PLAIN))
    }
}
/// the palette documented by the conversion tables (arguments are ANSI numbers)
pub fn palette(n: u8, wob: bool, fg: Option<u8>, bg: Option<u8>) -> (u8, u8) {
    const BRIGHT: [u8; 8] = [8, 1, 2, 13, 4, 12, 9, 0];
    const DIMM: [u8; 8] = [15, 3, 5, 11, 6, 14, 10, 7];
    const FOUR: [u8; 8] = [15, 1, 2, 2, 3, 1, 2, 0];
    let g = |t: &[u8; 8], c: Option<u8>, d: u8| c.map(|c| t[c as usize]).unwrap_or(d);
    match (n, wob) {
        (16, true) => (g(&BRIGHT, fg, 0), g(&DIMM, bg, 15)),
        (16, false) => (g(&DIMM, fg, 15), g(&BRIGHT, bg, 0)),
        (4, true) => (g(&FOUR, fg, 0), g(&FOUR, bg, 15)),
        (4, false) => (g(&FOUR, fg, 15), g(&FOUR, bg, 0)),
        (_, true) => (0, 15),
        (_, false) => (15, 0),
    }
}

struct Canvas {
    rows: Vec<Row>,
    x: usize,
    w: usize,
    show: Show,
}
impl Canvas {
    fn new(w: usize, show: Show) -> Canvas {
        Canvas { rows: vec![vec![]], x: 0, w, show }
    }
    /// `wrapped`: nothing has been said since the row above was filled up by characters
    fn put(&mut self, c: char, a: Attr, wrapped: bool) {
        let a = self.show.attr(a);
        let n = cw(c);
        if n == 0 {
            if matches!(self.show, Show::Vt52(..)) {
                return;
            }
            // joins the character before it, wherever that is
            let mut r = self.rows.len() - 1;
            if self.rows[r].is_empty() {
                if !wrapped {
                    return;
                }
                r -= 1;
            }
            let row = &mut self.rows[r];
            let mut k = row.len() - 1;
            if row[k].w == 0 && k > 0 {
                k -= 1;
            }
            if row[k].s.is_empty() {
                row[k].s.push(' ');
            }
            row[k].s.push(c);
            return;
        }
        let s = if matches!(self.show, Show::Vt52(..)) && c as u32 >= 0x80 {
            None
        } else {
            Some(c.to_string())
        };
        let row = self.rows.last_mut().unwrap();
        match s {
            Some(s) => {
                row.push(Cell { s, w: n as u8, a });
                if n == 2 {
                    row.push(Cell { s: String::new(), w: 0, a });
                }
            }
            None => {
                for _ in 0..n {
                    row.push(Cell { s: "\u{394}".into(), w: 1, a });
                }
            }
        }
        self.x += n;
    }
    fn fill(&mut self, a: Attr) {
        let f = if fills(a) { Cell::blank(self.show.attr(a)) } else { self.show.blank() };
        let row = self.rows.last_mut().unwrap();
        while row.len() < self.w {
            row.push(f.clone());
        }
        self.x = self.w;
    }
    fn newline(&mut self) {
        self.rows.push(vec![]);
        self.x = 0;
    }
    fn finish(mut self) -> Vec<Row> {
        let b = self.show.blank();
        for r in &mut self.rows {
            while r.len() < self.w {
                r.push(b.clone());
            }
        }
        self.rows
    }
}

/// The rows a printed line takes up.
pub fn rows_printed(l: &SLine, w: usize, show: Show) -> Vec<Row> {
    let mut k = Canvas::new(w, show);
    for &(c, a) in &l.ch {
        if c == '\n' {
            k.fill(a);
            k.newline();
            continue;
        }
        if cw(c) > 0 && k.x + cw(c) > w && k.x > 0 {
            k.fill(a);
            k.newline();
        }
        k.put(c, a, false);
    }
    k.fill(l.end);
    k.finish()
}

/// The rows of the status/prompt/input area and the position of the cursor when it stands before
/// character `cur`.
pub fn rows_edit(l: &SLine, cur: Option<usize>, w: usize, show: Show) -> (Vec<Row>, (usize, usize)) {
    let mut k = Canvas::new(w, show);
    let mut pos = (0, 0);
    let mut implied = false;
    for (i, &(c, a)) in l.ch.iter().enumerate() {
        if c != '\n' && cw(c) > 0 && k.x + cw(c) > w && k.x > 0 {
            k.fill(a);
            k.newline();
        }
        if cur == Some(i) {
            pos = (k.x, k.rows.len() - 1);
            if implied && c != '\n' && cw(c) == 0 {
                // on the character it is joined to
                pos = (w - 1, pos.1 - 1);
            }
        }
        if c == '\n' {
            if implied {
                implied = false;
                continue;
            }
            k.fill(a);
            k.newline();
            continue;
        }
        k.put(c, a, implied);
        if cw(c) > 0 {
            implied = false;
            if k.x >= w {
                k.newline();
                implied = true;
            }
        }
    }
    if cur == Some(l.ch.len()) {
        pos = (k.x, k.rows.len() - 1);
    }
    if fills(l.end) {
        k.fill(l.end);
    }
    (k.finish(), pos)
}

/// Two cells that look the same are the same.
pub fn look(c: &Cell) -> Cell {
    if c.s.is_empty() && c.w != 0 || c.s == " " {
        let mut a = c.a;
        a.bold = false;
        a.dim = false;
        a.italic = false;
        if !a.inverse && !a.underline {
            a.fg = None;
        }
        return Cell { s: String::new(), w: 1, a };
    }
    c.clone()
}
pub fn show_row(r: &Row) -> String {
    let mut s = String::new();
    for c in r {
        if c.w != 0 {
            s.push_str(if c.s.is_empty() { " " } else { &c.s });
        }
    }
    let s = s.trim_end().to_string();
    let mut at = String::new();
    let mut prev = Attr::PLAIN;
    for (x, c) in r.iter().enumerate() {
        let c = look(c);
        if c.a != prev {
            at += &format!(" {}:{}", x, if c.a == Attr::PLAIN { "-".into() } else { c.a.short() });
            prev = c.a;
        }
    }
    format!("{s:?}{at}")
}
