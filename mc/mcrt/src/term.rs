//! A strict terminal emulator: an xterm-like one (a small, exactly specified subset; anything else
//! is recorded as an error) and an Atari-style VT52.
use std::collections::BTreeMap;
use unicode_width::UnicodeWidthChar;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default, PartialOrd, Ord)]
pub struct Attr {
    pub bold: bool,
    pub dim: bool,
    pub italic: bool,
    pub underline: bool,
    pub inverse: bool,
    pub fg: Option<u8>,
    pub bg: Option<u8>,
}
impl Attr {
    pub const PLAIN: Attr = Attr {
        bold: false,
        dim: false,
        italic: false,
        underline: false,
        inverse: false,
        fg: None,
        bg: None,
    };
    pub fn short(&self) -> String {
        let mut s = String::new();
        for (b, c) in [
            (self.bold, 'b'),
            (self.dim, 'd'),
            (self.italic, 'i'),
            (self.underline, 'u'),
            (self.inverse, 'v'),
        ] {
            if b {
                s.push(c)
            }
        }
        if let Some(f) = self.fg {
            s += &format!("f{f}")
        }
        if let Some(f) = self.bg {
            s += &format!("g{f}")
        }
        s
    }
}

/// `w` is 1 or 2 for a cell that starts a character (an empty `s` is a blank) and 0 for the second
/// half of a wide one.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Cell {
    pub s: String,
    pub w: u8,
    pub a: Attr,
}
impl Cell {
    pub fn blank(a: Attr) -> Cell {
        Cell { s: String::new(), w: 1, a }
    }
    /// blanks and spaces look the same
    pub fn norm(&self) -> Cell {
        if self.s == " " {
            Cell { s: String::new(), w: 1, a: self.a }
        } else {
            self.clone()
        }
    }
}
pub type Row = Vec<Cell>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Ansi,
    Vt52,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
enum Ps {
    Ground,
    Esc,
    Csi(Vec<u8>),
    VtY1,
    VtY2(u8),
    VtFg,
    VtBg,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Modes {
    pub raw: bool,
    pub cursor_visible: bool,
    pub autowrap: bool,
    pub attr: Attr,
    pub attr_default: bool,
}
impl Modes {
    pub fn normal(&self) -> bool {
        !self.raw && self.cursor_visible && self.autowrap && self.attr_default
    }
}

#[derive(Clone, Debug)]
pub struct Term {
    pub kind: Kind,
    pub w: usize,
    pub h: usize,
    pub grid: Vec<Row>,
    pub scrollback: Vec<Row>,
    pub x: usize,
    pub y: usize,
    pub pending: bool,
    pub attr: Attr,
    /// the attributes it has when nobody has changed them
    pub base: Option<Attr>,
    pub autowrap: bool,
    pub cursor_visible: bool,
    pub bce: bool,
    pub bells: u32,
    pub errors: Vec<String>,
    /// a cursor movement that ran into the edge of the screen
    pub clamped: u32,
    /// a wide character that did not fit in the last column
    pub straddle: u32,
    /// a combining character with nothing to combine with
    pub orphans: u32,
    /// text printed past the right margin with autowrap off (it overwrites the last column)
    pub overprint: u32,
    pub clears: u32,
    ps: Ps,
    utf: Vec<u8>,
    pub seqs: BTreeMap<String, u32>,
    saved: (usize, usize),
}

impl Term {
    pub fn new(kind: Kind, w: usize, h: usize) -> Term {
        let attr = Attr::PLAIN;
        Term {
            kind,
            w,
            h,
            grid: vec![vec![Cell::blank(attr); w]; h],
            scrollback: vec![],
            x: 0,
            y: 0,
            pending: false,
            attr,
            base: None,
            autowrap: true,
            cursor_visible: true,
            bce: true,
            bells: 0,
            errors: vec![],
            clamped: 0,
            straddle: 0,
            orphans: 0,
            overprint: 0,
            clears: 0,
            ps: Ps::Ground,
            utf: vec![],
            seqs: BTreeMap::new(),
            saved: (0, 0),
        }
    }
    pub fn attr_default(&self) -> bool {
        if let Some(b) = self.base {
            return self.attr == b;
        }
        self.attr == Attr::PLAIN
            || self.kind == Kind::Vt52
                && matches!((self.attr.fg, self.attr.bg), (Some(15), Some(0)) | (Some(0), Some(15)))
    }
    fn err(&mut self, e: String) {
        if self.errors.len() < 20 {
            self.errors.push(e)
        }
    }
    fn fill(&self) -> Cell {
        if self.kind == Kind::Vt52 {
            return Cell::blank(Attr { bg: self.attr.bg, ..Attr::PLAIN });
        }
        let mut a = Attr::PLAIN;
        if self.bce {
            a.bg = self.attr.bg;
        }
        Cell::blank(a)
    }
    fn linefeed(&mut self) {
        self.pending = false;
        if self.y + 1 < self.h {
            self.y += 1;
        } else {
            let f = self.fill();
            let r = self.grid.remove(0);
            self.scrollback.push(r);
            self.grid.push(vec![f; self.w]);
        }
    }
    fn clear_cell(&mut self, y: usize, x: usize, f: &Cell) {
        // erasing half of a wide character erases all of it
        if self.grid[y][x].w == 2 && x + 1 < self.w {
            self.grid[y][x + 1] = Cell::blank(self.grid[y][x].a);
        }
        if self.grid[y][x].w == 0 && x > 0 {
            self.grid[y][x - 1] = Cell::blank(self.grid[y][x - 1].a);
        }
        self.grid[y][x] = f.clone();
    }
    fn put(&mut self, ch: char) {
        let cw = UnicodeWidthChar::width(ch).unwrap_or(0);
        if cw == 0 {
            let (mut x, y) = (self.x, self.y);
            if !self.pending {
                if x == 0 {
                    self.orphans += 1;
                    return;
                }
                x -= 1;
            }
            if self.grid[y][x].w == 0 && x > 0 {
                x -= 1;
            }
            if self.grid[y][x].s.is_empty() {
                self.grid[y][x].s.push(' ');
            }
            self.grid[y][x].s.push(ch);
            return;
        }
        if self.pending {
            if self.autowrap {
                self.x = 0;
                self.linefeed();
            } else {
                self.overprint += 1;
            }
            self.pending = false;
        }
        if self.x + cw > self.w {
            self.straddle += 1;
            if self.autowrap && cw <= self.w {
                self.x = 0;
                self.linefeed();
            } else if cw <= self.w {
                self.x = self.w - cw;
            } else {
                return;
            }
        }
        let a = self.attr;
        let b = Cell::blank(a);
        for k in 0..cw {
            self.clear_cell(self.y, self.x + k, &b);
        }
        self.grid[self.y][self.x] = Cell { s: ch.to_string(), w: cw as u8, a };
        if cw == 2 {
            self.grid[self.y][self.x + 1] = Cell { s: String::new(), w: 0, a };
        }
        self.x += cw;
        if self.x >= self.w {
            self.x = self.w - 1;
            self.pending = true;
        }
    }
    pub fn feed_str(&mut self, s: &str) {
        self.feed(s.as_bytes())
    }
    pub fn feed(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.byte(b)
        }
    }
    fn byte(&mut self, b: u8) {
        match std::mem::replace(&mut self.ps, Ps::Ground) {
            Ps::Ground => self.ground(b),
            Ps::Esc => match self.kind {
                Kind::Ansi => match b {
                    b'[' => self.ps = Ps::Csi(vec![]),
                    b'7' => self.saved = (self.x, self.y),
                    b'8' => {
                        self.x = self.saved.0;
                        self.y = self.saved.1;
                        self.pending = false;
                    }
                    _ => self.err(format!("unknown escape ESC {:?}", b as char)),
                },
                Kind::Vt52 => self.vt52(b),
            },
            Ps::Csi(mut p) => {
                if (0x40..0x7f).contains(&b) {
                    self.csi(&p, b);
                } else if (0x20..0x40).contains(&b) {
                    p.push(b);
                    self.ps = Ps::Csi(p);
                } else {
                    self.err(format!("control byte {b:#x} inside CSI"));
                }
            }
            Ps::VtY1 => self.ps = Ps::VtY2(b),
            Ps::VtY2(r) => {
                let row = r.saturating_sub(0x20) as usize;
                let col = b.saturating_sub(0x20) as usize;
                self.y = row.min(self.h - 1);
                self.x = col.min(self.w - 1);
                self.pending = false;
            }
            Ps::VtFg => self.attr.fg = Some(b & 15),
            Ps::VtBg => self.attr.bg = Some(b & 15),
        }
    }
    fn ground(&mut self, b: u8) {
        if !self.utf.is_empty() || b >= 0x80 {
            if self.kind == Kind::Vt52 {
                self.err(format!("byte {b:#x} sent to a VT52"));
                return;
            }
            if !self.utf.is_empty() && !(0x80..0xc0).contains(&b) {
                self.err("malformed UTF-8 output".to_string());
                self.utf.clear();
                if b < 0x80 {
                    return self.ground(b);
                }
            }
            self.utf.push(b);
            match std::str::from_utf8(&self.utf) {
                Ok(s) => {
                    let ch = s.chars().next().unwrap();
                    self.utf.clear();
                    if ch.is_control() || ch == '\u{2028}' || ch == '\u{2029}' {
                        self.err(format!("control character {ch:?} in the output"));
                    } else {
                        self.put(ch);
                    }
                }
                Err(e) => {
                    if e.error_len().is_some() || self.utf.len() >= 4 {
                        self.err("malformed UTF-8 output".to_string());
                        self.utf.clear();
                    }
                }
            }
            return;
        }
        match b {
            b'\r' => {
                self.x = 0;
                self.pending = false;
            }
            b'\n' => self.linefeed(),
            7 => self.bells += 1,
            8 => {
                self.x = self.x.saturating_sub(1);
                self.pending = false;
            }
            0x1b => self.ps = Ps::Esc,
            0x20..=0x7e => self.put(b as char),
            0x7f if self.kind == Kind::Vt52 => {
                // the Atari shows a glyph for this one
                self.put('\u{394}')
            }
            _ => self.err(format!("control byte {b:#x} in the output")),
        }
    }
    fn up(&mut self, n: usize) {
        if n > self.y {
            self.clamped += 1;
        }
        self.y = self.y.saturating_sub(n);
        self.pending = false;
    }
    fn down(&mut self, n: usize) {
        if self.y + n >= self.h {
            self.clamped += 1;
        }
        self.y = (self.y + n).min(self.h - 1);
        self.pending = false;
    }
    fn left(&mut self, n: usize) {
        if n > self.x {
            self.clamped += 1;
        }
        self.x = self.x.saturating_sub(n);
        self.pending = false;
    }
    fn right(&mut self, n: usize) {
        if self.x + n >= self.w {
            self.clamped += 1;
        }
        self.x = (self.x + n).min(self.w - 1);
        self.pending = false;
    }
    fn erase_line(&mut self, y: usize, from: usize, to: usize) {
        let f = self.fill();
        for x in from..to {
            self.clear_cell(y, x, &f);
        }
    }
    fn erase_below(&mut self) {
        let (x, y) = (self.x, self.y);
        self.erase_line(y, x, self.w);
        for r in y + 1..self.h {
            self.erase_line(r, 0, self.w);
        }
    }
    fn csi(&mut self, p: &[u8], fin: u8) {
        let text = String::from_utf8_lossy(p).to_string();
        *self.seqs.entry(format!("{}{}", text, fin as char)).or_insert(0) += 1;
        if let Some(q) = text.strip_prefix('?') {
            let on = match fin {
                b'h' => true,
                b'l' => false,
                _ => {
                    self.err(format!("unknown CSI ?{q}{}", fin as char));
                    return;
                }
            };
            for m in q.split(';') {
                match m {
                    "25" => self.cursor_visible = on,
                    "7" => {
                        self.autowrap = on;
                        if !on {
                            // xterm keeps the wrap flag, but never acts on it now
                        }
                    }
                    "2026" => (),
                    _ => self.err(format!("unknown private mode {m}")),
                }
            }
            return;
        }
        let mut nums: Vec<usize> = vec![];
        if !text.is_empty() {
            for t in text.split(';') {
                match t.parse::<usize>() {
                    Ok(v) => nums.push(v),
                    Err(_) if t.is_empty() => nums.push(0),
                    Err(_) => {
                        self.err(format!("malformed CSI {text}{}", fin as char));
                        return;
                    }
                }
            }
        }
        let n = nums.first().copied().unwrap_or(0).max(1);
        match fin {
            b'A' => self.up(n),
            b'B' => self.down(n),
            b'C' => self.right(n),
            b'D' => self.left(n),
            b'E' => {
                self.down(n);
                self.x = 0;
            }
            b'F' => {
                self.up(n);
                self.x = 0;
            }
            b'G' => {
                self.x = (n - 1).min(self.w - 1);
                self.pending = false;
            }
            b'd' => {
                self.y = (n - 1).min(self.h - 1);
                self.pending = false;
            }
            b'H' | b'f' => {
                let c = nums.get(1).copied().unwrap_or(0).max(1);
                self.y = (n - 1).min(self.h - 1);
                self.x = (c - 1).min(self.w - 1);
                self.pending = false;
            }
            b'J' => match nums.first().copied().unwrap_or(0) {
                0 => {
                    self.erase_below();
                    self.pending = false;
                }
                1 => {
                    for r in 0..self.y {
                        self.erase_line(r, 0, self.w);
                    }
                    let (x, y) = (self.x, self.y);
                    self.erase_line(y, 0, x + 1);
                }
                2 => {
                    self.clears += 1;
                    for r in 0..self.h {
                        self.erase_line(r, 0, self.w);
                    }
                    self.pending = false;
                }
                3 => self.scrollback.clear(),
                k => self.err(format!("unknown erase {k}")),
            },
            b'K' => {
                let (x, y) = (self.x, self.y);
                match nums.first().copied().unwrap_or(0) {
                    0 => self.erase_line(y, x, self.w),
                    1 => self.erase_line(y, 0, x + 1),
                    2 => self.erase_line(y, 0, self.w),
                    k => self.err(format!("unknown erase {k}")),
                }
                self.pending = false;
            }
            b's' => self.saved = (self.x, self.y),
            b'u' => {
                self.x = self.saved.0;
                self.y = self.saved.1;
                self.pending = false;
            }
            b'm' => self.sgr(&nums),
            _ => self.err(format!("unknown CSI {text}{}", fin as char)),
        }
    }
    fn sgr(&mut self, nums: &[usize]) {
        if nums.is_empty() {
            self.attr = Attr::PLAIN;
        }
        let mut i = 0;
        while i < nums.len() {
            let a = &mut self.attr;
            match nums[i] {
                0 => *a = Attr::PLAIN,
                1 => a.bold = true,
                2 => a.dim = true,
                3 => a.italic = true,
                4 => a.underline = true,
                7 => a.inverse = true,
                22 => {
                    a.bold = false;
                    a.dim = false
                }
                23 => a.italic = false,
                24 => a.underline = false,
                27 => a.inverse = false,
                k @ 30..=37 => a.fg = Some((k - 30) as u8),
                39 => a.fg = None,
                k @ 40..=47 => a.bg = Some((k - 40) as u8),
                49 => a.bg = None,
                k @ 90..=97 => a.fg = Some((k - 90 + 8) as u8),
                k @ 100..=107 => a.bg = Some((k - 100 + 8) as u8),
                k @ (38 | 48) => {
                    let c = if nums.get(i + 1) == Some(&5) && i + 2 < nums.len() {
                        let v = nums[i + 2];
                        i += 2;
                        v as u8
                    } else {
                        self.err(format!("unsupported colour {nums:?}"));
                        return;
                    };
                    if k == 38 {
                        a.fg = Some(c)
                    } else {
                        a.bg = Some(c)
                    }
                }
                k => {
                    self.err(format!("unknown SGR {k}"));
                }
            }
            i += 1;
        }
    }
    fn vt52(&mut self, b: u8) {
        *self.seqs.entry(format!("ESC {}", b as char)).or_insert(0) += 1;
        match b {
            b'A' => self.up(1),
            b'B' => self.down(1),
            b'C' => self.right(1),
            b'D' => self.left(1),
            b'H' => {
                self.x = 0;
                self.y = 0;
                self.pending = false;
            }
            b'E' => {
                self.x = 0;
                self.y = 0;
                self.erase_below();
                self.clears += 1;
                self.pending = false;
            }
            b'J' => {
                if (self.x, self.y) == (0, 0) {
                    self.clears += 1;
                }
                self.erase_below();
                self.pending = false;
            }
            b'K' => {
                let (x, y) = (self.x, self.y);
                self.erase_line(y, x, self.w);
                self.pending = false;
            }
            b'Y' => self.ps = Ps::VtY1,
            b'b' => self.ps = Ps::VtFg,
            b'c' => self.ps = Ps::VtBg,
            b'e' => self.cursor_visible = true,
            b'f' => self.cursor_visible = false,
            b'v' => self.autowrap = true,
            b'w' => self.autowrap = false,
            b'q' => self.attr.inverse = false,
            b'p' => self.attr.inverse = true,
            _ => self.err(format!("unknown VT52 escape ESC {:?}", b as char)),
        }
    }
    pub fn row_text(r: &Row) -> String {
        let mut s = String::new();
        for c in r {
            if c.w == 0 {
                continue;
            }
            if c.s.is_empty() {
                s.push(' ')
            } else {
                s.push_str(&c.s)
            }
        }
        s.trim_end_matches(' ').to_string()
    }
    pub fn all_rows(&self) -> Vec<Row> {
        let mut v = self.scrollback.clone();
        v.extend(self.grid.iter().cloned());
        v
    }
    pub fn lines(&self) -> Vec<String> {
        let mut v: Vec<String> = self.all_rows().iter().map(Term::row_text).collect();
        while v.last().is_some_and(|s| s.is_empty()) {
            v.pop();
        }
        v
    }
    /// absolute cursor row, counting the scrollback
    pub fn abs_y(&self) -> usize {
        self.scrollback.len() + self.y
    }
    pub fn dump(&self) -> String {
        let mut s = String::new();
        for (i, r) in self.all_rows().iter().enumerate() {
            if i > self.abs_y() && r.iter().all(|c| c.norm() == Cell::blank(Attr::PLAIN)) {
                continue;
            }
            s += &format!("{:2}|{}|", i, {
                let mut t = String::new();
                for c in r {
                    if c.w != 0 {
                        if c.s.is_empty() {
                            t.push('.')
                        } else {
                            t.push_str(&c.s)
                        }
                    }
                }
                t
            });
            let mut prev = Attr::PLAIN;
            for (x, c) in r.iter().enumerate() {
                if c.a != prev {
                    s += &format!(" {}:{}", x, if c.a == Attr::PLAIN { "-".into() } else { c.a.short() });
                    prev = c.a;
                }
            }
            if i == self.abs_y() {
                s += &format!(
                    "  <- cursor col {}{}{}",
                    self.x,
                    if self.pending { " pending" } else { "" },
                    if self.cursor_visible { "" } else { " hidden" }
                );
            }
            s.push('\n');
        }
        s
    }
}
