//! Enumerators shared by the checks.
use std::rc::Rc;

use crate::engine::{Ctx, Family, Res};
use crate::line::{cw, L};
use crate::model::{show_ops, Key, Op};
use crate::sess::{run_ops, Cfg, Pace, Sess};

/// All sequences of length 0..=depth (or 1..=depth) over an alphabet of `a` symbols, shortest first.
#[derive(Clone, Copy)]
pub struct Words {
    pub a: u64,
    pub min: u32,
    pub max: u32,
}
impl Words {
    pub fn total(&self) -> u64 {
        (self.min..=self.max).map(|d| self.a.pow(d)).sum()
    }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        let mut d = self.min;
        while i >= self.a.pow(d) {
            i -= self.a.pow(d);
            d += 1;
        }
        let mut v = vec![];
        for _ in 0..d {
            v.push((i % self.a) as usize);
            i /= self.a;
        }
        v.reverse();
        v
    }
}
pub fn word(toks: &[&str], v: &[usize]) -> String {
    v.iter().map(|&i| toks[i]).collect()
}

/// A way for a text to get onto the screen: setup operations and the operations that show the text.
#[derive(Clone)]
pub struct Path {
    pub name: &'static str,
    pub setup: Vec<Op>,
    pub make: fn(&str) -> Vec<Op>,
}

pub fn keys_of(s: &str) -> Vec<Key> {
    s.chars().map(|c| if (c as u32) < 32 || c as u32 == 127 { Key::Ctl(c as u8) } else { Key::Ch(c) }).collect()
}

/// Every word over `toks`, through every path, in every configuration.
pub fn texts(
    name: &str,
    about: &str,
    toks: &'static [&'static str],
    max: u32,
    paths: Vec<Path>,
    cfgs: Vec<(String, Cfg)>,
    extra: impl Fn(&mut Sess) -> Res + Clone + 'static,
) -> Family {
    let words = Words { a: toks.len() as u64, min: 0, max };
    let x = Rc::new((words, paths, cfgs));
    let y = x.clone();
    let total = words.total() * (x.1.len() * x.2.len()) as u64;
    let split = |x: &(Words, Vec<Path>, Vec<(String, Cfg)>), i: u64| {
        let np = x.1.len() as u64;
        let nc = x.2.len() as u64;
        ((i % np) as usize, (i / np % nc) as usize, x.0.get(i / np / nc))
    };
    Family::seq(
        name,
        about,
        total,
        move |i, ctx: &mut Ctx| {
            let (p, c, w) = split(&x, i);
            let s = word(toks, &w);
            run_ops(&x.2[c].1, &x.1[p].setup, &(x.1[p].make)(&s), Pace::Each, ctx, extra.clone())
        },
        move |i| {
            let (p, c, w) = split(&y, i);
            let s = word(toks, &w);
            format!(
                "{} {}: [{}] then {}",
                y.2[c].0,
                y.1[p].name,
                show_ops(&y.1[p].setup),
                show_ops(&(y.1[p].make)(&s))
            )
        },
    )
}

/// A list of explicit cases.
pub fn list(
    name: &str,
    about: &str,
    cases: Vec<(String, Cfg, Vec<Op>, Vec<Op>)>,
    paces: Vec<Pace>,
    extra: impl Fn(&mut Sess) -> Res + Clone + 'static,
) -> Family {
    let x = Rc::new((cases, paces));
    let y = x.clone();
    let n = x.1.len() as u64;
    Family::seq(
        name,
        about,
        x.0.len() as u64 * n,
        move |i, ctx| {
            let c = &x.0[(i / n) as usize];
            run_ops(&c.1, &c.2, &c.3, x.1[(i % n) as usize], ctx, extra.clone())
        },
        move |i| {
            let c = &y.0[(i / n) as usize];
            format!("{} [{}] then ({:?}) {}", c.0, show_ops(&c.2), y.1[(i % n) as usize], show_ops(&c.3))
        },
    )
}

pub fn line_of(parts: &[L]) -> L {
    L(parts.iter().flat_map(|p| p.0.clone()).collect())
}

/// A product of sizes, counted as one number.
pub struct Mix(pub Vec<u64>);
impl Mix {
    pub fn total(&self) -> u64 {
        self.0.iter().product()
    }
    pub fn get(&self, mut i: u64) -> Vec<usize> {
        self.0
            .iter()
            .map(|&n| {
                let r = i % n;
                i /= n;
                r as usize
            })
            .collect()
    }
}

/// An `Rc` that threads of the harness (coroutines on one thread of the system) share.
#[derive(Default)]
pub struct Shared<T>(Rc<T>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    pub fn new(x: T) -> Self {
        Shared(Rc::new(x))
    }
}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> std::ops::Deref for Shared<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}

/// How many characters a case of a `characters` family has.
const BLOCK: u64 = 64;
/// Every Unicode scalar value, a block of them per case. A quick run leaves out the planes that
/// have only ideographs, private characters or nothing in them.
fn blocks(thorough: bool) -> Vec<u64> {
    (0..0x110000 / BLOCK).filter(|b| thorough || matches!(b * BLOCK >> 12, 0..=3 | 0xa | 0xd..=0x11 | 0x16 | 0x1b | 0x1d..=0x20 | 0xe0 | 0x10f)).collect()
}
fn block(b: u64) -> Vec<char> {
    (b * BLOCK..(b + 1) * BLOCK).filter_map(|n| char::from_u32(n as u32)).collect()
}
pub fn characters(name: &str, about: &str, thorough: bool, f: impl Fn(&[char], &mut Ctx) -> Res + 'static) -> Family {
    let all = Rc::new(blocks(thorough));
    let a2 = all.clone();
    Family::seq(
        name,
        about,
        all.len() as u64,
        move |i, ctx| {
            let b = block(all[i as usize]);
            ctx.transitions += b.len() as u64;
            f(&b, ctx)
        },
        move |i| format!("the {BLOCK} characters from {:#x}", a2[i as usize] * BLOCK),
    )
}
/// The same in a session: these operations with each character that fits in two cells.
pub fn char_ops(
    name: &str,
    about: &str,
    thorough: bool,
    cfg: Cfg,
    setup: Vec<Op>,
    make: impl Fn(char) -> Vec<Op> + 'static,
    extra: impl Fn(&mut Sess) -> Res + Clone + 'static,
) -> Family {
    characters(name, about, thorough, move |chars, ctx| {
        let ops: Vec<Op> = chars.iter().filter(|c| cw(**c) <= 2).flat_map(|c| make(*c)).collect();
        run_ops(&cfg, &setup, &ops, Pace::Each, ctx, extra.clone())
    })
}

/// How often a schedule of `Family::sched_free`'s second kind may take the processor away from a
/// thread that could go on.
pub fn free_bound(thorough: bool) -> u32 {
    if thorough {
        2
    } else {
        1
    }
}
