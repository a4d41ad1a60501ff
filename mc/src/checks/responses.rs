//! P06, P10: receiving responses, and the end of them.
use std::cell::Cell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

use liso::{InputOutput, Response};
use mcrt::rt::{self, Nanos, Opts};
use mcrt::thread;
use mcrt::time::Instant;
use mcrt::world::type_bytes;

use super::life::{block_on, end, end_name, ENDS};
use super::threads::{handle_dead, is_pipe, worlds, STOPPED};
use super::util::{Shared, Words};
use crate::engine::{fail, Check, Ctx, Fail, Family, Res, Scen};
use crate::line::{bg, st, t, INV};
use crate::model::{show_ops, Key, Op, MS};
use crate::sess::{exec, exec_with, output_op, show_resp, Cfg};

/// Poll a future a single time.
pub fn poll_once<F: Future>(f: Pin<&mut F>) -> Option<F::Output> {
    struct Nop;
    impl Wake for Nop {
        fn wake(self: std::sync::Arc<Self>) {}
    }
    let w: Waker = std::sync::Arc::new(Nop).into();
    match f.poll(&mut Context::from_waker(&w)) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}

/// A way of reading.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
pub enum Rd {
    Async,
    Blocking,
    /// milliseconds
    Timeout(u64),
    TimeoutMax,
    /// milliseconds from now
    Deadline(i64),
    Try,
    /// `read_async` inside tokio's timeout
    AsyncTimeout(u64),
    /// `read_async`, polled once and dropped
    Dropped,
    /// the old names
    OldAsync,
    OldBlocking,
    /// not a read: time passes
    Pause(u64),
}
impl Rd {
    pub fn waits(self) -> bool {
        matches!(self, Rd::Async | Rd::Blocking | Rd::OldAsync | Rd::OldBlocking | Rd::TimeoutMax)
    }
    /// When it gives up, if it does.
    fn until(self, now: Nanos) -> Option<Nanos> {
        match self {
            Rd::Timeout(ms) | Rd::AsyncTimeout(ms) => Some(now + ms as u128 * MS),
            Rd::Deadline(ms) => Some((now as i128 + ms as i128 * MS as i128) as u128),
            Rd::Try | Rd::Dropped => Some(now),
            _ => None,
        }
    }
    pub fn read(self, io: &mut InputOutput) -> Option<Response> {
        let at = |ms: i64| {
            let n = Instant::now();
            if ms < 0 {
                n.checked_sub(Duration::from_millis(-ms as u64)).unwrap()
            } else {
                n.checked_add(Duration::from_millis(ms as u64)).unwrap()
            }
        };
        #[allow(deprecated)]
        match self {
            Rd::Async => Some(block_on(io.read_async())),
            Rd::OldAsync => Some(block_on(io.read())),
            Rd::Blocking => Some(io.read_blocking()),
            Rd::OldBlocking => Some(io.blocking_read()),
            Rd::Timeout(ms) => io.read_timeout(Duration::from_millis(ms)),
            Rd::TimeoutMax => io.read_timeout(Duration::MAX),
            Rd::Deadline(ms) => io.read_deadline(at(ms)),
            Rd::Try => io.try_read(),
            Rd::AsyncTimeout(ms) => {
                block_on(async { tokio::time::timeout(Duration::from_millis(ms), io.read_async()).await.ok() })
            }
            Rd::Dropped => {
                let mut f = Box::pin(io.read_async());
                poll_once(f.as_mut())
            }
            Rd::Pause(ms) => {
                rt::advance(ms as u128 * MS);
                None
            }
        }
    }
}

// ------------------------------------------------------------------ P06

/// What makes a response, and what that is.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Src {
    Custom(u32),
    Line(u32),
    Ctl(u8),
}
impl Src {
    fn resp(self) -> String {
        match self {
            Src::Custom(n) => format!("Custom({n})"),
            Src::Line(n) => format!("Input(\"{n}\")"),
            Src::Ctl(3) => "Quit".into(),
            Src::Ctl(n) => format!("Unknown({n})"),
        }
    }
    fn make(self, out: &liso::OutputOnly, pipe: bool) {
        match self {
            Src::Custom(n) => out.send_custom(n),
            Src::Line(n) if pipe => type_bytes(format!("{n}\n").as_bytes()),
            Src::Line(n) => type_bytes(format!("{n}\r").as_bytes()),
            Src::Ctl(n) => type_bytes(&[n]),
        }
    }
}

/// One thread produces at given times, the other reads.
fn timeline(produce: &[(u64, Src)], reads: &[Rd]) -> Res {
    let pipe = is_pipe();
    let mut io = InputOutput::new();
    rt::settle();
    let start = rt::now();
    let at: Vec<(Nanos, String)> = produce.iter().map(|(ms, s)| (start + *ms as u128 * MS, s.resp())).collect();
    let out = io.clone_output();
    let p2 = produce.to_vec();
    let h = thread::spawn(move || {
        for (ms, s) in p2 {
            rt::sleep_until(start + ms as u128 * MS);
            s.make(&out, pipe);
        }
    });
    let mut next = 0;
    for (i, r) in reads.iter().enumerate() {
        rt::settle();
        let now = rt::now();
        let due = at.get(next);
        if let Rd::Pause(_) = r {
            r.read(&mut io);
            continue;
        }
        if r.waits() && due.is_none() {
            continue;
        }
        let got = r.read(&mut io).map(|r| show_resp(&r));
        let then = rt::now();
        let until = r.until(now);
        let what = format!("read {i} ({r:?}, {} ms after the start)", (now - start) / MS);
        match got {
            Some(g) => {
                let Some((t, want)) = due else {
                    return fail("extra", format!("{what} gives {g}, but nothing has been sent that was not read"));
                };
                if g != *want {
                    return fail("order", format!("{what} gives {g} instead of {want}"));
                }
                if then != (*t).max(now) {
                    return fail("late", format!("{what} returns {} ms after the response was there", (then as i128 - *t as i128) / MS as i128));
                }
                if until.is_some_and(|u| then > u.max(now)) {
                    return fail("late", format!("{what} returns after its time"));
                }
                next += 1;
            }
            None => {
                let Some(u) = until else {
                    return fail("nothing", format!("{what} returns nothing"));
                };
                if then != u.max(now) {
                    return fail("time", format!("{what} gives up {} ms after it was called", (then - now) / MS));
                }
                if let Some((t, want)) = due {
                    // what comes at the very end of the time may come too late
                    if *t <= now || *t < u {
                        return fail("missed", format!("{what} returns nothing although {want} was there"));
                    }
                }
            }
        }
    }
    rt::advance(10_000 * MS);
    let _ = h.join();
    rt::settle();
    let mut rest = vec![];
    super::pipe::drain(&mut io, &mut rest)?;
    let want: Vec<String> = at[next..].iter().map(|x| x.1.clone()).collect();
    if rest != want {
        return fail("rest", format!("what is left to read is {rest:?} instead of {want:?}"));
    }
    drop(io);
    super::life::restored(false)
}

fn p06(thorough: bool) -> Check {
    let methods = [
        Rd::Async,
        Rd::Blocking,
        Rd::Timeout(0),
        Rd::Timeout(50),
        Rd::Timeout(120),
        Rd::TimeoutMax,
        Rd::Deadline(-50),
        Rd::Deadline(0),
        Rd::Deadline(70),
        Rd::Try,
        Rd::AsyncTimeout(60),
        Rd::Dropped,
        Rd::OldAsync,
        Rd::OldBlocking,
        Rd::Pause(50),
    ];
    let w = Words { a: methods.len() as u64, min: 1, max: if thorough { 4 } else { 3 } };
    // the times at which up to three responses are made
    let times = [0u64, 50, 100, 101, 150];
    let mut prods: Vec<Vec<(u64, Src)>> = vec![vec![]];
    let kinds: [&[Src]; 3] =
        [&[Src::Custom(1), Src::Custom(2), Src::Custom(3)], &[Src::Line(1), Src::Ctl(3), Src::Line(2)], &[Src::Custom(1), Src::Line(5), Src::Custom(2)]];
    for k in kinds {
        for i in 0..times.len() {
            prods.push(vec![(times[i], k[0])]);
            for j in i + 1..times.len() {
                prods.push(vec![(times[i], k[0]), (times[j], k[1])]);
                for l in j + 1..times.len() {
                    prods.push(vec![(times[i], k[0]), (times[j], k[1]), (times[l], k[2])]);
                }
            }
        }
    }
    let np = prods.len() as u64;
    let p2 = prods.clone();
    let tty = worlds()[0].1.clone();
    let f1 = Family::seq(
        "timelines",
        "every sequence of ways to read, against responses made at every combination of times",
        np * w.total(),
        move |i, ctx| {
            let reads: Vec<Rd> = w.get(i / np).iter().map(|&k| methods[k]).collect();
            let p = prods[(i % np) as usize].clone();
            ctx.transitions += (reads.len() + p.len()) as u64;
            ctx.state(&(&p, &reads));
            exec(tty.world(), ctx, move || timeline(&p, &reads))
        },
        move |i| format!("{:?}; {:?}", p2[(i % np) as usize], w.get(i / np).iter().map(|&k| methods[k]).collect::<Vec<_>>()),
    );
    let pipe_cfg = worlds()[2].1.clone();
    let m2 = [Rd::Async, Rd::Blocking, Rd::Timeout(0), Rd::Timeout(50), Rd::Deadline(-50), Rd::Deadline(70), Rd::Try, Rd::Dropped];
    let w2 = Words { a: m2.len() as u64, min: 1, max: if thorough { 5 } else { 3 } };
    let p3: Vec<Vec<(u64, Src)>> = p2_lines();
    let n3 = p3.len() as u64;
    let p4 = p3.clone();
    let f2 = Family::seq(
        "timelines-pipe",
        "the same without a terminal",
        n3 * w2.total(),
        move |i, ctx| {
            let reads: Vec<Rd> = w2.get(i / n3).iter().map(|&k| m2[k]).collect();
            let p = p3[(i % n3) as usize].clone();
            ctx.transitions += (reads.len() + p.len()) as u64;
            ctx.state(&(&p, &reads));
            exec(pipe_cfg.world(), ctx, move || timeline(&p, &reads))
        },
        move |i| format!("{:?}; {:?}", p4[(i % n3) as usize], w2.get(i / n3).iter().map(|&k| m2[k]).collect::<Vec<_>>()),
    );
    // many waiting to be read
    let counts: Vec<u64> = (1..=40).chain([64, 100, 127, 128, 129, 255, 256, 257, 1000, 1025]).chain(thorough.then_some(70_000)).collect();
    let nc = counts.len() as u64;
    let ways = [Rd::Async, Rd::Blocking, Rd::Timeout(1), Rd::Deadline(1), Rd::Try, Rd::AsyncTimeout(1), Rd::Dropped];
    let many_worlds: Vec<Cfg> = [0, 2].iter().map(|&k| worlds()[k].1.clone()).collect();
    let counts2 = counts.clone();
    let f4 = Family::seq(
        "many",
        "every number of responses up to 40 and larger ones made before any is read, then read in every way",
        nc * ways.len() as u64 * 3 * 2,
        move |i, ctx| {
            let (n, way) = (counts[(i % nc) as usize], ways[(i / nc) as usize % ways.len()]);
            let k = i / nc / ways.len() as u64;
            let (kind, pipe) = (k % 3, k / 3 == 1);
            let c = many_worlds[pipe as usize].clone();
            ctx.transitions += n;
            exec(c.world(), ctx, move || {
                let mut io = InputOutput::new();
                let out = io.clone_output();
                rt::settle();
                let mut want = vec![];
                for k in 0..n as u32 {
                    let src = match kind {
                        0 => Src::Custom(k),
                        1 => Src::Line(k),
                        _ if k % 3 == 0 => Src::Line(k),
                        _ => Src::Custom(k),
                    };
                    src.make(&out, pipe);
                    if kind == 2 {
                        rt::settle();
                    }
                    want.push(src.resp());
                }
                rt::settle();
                for (k, w) in want.iter().enumerate() {
                    let got = way.read(&mut io).map(|r| show_resp(&r));
                    if got.as_ref() != Some(w) {
                        return fail("lost", format!("response {k} is {got:?} instead of {w}"));
                    }
                }
                if let Some(r) = io.try_read() {
                    return fail("extra", format!("one more response: {}", show_resp(&r)));
                }
                drop(io);
                Ok(())
            })
        },
        move |i| format!("{} responses, {:?}, {}", counts2[(i % nc) as usize], ways[(i / nc) as usize % ways.len()], i / nc / ways.len() as u64),
    );
    // long waits
    const FAR: [u64; 12] = [
        999,
        1000,
        1001,
        65_536,
        599_999,
        600_001,
        3_600_000,
        4_294_968,
        86_400_000,
        2_147_483_648,
        4_294_967_300,
        400 * 86_400_000,
    ];
    let tty5 = worlds()[0].1.clone();
    let far = move |i: u64| {
        let ms = FAR[i as usize % FAR.len()];
        let k = i as usize / FAR.len();
        let way = [Rd::Timeout(ms), Rd::Deadline(ms as i64), Rd::AsyncTimeout(ms)][k % 3];
        let p = match k / 3 {
            0 => vec![],
            1 => vec![(ms - 1, Src::Custom(1))],
            2 => vec![(ms / 2, Src::Line(1)), (ms / 2 + 1, Src::Custom(2))],
            3 => vec![(ms + 1, Src::Custom(1))],
            _ => vec![(1, Src::Custom(1)), (ms, Src::Line(2))],
        };
        let reads = match k / 3 {
            0 | 1 => vec![way, Rd::Try],
            3 => vec![way, Rd::Async],
            _ => vec![way, way, Rd::Try],
        };
        (p, reads)
    };
    let f5 = Family::seq(
        "long waits",
        "waiting for up to more than a year, in every way with a time limit, with responses long before, right before, and right after it",
        (FAR.len() * 3 * 5) as u64,
        move |i, ctx| {
            let (p, reads) = far(i);
            ctx.transitions += (reads.len() + p.len()) as u64;
            ctx.state(&(&p, &reads));
            exec(tty5.world(), ctx, move || timeline(&p, &reads))
        },
        move |i| format!("{:?}", far(i)),
    );
    // schedules
    let mixes: Vec<(&str, Vec<Rd>)> = vec![
        ("read_async", vec![Rd::Async]),
        ("read_blocking", vec![Rd::Blocking]),
        ("read_timeout", vec![Rd::Timeout(5)]),
        ("read_deadline", vec![Rd::Deadline(5), Rd::Deadline(-1)]),
        ("try_read", vec![Rd::Try]),
        ("read_async dropped, and others", vec![Rd::Dropped, Rd::AsyncTimeout(0), Rd::AsyncTimeout(5), Rd::Blocking]),
        ("all in turn", vec![Rd::Async, Rd::Timeout(0), Rd::Blocking, Rd::Try, Rd::Deadline(3)]),
    ];
    let mut scens = vec![];
    for (wn, wc) in [worlds()[0].clone(), worlds()[2].clone()] {
        for (name, mix) in &mixes {
            for timed in [false, true] {
                if timed && !mix.iter().any(|m| m.until(0x1000_0000_0000).is_some()) {
                    continue;
                }
                for keys in [false, true] {
                    let (c, mix) = (wc.clone(), mix.clone());
                    scens.push(Scen {
                        name: format!(
                            "{wn}, {name}, two threads send{}{}",
                            if keys { ", keys arrive" } else { "" },
                            if timed { ", timers fire at any moment" } else { "" }
                        ),
                        bound: if thorough { 4 } else { 3 },
                        run: Box::new(move |devs, ctx| {
                            let o = if timed { Opts::explore().timers() } else { Opts::explore() };
                            let mix = mix.clone();
                            exec_with(&o, devs, c.world(), ctx, move || senders(&mix, keys, timed))
                        }),
                    });
                }
            }
        }
    }
    // one thread that sends and types in turn
    for (wn, wc) in [worlds()[0].clone(), worlds()[2].clone()] {
        for order in 0..6 {
            let c = wc.clone();
            scens.push(Scen {
                name: format!("{wn}, calls and keys of one thread in turn, {order}"),
                bound: if thorough { 4 } else { 3 },
                run: Box::new(move |devs, ctx| {
                    let c = c.clone();
                    exec_with(&Opts::explore(), devs, c.world(), ctx, move || in_turn(order))
                }),
            });
        }
    }
    let f3 = Family::sched_free("senders", "every schedule of two senders, the user, and a reader that mixes ways of reading", scens, super::util::free_bound(thorough));
    Check {
        families: vec![f1, f2, f4, f5, f3],
        rule: "responses come once each, in the order made; a read that waits returns when the response is there and not later; nothing is returned only at the deadline with nothing there; try_read takes no time".into(),
        assumptions: vec!["what is made at the very moment a time limit ends may be returned by that call or by the next".into()],
    }
}
fn p2_lines() -> Vec<Vec<(u64, Src)>> {
    let mut v = vec![vec![]];
    let times = [0u64, 50, 51, 100];
    for a in 0..4 {
        v.push(vec![(times[a], Src::Line(1))]);
        for b in a + 1..4 {
            v.push(vec![(times[a], Src::Line(1)), (times[b], Src::Custom(2))]);
            v.push(vec![(times[a], Src::Custom(1)), (times[b], Src::Line(2))]);
            v.push(vec![(times[a], Src::Line(1)), (times[b], Src::Line(2))]);
        }
    }
    v
}
/// What is typed after a call comes after it.
fn in_turn(order: u32) -> Res {
    rt::exploring(false);
    let pipe = is_pipe();
    let mut io = InputOutput::new();
    let out = io.clone_output();
    rt::settle();
    rt::exploring(true);
    let key = if pipe { Src::Line(7) } else { [Src::Ctl(3), Src::Line(7)][(order % 2) as usize] };
    let mut want = vec![];
    match order / 2 {
        0 => (),
        1 => out.println("first"),
        _ => {
            Src::Custom(0).make(&out, pipe);
            want.push(Src::Custom(0).resp());
        }
    }
    Src::Custom(1).make(&out, pipe);
    want.push(Src::Custom(1).resp());
    out.notice(crate::line::t("n").real(), Duration::from_millis(1));
    Src::Custom(2).make(&out, pipe);
    want.push(Src::Custom(2).resp());
    key.make(&out, pipe);
    want.push(key.resp());
    rt::settle();
    rt::exploring(false);
    let mut got = vec![];
    super::pipe::drain(&mut io, &mut got)?;
    if got != want {
        return fail("order", format!("the responses are {got:?} instead of {want:?}"));
    }
    end(io, 0);
    super::life::restored(false)
}
fn senders(mix: &[Rd], keys: bool, timed: bool) -> Res {
    rt::exploring(false);
    let pipe = is_pipe();
    let mut io = InputOutput::new();
    rt::settle();
    rt::exploring(true);
    let mut hs = vec![];
    let left = Shared::new(Cell::new(2));
    for who in 1..=2u32 {
        let out = io.clone_output();
        let left = left.clone();
        hs.push(thread::spawn(move || {
            for i in 1..=2 {
                if timed && i == 2 {
                    rt::sleep_until(rt::now() + 3 * MS);
                }
                out.send_custom(who * 10 + i);
            }
            left.set(left.get() - 1);
        }));
    }
    let mut want = 4;
    if keys {
        type_bytes(if pipe { b"k\nl\n" } else { b"k\rl\r" });
        want += 2;
    }
    let mut got: Vec<String> = vec![];
    let mut i = 0;
    let mut idle = 0;
    while got.len() < want {
        let m = mix[i % mix.len()];
        i += 1;
        let now = rt::now();
        let r = m.read(&mut io);
        let then = rt::now();
        match &r {
            Some(r) => got.push(show_resp(r)),
            None => {
                let Some(u) = m.until(now) else {
                    return fail("nothing", format!("{m:?} returns nothing"));
                };
                if then < u {
                    return fail("time", format!("{m:?} gives up after {} ns", then - now));
                }
                if matches!(m, Rd::Try | Rd::Dropped) && then != now && !timed {
                    return fail("time", format!("{m:?} takes {} ns", then - now));
                }
                idle += 1;
                if idle > 6 {
                    // enough of that: wait for what is to come
                    super::life::wait_for("senders", || left.get() == 0);
                    rt::settle();
                }
                if idle > 20 {
                    return fail("missed", format!("only {got:?} can be read"));
                }
            }
        }
        if let Some(Response::Dead) = r {
            return fail("dead", "Dead although alive");
        }
    }
    rt::exploring(false);
    for h in hs {
        let _ = h.join();
    }
    rt::settle();
    super::pipe::drain(&mut io, &mut got)?;
    let pick = |f: &dyn Fn(&str) -> bool| got.iter().filter(|g| f(g)).cloned().collect::<Vec<_>>();
    let one = pick(&|g| g.starts_with("Custom(1"));
    let two = pick(&|g| g.starts_with("Custom(2"));
    let typed = pick(&|g| g.starts_with("Input"));
    let expect: &[&str] = if keys { &["Input(\"k\")", "Input(\"l\")"] } else { &[] };
    if one != ["Custom(11)", "Custom(12)"] || two != ["Custom(21)", "Custom(22)"] || typed != expect || got.len() != want {
        return fail("order", format!("the responses are {got:?}"));
    }
    end(io, 0);
    super::life::restored(false)
}

// ------------------------------------------------------------------ P10

const LOOPING: &str = "Client program is looping forever";
const NO_STDOUT: &str = "failed printing to stdout";

#[derive(Clone, Debug, Hash)]
struct Death {
    world: usize,
    fail_at: u64,
    partial: bool,
    /// writes work again afterwards
    once: bool,
    ops: Vec<Op>,
    /// which way of reading comes first
    first: usize,
    /// how often Dead is read
    reads: usize,
    end: usize,
}
const READS: [Rd; 9] = [
    Rd::Async,
    Rd::Timeout(1000),
    Rd::Blocking,
    Rd::Try,
    Rd::Deadline(1000),
    Rd::OldAsync,
    Rd::AsyncTimeout(1000),
    Rd::OldBlocking,
    Rd::Deadline(-5),
];
/// Read what is left: `n` times Dead, without any time passing.
fn read_dead(io: &mut InputOutput, first: usize, n: usize, already: usize) -> Res {
    for k in 0..n {
        let m = READS[(first + k) % READS.len()];
        let now = rt::now();
        let r = catch_unwind(AssertUnwindSafe(|| m.read(io))).map_err(rt::filter_unwind);
        if rt::now() != now {
            return fail("dead-waits", format!("{m:?} waits although Liso is dead"));
        }
        match r {
            Ok(Some(Response::Dead)) if already + k + 1 < 9 => (),
            Ok(r) => return fail("dead", format!("{m:?}, for the {}. time after the death, returns {:?}", already + k + 1, r.map(|r| show_resp(&r)))),
            Err(e) => {
                let m2 = rt::payload_text(&*e);
                if !m2.starts_with(LOOPING) || already + k + 1 < 9 {
                    return fail("dead", format!("{m:?}, for the {}. time after the death, panics: {m2}", already + k + 1));
                }
            }
        }
    }
    Ok(())
}
fn death(d: &Death) -> Res {
    super::life::mark();
    rt::world().tolerate.extend([LOOPING, NO_STDOUT, STOPPED]);
    let w = rt::world();
    w.fail_write_at = Some(d.fail_at);
    w.fail_partial = d.partial;
    if d.once {
        w.fail_writes = 1;
    }
    let pipe = is_pipe();
    // the partial write itself succeeds; the next one fails
    let failed = |d: &Death| rt::world().out_writes > d.fail_at + (d.partial && !d.once) as u64;
    let any_failed = |d: &Death| rt::world().out_writes > d.fail_at;
    let mut io = InputOutput::new();
    let mut got: Vec<String> = vec![];
    let mut want: Vec<String> = vec![];
    let mut dead = 0;
    'ops: for o in &d.ops {
        let r = catch_unwind(AssertUnwindSafe(|| match o {
            Op::Key(Key::Ctl(13)) => type_bytes(if pipe { b"in\n" } else { b"in\r" }),
            Op::Key(Key::Ch(_)) => type_bytes(b"k"),
            Op::Suspend(s) => {
                let s = s.clone();
                io.suspend_and_run(move || rt::world().log.push(s.clone()))
            }
            o => output_op(&io, o),
        }));
        if r.map_err(rt::filter_unwind).is_err() && !any_failed(d) {
            return fail("stopped", format!("{} panics although nothing has failed", o.show()));
        }
        match o {
            Op::Key(Key::Ctl(13)) => {
                let k = want.iter().filter(|w| w.starts_with("Input")).count();
                let _ = k;
                want.push("Input".into());
            }
            Op::Custom(n) => want.push(format!("Custom({n})")),
            _ => (),
        }
        rt::settle();
        loop {
            match io.try_read() {
                Some(Response::Dead) => {
                    dead += 1;
                    if !any_failed(d) {
                        return fail("dead-alive", "Dead is reported although nothing has failed");
                    }
                    break 'ops;
                }
                Some(r) => {
                    let s = show_resp(&r);
                    got.push(if s.starts_with("Input") { "Input".into() } else { s });
                }
                None => break,
            }
        }
        if !any_failed(d) && got != want {
            return fail("responses", format!("got {got:?} instead of {want:?}"));
        }
        if failed(d) && !d.once {
            return fail("silent", format!("a write has failed, and after {} Dead has not been reported", o.show()));
        }
    }
    if !want.starts_with(&got) {
        return fail("responses", format!("got {got:?}, where {want:?} was to be expected up to the death"));
    }
    if dead > 0 {
        read_dead(&mut io, d.first, d.reads, dead)?;
    }
    let h = io.clone_output();
    // reading after the limit has panicked: this must work all the same
    end(io, d.end);
    // (if it is the last thing written that fails, nothing can be asked of the terminal's modes)
    super::life::given_back(d.once && d.fail_at + 1 < rt::world().out_writes, true)?;
    handle_dead(&h)?;
    if d.once && d.fail_at < rt::world().out_writes {
        rt::world().fail_write_at = None;
        rt::world().input.clear();
        // whatever was lost, the next one works
        super::life::works(!pipe, false)?;
    }
    Ok(())
}

fn show_death(d: &Death) -> String {
    format!(
        "{}: write {} fails{}, {}, then {} reads from {:?} on, then {}",
        worlds()[d.world].0,
        d.fail_at,
        if d.partial { " in the middle" } else if d.once { " once" } else { "" },
        show_ops(&d.ops),
        d.reads,
        READS[d.first],
        end_name(d.end)
    )
}
/// Every sequence of calls and keys up to the given length, with the terminal failing under it.
pub fn failing_writes(name: &str, depth: u32, fails: u64) -> Family {
    let alpha = vec![
        Op::Print(t("line")),
        Op::Print(bg(3, &"long ".repeat(300))),
        Op::Status(Some(st(INV, "status\nx"))),
        Op::Key(Key::Ctl(13)),
        Op::Key(Key::Ch('k')),
        Op::Custom(7),
        Op::Notice(t("note"), 1000),
        Op::Suspend("suspended".into()),
        Op::Bell,
        Op::Prompt(t(&"no line break in it ".repeat(80)), true, false),
    ];
    let wd = Words { a: alpha.len() as u64, min: 1, max: depth };
    let reads = [0usize, 1, 8, 9];
    let radix = [3u64, fails, 3, 3];
    let per: u64 = radix.iter().product();
    let al = alpha.clone();
    let dec = move |i: u64| -> Death {
        let mut k = i % per;
        let mut take = |n: u64| {
            let x = k % n;
            k /= n;
            x
        };
        let world = take(3) as usize;
        let fail_at = take(fails);
        let how = take(3);
        let end = take(3) as usize;
        let v = wd.get(i / per);
        Death {
            world,
            fail_at,
            partial: how == 1,
            once: how == 2,
            first: (i / per) as usize % READS.len(),
            reads: reads[(i / per) as usize % 4],
            end,
            ops: v.iter().map(|&k| al[k].clone()).collect(),
        }
    };
    let dec = Rc::new(dec);
    let ws = worlds();
    let d2 = dec.clone();
    let wc: Vec<Cfg> = ws.iter().map(|w| w.1.clone()).collect();
    Family::seq(
        name,
        "every sequence of calls and keys, with every write failing, wholly, in part or once",
        per * wd.total(),
        move |i, ctx| {
            let d = dec(i);
            ctx.transitions += d.ops.len() as u64;
            ctx.state(&d);
            exec(wc[d.world].world(), ctx, move || death(&d))
        },
        move |i| show_death(&d2(i)),
    )
}
fn p10(thorough: bool) -> Check {
    let f1 = failing_writes("failing writes", if thorough { 4 } else { 3 }, if thorough { 14 } else { 10 });
    let wc3: Vec<Cfg> = worlds().into_iter().map(|w| w.1).collect();
    // every order of the ways of reading, and every number of them
    let orders: Vec<(usize, usize, usize, usize)> = (0..3)
        .flat_map(|w| (0..READS.len()).flat_map(move |f| (0..=10).flat_map(move |n| (0..ENDS).map(move |e| (w, f, n, e)))))
        .collect();
    let o2 = orders.clone();
    let mk = |(w, f, n, e): (usize, usize, usize, usize)| Death {
        world: w,
        fail_at: 0,
        partial: false,
        once: false,
        ops: vec![Op::Custom(1), Op::Print(t("x")), Op::Print(t("y"))],
        first: f,
        reads: n,
        end: e,
    };
    let f2 = Family::seq(
        "dead reads",
        "after a death: from every way of reading on, every number of reads, then every way of shutting down",
        orders.len() as u64,
        move |i, ctx: &mut Ctx| {
            let d = mk(orders[i as usize]);
            ctx.transitions += d.reads as u64;
            ctx.state(&d);
            exec(wc3[d.world].world(), ctx, move || death(&d))
        },
        move |i| show_death(&mk(o2[i as usize])),
    );
    // schedules: a reader waits while another thread's line kills it
    let mut scens = vec![];
    for (wn, wc) in worlds().into_iter().take(3) {
        for m in [Rd::Async, Rd::Blocking, Rd::Timeout(100_000), Rd::Deadline(100_000), Rd::TimeoutMax] {
            for fail_at in [0, 1] {
                for e in [0, 2] {
                    if e == 2 && m != Rd::Async {
                        continue;
                    }
                    let c = wc.clone();
                    scens.push(Scen {
                        name: format!("{wn}, {m:?} waits, write {fail_at} fails, then {}", end_name(e)),
                        bound: if thorough { 4 } else { 3 },
                        run: Box::new(move |devs, ctx| {
                            let c = c.clone();
                            exec_with(&Opts::explore(), devs, c.world(), ctx, move || waiting(m, fail_at, e))
                        }),
                    });
                }
            }
        }
    }
    let f3 = Family::sched_free("waiting", "every schedule of a reader waiting while another thread's output fails", scens, super::util::free_bound(thorough));
    Check {
        families: vec![f1, f2, f3],
        rule: "up to the failure responses are as expected; then, after those already made, Dead from every way of reading, at once, up to eight times; the ninth panics; shutting down completes in every way, input and mode of the terminal are given back, handles panic; Dead is never reported before".into(),
        assumptions: vec!["the end of standard input does not stop Liso".into()],
    }
}
fn waiting(m: Rd, fail_at: u64, e: usize) -> Res {
    rt::exploring(false);
    rt::world().tolerate.extend([LOOPING, NO_STDOUT, STOPPED]);
    let mut io = InputOutput::new();
    rt::settle();
    let w = rt::world();
    w.fail_write_at = Some(w.out_writes + fail_at);
    rt::exploring(true);
    let out = io.clone_output();
    let h = thread::spawn(move || {
        let r = catch_unwind(AssertUnwindSafe(|| {
            out.send_custom(1u32);
            for _ in 0..3 {
                out.println("a");
                rt::settle();
            }
            out.send_custom(2u32);
        }));
        r.map_err(rt::filter_unwind).is_ok()
    });
    if fail_at > 0 {
        type_bytes(b"k");
    }
    let mut got = vec![];
    loop {
        let now = rt::now();
        match m.read(&mut io) {
            None => return Err(Fail { key: "nothing".into(), msg: format!("{m:?} gave up after {} ns", rt::now() - now) }),
            Some(Response::Dead) => break,
            Some(r) => got.push(show_resp(&r)),
        }
        if got.len() > 5 {
            return fail("extra", format!("{got:?}"));
        }
    }
    if got != ["Custom(1)"] {
        return fail("responses", format!("the responses before the death are {got:?}"));
    }
    read_dead(&mut io, 0, 3, 1)?;
    end(io, e);
    rt::exploring(false);
    if let Ok(true) = h.join() {
        return fail("no-panic", "printing to a dead terminal returns as if nothing was wrong");
    }
    super::shutdown::returned(false)
}

pub fn build(id: &str, thorough: bool) -> Option<Check> {
    Some(match id {
        "P06" => p06(thorough),
        "P10" => p10(thorough),
        _ => return None,
    })
}
