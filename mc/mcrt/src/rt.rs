//! The controlled scheduler.  Every simulated thread is a coroutine; exactly one runs at a time, on
//! a single OS thread, and control changes hands only at the scheduling points in this crate.
use corosensei::{stack::DefaultStack, Coroutine, CoroutineResult, Yielder};
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

use crate::world::World;

pub type Nanos = u128;
/// Virtual time at which every execution starts.
pub const EPOCH: Nanos = 1_000_000_000_000;

#[derive(Clone, Debug)]
pub struct Opts {
    /// true: every scheduling point is a choice; false: threads run until they block.
    pub explore: bool,
    /// allow "the clock jumps to the next deadline first" as a choice
    pub timer_race: bool,
    /// choices made when the running thread blocks or ends cost nothing
    pub free_block: bool,
    pub max_steps: u64,
}
impl Opts {
    pub fn seq() -> Opts {
        Opts { explore: false, timer_race: false, free_block: false, max_steps: 2_000_000 }
    }
    pub fn explore() -> Opts {
        Opts { explore: true, timer_race: false, free_block: false, max_steps: 200_000 }
    }
    pub fn timers(mut self) -> Opts {
        self.timer_race = true;
        self
    }
    pub fn free(mut self) -> Opts {
        self.free_block = true;
        self
    }
}

/// One deviation from the default schedule: at choice point `pos`, which offered `n`
/// alternatives, take `choice`.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dev {
    pub pos: u32,
    pub choice: u32,
    pub n: u32,
}

#[derive(Clone, Copy, Debug)]
pub struct Point {
    pub n: u32,
    pub chosen: u32,
    pub cost: u8,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Failure {
    Deadlock(String),
    Livelock(String),
    StepLimit(String),
    Killed(String),
    Divergence(String),
}

#[derive(Clone, Debug)]
pub struct PanicRec {
    pub thread: String,
    pub message: String,
}

pub struct Outcome<R> {
    pub result: Option<R>,
    pub failure: Option<Failure>,
    pub panics: Vec<PanicRec>,
    pub points: Vec<Point>,
    pub steps: u64,
    pub switches: u64,
    /// names of the threads that had not finished when the main thread did
    pub leftover: Vec<String>,
    pub main_panic: Option<String>,
    pub state_hashes: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}

type Pred = *const (dyn Fn() -> bool + 'static);

pub(crate) struct Thr {
    pub name: Option<String>,
    co: Option<Coroutine<(), (), (), DefaultStack>>,
    yielder: *const Yielder<(), ()>,
    st: St,
    wait: Option<Pred>,
    deadline: Option<Nanos>,
    settling: bool,
    yielded: bool,
    /// set while the thread sits in a (simulated) blocking system call
    pub in_syscall: bool,
    pub interrupted: bool,
    pub park_token: bool,
    pub timer_hint: Option<Nanos>,
    /// thread-local values, by the address of their key
    pub locals: Vec<(usize, std::rc::Rc<dyn std::any::Any>)>,
    ops: u64,
    label: &'static str,
}

pub(crate) struct Rt {
    pub threads: Vec<Thr>,
    pub cur: usize,
    pub now: Nanos,
    opts: Opts,
    may_explore: bool,
    devs: Vec<Dev>,
    dev_i: usize,
    points: Vec<Point>,
    next: Option<usize>,
    pub failure: Option<Failure>,
    pub panics: Vec<PanicRec>,
    pub world: World,
    steps: u64,
    switches: u64,
    progress: u64,
    progress_mark: u64,
    pub in_hook: bool,
    /// only the first thread runs: it holds what the panic hook of the second waits for
    only: Option<(usize, usize)>,
    state_hashes: Vec<u64>,
}

static mut RT: *mut Rt = std::ptr::null_mut();
static mut TEARDOWN: bool = false;
static mut PROGRESS: u64 = 0;
thread_local! {
    static STACKS: RefCell<Vec<DefaultStack>> = const { RefCell::new(Vec::new()) };
}
const STACK: usize = 1 << 20;

#[allow(static_mut_refs)]
pub(crate) fn rt() -> &'static mut Rt {
    unsafe {
        assert!(!RT.is_null(), "liso code ran outside the model-checking runtime");
        &mut *RT
    }
}
pub fn active() -> bool {
    unsafe { !RT.is_null() }
}
/// True while the remains of an execution are being unwound: every operation then returns at once.
pub fn teardown() -> bool {
    unsafe { TEARDOWN || RT.is_null() }
}
pub fn world() -> &'static mut World {
    &mut rt().world
}
pub fn now() -> Nanos {
    if active() {
        rt().now
    } else {
        EPOCH
    }
}
/// Record that shared state changed (used to tell a spinning thread from one making progress).
pub fn progress() {
    unsafe { PROGRESS += 1 }
}

fn suspend() {
    let y = {
        let r = rt();
        r.threads[r.cur].yielder
    };
    unsafe { (*y).suspend(()) };
}

fn fail(f: Failure) -> ! {
    if rt().failure.is_none() {
        rt().failure = Some(f);
    }
    loop {
        suspend();
        // Resumed only by forced unwinding, which does not return here.
    }
}

/// The execution ends here with a failure (for instance: killed by a signal).
pub fn die(why: Failure) -> ! {
    fail(why)
}

impl Rt {
    fn enabled(&self, id: usize) -> bool {
        let t = &self.threads[id];
        match t.st {
            St::Done => false,
            St::Ready => true,
            St::Blocked => {
                if t.settling {
                    return false;
                }
                if let Some(d) = t.deadline {
                    if d <= self.now {
                        return true;
                    }
                }
                match t.wait {
                    Some(p) => unsafe { (*p)() },
                    None => false,
                }
            }
        }
    }
    fn next_deadline(&self) -> Option<(Nanos, usize)> {
        let mut best: Option<(Nanos, usize)> = None;
        for (i, t) in self.threads.iter().enumerate() {
            if t.st == St::Blocked {
                if let Some(d) = t.deadline {
                    if d > self.now && best.is_none_or(|b| d < b.0) {
                        best = Some((d, i));
                    }
                }
            }
        }
        best
    }
    fn describe(&self) -> String {
        let mut s = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if t.st != St::Done {
                s += &format!(
                    "{}{:?} {:?} at {}{}; ",
                    if i == 0 { "main " } else { "" },
                    t.name.as_deref().unwrap_or("unnamed"),
                    t.st,
                    t.label,
                    if t.settling { " (settling)" } else { "" }
                );
            }
        }
        s
    }
    fn choose(&mut self, n: u32, cost: u8) -> u32 {
        let pos = self.points.len() as u32;
        let mut chosen = 0;
        if self.dev_i < self.devs.len() && self.devs[self.dev_i].pos == pos {
            let d = self.devs[self.dev_i];
            self.dev_i += 1;
            if d.n != n || d.choice >= n {
                self.failure = Some(Failure::Divergence(format!(
                    "choice point {pos}: expected {} alternatives, found {n}",
                    d.n
                )));
            } else {
                chosen = d.choice;
            }
        }
        self.points.push(Point { n, chosen, cost });
        let h = self.sched_hash();
        self.state_hashes.push(h);
        chosen
    }
    fn sched_hash(&self) -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        let mut mix = |v: u64| {
            h ^= v;
            h = h.wrapping_mul(0x100000001b3);
        };
        for t in &self.threads {
            mix(t.ops);
            mix(t.st as u64 + 7);
        }
        mix(self.cur as u64);
        mix(self.world.out_hash);
        mix(self.now as u64);
        h
    }
    /// Pick the thread to run when the current one cannot go on (or yields).
    fn pick(&mut self) -> Option<usize> {
        if let Some((o, hook)) = self.only {
            if self.enabled(hook) {
                return Some(hook);
            }
            if self.enabled(o) {
                return Some(o);
            }
            self.failure = Some(Failure::Deadlock(format!("a panic hook waits for a thread that cannot go on: {}", self.describe())));
            return None;
        }
        loop {
            let n = self.threads.len();
            let mut en: Vec<usize> = Vec::with_capacity(8);
            let mut spinners: Vec<usize> = Vec::new();
            for k in 1..=n {
                let id = (self.cur + k) % n;
                if self.enabled(id) {
                    if self.threads[id].yielded {
                        spinners.push(id);
                    } else {
                        en.push(id);
                    }
                }
            }
            if en.is_empty() && !spinners.is_empty() {
                let p = unsafe { PROGRESS };
                if p != self.progress_mark {
                    // something happened since the last round: let every spinner look again
                    self.progress_mark = p;
                    for &s in &spinners {
                        self.threads[s].yielded = false;
                    }
                    continue;
                }
                // the spinners saw no change: fall through to the settling thread, then to time
            }
            if en.is_empty() {
                if let Some(id) =
                    (0..n).find(|&i| self.threads[i].settling && self.threads[i].st == St::Blocked)
                {
                    return Some(id);
                }
                if let Some((d, _)) = self.next_deadline() {
                    self.now = d;
                    for &s in &spinners {
                        self.threads[s].yielded = false;
                    }
                    continue;
                }
                if !spinners.is_empty() {
                    self.failure = Some(Failure::Livelock(self.describe()));
                }
                return None;
            }
            if !self.opts.explore {
                return Some(en[0]);
            }
            let timer = if self.opts.timer_race { self.next_deadline() } else { None };
            let extra = timer.is_some() as usize;
            if en.len() + extra == 1 {
                return Some(en[0]);
            }
            let cost = if self.opts.free_block && extra == 0 { 0 } else { 1 };
            let c = self.choose((en.len() + extra) as u32, cost) as usize;
            if self.failure.is_some() {
                return None;
            }
            if c < en.len() {
                return Some(en[c]);
            }
            let (d, id) = timer.unwrap();
            self.now = d;
            if self.threads[id].settling {
                continue;
            }
            return Some(id);
        }
    }
}

/// A scheduling point: another enabled thread may run now.
pub fn point(label: &'static str) {
    if teardown() {
        return;
    }
    let r = rt();
    r.steps += 1;
    let cur = r.cur;
    r.threads[cur].ops += 1;
    r.threads[cur].label = label;
    if r.failure.is_some() {
        suspend_forever();
    }
    if r.steps > r.opts.max_steps {
        let d = r.describe();
        fail(Failure::StepLimit(d));
    }
    if !r.opts.explore || std::thread::panicking() || r.in_hook {
        return;
    }
    if let Some((_, hook)) = r.only {
        if hook != cur && r.enabled(hook) {
            r.next = Some(hook);
            suspend();
        }
        return;
    }
    let n = r.threads.len();
    let mut en: Vec<usize> = Vec::with_capacity(8);
    for k in 1..n {
        let id = (cur + k) % n;
        if !r.threads[id].yielded && r.enabled(id) {
            en.push(id);
        }
    }
    let timer = if r.opts.timer_race { r.next_deadline() } else { None };
    let extra = timer.is_some() as usize;
    if en.is_empty() && extra == 0 {
        return;
    }
    let c = r.choose((1 + en.len() + extra) as u32, 1) as usize;
    if r.failure.is_some() {
        suspend_forever();
    }
    if c == 0 {
        return;
    }
    if c <= en.len() {
        r.next = Some(en[c - 1]);
    } else {
        let (d, id) = timer.unwrap();
        r.now = d;
        if r.threads[id].settling {
            return;
        }
        r.next = Some(id);
    }
    suspend();
}

fn suspend_forever() -> ! {
    loop {
        suspend();
    }
}

/// Switch the exploration of alternatives off (for preparations and for looking at the result) and
/// on again, in executions that explore at all.
pub fn exploring(on: bool) {
    if !teardown() {
        let r = rt();
        r.opts.explore = on && r.may_explore;
    }
}

/// An environment choice among `n` alternatives (0 is the default); `cost` 0 or 1.
pub fn choose_env(n: u32, cost: u8) -> u32 {
    if teardown() || n <= 1 {
        return 0;
    }
    let r = rt();
    if !r.opts.explore {
        return 0;
    }
    let c = r.choose(n, cost);
    if r.failure.is_some() {
        suspend_forever();
    }
    c
}

/// Block until `pred` holds (true) or the deadline passes (false).
pub fn block_until(label: &'static str, deadline: Option<Nanos>, pred: &dyn Fn() -> bool) -> bool {
    if teardown() {
        return pred();
    }
    loop {
        if pred() {
            return true;
        }
        {
            let r = rt();
            if let Some(d) = deadline {
                if d <= r.now {
                    return false;
                }
            }
            let cur = r.cur;
            let p: *const (dyn Fn() -> bool + '_) = pred;
            let t = &mut r.threads[cur];
            t.wait = Some(unsafe { std::mem::transmute::<*const (dyn Fn() -> bool + '_), Pred>(p) });
            t.deadline = deadline;
            t.label = label;
            t.st = St::Blocked;
            r.next = None;
        }
        suspend();
        let r = rt();
        let cur = r.cur;
        let t = &mut r.threads[cur];
        t.st = St::Ready;
        t.wait = None;
        t.deadline = None;
    }
}

/// A panic hook waits until `holder` has let go of something.  Two panics must not be inside their hooks at the
/// same time on the one real thread, so nothing else runs meanwhile.
pub fn hook_waits(holder: usize, pred: &dyn Fn() -> bool) {
    let r = rt();
    assert!(r.in_hook && r.only.is_none());
    r.in_hook = false;
    r.only = Some((holder, r.cur));
    block_until("panic hook", None, pred);
    let r = rt();
    r.only = None;
    r.in_hook = true;
}
/// As long as a hook runs, nobody can replace it.
pub fn no_hook_runs() -> bool {
    !rt().in_hook && rt().only.is_none()
}
pub fn in_hook() -> bool {
    rt().in_hook
}

/// Let every other thread run until none can without time passing.
pub fn settle() {
    if teardown() {
        return;
    }
    {
        let r = rt();
        r.steps += 1;
        let cur = r.cur;
        let t = &mut r.threads[cur];
        t.st = St::Blocked;
        t.settling = true;
        t.label = "settle";
        r.next = None;
    }
    suspend();
    let r = rt();
    let cur = r.cur;
    r.threads[cur].settling = false;
    r.threads[cur].st = St::Ready;
    r.progress_mark = unsafe { PROGRESS }.wrapping_sub(1);
}

/// Let `nanos` of virtual time pass; all timers due by then fire and are acted on.
pub fn advance(nanos: Nanos) {
    let until = now() + nanos;
    block_until("advance", Some(until), &|| false);
    settle();
}
/// Let virtual time pass without acting on what is due exactly at its end.
pub fn sleep_until(t: Nanos) {
    block_until("sleep", Some(t), &|| false);
}

pub fn yield_now() {
    if teardown() {
        return;
    }
    {
        let r = rt();
        r.steps += 1;
        if r.steps > r.opts.max_steps {
            let d = r.describe();
            fail(Failure::StepLimit(d));
        }
        let cur = r.cur;
        r.threads[cur].ops += 1;
        r.threads[cur].yielded = true;
        r.threads[cur].label = "yield_now";
        r.next = None;
    }
    suspend();
    let r = rt();
    let cur = r.cur;
    r.threads[cur].yielded = false;
}

fn new_thr(name: Option<String>) -> Thr {
    Thr {
        name,
        co: None,
        yielder: std::ptr::null(),
        st: St::Ready,
        wait: None,
        deadline: None,
        settling: false,
        yielded: false,
        in_syscall: false,
        interrupted: false,
        park_token: false,
        timer_hint: None,
        locals: vec![],
        ops: 0,
        label: "start",
    }
}

/// Create a simulated thread running `body` (which must not unwind, except for teardown).
pub fn spawn_raw(name: Option<String>, body: Box<dyn FnOnce()>) -> usize {
    let r = rt();
    let id = r.threads.len();
    r.threads.push(new_thr(name));
    let stack = STACKS
        .with(|s| s.borrow_mut().pop())
        .unwrap_or_else(|| DefaultStack::new(STACK).expect("coroutine stack"));
    let co = Coroutine::with_stack(stack, move |y: &Yielder<(), ()>, ()| {
        let r = rt();
        let cur = r.cur;
        r.threads[cur].yielder = y;
        body();
        let gone = std::mem::take(&mut rt().threads[cur].locals);
        drop(gone);
    });
    r.threads[id].co = Some(co);
    progress();
    id
}
pub fn is_done(id: usize) -> bool {
    !active() || rt().threads[id].st == St::Done
}
pub fn current() -> usize {
    rt().cur
}
pub fn thread_name(id: usize) -> Option<String> {
    rt().threads.get(id).and_then(|t| t.name.clone())
}
pub fn unfinished() -> Vec<String> {
    let r = rt();
    r.threads
        .iter()
        .enumerate()
        .filter(|(i, t)| *i != r.cur && t.st != St::Done)
        .map(|(_, t)| t.name.clone().unwrap_or_else(|| "unnamed".into()))
        .collect()
}
pub fn set_timer_hint(d: Nanos) {
    let r = rt();
    let cur = r.cur;
    let t = &mut r.threads[cur];
    t.timer_hint = Some(t.timer_hint.map_or(d, |x| x.min(d)));
}
pub fn take_timer_hint() -> Option<Nanos> {
    let r = rt();
    let cur = r.cur;
    r.threads[cur].timer_hint.take()
}

/// Rethrow the unwinding used to tear an execution down; anything else is returned.
pub fn filter_unwind(
    e: Box<dyn std::any::Any + Send + 'static>,
) -> Box<dyn std::any::Any + Send + 'static> {
    if teardown() {
        resume_unwind(e)
    }
    e
}

pub fn payload_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(non-string panic payload)".into()
    }
}

fn install_hook() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        let default = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            if teardown() {
                default(info);
                return;
            }
            let msg = format!(
                "{} at {}",
                payload_text(info.payload()),
                info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default()
            );
            let r = rt();
            let name = r.threads[r.cur].name.clone().unwrap_or_else(|| {
                if r.cur == 0 {
                    "main".into()
                } else {
                    "unnamed".into()
                }
            });
            r.panics.push(PanicRec { thread: name, message: msg });
            let was = r.in_hook;
            r.in_hook = true;
            crate::world::run_panic_hook(info);
            rt().in_hook = was;
        }));
    });
}

/// Run one execution: `f` is the main thread.
pub fn run<R: 'static>(
    opts: &Opts,
    devs: &[Dev],
    world: World,
    f: impl FnOnce() -> R + 'static,
) -> Outcome<R> {
    run_with(opts, devs, world, f, |_| ())
}

/// As `run`; `post` sees the world as the execution left it.
pub fn run_with<R: 'static>(
    opts: &Opts,
    devs: &[Dev],
    world: World,
    f: impl FnOnce() -> R + 'static,
    post: impl FnOnce(&mut World),
) -> Outcome<R> {
    install_hook();
    assert!(!active(), "nested execution");
    let mut boxed = Box::new(Rt {
        threads: Vec::new(),
        cur: 0,
        now: EPOCH,
        opts: opts.clone(),
        may_explore: opts.explore,
        devs: devs.to_vec(),
        dev_i: 0,
        points: Vec::new(),
        next: None,
        failure: None,
        panics: Vec::new(),
        world,
        steps: 0,
        switches: 0,
        progress: 0,
        progress_mark: 0,
        in_hook: false,
        only: None,
        state_hashes: Vec::new(),
    });
    unsafe {
        RT = &mut *boxed;
        TEARDOWN = false;
        PROGRESS = 1;
    }
    let slot: std::rc::Rc<RefCell<(Option<R>, Option<String>)>> =
        std::rc::Rc::new(RefCell::new((None, None)));
    let s2 = slot.clone();
    spawn_raw(
        Some("main".into()),
        Box::new(move || match catch_unwind(AssertUnwindSafe(f)) {
            Ok(v) => {
                if teardown() {
                    // keep the value alive until the coroutine is gone
                    std::mem::drop(v);
                } else {
                    s2.borrow_mut().0 = Some(v);
                }
            }
            Err(e) => {
                let e = filter_unwind(e);
                s2.borrow_mut().1 = Some(payload_text(&*e));
            }
        }),
    );
    rt().next = Some(0);
    loop {
        let r = rt();
        if r.threads[0].st == St::Done || r.failure.is_some() {
            break;
        }
        let id = match r.next.take() {
            Some(x) => x,
            None => match r.pick() {
                Some(x) => x,
                None => {
                    if r.failure.is_none() {
                        r.failure = Some(Failure::Deadlock(r.describe()));
                    }
                    break;
                }
            },
        };
        r.switches += 1;
        r.cur = id;
        let mut co = r.threads[id].co.take().expect("thread is not resumable");
        match co.resume(()) {
            CoroutineResult::Yield(()) => {
                rt().threads[id].co = Some(co);
            }
            CoroutineResult::Return(()) => {
                rt().threads[id].st = St::Done;
                progress();
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
                rt().next = None;
            }
        }
    }
    let leftover: Vec<String> = rt()
        .threads
        .iter()
        .enumerate()
        .filter(|(i, t)| *i != 0 && t.st != St::Done)
        .map(|(_, t)| t.name.clone().unwrap_or_else(|| "unnamed".into()))
        .collect();
    // Look at the world before anything is unwound.
    post(&mut rt().world);
    unsafe { TEARDOWN = true };
    let n = rt().threads.len();
    for i in 0..n {
        if let Some(mut co) = rt().threads[i].co.take() {
            rt().cur = i;
            if co.started() {
                co.force_unwind();
                STACKS.with(|s| s.borrow_mut().push(co.into_stack()));
            } else {
                // dropping an unstarted coroutine drops its closure
                drop(co);
            }
        }
    }
    let result = slot.borrow_mut().0.take();
    let main_panic = slot.borrow_mut().1.take();
    drop(slot);
    let hook = rt().world.panic_hook.take();
    drop(hook);
    let out = Outcome {
        result,
        failure: boxed.failure.take(),
        panics: std::mem::take(&mut boxed.panics),
        points: std::mem::take(&mut boxed.points),
        steps: boxed.steps,
        switches: boxed.switches,
        leftover,
        main_panic,
        state_hashes: std::mem::take(&mut boxed.state_hashes),
    };
    // The world may own values whose destructors use the runtime; drop it while still in teardown.
    drop(std::mem::take(&mut boxed.world));
    let _ = boxed.progress;
    unsafe {
        RT = std::ptr::null_mut();
    }
    drop(boxed);
    out
}

/// The panics so far.
pub fn rt_panics() -> Vec<PanicRec> {
    if active() {
        rt().panics.clone()
    } else {
        vec![]
    }
}
