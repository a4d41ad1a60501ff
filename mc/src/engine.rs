//! Exhaustive exploration: families of cases (operation sequences, inputs) enumerated completely, and
//! scenarios whose schedules are enumerated up to a bounded number of deviations.  The work is shared
//! by worker processes; every violation is reproduced in a fresh process before it is reported.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::time::{Duration, Instant};

use mcrt::rt::{Dev, Point};
use serde_json::{json, Value};

#[derive(Clone, Debug)]
pub struct Fail {
    /// what kind of violation, for the known-findings file: stable, without addresses
    pub key: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
pub fn fail<T>(key: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { key: key.into(), msg: msg.into() })
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    // FNV-1a with a finaliser: the same in every process
    struct H(u64);
    impl Hasher for H {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33;
            x = x.wrapping_mul(0xff51afd7ed558ccd);
            x ^= x >> 33;
            x
        }
        fn write(&mut self, b: &[u8]) {
            for &x in b {
                self.0 = (self.0 ^ x as u64).wrapping_mul(0x100000001b3);
            }
        }
    }
    let mut h = H(0xcbf29ce484222325);
    t.hash(&mut h);
    h.finish()
}

/// What one worker has seen so far.
#[derive(Default)]
pub struct Ctx {
    pub states: HashSet<u64>,
    pub outcomes: HashSet<u64>,
    pub transitions: u64,
    pub execs: u64,
    pub cases: u64,
    pub verbose: bool,
    /// a digest of everything the executions of this case showed, to detect nondeterminism
    pub digest: u64,
}
impl Ctx {
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.states.insert(hash_of(t));
    }
    pub fn outcome<T: Hash>(&mut self, t: &T) {
        let h = hash_of(t);
        self.outcomes.insert(h);
        self.digest = (self.digest ^ h).wrapping_mul(0x100000001b3);
    }
    pub fn observe(&mut self, v: u64) {
        self.digest = (self.digest ^ v).wrapping_mul(0x100000001b3);
    }
}

pub struct Seq {
    pub total: u64,
    pub run: Box<dyn Fn(u64, &mut Ctx) -> Res>,
    pub describe: Box<dyn Fn(u64) -> String>,
}
pub struct Scen {
    pub name: String,
    pub bound: u32,
    pub run: Box<dyn Fn(&[Dev], &mut Ctx) -> (Vec<Point>, Res)>,
}
pub enum Kind {
    Seq(Seq),
    Sched(Vec<Scen>),
}
pub struct Family {
    pub name: String,
    pub about: String,
    pub kind: Kind,
}
impl Family {
    pub fn seq(
        name: &str,
        about: &str,
        total: u64,
        run: impl Fn(u64, &mut Ctx) -> Res + 'static,
        describe: impl Fn(u64) -> String + 'static,
    ) -> Family {
        Family {
            name: name.into(),
            about: about.into(),
            kind: Kind::Seq(Seq { total, run: Box::new(run), describe: Box::new(describe) }),
        }
    }
    pub fn sched(name: &str, about: &str, scens: Vec<Scen>) -> Family {
        Family { name: name.into(), about: about.into(), kind: Kind::Sched(scens) }
    }
    /// As `sched`, and every scenario once more with another measure of a schedule's length: which
    /// thread goes on when one has to wait is free, and only taking the processor away from a thread
    /// that could go on counts, up to `free`.
    pub fn sched_free(name: &str, about: &str, scens: Vec<Scen>, free: u32) -> Family {
        let mut all = vec![];
        let mut twins = vec![];
        for s in scens {
            let run = std::rc::Rc::new(s.run);
            let twin = run.clone();
            twins.push(Scen {
                name: format!("{} (free to choose who goes on when a thread waits)", s.name),
                bound: free,
                run: Box::new(move |devs, ctx| {
                    FREE.set(true);
                    let r = twin(devs, ctx);
                    FREE.set(false);
                    r
                }),
            });
            all.push(Scen { name: s.name, bound: s.bound, run: Box::new(move |devs, ctx| run(devs, ctx)) });
        }
        all.extend(twins);
        Family::sched(name, about, all)
    }
}

thread_local! {
    /// set while a scenario's twin runs, see `Family::sched_free`
    static FREE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn free() -> bool {
    FREE.get()
}

pub struct Check {
    pub families: Vec<Family>,
    pub rule: String,
    pub assumptions: Vec<String>,
}

// ---------------------------------------------------------------- the slot

/// Shared memory in which a worker says what it is doing, so that the parent can tell what it was
/// doing when it crashed or hung.
struct Slot {
    p: *mut u64,
}
const SLOT_WORDS: usize = 256;
impl Slot {
    fn open(path: &Path) -> Slot {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("slot");
        f.set_len((SLOT_WORDS * 8) as u64).expect("slot");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT_WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED);
        Slot { p: p as *mut u64 }
    }
    fn get(&self, i: usize) -> u64 {
        unsafe { self.p.add(i).read_volatile() }
    }
    fn set(&self, i: usize, v: u64) {
        unsafe { self.p.add(i).write_volatile(v) }
    }
    /// words: 0 counter, 1 busy, 2 family, 3 index, 4 number of deviations, 5.. deviations
    fn begin(&self, fam: usize, idx: u64, devs: &[Dev]) {
        self.set(1, 0);
        self.set(2, fam as u64);
        self.set(3, idx);
        self.set(4, devs.len().min(60) as u64);
        for (i, d) in devs.iter().take(60).enumerate() {
            self.set(5 + 3 * i, d.pos as u64);
            self.set(6 + 3 * i, d.choice as u64);
            self.set(7 + 3 * i, d.n as u64);
        }
        self.set(1, 1);
        self.set(0, self.get(0) + 1);
    }
    fn end(&self) {
        self.set(1, 0);
        self.set(0, self.get(0) + 1);
    }
    fn case(&self) -> Option<Case> {
        if self.get(1) == 0 {
            return None;
        }
        let n = self.get(4) as usize;
        Some(Case {
            fam: self.get(2) as usize,
            idx: self.get(3),
            devs: (0..n)
                .map(|i| Dev {
                    pos: self.get(5 + 3 * i) as u32,
                    choice: self.get(6 + 3 * i) as u32,
                    n: self.get(7 + 3 * i) as u32,
                })
                .collect(),
        })
    }
}

#[derive(Clone, Debug)]
pub struct Case {
    pub fam: usize,
    pub idx: u64,
    pub devs: Vec<Dev>,
}
impl Case {
    fn json(&self) -> Value {
        json!({"family": self.fam, "index": self.idx,
            "devs": self.devs.iter().map(|d| json!([d.pos, d.choice, d.n])).collect::<Vec<_>>()})
    }
    fn from(v: &Value) -> Case {
        Case {
            fam: v["family"].as_u64().unwrap() as usize,
            idx: v["index"].as_u64().unwrap(),
            devs: v["devs"]
                .as_array()
                .unwrap()
                .iter()
                .map(|d| Dev {
                    pos: d[0].as_u64().unwrap() as u32,
                    choice: d[1].as_u64().unwrap() as u32,
                    n: d[2].as_u64().unwrap() as u32,
                })
                .collect(),
        }
    }
}

/// A directory for the files of the program under test, of this process alone.
pub fn scratch() -> PathBuf {
    SCRATCH.with(|s| {
        s.borrow_mut()
            .get_or_insert_with(|| {
                let d = std::env::temp_dir().join(format!("lisomc-files-{}", std::process::id()));
                let _ = std::fs::remove_dir_all(&d);
                std::fs::create_dir_all(&d).expect("scratch directory");
                d
            })
            .clone()
    })
}
thread_local! {
    static SCRATCH: std::cell::RefCell<Option<PathBuf>> = const { std::cell::RefCell::new(None) };
}
fn set_scratch(d: PathBuf) {
    std::fs::create_dir_all(&d).expect("scratch directory");
    SCRATCH.with(|s| *s.borrow_mut() = Some(d));
}
pub fn drop_scratch() {
    if let Some(d) = SCRATCH.with(|s| s.borrow_mut().take()) {
        let _ = std::fs::remove_dir_all(d);
    }
}

// ---------------------------------------------------------------- known findings

/// Lines `KNOWN property=P01 key=<key> :: text`; `fixed:` lines and comments say nothing to us.
pub fn known(prop: &str) -> Vec<(String, String)> {
    let p = verif().join("known-findings.txt");
    let mut out = vec![];
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(rest) = l.strip_prefix("KNOWN property=") {
            if let Some((id, rest)) = rest.split_once(" key=") {
                if id == prop {
                    let (k, t) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    out.push((k.to_string(), t.to_string()));
                }
            }
        }
    }
    out
}
pub fn verif() -> PathBuf {
    std::env::var_os("LISOMC_VERIF").map(PathBuf::from).unwrap_or_else(|| "/verif".into())
}

// ---------------------------------------------------------------- isolation

/// Set when every execution has to start from the same process state, because the code under test
/// keeps something in statics from one execution to the next.
fn isolated() -> bool {
    std::env::var_os("LISOMC_ISOLATE").is_some()
}
/// Run one case in a forked copy of this process; what it saw is merged into `ctx`.
fn forked(ctx: &mut Ctx, run: &dyn Fn(&mut Ctx) -> (Vec<Point>, Res)) -> (Vec<Point>, Res) {
    let mut p = [0i32; 2];
    let pid = unsafe {
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0);
        libc::fork()
    };
    assert!(pid >= 0, "fork");
    use std::os::fd::FromRawFd;
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(p[0]);
        }
        let mut c = Ctx::default();
        let (points, r) = run(&mut c);
        let j = json!({
            "points": points.iter().map(|p| json!([p.n, p.cost, p.chosen])).collect::<Vec<_>>(),
            "states": c.states.iter().collect::<Vec<_>>(),
            "outcomes": c.outcomes.iter().collect::<Vec<_>>(),
            "transitions": c.transitions, "execs": c.execs, "digest": c.digest,
            "fail": r.err().map(|f| json!([f.key, f.msg])),
        });
        let mut f = unsafe { std::fs::File::from_raw_fd(p[1]) };
        let _ = f.write_all(j.to_string().as_bytes());
        drop(f);
        unsafe { libc::_exit(0) };
    }
    let mut s = String::new();
    unsafe { libc::close(p[1]) };
    let mut f = unsafe { std::fs::File::from_raw_fd(p[0]) };
    let _ = std::io::Read::read_to_string(&mut f, &mut s);
    drop(f);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let Ok(v) = serde_json::from_str::<Value>(&s) else {
        return (vec![], fail("crash", format!("the process ended with status {st:#x}")));
    };
    let nums = |k: &str| v[k].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect::<Vec<u64>>();
    ctx.states.extend(nums("states"));
    ctx.outcomes.extend(nums("outcomes"));
    ctx.transitions += v["transitions"].as_u64().unwrap();
    ctx.execs += v["execs"].as_u64().unwrap();
    ctx.digest ^= v["digest"].as_u64().unwrap();
    let points = v["points"]
        .as_array()
        .unwrap()
        .iter()
        .map(|p| Point { n: p[0].as_u64().unwrap() as u32, cost: p[1].as_u64().unwrap() as u8, chosen: p[2].as_u64().unwrap() as u32 })
        .collect();
    let r = match v["fail"].as_array() {
        None => Ok(()),
        Some(f) => fail(f[0].as_str().unwrap(), f[1].as_str().unwrap()),
    };
    (points, r)
}
fn run_seq(s: &Seq, i: u64, ctx: &mut Ctx) -> Res {
    if isolated() {
        forked(ctx, &|c| (vec![], (s.run)(i, c))).1
    } else {
        (s.run)(i, ctx)
    }
}
fn run_sched(s: &Scen, devs: &[Dev], ctx: &mut Ctx) -> (Vec<Point>, Res) {
    if isolated() {
        forked(ctx, &|c| (s.run)(devs, c))
    } else {
        (s.run)(devs, ctx)
    }
}

// ---------------------------------------------------------------- the worker

struct FamStat {
    execs: u64,
    cases: u64,
    transitions: u64,
    capped: bool,
    max_points: usize,
}

struct Worker<'a> {
    slot: Slot,
    shard: u64,
    n: u64,
    deadline: Instant,
    known: Vec<(String, String)>,
    known_hits: HashSet<usize>,
    ctx: Ctx,
    check: &'a Check,
    violation: Option<(Case, Fail)>,
    infra: Option<String>,
    selfcheck: u32,
    capped: bool,
    max_points: usize,
}

impl Worker<'_> {
    /// Returns true if exploration goes on.
    fn judge(&mut self, case: Case, r: Res) -> bool {
        match r {
            Ok(()) => true,
            Err(f) => {
                if f.key == "infra" {
                    self.infra = Some(format!("{} ({:?})", f.msg, case));
                    return false;
                }
                if let Some(i) = self.known.iter().position(|(k, _)| *k == f.key) {
                    self.known_hits.insert(i);
                    return true;
                }
                self.violation = Some((case, f));
                false
            }
        }
    }
    fn seq(&mut self, fam: usize, s: &Seq) -> bool {
        let mut i = self.shard;
        let mut k = 0u32;
        while i < s.total {
            if k & 15 == 0 && Instant::now() > self.deadline {
                self.capped = true;
                return true;
            }
            k += 1;
            self.slot.begin(fam, i, &[]);
            self.ctx.digest = 0;
            let r = run_seq(s, i, &mut self.ctx);
            self.ctx.cases += 1;
            if self.selfcheck > 0 {
                self.selfcheck -= 1;
                let d = std::mem::replace(&mut self.ctx.digest, 0);
                let (e, t, c) = (self.ctx.execs, self.ctx.transitions, self.ctx.cases);
                let r2 = run_seq(s, i, &mut self.ctx);
                (self.ctx.execs, self.ctx.transitions, self.ctx.cases) = (e, t, c);
                if r.is_ok() != r2.is_ok() || (r.is_ok() && d != self.ctx.digest) {
                    self.infra = Some(format!("family {fam} case {i} is not deterministic"));
                    return false;
                }
            }
            self.slot.end();
            if !self.judge(Case { fam, idx: i, devs: vec![] }, r) {
                return false;
            }
            i += self.n;
        }
        true
    }
    fn sched(&mut self, fam: usize, idx: usize, s: &Scen) -> bool {
        // depth-first over deviations; the children of the root are dealt out to the workers
        struct Node {
            devs: Vec<Dev>,
            cost: u32,
        }
        let mut stack = vec![Node { devs: vec![], cost: 0 }];
        let mut k = 0u32;
        while let Some(node) = stack.pop() {
            if k & 7 == 0 && Instant::now() > self.deadline {
                self.capped = true;
                return true;
            }
            k += 1;
            self.slot.begin(fam, idx as u64, &node.devs);
            self.ctx.digest = 0;
            let root = node.devs.is_empty();
            let before = (self.ctx.execs, self.ctx.transitions, self.ctx.cases);
            let (points, r) = run_sched(s, &node.devs, &mut self.ctx);
            self.ctx.cases += 1;
            if self.selfcheck > 0 {
                self.selfcheck -= 1;
                let d = std::mem::replace(&mut self.ctx.digest, 0);
                let keep = (self.ctx.execs, self.ctx.transitions, self.ctx.cases);
                let (p2, r2) = run_sched(s, &node.devs, &mut self.ctx);
                (self.ctx.execs, self.ctx.transitions, self.ctx.cases) = keep;
                if r.is_ok() != r2.is_ok()
                    || (r.is_ok() && (d != self.ctx.digest || p2.len() != points.len()))
                {
                    self.infra = Some(format!("scenario {} {:?} is not deterministic", s.name, node.devs));
                    return false;
                }
            }
            self.slot.end();
            if root && self.shard != 0 {
                (self.ctx.execs, self.ctx.transitions, self.ctx.cases) = before;
            }
            self.max_points = self.max_points.max(points.len());
            if !self.judge(Case { fam, idx: idx as u64, devs: node.devs.clone() }, r) {
                return false;
            }
            let from = node.devs.last().map(|d| d.pos as usize + 1).unwrap_or(0);
            let mut child = 0u64;
            let mut kids = vec![];
            for (pos, p) in points.iter().enumerate().skip(from) {
                let cost = node.cost + p.cost as u32;
                if cost > s.bound {
                    continue;
                }
                for choice in 1..p.n {
                    child += 1;
                    if root && child % self.n != self.shard {
                        continue;
                    }
                    let mut devs = node.devs.clone();
                    devs.push(Dev { pos: pos as u32, choice, n: p.n });
                    kids.push(Node { devs, cost });
                }
            }
            kids.reverse();
            stack.extend(kids);
        }
        true
    }
}

fn limit_memory(bytes: u64) {
    let l = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &l);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// Worker process: explore shard `shard` of `n` and write what was found to `dir`.
pub fn worker(prop: &str, check: Check, shard: u64, n: u64, secs: u64, dir: &Path, only: Option<&str>) -> i32 {
    limit_memory(3 << 30);
    set_scratch(dir.join(format!("files{shard}")));
    let mut w = Worker {
        slot: Slot::open(&dir.join(format!("slot{shard}"))),
        shard,
        n,
        deadline: Instant::now() + Duration::from_secs(secs),
        known: known(prop),
        known_hits: HashSet::new(),
        ctx: Ctx::default(),
        check: &check,
        violation: None,
        infra: None,
        selfcheck: 0,
        capped: false,
        max_points: 0,
    };
    let mut stats: Vec<FamStat> = vec![];
    for (fi, f) in w.check.families.iter().enumerate() {
        let b = (w.ctx.execs, w.ctx.cases, w.ctx.transitions);
        w.capped = false;
        w.max_points = 0;
        w.selfcheck = 3;
        let mut go = true;
        if only.is_none_or(|o| f.name == o) {
            match &f.kind {
                Kind::Seq(s) => go = w.seq(fi, s),
                Kind::Sched(v) => {
                    for (i, s) in v.iter().enumerate() {
                        go = w.sched(fi, i, s);
                        if !go || w.capped {
                            break;
                        }
                    }
                }
            }
        }
        stats.push(FamStat {
            execs: w.ctx.execs - b.0,
            cases: w.ctx.cases - b.1,
            transitions: w.ctx.transitions - b.2,
            capped: w.capped,
            max_points: w.max_points,
        });
        if !go {
            break;
        }
    }
    let dump = |name: &str, set: &HashSet<u64>| {
        let mut v: Vec<u8> = Vec::with_capacity(set.len() * 8);
        for x in set {
            v.extend_from_slice(&x.to_le_bytes());
        }
        std::fs::write(dir.join(format!("{name}{shard}")), v).expect("write sets");
    };
    dump("states", &w.ctx.states);
    dump("outcomes", &w.ctx.outcomes);
    let out = json!({
        "families": stats.iter().map(|s| json!({"execs": s.execs, "cases": s.cases,
            "transitions": s.transitions, "capped": s.capped, "max_points": s.max_points})).collect::<Vec<_>>(),
        "known": w.known_hits.iter().collect::<Vec<_>>(),
        "violation": w.violation.as_ref().map(|(c, f)| json!({"case": c.json(), "key": f.key, "msg": f.msg})),
        "infra": w.infra,
    });
    std::fs::write(dir.join(format!("result{shard}.tmp")), out.to_string()).expect("write result");
    std::fs::rename(
        dir.join(format!("result{shard}.tmp")),
        dir.join(format!("result{shard}")),
    )
    .expect("write result");
    0
}

/// Run one case and say what happened: 0 fine, 1 violation, 3 harness trouble.
pub fn replay(check: Check, case: &Case) -> (i32, String) {
    limit_memory(3 << 30);
    let mut ctx = Ctx { verbose: true, ..Default::default() };
    let f = &check.families[case.fam];
    let (what, r) = match &f.kind {
        Kind::Seq(s) => {
            let d = (s.describe)(case.idx);
            println!("family {}: {}", f.name, f.about);
            println!("case {}: {}", case.idx, d);
            let _ = std::io::stdout().flush();
            (d, (s.run)(case.idx, &mut ctx))
        }
        Kind::Sched(v) => {
            let s = &v[case.idx as usize];
            println!("family {}: {}", f.name, f.about);
            println!("scenario {}, deviations {:?}", s.name, case.devs);
            let _ = std::io::stdout().flush();
            (s.name.clone(), (s.run)(&case.devs, &mut ctx).1)
        }
    };
    match r {
        Ok(()) => {
            println!("holds");
            (0, what)
        }
        Err(e) if e.key == "infra" => {
            println!("harness trouble: {}", e.msg);
            (3, what)
        }
        Err(e) => {
            println!("violated [{}]: {}", e.key, e.msg);
            (1, what)
        }
    }
}
pub fn load_case(v: &Value) -> Case {
    Case::from(&v["case"])
}

// ---------------------------------------------------------------- the parent

fn read_set(path: &Path, into: &mut HashSet<u64>) {
    if let Ok(b) = std::fs::read(path) {
        for c in b.chunks_exact(8) {
            into.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
}

/// How long one case may take before it counts as hanging.
const HANG: Duration = Duration::from_secs(25);

/// Run a check with `n` worker processes; returns the exit code.
pub fn parent(prop: &str, tier: &str, check: Check, n: u64, secs: u64, only: Option<&str>) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let dir = std::env::temp_dir().join(format!("lisomc-{prop}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let mut code = parent_in(prop, tier, &check, n, secs, only, &dir, t0, seed);
    if code == 2 && !isolated() {
        // Perhaps one execution influences the next. Do it all again, each one in its own process.
        eprintln!("check {prop}: again, with every execution in a process of its own");
        std::env::set_var("LISOMC_ISOLATE", "1");
        let _ = std::fs::remove_dir_all(&dir);
        std::fs::create_dir_all(&dir).expect("scratch directory");
        code = parent_in(prop, tier, &check, n, secs.min(if tier == "thorough" { secs } else { 300 }), only, &dir, t0, seed);
    }
    let _ = std::fs::remove_dir_all(&dir);
    code
}

enum End {
    Done,
    Violation(Case, Fail),
}

#[allow(clippy::too_many_arguments)]
fn parent_in(
    prop: &str,
    tier: &str,
    check: &Check,
    n: u64,
    secs: u64,
    only: Option<&str>,
    dir: &Path,
    t0: Instant,
    seed: u64,
) -> i32 {
    let exe = std::env::current_exe().expect("own path");
    let mut kids = vec![];
    for i in 0..n {
        let slot = Slot::open(&dir.join(format!("slot{i}")));
        let mut c = std::process::Command::new(&exe);
        c.arg("worker").arg(prop).arg(tier).arg(i.to_string()).arg(n.to_string());
        c.arg(secs.to_string()).arg(dir);
        if let Some(o) = only {
            c.arg(o);
        }
        c.stdin(std::process::Stdio::null()).stdout(std::process::Stdio::null());
        c.stderr(std::fs::File::create(dir.join(format!("err{i}"))).expect("scratch"));
        kids.push((c.spawn().expect("worker"), slot, 0u64, Instant::now(), false));
    }
    let mut end = End::Done;
    let mut infra: Option<String> = None;
    'wait: loop {
        let mut left = 0;
        for (i, (kid, slot, count, since, done)) in kids.iter_mut().enumerate() {
            if *done {
                continue;
            }
            left += 1;
            match kid.try_wait().expect("wait") {
                Some(st) => {
                    *done = true;
                    left -= 1;
                    match std::fs::read_to_string(dir.join(format!("result{i}"))) {
                        Ok(s) if st.success() => {
                            let v: Value = serde_json::from_str(&s).expect("result");
                            if let Some(x) = v["infra"].as_str() {
                                infra = Some(x.to_string());
                                break 'wait;
                            }
                            if !v["violation"].is_null() {
                                let v = &v["violation"];
                                end = End::Violation(
                                    Case::from(&v["case"]),
                                    Fail {
                                        key: v["key"].as_str().unwrap().into(),
                                        msg: v["msg"].as_str().unwrap().into(),
                                    },
                                );
                                break 'wait;
                            }
                        }
                        _ => {
                            let err = std::fs::read_to_string(dir.join(format!("err{i}"))).unwrap_or_default();
                            match slot.case() {
                                Some(c) => {
                                    end = End::Violation(
                                        c,
                                        Fail {
                                            key: "crash".into(),
                                            msg: format!("the process ended with {st}: {err}"),
                                        },
                                    )
                                }
                                None => infra = Some(format!("worker {i} ended with {st}: {err}")),
                            }
                            break 'wait;
                        }
                    }
                }
                None => {
                    let c = slot.get(0);
                    if c != *count {
                        *count = c;
                        *since = Instant::now();
                    } else if since.elapsed() > HANG {
                        match slot.case() {
                            Some(c) => {
                                end = End::Violation(
                                    c,
                                    Fail { key: "hang".into(), msg: "no progress: an endless loop".into() },
                                );
                                break 'wait;
                            }
                            None if since.elapsed() > HANG * 4 => {
                                infra = Some(format!("worker {i} is stuck between cases"));
                                break 'wait;
                            }
                            None => (),
                        }
                    }
                }
            }
        }
        if left == 0 {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for (kid, ..) in &mut kids {
        let _ = kid.kill();
        let _ = kid.wait();
    }
    if let Some(x) = infra {
        eprintln!("check {prop}: harness trouble: {x}");
        return 2;
    }
    // Merge.
    let mut states = HashSet::new();
    let mut outcomes = HashSet::new();
    let mut fams: Vec<Value> = check
        .families
        .iter()
        .map(|f| json!({"name": f.name, "about": f.about, "executions": 0u64, "cases": 0u64, "transitions": 0u64}))
        .collect();
    let mut capped: Vec<String> = vec![];
    let mut known_hits = HashSet::new();
    let (mut execs, mut trans, mut cases) = (0u64, 0u64, 0u64);
    for i in 0..n {
        read_set(&dir.join(format!("states{i}")), &mut states);
        read_set(&dir.join(format!("outcomes{i}")), &mut outcomes);
        let Ok(s) = std::fs::read_to_string(dir.join(format!("result{i}"))) else { continue };
        let v: Value = serde_json::from_str(&s).expect("result");
        for (k, f) in v["families"].as_array().unwrap().iter().enumerate() {
            for (dst, src) in [("executions", "execs"), ("cases", "cases"), ("transitions", "transitions")] {
                let x = fams[k][dst].as_u64().unwrap() + f[src].as_u64().unwrap();
                fams[k][dst] = json!(x);
            }
            if let Kind::Sched(sc) = &check.families[k].kind {
                let m = fams[k]["longest_schedule"].as_u64().unwrap_or(0).max(f["max_points"].as_u64().unwrap());
                fams[k]["longest_schedule"] = json!(m);
                fams[k]["scenarios"] = json!(sc.len());
                fams[k]["deviation_bounds"] = json!(sc.iter().map(|s| s.bound).collect::<Vec<_>>());
            }
            execs += f["execs"].as_u64().unwrap();
            trans += f["transitions"].as_u64().unwrap();
            cases += f["cases"].as_u64().unwrap();
            if f["capped"].as_bool().unwrap() {
                let name = check.families[k].name.clone();
                if !capped.contains(&name) {
                    capped.push(name);
                }
            }
        }
        for k in v["known"].as_array().unwrap() {
            known_hits.insert(k.as_u64().unwrap() as usize);
        }
    }
    let mut violations = 0;
    let mut code = 0;
    if let End::Violation(case, f) = &end {
        let rdir = verif().join("replays");
        std::fs::create_dir_all(&rdir).expect("replays");
        let path = rdir.join(format!("{prop}-{:016x}.json", hash_of(&format!("{case:?}"))));
        let fam = &check.families[case.fam];
        let what = match &fam.kind {
            Kind::Seq(s) => (s.describe)(case.idx),
            Kind::Sched(v) => format!("{}, deviations {:?}", v[case.idx as usize].name, case.devs),
        };
        let j = json!({"property": prop, "tier": tier, "case": case.json(), "family": fam.name,
            "what": what, "key": f.key, "message": f.msg});
        std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("replay file");
        // Reproduce it in a fresh process before believing it.
        let mut child = std::process::Command::new(&exe)
            .arg("replay")
            .arg(&path)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("replay");
        let t1 = Instant::now();
        let st = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break Some(s);
            }
            if t1.elapsed() > HANG {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let ok = match st {
            None => true, // it hangs
            Some(s) => s.code() == Some(1) || s.code().is_none() || s.code() == Some(101) || s.code() == Some(134),
        };
        if !ok {
            eprintln!(
                "check {prop}: harness trouble: a violation in family {} could not be reproduced: {} [{}] {}",
                fam.name, what, f.key, f.msg
            );
            return 2;
        }
        println!("family {}: {}", fam.name, what);
        println!("{} [{}]", f.msg, f.key);
        println!("VIOLATION property={prop} replay={}", path.display());
        violations = 1;
        code = 1;
    }
    let samples: Vec<String> = check
        .families
        .iter()
        .map(|f| match &f.kind {
            Kind::Seq(s) => {
                let mut v = vec![];
                for k in [s.total / 3, s.total * 2 / 3] {
                    if k < s.total {
                        v.push(format!("{}[{}]: {}", f.name, k, (s.describe)(k)));
                    }
                }
                v.join(" | ")
            }
            Kind::Sched(v) => format!(
                "{}: {}",
                f.name,
                v.iter().map(|s| s.name.clone()).take(4).collect::<Vec<_>>().join(" | ")
            ),
        })
        .collect();
    for (k, t) in known(prop).iter().enumerate().filter(|(i, _)| known_hits.contains(i)).map(|(_, x)| (&x.0, &x.1)) {
        println!("KNOWN-FINDING: property={prop} {t} [{k}]");
    }
    let mut ev = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": states.len(),
            "transitions": trans,
            "traces_validated_against_impl": execs,
            "cases": cases,
            "distinct_outcomes": outcomes.len(),
            "rule": check.rule,
            "families": fams,
            "capped_families": capped,
            "isolated_executions": isolated(),
            "samples": samples,
            "exhaustive": capped.is_empty() && violations == 0 && only.is_none(),
        },
        "assumptions": check.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let edir = verif().join("evidence");
    std::fs::create_dir_all(&edir).expect("evidence");
    if let Some(o) = std::env::var_os("LISOMC_MERGE").and_then(|p| std::fs::read(p).ok()) {
        if let Ok(o) = serde_json::from_slice::<serde_json::Value>(&o) {
            ev["coverage"]["build_without_default_features"] = o["coverage"].clone();
        }
    }
    let to = std::env::var_os("LISOMC_EVIDENCE").map_or(edir.join(format!("{prop}.json")), Into::into);
    std::fs::write(to, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!(
        "{prop} {tier}: {} families, {cases} cases, {execs} executions, {trans} transitions, {} states, {} outcomes, {:.1} s{}",
        check.families.len(),
        states.len(),
        outcomes.len(),
        t0.elapsed().as_secs_f64(),
        if capped.is_empty() { String::new() } else { format!(", capped: {capped:?}") }
    );
    if only.is_some() {
        for f in ev["coverage"]["families"].as_array().unwrap() {
            println!("  {f}");
        }
    }
    code
}
