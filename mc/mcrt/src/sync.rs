//! Simulated `std::sync`.
pub use ::std::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};
use std::time::Duration;

use crate::rt::{self, block_until, now, point, progress, teardown};

// ---------------------------------------------------------------- raw lock
pub struct RawLock {
    held: Cell<bool>,
}
unsafe impl Sync for RawLock {}
unsafe impl Send for RawLock {}
impl Default for RawLock {
    fn default() -> Self {
        Self::new()
    }
}
impl RawLock {
    pub const fn new() -> RawLock {
        RawLock { held: Cell::new(false) }
    }
    pub fn lock(&self, label: &'static str) {
        point(label);
        block_until(label, None, &|| !self.held.get());
        self.held.set(true);
        progress();
    }
    pub fn lock_until(&self, label: &'static str, deadline: rt::Nanos) -> bool {
        point(label);
        let ok = block_until(label, Some(deadline), &|| !self.held.get());
        if ok {
            self.held.set(true);
            progress();
        }
        ok
    }
    pub fn try_lock(&self, label: &'static str) -> bool {
        point(label);
        if self.held.get() && !teardown() {
            return false;
        }
        self.held.set(true);
        progress();
        true
    }
    pub fn unlock(&self) {
        self.held.set(false);
        progress();
        point("unlock");
    }
    pub fn is_locked(&self) -> bool {
        self.held.get()
    }
}

// ---------------------------------------------------------------- Mutex
pub struct Mutex<T: ?Sized> {
    raw: RawLock,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { raw: RawLock::new(), poisoned: Cell::new(false), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poisoned.get();
        let d = self.data.into_inner();
        if p {
            Err(PoisonError::new(d))
        } else {
            Ok(d)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: std::thread::panicking() };
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock("Mutex::lock");
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if !self.raw.try_lock("Mutex::try_lock") {
            return Err(TryLockError::WouldBlock);
        }
        match self.guard() {
            Ok(g) => Ok(g),
            Err(e) => Err(TryLockError::Poisoned(e)),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.data.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() && !teardown() {
            self.m.poisoned.set(true);
        }
        self.m.raw.unlock();
    }
}

// ---------------------------------------------------------------- RwLock
pub struct RwLock<T: ?Sized> {
    readers: Cell<u32>,
    writer: Cell<bool>,
    writers_waiting: Cell<u32>,
    poisoned: Cell<bool>,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    panicking: bool,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock {
            readers: Cell::new(0),
            writer: Cell::new(false),
            writers_waiting: Cell::new(0),
            poisoned: Cell::new(false),
            data: UnsafeCell::new(t),
        }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        point("RwLock::read");
        block_until("RwLock::read", None, &|| {
            !self.writer.get() && self.writers_waiting.get() == 0
        });
        self.readers.set(self.readers.get() + 1);
        progress();
        let g = RwLockReadGuard { l: self };
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        point("RwLock::try_read");
        if self.writer.get() {
            return Err(TryLockError::WouldBlock);
        }
        self.readers.set(self.readers.get() + 1);
        let g = RwLockReadGuard { l: self };
        if self.poisoned.get() {
            Err(TryLockError::Poisoned(PoisonError::new(g)))
        } else {
            Ok(g)
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        point("RwLock::write");
        self.writers_waiting.set(self.writers_waiting.get() + 1);
        struct W<'a>(&'a Cell<u32>);
        impl Drop for W<'_> {
            fn drop(&mut self) {
                self.0.set(self.0.get() - 1)
            }
        }
        let w = W(&self.writers_waiting);
        block_until("RwLock::write", None, &|| !self.writer.get() && self.readers.get() == 0);
        drop(w);
        self.writer.set(true);
        progress();
        let g = RwLockWriteGuard { l: self, panicking: std::thread::panicking() };
        if self.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        point("RwLock::try_write");
        if self.writer.get() || self.readers.get() != 0 {
            return Err(TryLockError::WouldBlock);
        }
        self.writer.set(true);
        let g = RwLockWriteGuard { l: self, panicking: std::thread::panicking() };
        if self.poisoned.get() {
            Err(TryLockError::Poisoned(PoisonError::new(g)))
        } else {
            Ok(g)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poisoned.get()
    }
    pub fn clear_poison(&self) {
        self.poisoned.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.readers.set(self.l.readers.get().saturating_sub(1));
        progress();
        point("RwLock read unlock");
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() && !teardown() {
            self.l.poisoned.set(true);
        }
        self.l.writer.set(false);
        progress();
        point("RwLock write unlock");
    }
}

// ---------------------------------------------------------------- Condvar
pub struct Condvar {
    tickets: Cell<u64>,
    waiting: UnsafeCell<Vec<u64>>,
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { tickets: Cell::new(0), waiting: UnsafeCell::new(Vec::new()) }
    }
    #[allow(clippy::mut_from_ref)]
    fn w(&self) -> &mut Vec<u64> {
        unsafe { &mut *self.waiting.get() }
    }
    fn wait_raw(&self, raw: &RawLock, deadline: Option<rt::Nanos>) -> bool {
        let t = self.tickets.get() + 1;
        self.tickets.set(t);
        self.w().push(t);
        raw.unlock();
        let ok = block_until("Condvar::wait", deadline, &|| !self.w().contains(&t));
        self.w().retain(|x| *x != t);
        raw.lock("Condvar relock");
        ok
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_raw(&g.m.raw, None);
        if g.m.poisoned.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut f: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        g: MutexGuard<'a, T>,
        d: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let ok = self.wait_raw(&g.m.raw, Some(now() + d.as_nanos()));
        Ok((g, WaitTimeoutResult(!ok)))
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let dl = now() + d.as_nanos();
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if now() >= dl {
                return Ok((g, WaitTimeoutResult(true)));
            }
            self.wait_raw(&g.m.raw, Some(dl));
        }
    }
    pub fn notify_one(&self) {
        point("notify_one");
        if !self.w().is_empty() {
            self.w().remove(0);
            progress();
        }
    }
    pub fn notify_all(&self) {
        point("notify_all");
        self.w().clear();
        progress();
    }
}

// ---------------------------------------------------------------- Once & co
pub struct OnceLock<T> {
    busy: Cell<bool>,
    v: UnsafeCell<Option<T>>,
}
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> OnceLock<T> {
        OnceLock { busy: Cell::new(false), v: UnsafeCell::new(None) }
    }
    pub fn get(&self) -> Option<&T> {
        point("OnceLock::get");
        unsafe { (*self.v.get()).as_ref() }
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        point("OnceLock::set");
        if self.busy.get() || unsafe { (*self.v.get()).is_some() } {
            return Err(t);
        }
        unsafe { *self.v.get() = Some(t) };
        progress();
        Ok(())
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        point("OnceLock::get_or_init");
        block_until("OnceLock", None, &|| !self.busy.get());
        if unsafe { (*self.v.get()).is_none() } {
            self.busy.set(true);
            let v = f();
            unsafe { *self.v.get() = Some(v) };
            self.busy.set(false);
            progress();
        }
        unsafe { (*self.v.get()).as_ref().unwrap() }
    }
    pub fn into_inner(self) -> Option<T> {
        self.v.into_inner()
    }
    pub fn take(&mut self) -> Option<T> {
        self.v.get_mut().take()
    }
}
pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> LazyLock<T, F> {
        LazyLock { cell: OnceLock::new(), f: Cell::new(Some(f)) }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        this.cell.get_or_init(|| (this.f.take().unwrap())())
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
pub struct Once {
    c: OnceLock<()>,
}
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
impl Once {
    pub const fn new() -> Once {
        Once { c: OnceLock::new() }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        self.c.get_or_init(f);
    }
    pub fn is_completed(&self) -> bool {
        self.c.get().is_some()
    }
}
pub struct Barrier {
    n: usize,
    count: Cell<usize>,
    gen: Cell<u64>,
}
unsafe impl Send for Barrier {}
unsafe impl Sync for Barrier {}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, count: Cell::new(0), gen: Cell::new(0) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        point("Barrier::wait");
        self.count.set(self.count.get() + 1);
        progress();
        if self.count.get() >= self.n {
            self.count.set(0);
            self.gen.set(self.gen.get() + 1);
            return BarrierWaitResult(true);
        }
        let g = self.gen.get();
        block_until("Barrier::wait", None, &|| self.gen.get() != g);
        BarrierWaitResult(false)
    }
}

// ---------------------------------------------------------------- atomics
pub mod atomic {
    pub use ::std::sync::atomic::{compiler_fence, fence, Ordering};
    use crate::rt::{point, progress};
    macro_rules! common {
        ($name:ident, $t:ty) => {
            #[derive(Default)]
            pub struct $name(::std::sync::atomic::$name);
            impl $name {
                pub const fn new(v: $t) -> Self {
                    Self(::std::sync::atomic::$name::new(v))
                }
                pub fn load(&self, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::load"));
                    self.0.load(o)
                }
                pub fn store(&self, v: $t, o: Ordering) {
                    point(concat!(stringify!($name), "::store"));
                    self.0.store(v, o);
                    progress();
                }
                pub fn swap(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::swap"));
                    progress();
                    self.0.swap(v, o)
                }
                pub fn compare_exchange(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    point(concat!(stringify!($name), "::compare_exchange"));
                    let r = self.0.compare_exchange(a, b, s, f);
                    if r.is_ok() {
                        progress();
                    }
                    r
                }
                pub fn compare_exchange_weak(
                    &self,
                    a: $t,
                    b: $t,
                    s: Ordering,
                    f: Ordering,
                ) -> Result<$t, $t> {
                    self.compare_exchange(a, b, s, f)
                }
                pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                    &self,
                    s: Ordering,
                    l: Ordering,
                    mut f: F,
                ) -> Result<$t, $t> {
                    let mut prev = self.load(l);
                    while let Some(next) = f(prev) {
                        match self.compare_exchange(prev, next, s, l) {
                            Ok(x) => return Ok(x),
                            Err(x) => prev = x,
                        }
                    }
                    Err(prev)
                }
                pub fn into_inner(self) -> $t {
                    self.0.into_inner()
                }
                pub fn get_mut(&mut self) -> &mut $t {
                    self.0.get_mut()
                }
                pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::fetch_and"));
                    progress();
                    self.0.fetch_and(v, o)
                }
                pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::fetch_or"));
                    progress();
                    self.0.fetch_or(v, o)
                }
                pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::fetch_xor"));
                    progress();
                    self.0.fetch_xor(v, o)
                }
            }
            impl From<$t> for $name {
                fn from(v: $t) -> Self {
                    Self::new(v)
                }
            }
            impl std::fmt::Debug for $name {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    std::fmt::Debug::fmt(&self.0, f)
                }
            }
        };
    }
    macro_rules! int {
        ($name:ident, $t:ty) => {
            common!($name, $t);
            impl $name {
                pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::fetch_add"));
                    progress();
                    self.0.fetch_add(v, o)
                }
                pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::fetch_sub"));
                    progress();
                    self.0.fetch_sub(v, o)
                }
                pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::fetch_max"));
                    progress();
                    self.0.fetch_max(v, o)
                }
                pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                    point(concat!(stringify!($name), "::fetch_min"));
                    progress();
                    self.0.fetch_min(v, o)
                }
            }
        };
    }
    common!(AtomicBool, bool);
    int!(AtomicU8, u8);
    int!(AtomicU16, u16);
    int!(AtomicU32, u32);
    int!(AtomicU64, u64);
    int!(AtomicUsize, usize);
    int!(AtomicI8, i8);
    int!(AtomicI16, i16);
    int!(AtomicI32, i32);
    int!(AtomicI64, i64);
    int!(AtomicIsize, isize);
}

// ---------------------------------------------------------------- mpsc
pub mod mpsc {
    pub use ::std::sync::mpsc::{
        RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError,
    };
    use super::*;
    use crate::time::Instant;
    use std::collections::VecDeque;

    pub(crate) struct Chan<T> {
        q: UnsafeCell<VecDeque<T>>,
        senders: Cell<usize>,
        rx: Cell<bool>,
        cap: Option<usize>,
        /// number of items taken out so far (rendezvous hand-over)
        taken: Cell<u64>,
        put: Cell<u64>,
        receivers_waiting: Cell<u32>,
    }
    impl<T> Chan<T> {
        #[allow(clippy::mut_from_ref)]
        fn q(&self) -> &mut VecDeque<T> {
            unsafe { &mut *self.q.get() }
        }
        fn send(&self, t: T) -> Result<(), SendError<T>> {
            if teardown() {
                return Err(SendError(t));
            }
            point("Sender::send");
            if let Some(cap) = self.cap {
                let cap = cap.max(1);
                block_until("SyncSender::send", None, &|| !self.rx.get() || self.q().len() < cap);
            }
            if !self.rx.get() {
                return Err(SendError(t));
            }
            self.q().push_back(t);
            self.put.set(self.put.get() + 1);
            progress();
            if self.cap == Some(0) {
                let me = self.put.get();
                block_until("SyncSender::send (rendezvous)", None, &|| {
                    !self.rx.get() || self.taken.get() >= me
                });
                if self.taken.get() < me {
                    if let Some(t) = self.q().pop_back() {
                        return Err(SendError(t));
                    }
                }
            }
            Ok(())
        }
        fn drop_sender(&self) {
            self.senders.set(self.senders.get() - 1);
            if self.senders.get() == 0 {
                progress();
                point("Sender::drop");
            }
        }
        fn add_sender(&self) {
            self.senders.set(self.senders.get() + 1);
        }
    }
    pub struct Sender<T>(Arc<Chan<T>>);
    pub struct SyncSender<T>(Arc<Chan<T>>);
    pub struct Receiver<T>(Arc<Chan<T>>);
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Send for SyncSender<T> {}
    unsafe impl<T: Send> Sync for SyncSender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}

    #[allow(clippy::arc_with_non_send_sync)]
    fn chan<T>(cap: Option<usize>) -> Arc<Chan<T>> {
        Arc::new(Chan {
            q: UnsafeCell::new(VecDeque::new()),
            senders: Cell::new(1),
            rx: Cell::new(true),
            cap,
            taken: Cell::new(0),
            put: Cell::new(0),
            receivers_waiting: Cell::new(0),
        })
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = chan(None);
        (Sender(c.clone()), Receiver(c))
    }
    pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
        let c = chan(Some(bound));
        (SyncSender(c.clone()), Receiver(c))
    }
    impl<T> Sender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
    }
    impl<T> Clone for Sender<T> {
        fn clone(&self) -> Self {
            self.0.add_sender();
            Sender(self.0.clone())
        }
    }
    impl<T> Drop for Sender<T> {
        fn drop(&mut self) {
            self.0.drop_sender()
        }
    }
    impl<T> std::fmt::Debug for Sender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Sender { .. }")
        }
    }
    impl<T> SyncSender<T> {
        pub fn send(&self, t: T) -> Result<(), SendError<T>> {
            self.0.send(t)
        }
        pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
            if teardown() {
                return Err(TrySendError::Disconnected(t));
            }
            point("SyncSender::try_send");
            if !self.0.rx.get() {
                return Err(TrySendError::Disconnected(t));
            }
            let full = match self.0.cap {
                Some(0) => self.0.receivers_waiting.get() == 0 || !self.0.q().is_empty(),
                Some(c) => self.0.q().len() >= c,
                None => false,
            };
            if full {
                return Err(TrySendError::Full(t));
            }
            self.0.q().push_back(t);
            self.0.put.set(self.0.put.get() + 1);
            progress();
            Ok(())
        }
    }
    impl<T> Clone for SyncSender<T> {
        fn clone(&self) -> Self {
            self.0.add_sender();
            SyncSender(self.0.clone())
        }
    }
    impl<T> Drop for SyncSender<T> {
        fn drop(&mut self) {
            self.0.drop_sender()
        }
    }
    impl<T> std::fmt::Debug for SyncSender<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("SyncSender { .. }")
        }
    }
    impl<T> Receiver<T> {
        fn pop(&self) -> Option<T> {
            let v = self.0.q().pop_front();
            if v.is_some() {
                self.0.taken.set(self.0.taken.get() + 1);
                progress();
            }
            v
        }
        fn wait(&self, label: &'static str, deadline: Option<rt::Nanos>) -> bool {
            self.0.receivers_waiting.set(1);
            let c = &self.0;
            let ok = block_until(label, deadline, &|| !c.q().is_empty() || c.senders.get() == 0);
            self.0.receivers_waiting.set(0);
            ok
        }
        pub fn recv(&self) -> Result<T, RecvError> {
            if teardown() {
                return Err(RecvError);
            }
            point("Receiver::recv");
            self.wait("Receiver::recv", None);
            self.pop().ok_or(RecvError)
        }
        pub fn try_recv(&self) -> Result<T, TryRecvError> {
            if teardown() {
                return Err(TryRecvError::Disconnected);
            }
            point("Receiver::try_recv");
            match self.pop() {
                Some(v) => Ok(v),
                None if self.0.senders.get() == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        }
        pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
            match Instant::now().checked_add(d) {
                Some(dl) => self.recv_until(dl.0),
                None => self.recv().map_err(|_| RecvTimeoutError::Disconnected),
            }
        }
        fn recv_until(&self, dl: rt::Nanos) -> Result<T, RecvTimeoutError> {
            if teardown() {
                return Err(RecvTimeoutError::Disconnected);
            }
            point("Receiver::recv_timeout");
            if !self.wait("Receiver::recv_timeout", Some(dl)) {
                return Err(RecvTimeoutError::Timeout);
            }
            self.pop().ok_or(RecvTimeoutError::Disconnected)
        }
        pub fn iter(&self) -> Iter<'_, T> {
            Iter(self)
        }
        pub fn try_iter(&self) -> TryIter<'_, T> {
            TryIter(self)
        }
    }
    impl<T> Drop for Receiver<T> {
        fn drop(&mut self) {
            self.0.rx.set(false);
            progress();
            let items = std::mem::take(self.0.q());
            drop(items);
            point("Receiver::drop");
        }
    }
    impl<T> std::fmt::Debug for Receiver<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Receiver { .. }")
        }
    }
    pub struct Iter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for Iter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    pub struct TryIter<'a, T>(&'a Receiver<T>);
    impl<T> Iterator for TryIter<'_, T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.try_recv().ok()
        }
    }
    pub struct IntoIter<T>(Receiver<T>);
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            self.0.recv().ok()
        }
    }
    impl<T> IntoIterator for Receiver<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter(self)
        }
    }
    impl<'a, T> IntoIterator for &'a Receiver<T> {
        type Item = T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Iter<'a, T> {
            Iter(self)
        }
    }
}
