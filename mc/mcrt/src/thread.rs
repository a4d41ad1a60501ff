//! Simulated `std::thread`.
pub use ::std::thread::{panicking, AccessError, Result};
use std::cell::RefCell;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;

use crate::rt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ThreadId(usize);

#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
    name: Option<String>,
}
impl Thread {
    pub fn id(&self) -> ThreadId {
        ThreadId(self.id)
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
    pub fn unpark(&self) {
        if rt::teardown() {
            return;
        }
        rt::point("unpark");
        rt::rt().threads[self.id].park_token = true;
        rt::progress();
    }
}
pub fn current() -> Thread {
    if !rt::active() {
        return Thread { id: 0, name: Some("main".into()) };
    }
    let id = rt::current();
    Thread { id, name: rt::thread_name(id) }
}
pub fn park() {
    if rt::teardown() {
        return;
    }
    rt::point("park");
    let id = rt::current();
    rt::block_until("park", None, &|| rt::rt().threads[id].park_token);
    if !rt::teardown() {
        rt::rt().threads[id].park_token = false;
    }
}
pub fn park_timeout(d: Duration) {
    if rt::teardown() {
        return;
    }
    rt::point("park_timeout");
    let id = rt::current();
    let dl = rt::now() + d.as_nanos();
    rt::block_until("park_timeout", Some(dl), &|| rt::rt().threads[id].park_token);
    if !rt::teardown() {
        rt::rt().threads[id].park_token = false;
    }
}
pub fn sleep(d: Duration) {
    if rt::teardown() {
        return;
    }
    rt::point("sleep");
    rt::sleep_until(rt::now() + d.as_nanos());
}
pub fn yield_now() {
    rt::yield_now()
}
pub fn available_parallelism() -> io::Result<std::num::NonZeroUsize> {
    Ok(std::num::NonZeroUsize::new(4).unwrap())
}

struct Packet<T> {
    value: Rc<RefCell<Option<Result<T>>>>,
}
pub struct JoinHandle<T> {
    id: usize,
    thread: Thread,
    packet: Packet<T>,
}
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        if rt::teardown() {
            return true;
        }
        rt::point("is_finished");
        rt::is_done(self.id)
    }
    pub fn join(self) -> Result<T> {
        if !rt::teardown() {
            rt::point("join");
            let id = self.id;
            rt::block_until("join", None, &|| rt::is_done(id));
        }
        let v = self.packet.value.borrow_mut().take();
        match v {
            Some(v) => v,
            None => Err(Box::new("thread did not finish")),
        }
    }
    pub fn sim_id(&self) -> usize {
        self.id
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { name: None }
    }
    pub fn name(mut self, name: String) -> Builder {
        self.name = Some(name);
        self
    }
    pub fn stack_size(self, _: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        if rt::teardown() {
            return Err(io::Error::other("tearing down"));
        }
        let cell: Rc<RefCell<Option<Result<T>>>> = Rc::new(RefCell::new(None));
        let c2 = cell.clone();
        let id = rt::spawn_raw(
            self.name.clone(),
            Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(f));
                let r = match r {
                    Ok(v) => Ok(v),
                    Err(e) => Err(rt::filter_unwind(e)),
                };
                *c2.borrow_mut() = Some(r);
            }),
        );
        rt::point("spawn");
        Ok(JoinHandle {
            id,
            thread: Thread { id, name: self.name },
            packet: Packet { value: cell },
        })
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

/// A thread-local value, of the simulated threads of one execution.
pub struct LocalKey<T: 'static> {
    init: fn() -> T,
}
impl<T: 'static> LocalKey<T> {
    #[doc(hidden)]
    pub const fn new(init: fn() -> T) -> LocalKey<T> {
        LocalKey { init }
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        let key = self as *const _ as usize;
        if !rt::active() {
            return f(&(self.init)());
        }
        let id = rt::current();
        let find = || rt::rt().threads[id].locals.iter().find(|l| l.0 == key).map(|l| l.1.clone());
        let v = find().unwrap_or_else(|| {
            let v: Rc<dyn std::any::Any> = Rc::new((self.init)());
            rt::rt().threads[id].locals.push((key, v.clone()));
            v
        });
        f(v.downcast_ref::<T>().expect("a thread-local value of another type"))
    }
    pub fn try_with<R>(&'static self, f: impl FnOnce(&T) -> R) -> std::result::Result<R, AccessError> {
        Ok(self.with(f))
    }
}
impl<T: 'static> LocalKey<std::cell::Cell<T>> {
    pub fn set(&'static self, v: T) {
        self.with(|c| c.set(v))
    }
    pub fn get(&'static self) -> T
    where
        T: Copy,
    {
        self.with(|c| c.get())
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
impl<T: 'static> LocalKey<RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn set(&'static self, v: T) {
        self.with(|c| *c.borrow_mut() = v)
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, v: T) -> T {
        self.with(|c| c.replace(v))
    }
}
