//! Stand-in for the parts of `tokio` liso uses, on the controlled runtime.
pub mod runtime {
    use mcrt::rt;
    use std::future::Future;
    use std::io;
    use std::sync::atomic::{AtomicBool, Ordering};
    use std::sync::Arc;
    use std::task::{Context, Poll, Wake, Waker};

    pub struct Builder(());
    impl Builder {
        pub fn new_current_thread() -> Builder {
            Builder(())
        }
        pub fn enable_time(&mut self) -> &mut Builder {
            self
        }
        pub fn enable_all(&mut self) -> &mut Builder {
            self
        }
        pub fn build(&mut self) -> io::Result<Runtime> {
            Ok(Runtime(()))
        }
    }
    #[derive(Debug)]
    pub struct Runtime(());
    struct Flag(AtomicBool);
    impl Wake for Flag {
        fn wake(self: Arc<Self>) {
            self.0.store(true, Ordering::SeqCst);
            rt::progress();
        }
    }
    impl Runtime {
        pub fn block_on<F: Future>(&self, f: F) -> F::Output {
            block_on(f)
        }
    }
    /// Poll only when woken or when a timer that was asked for is due.
    pub fn block_on<F: Future>(f: F) -> F::Output {
        let mut f = std::pin::pin!(f);
        let flag = Arc::new(Flag(AtomicBool::new(false)));
        let waker: Waker = flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        loop {
            rt::take_timer_hint();
            flag.0.store(false, Ordering::SeqCst);
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                return v;
            }
            let hint = rt::take_timer_hint();
            rt::point("tokio park");
            rt::block_until("tokio park", hint, &|| flag.0.load(Ordering::SeqCst));
        }
    }
}

pub mod sync {
    pub mod mpsc {
        use mcrt::rt::{block_until, point, progress, teardown};
        use std::cell::{Cell, RefCell};
        use std::collections::VecDeque;
        use std::sync::Arc;
        use std::task::{Context, Poll, Waker};

        pub mod error {
            #[derive(Debug, PartialEq, Eq, Clone, Copy)]
            pub struct SendError<T>(pub T);
            impl<T> std::fmt::Display for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("channel closed")
                }
            }
            impl<T: std::fmt::Debug> std::error::Error for SendError<T> {}
            #[derive(Debug, PartialEq, Eq, Clone, Copy)]
            pub enum TryRecvError {
                Empty,
                Disconnected,
            }
            impl std::fmt::Display for TryRecvError {
                fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                    f.write_str("try_recv failed")
                }
            }
            impl std::error::Error for TryRecvError {}
        }
        use error::*;

        struct Chan<T> {
            q: RefCell<VecDeque<T>>,
            senders: Cell<usize>,
            rx: Cell<bool>,
            waker: RefCell<Option<Waker>>,
        }
        impl<T> Chan<T> {
            fn wake(&self) {
                progress();
                let w = self.waker.borrow_mut().take();
                if let Some(w) = w {
                    w.wake();
                }
            }
        }
        pub struct UnboundedSender<T>(Arc<Chan<T>>);
        pub struct UnboundedReceiver<T>(Arc<Chan<T>>);
        unsafe impl<T: Send> Send for UnboundedSender<T> {}
        unsafe impl<T: Send> Sync for UnboundedSender<T> {}
        unsafe impl<T: Send> Send for UnboundedReceiver<T> {}
        unsafe impl<T: Send> Sync for UnboundedReceiver<T> {}

        #[allow(clippy::arc_with_non_send_sync)]
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let c = Arc::new(Chan {
                q: RefCell::new(VecDeque::new()),
                senders: Cell::new(1),
                rx: Cell::new(true),
                waker: RefCell::new(None),
            });
            (UnboundedSender(c.clone()), UnboundedReceiver(c))
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                if teardown() {
                    return Err(SendError(t));
                }
                point("UnboundedSender::send");
                if !self.0.rx.get() {
                    return Err(SendError(t));
                }
                self.0.q.borrow_mut().push_back(t);
                self.0.wake();
                Ok(())
            }
            pub fn is_closed(&self) -> bool {
                point("UnboundedSender::is_closed");
                !self.0.rx.get()
            }
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                self.0.senders.set(self.0.senders.get() + 1);
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Drop for UnboundedSender<T> {
            fn drop(&mut self) {
                self.0.senders.set(self.0.senders.get() - 1);
                if self.0.senders.get() == 0 && !teardown() {
                    self.0.wake();
                    point("UnboundedSender::drop");
                }
            }
        }
        impl<T> UnboundedReceiver<T> {
            fn pop(&self) -> Option<T> {
                let v = self.0.q.borrow_mut().pop_front();
                if v.is_some() {
                    progress();
                }
                v
            }
            pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
                if let Some(v) = self.pop() {
                    return Poll::Ready(Some(v));
                }
                if self.0.senders.get() == 0 || !self.0.rx.get() {
                    return Poll::Ready(None);
                }
                *self.0.waker.borrow_mut() = Some(cx.waker().clone());
                Poll::Pending
            }
            pub async fn recv(&mut self) -> Option<T> {
                if teardown() {
                    return None;
                }
                point("UnboundedReceiver::recv");
                std::future::poll_fn(|cx| self.poll_recv(cx)).await
            }
            pub fn blocking_recv(&mut self) -> Option<T> {
                if teardown() {
                    return None;
                }
                point("UnboundedReceiver::blocking_recv");
                let c = self.0.clone();
                block_until("UnboundedReceiver::blocking_recv", None, &|| {
                    !c.q.borrow().is_empty() || c.senders.get() == 0 || !c.rx.get()
                });
                self.pop()
            }
            pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
                if teardown() {
                    return Err(TryRecvError::Disconnected);
                }
                point("UnboundedReceiver::try_recv");
                match self.pop() {
                    Some(v) => Ok(v),
                    None if self.0.senders.get() == 0 || !self.0.rx.get() => {
                        Err(TryRecvError::Disconnected)
                    }
                    None => Err(TryRecvError::Empty),
                }
            }
            pub fn close(&mut self) {
                point("UnboundedReceiver::close");
                self.0.rx.set(false);
                progress();
            }
            pub fn is_empty(&self) -> bool {
                self.0.q.borrow().is_empty()
            }
            pub fn len(&self) -> usize {
                self.0.q.borrow().len()
            }
            pub fn is_closed(&self) -> bool {
                !self.0.rx.get() || self.0.senders.get() == 0
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                self.0.rx.set(false);
                progress();
                let q = std::mem::take(&mut *self.0.q.borrow_mut());
                drop(q);
                if !teardown() {
                    point("UnboundedReceiver::drop");
                }
            }
        }
        impl<T> std::fmt::Debug for UnboundedSender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("UnboundedSender { .. }")
            }
        }
        impl<T> std::fmt::Debug for UnboundedReceiver<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("UnboundedReceiver { .. }")
            }
        }
    }
}

pub mod time {
    use mcrt::rt;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;

    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
    pub struct Instant(mcrt::time::Instant);
    impl Instant {
        pub fn now() -> Instant {
            Instant(mcrt::time::Instant::now())
        }
        pub fn from_std(i: mcrt::time::Instant) -> Instant {
            Instant(i)
        }
        pub fn into_std(self) -> mcrt::time::Instant {
            self.0
        }
        pub fn checked_add(&self, d: Duration) -> Option<Instant> {
            self.0.checked_add(d).map(Instant)
        }
        pub fn duration_since(&self, o: Instant) -> Duration {
            self.0.duration_since(o.0)
        }
        pub fn elapsed(&self) -> Duration {
            self.0.elapsed()
        }
    }
    impl std::ops::Add<Duration> for Instant {
        type Output = Instant;
        fn add(self, d: Duration) -> Instant {
            Instant(self.0 + d)
        }
    }
    impl std::ops::Sub<Instant> for Instant {
        type Output = Duration;
        fn sub(self, o: Instant) -> Duration {
            self.0 - o.0
        }
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq)]
        pub struct Elapsed(pub(crate) ());
        impl std::fmt::Display for Elapsed {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("deadline has elapsed")
            }
        }
        impl std::error::Error for Elapsed {}
    }
    pub struct Sleep(Option<Instant>);
    impl Sleep {
        fn due(&self) -> bool {
            match self.0 {
                None => false,
                Some(d) => {
                    if rt::now() >= d.0.nanos() {
                        true
                    } else {
                        rt::set_timer_hint(d.0.nanos());
                        false
                    }
                }
            }
        }
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if self.due() {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(Instant::now().checked_add(d))
    }
    pub fn sleep_until(d: Instant) -> Sleep {
        Sleep(Some(d))
    }
    pub struct Timeout<F> {
        f: F,
        s: Sleep,
    }
    impl<F: Future> Future for Timeout<F> {
        type Output = Result<F::Output, error::Elapsed>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            // Safety: `f` is never moved out of the pinned structure.
            let me = unsafe { self.get_unchecked_mut() };
            let f = unsafe { Pin::new_unchecked(&mut me.f) };
            if let Poll::Ready(v) = f.poll(cx) {
                return Poll::Ready(Ok(v));
            }
            if me.s.due() {
                return Poll::Ready(Err(error::Elapsed(())));
            }
            Poll::Pending
        }
    }
    pub fn timeout<F: Future>(d: Duration, f: F) -> Timeout<F> {
        Timeout { f, s: sleep(d) }
    }
    pub fn timeout_at<F: Future>(d: Instant, f: F) -> Timeout<F> {
        Timeout { f, s: sleep_until(d) }
    }
}
