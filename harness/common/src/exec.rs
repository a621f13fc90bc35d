//! A deterministic single-threaded executor: the harness decides which woken
//! future is polled next, so every interleaving of await points is reachable
//! and reproducible from the seed.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub struct Task<T> {
    fut: Option<Pin<Box<dyn Future<Output = T>>>>,
    flag: Arc<Flag>,
}
impl<T> Task<T> {
    pub fn new(f: impl Future<Output = T> + 'static) -> Self {
        Task { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))) }
    }
    pub fn woken(&self) -> bool {
        self.fut.is_some() && self.flag.0.load(Ordering::SeqCst)
    }
    pub fn live(&self) -> bool {
        self.fut.is_some()
    }
    pub fn poll(&mut self) -> Option<T> {
        self.flag.0.store(false, Ordering::SeqCst);
        let waker = Waker::from(self.flag.clone());
        let mut cx = Context::from_waker(&waker);
        let f = self.fut.as_mut().expect("polled after completion");
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(v) => {
                self.fut = None;
                Some(v)
            }
            Poll::Pending => None,
        }
    }
    /// drop the future where it stands
    pub fn abort(&mut self) {
        self.fut = None;
    }
}

#[derive(Default)]
struct GateState<T> {
    value: Option<T>,
    entered: bool,
    waker: Option<Waker>,
}
/// A future the harness opens; `entered` tells whether it was ever polled.
pub struct Gate<T>(Rc<RefCell<GateState<T>>>);
impl<T> Clone for Gate<T> {
    fn clone(&self) -> Self {
        Gate(self.0.clone())
    }
}
impl<T> Gate<T> {
    pub fn new() -> Self {
        Gate(Rc::new(RefCell::new(GateState { value: None, entered: false, waker: None })))
    }
    pub fn open(&self, v: T) {
        let w = {
            let mut s = self.0.borrow_mut();
            s.value = Some(v);
            s.waker.take()
        };
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn entered(&self) -> bool {
        self.0.borrow().entered
    }
}
impl<T> Future for Gate<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let mut s = self.0.borrow_mut();
        s.entered = true;
        match s.value.take() {
            Some(v) => Poll::Ready(v),
            None => {
                s.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}
