//! Stands in for tokio: channels, tasks and timers that the harness drives,
//! on a clock that it sets.
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::task::{Context, Poll, Waker};

/// The time, in milliseconds.
pub static NOW: AtomicU64 = AtomicU64::new(1000);
/// Which branch of a `select!` is looked at first.
pub static FIRST: AtomicUsize = AtomicUsize::new(0);
type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
static TASKS: Mutex<Vec<Task>> = Mutex::new(Vec::new());

pub fn spawn<F: Future<Output = ()> + Send + 'static>(f: F) {
    TASKS.lock().unwrap().push(Box::pin(f));
}
/// Lets every task go on; how many are left.
pub fn turn() -> usize {
    let mut tasks = std::mem::take(&mut *TASKS.lock().unwrap());
    let mut cx = Context::from_waker(Waker::noop());
    tasks.retain_mut(|t| t.as_mut().poll(&mut cx).is_pending());
    let mut all = TASKS.lock().unwrap();
    all.append(&mut tasks);
    all.len()
}

pub mod runtime {
    #[derive(Clone, Debug)]
    pub struct Handle;
    impl Handle {
        pub fn current() -> Handle {
            Handle
        }
        pub fn spawn<F: std::future::Future<Output = ()> + Send + 'static>(&self, f: F) {
            crate::spawn(f)
        }
        pub fn spawn_blocking<R: Send + 'static>(&self, f: impl FnOnce() -> R + Send + 'static) -> crate::task::JoinHandle<R> {
            crate::task::spawn_blocking(f)
        }
    }
}
/// Work on threads of its own, which goes on when the harness says so.
pub mod task {
    use super::*;
    use std::sync::Arc;
    type Work = Box<dyn FnOnce() + Send>;
    static WORK: Mutex<Vec<Work>> = Mutex::new(Vec::new());
    #[derive(Debug)]
    pub struct JoinError;
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str("task failed")
        }
    }
    impl std::error::Error for JoinError {}
    pub struct JoinHandle<R>(Arc<Mutex<Option<R>>>);
    impl<R> Future for JoinHandle<R> {
        type Output = Result<R, JoinError>;
        fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<Self::Output> {
            match self.0.lock().unwrap().take() {
                Some(r) => Poll::Ready(Ok(r)),
                None => Poll::Pending,
            }
        }
    }
    pub fn spawn_blocking<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> JoinHandle<R> {
        let out = Arc::new(Mutex::new(None));
        let to = out.clone();
        WORK.lock().unwrap().push(Box::new(move || {
            let r = f();
            *to.lock().unwrap() = Some(r);
        }));
        JoinHandle(out)
    }
    pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    /// How much work waits.
    pub fn waiting() -> usize {
        WORK.lock().unwrap().len()
    }
    /// Does some of the work that waits; whether there was any.
    pub fn work(n: usize) -> bool {
        let work = {
            let mut all = WORK.lock().unwrap();
            if n >= all.len() {
                return false;
            }
            all.remove(n)
        };
        work();
        true
    }
}

pub mod time {
    use super::*;
    use std::time::Duration;
    pub struct Sleep(u64);
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(NOW.load(Relaxed) + d.as_millis() as u64 + (d.subsec_nanos() % 1_000_000 != 0) as u64)
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context) -> Poll<()> {
            if NOW.load(Relaxed) >= self.0 {
                Poll::Ready(())
            } else {
                Poll::Pending
            }
        }
    }
}

pub mod sync {
    pub mod mpsc {
        use std::collections::VecDeque;
        use std::sync::{Arc, Mutex};
        use std::task::Poll;
        pub mod error {
            pub struct SendError<T>(pub T);
            impl<T> std::fmt::Display for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("channel closed")
                }
            }
            impl<T> std::fmt::Debug for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("channel closed")
                }
            }
            impl<T> std::error::Error for SendError<T> {}
        }
        pub struct UnboundedSender<T>(Arc<Mutex<VecDeque<T>>>);
        pub struct UnboundedReceiver<T>(Arc<Mutex<VecDeque<T>>>);
        impl<T> std::fmt::Debug for UnboundedSender<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("UnboundedSender")
            }
        }
        impl<T> std::fmt::Debug for UnboundedReceiver<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("UnboundedReceiver")
            }
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                UnboundedSender(self.0.clone())
            }
        }
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let q = Arc::new(Mutex::new(VecDeque::new()));
            (UnboundedSender(q.clone()), UnboundedReceiver(q))
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
                self.0.lock().unwrap().push_back(v);
                Ok(())
            }
        }
        impl<T> UnboundedReceiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                std::future::poll_fn(|_| match self.0.lock().unwrap().pop_front() {
                    Some(v) => Poll::Ready(Some(v)),
                    None if Arc::strong_count(&self.0) == 1 => Poll::Ready(None),
                    None => Poll::Pending,
                })
                .await
            }
            pub fn is_empty(&self) -> bool {
                self.0.lock().unwrap().is_empty()
            }
            pub fn len(&self) -> usize {
                self.0.lock().unwrap().len()
            }
            pub fn try_recv(&mut self) -> Result<T, ()> {
                self.0.lock().unwrap().pop_front().ok_or(())
            }
        }
    }
}

pub enum Out<A, B, C> {
    A(A),
    B(B),
    C(C),
}
#[macro_export]
macro_rules! select {
    (biased; $($rest:tt)*) => { $crate::select!($($rest)*) };
    ($p1:pat = $e1:expr => $b1:expr, $p2:pat = $e2:expr => $b2:expr, $p3:pat = $e3:expr => $b3:expr $(,)?) => {{
        let out = {
            let mut f1 = ::std::boxed::Box::pin($e1);
            let mut f2 = ::std::boxed::Box::pin($e2);
            let mut f3 = ::std::boxed::Box::pin($e3);
            let mut off = [false; 3];
            ::std::future::poll_fn(|cx| {
                use ::std::future::Future;
                use ::std::task::Poll;
                let first = $crate::FIRST.load(::std::sync::atomic::Ordering::Relaxed);
                for k in 0..3 {
                    let k = (first + k) % 3;
                    if off[k] {
                        continue;
                    }
                    #[allow(unused_variables)]
                    match k {
                        0 => {
                            if let Poll::Ready(v) = f1.as_mut().poll(cx) {
                                if matches!(&v, $p1) {
                                    return Poll::Ready($crate::Out::A(v));
                                }
                                off[0] = true;
                            }
                        }
                        1 => {
                            if let Poll::Ready(v) = f2.as_mut().poll(cx) {
                                if matches!(&v, $p2) {
                                    return Poll::Ready($crate::Out::B(v));
                                }
                                off[1] = true;
                            }
                        }
                        _ => {
                            if let Poll::Ready(v) = f3.as_mut().poll(cx) {
                                if matches!(&v, $p3) {
                                    return Poll::Ready($crate::Out::C(v));
                                }
                                off[2] = true;
                            }
                        }
                    }
                }
                Poll::Pending
            })
            .await
        };
        #[allow(unreachable_patterns)]
        match out {
            $crate::Out::A($p1) => $b1,
            $crate::Out::B($p2) => $b2,
            $crate::Out::C($p3) => $b3,
            _ => unreachable!(),
        }
    }};
}
