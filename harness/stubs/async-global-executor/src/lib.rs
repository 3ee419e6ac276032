//! Stand-in for `async-global-executor`, used only for the build whose IR is
//! executed symbolically: a task runs on the spot instead of on a thread pool.
use std::future::Future;
use std::pin::pin;
use std::task::{Context, Poll, Waker};

pub use async_task::Task;

#[derive(Default, Debug)]
pub struct GlobalExecutorConfig {}
impl GlobalExecutorConfig {
    pub fn with_env_var(self, _: impl Into<String>) -> Self {
        self
    }
    pub fn with_min_threads(self, _: usize) -> Self {
        self
    }
    pub fn with_max_threads(self, _: usize) -> Self {
        self
    }
    pub fn with_thread_name(self, _: impl Into<String>) -> Self {
        self
    }
    pub fn with_thread_name_fn(self, _: impl Fn() -> String + Send + Sync + 'static) -> Self {
        self
    }
}
pub fn init() {}
pub fn init_with_config(_: GlobalExecutorConfig) {}

pub fn spawn<F: Future<Output = T> + Send + 'static, T: Send + 'static>(f: F) -> Task<T> {
    let (r, t) = async_task::spawn(f, |r: async_task::Runnable| {
        r.run();
    });
    r.schedule();
    t
}
pub fn spawn_local<F: Future<Output = T> + 'static, T: 'static>(f: F) -> Task<T> {
    let (r, t) = unsafe {
        async_task::spawn_unchecked(f, |r: async_task::Runnable| {
            r.run();
        })
    };
    r.schedule();
    t
}
pub fn spawn_blocking<F: FnOnce() -> T + Send + 'static, T: Send + 'static>(f: F) -> Task<T> {
    spawn(async move { f() })
}
pub fn block_on<F: Future<Output = T>, T>(f: F) -> T {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}
