use std::future::Future;
use std::pin::pin;
use std::task::{Context as Cx, Poll, Waker};

/// Runs a future which never has to wait for anything but itself
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Cx::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
    }
}

/// Text without the cost of validating it: the callers only build valid UTF-8
pub fn text(v: Vec<u8>) -> String {
    unsafe { String::from_utf8_unchecked(v) }
}
