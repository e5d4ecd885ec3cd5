//! Stand-in for wasm-bindgen-futures: tasks are polled one at a time, when and
//! in the order the checker says.
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::task::{Context, Poll, Wake, Waker};

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}
struct Task {
    run: Option<Pin<Box<dyn Future<Output = ()>>>>,
    woken: Arc<Flag>,
}
thread_local! {
    static TASKS: RefCell<Vec<Task>> = const { RefCell::new(vec![]) };
}
pub fn spawn_local<F: Future<Output = ()> + 'static>(f: F) {
    TASKS.with(|t| t.borrow_mut().push(Task { run: Some(Box::pin(f)), woken: Arc::new(Flag(AtomicBool::new(true))) }));
}

// ---- for the checker
/// Forgets all tasks.
pub fn reset() {
    let old = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    drop(old);
}
/// Tasks that have been woken (or not started) and can run.
pub fn ready() -> Vec<usize> {
    TASKS.with(|t| t.borrow().iter().enumerate().filter(|(_, t)| t.run.is_some() && t.woken.0.load(SeqCst)).map(|(i, _)| i).collect())
}
/// Tasks that have not ended.
pub fn live() -> usize {
    TASKS.with(|t| t.borrow().iter().filter(|t| t.run.is_some()).count())
}
/// Lets one task run until it waits or ends.
pub fn poll(i: usize) {
    let (mut f, flag) = TASKS.with(|t| {
        let t = &mut t.borrow_mut()[i];
        t.woken.0.store(false, SeqCst);
        (t.run.take().expect("a live task"), t.woken.clone())
    });
    let w = Waker::from(flag);
    match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Pending => TASKS.with(|t| t.borrow_mut()[i].run = Some(f)),
        Poll::Ready(()) => {}
    }
}
