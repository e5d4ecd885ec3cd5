//! Stand-in for roam: the network as a world in which everything that can
//! happen next is decided from outside (by a model checker).
pub use roam_macros::service;

/// Call context.
pub struct Context {
    _p: (),
}

pub mod world {
    use super::Context;
    use std::any::Any;
    use std::cell::RefCell;
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Poll, Waker};
    use std::time::Duration;

    /// What a future waits for. Sessions are numbered in order of connecting.
    #[derive(Clone, Debug, PartialEq)]
    pub enum Wait {
        Connect(String),
        Accept(usize),
        Driver(usize),
        Call(usize, String, String),
        Sleep(Duration),
    }
    /// What happens to it.
    #[derive(Clone, Debug)]
    pub enum Reply {
        Ok,
        Fail,
        Message(&'static str, std::rc::Rc<dyn Any>),
    }
    #[derive(Clone, Debug, PartialEq)]
    pub enum Note {
        Began(usize, Wait),
        /// Given up by the client before it was decided.
        Dropped(usize, Wait),
        /// The client is done with a message.
        Handled(usize),
    }
    struct Leaf {
        wait: Wait,
        reply: Option<Reply>,
        waker: Option<Waker>,
    }
    #[derive(Default)]
    struct World {
        leaves: Vec<Option<Leaf>>,
        notes: Vec<Note>,
        sessions: usize,
        /// sessions whose driver has ended or was dropped
        over: Vec<usize>,
    }
    thread_local! {
        static WORLD: RefCell<World> = RefCell::new(World::default());
    }
    fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
        WORLD.with(|w| f(&mut w.borrow_mut()))
    }

    // ---- for the checker
    pub fn reset() {
        with(|w| *w = World::default());
    }
    /// Everything that is waited for and undecided.
    pub fn pending() -> Vec<(usize, Wait)> {
        with(|w| w.leaves.iter().enumerate().filter_map(|(i, l)| l.as_ref().filter(|l| l.reply.is_none()).map(|l| (i, l.wait.clone()))).collect())
    }
    pub fn decide(id: usize, r: Reply) {
        let waker = with(|w| {
            let l = w.leaves[id].as_mut().expect("waited for");
            l.reply = Some(r);
            l.waker.clone()
        });
        if let Some(k) = waker {
            k.wake();
        }
    }
    pub fn notes() -> Vec<Note> {
        with(|w| w.notes.clone())
    }

    // ---- for the stand-ins
    pub struct Waiting {
        id: usize,
        done: bool,
    }
    pub fn wait(wait: Wait) -> Waiting {
        let id = with(|w| {
            w.leaves.push(Some(Leaf { wait: wait.clone(), reply: None, waker: None }));
            w.notes.push(Note::Began(w.leaves.len() - 1, wait));
            w.leaves.len() - 1
        });
        Waiting { id, done: false }
    }
    impl Future for Waiting {
        type Output = Reply;
        fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> Poll<Reply> {
            let id = self.id;
            let r = with(|w| {
                let l = w.leaves[id].as_mut().expect("polled after it was done");
                match l.reply.take() {
                    Some(r) => {
                        w.leaves[id] = None;
                        Some(r)
                    }
                    None => {
                        l.waker = Some(cx.waker().clone());
                        None
                    }
                }
            });
            match r {
                Some(r) => {
                    self.done = true;
                    Poll::Ready(r)
                }
                None => Poll::Pending,
            }
        }
    }
    impl Drop for Waiting {
        fn drop(&mut self) {
            let id = self.id;
            if !self.done {
                let _ = WORLD.try_with(|w| {
                    let mut w = w.borrow_mut();
                    if let Some(Some(l)) = w.leaves.get_mut(id).map(|l| l.take()) {
                        w.notes.push(Note::Dropped(id, l.wait));
                    }
                });
            }
        }
    }

    #[derive(Clone, Debug)]
    pub struct Broken(pub &'static str);
    impl std::fmt::Display for Broken {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            f.write_str(self.0)
        }
    }
    impl std::error::Error for Broken {}

    pub trait Dispatch {
        #[allow(async_fn_in_trait)]
        async fn dispatch(&self, cx: &Context, method: &str, arg: &dyn Any);
    }
    pub fn new_session() -> usize {
        with(|w| {
            w.sessions += 1;
            w.sessions - 1
        })
    }

    /// The calling end of a session.
    #[derive(Clone, Debug)]
    pub struct Handle(pub usize);
    impl Handle {
        pub async fn call(&self, method: &str, args: String) -> Result<(), Broken> {
            if with(|w| w.over.contains(&self.0)) {
                return Err(Broken("connection closed"));
            }
            match wait(Wait::Call(self.0, method.into(), args)).await {
                Reply::Ok => Ok(()),
                _ => Err(Broken("call failed")),
            }
        }
    }
    /// The processing end of a session.
    pub struct Driver<D> {
        session: usize,
        dispatcher: D,
    }
    impl<D: Dispatch> Driver<D> {
        pub fn new(session: usize, dispatcher: D) -> Self {
            Driver { session, dispatcher }
        }
        pub async fn run(self) -> Result<(), Broken> {
            loop {
                match wait(Wait::Driver(self.session)).await {
                    Reply::Message(method, arg) => {
                        self.dispatcher.dispatch(&Context { _p: () }, method, &*arg).await;
                        with(|w| w.notes.push(Note::Handled(self.session)));
                    }
                    Reply::Ok => return Ok(()),
                    Reply::Fail => return Err(Broken("connection lost")),
                }
            }
        }
    }
    impl<D> Drop for Driver<D> {
        /// Without its driver, a session's calls get no answer but an error.
        fn drop(&mut self) {
            let s = self.session;
            let calls = with(|w| {
                w.over.push(s);
                w.leaves.iter().enumerate().filter(|(_, l)| matches!(l, Some(Leaf { wait: Wait::Call(k, ..), reply: None, .. }) if *k == s)).map(|(i, _)| i).collect::<Vec<_>>()
            });
            for i in calls {
                decide(i, Reply::Fail);
            }
        }
    }
}
