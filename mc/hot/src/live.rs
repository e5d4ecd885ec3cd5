//! L01-L02: the live-reload client in the browser, under every schedule of its
//! tasks, its network and its server.

use crate::diffs::P;
use crate::tree::*;
use hotmeal::StrTendril;
use hotmeal_server::LiveReloadEvent;
use mc_core::{Fail, Family, Obs, Outcome, Tier, ensure};
use roam::world::{self, Note, Reply, Wait};
use std::rc::Rc;
use std::time::Duration;
use wasm_bindgen_futures as exec;

/// What can happen next.
#[derive(Clone, Debug, PartialEq)]
enum Choice {
    /// A woken task runs.
    Run(usize),
    Good(usize),
    Bad(usize),
    /// The server sends an event on the session.
    Send(usize, Msg),
    /// The user goes to another page of the application.
    Navigate,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Msg {
    /// The next version, as patches.
    Next,
    /// Patches that cannot be decoded.
    Garbage,
    /// Patches that do not fit the page.
    Misfit,
    Reload,
    Head,
}
#[derive(Clone)]
struct Setup {
    url: &'static str,
    selector: &'static str,
    msgs: &'static [Msg],
    navigate: bool,
    /// Connections and sessions only fail in these ways.
    accept_fails: bool,
    call_fails: bool,
    depth: usize,
}
fn version(n: usize) -> String {
    format!("<ul>{}</ul>", (0..=n).map(|i| format!("<li>{}</li>", n - i)).collect::<String>())
}
fn patches(a: &str, b: &str) -> Vec<u8> {
    let (x, y) = (StrTendril::from(a), StrTendril::from(b));
    let p: Vec<P> = hotmeal::diff_html(&x, &y).unwrap().into_iter().map(|p| p.into_owned()).collect();
    facet_postcard::to_vec(&p).unwrap()
}
thread_local! {
    static BLOBS: Vec<Vec<u8>> = (0..12).map(|n| patches(&version(n), &version(n + 1))).collect();
    static MISFIT: Vec<u8> = patches("<p>1</p><p>2</p><p>3</p><p>4</p><p>5</p><p><b>x</b></p>", "<p>1</p><p>2</p><p>3</p><p>4</p><p>5</p><p><b>y</b></p>");
}
fn event(m: Msg, n: usize) -> LiveReloadEvent {
    let route = "/some".to_string();
    match m {
        Msg::Next => LiveReloadEvent::Patches { route, patches_blob: BLOBS.with(|b| b[n].clone()) },
        Msg::Garbage => LiveReloadEvent::Patches { route, patches_blob: vec![0xff; 7] },
        Msg::Misfit => LiveReloadEvent::Patches { route, patches_blob: MISFIT.with(|b| b.clone()) },
        Msg::Reload => LiveReloadEvent::Reload,
        Msg::Head => LiveReloadEvent::HeadChanged { route },
    }
}

/// What the client must have done, followed alongside.
#[derive(Clone, Copy, Debug, PartialEq)]
enum At {
    Connecting,
    Accepting,
    /// Driver and subscription are under way.
    Session { subscribed: bool, driver: bool },
    Waiting,
}
struct Run<'s> {
    setup: &'s Setup,
    at: At,
    sessions: usize,
    /// attempts since the last session that was established
    attempts: u32,
    path: String,
    version: usize,
    reloads: usize,
    /// a message is with the driver, not yet handled
    busy: bool,
    seen: usize,
}
impl Run<'_> {
    fn choices(&self) -> Vec<Choice> {
        let ready = exec::ready();
        let mut v: Vec<Choice> = ready.iter().map(|i| Choice::Run(*i)).collect();
        for (id, w) in world::pending() {
            match w {
                Wait::Connect(_) => v.extend([Choice::Good(id), Choice::Bad(id)]),
                Wait::Accept(_) => {
                    v.push(Choice::Good(id));
                    if self.setup.accept_fails {
                        v.push(Choice::Bad(id));
                    }
                }
                // The answer to a call comes in through the driver.
                Wait::Call(s, ..) => {
                    let driven = world::pending().iter().any(|(_, w)| *w == Wait::Driver(s));
                    if driven {
                        v.push(Choice::Good(id));
                        if self.setup.call_fails {
                            v.push(Choice::Bad(id));
                        }
                    }
                }
                Wait::Driver(s) => {
                    v.extend([Choice::Good(id), Choice::Bad(id)]);
                    // Nothing is sent where the subscription failed.
                    if !matches!(self.at, At::Session { .. }) || s + 1 != self.sessions {
                        continue;
                    }
                    v.extend(self.setup.msgs.iter().filter(|m| **m != Msg::Next || self.version < 11).map(|m| Choice::Send(id, *m)));
                }
                Wait::Sleep(_) => v.push(Choice::Good(id)),
            }
        }
        if self.setup.navigate && self.path == "/" {
            v.push(Choice::Navigate);
        }
        v
    }
    fn take(&mut self, c: &Choice) -> Outcome {
        match c {
            Choice::Run(i) => {
                exec::poll(*i);
            }
            Choice::Navigate => {
                self.path = "/b".into();
                web_sys::navigate("/b");
            }
            Choice::Good(id) | Choice::Bad(id) => {
                let good = matches!(c, Choice::Good(_));
                let w = world::pending().into_iter().find(|(i, _)| i == id).unwrap().1;
                world::decide(*id, if good { Reply::Ok } else { Reply::Fail });
                match (w, self.at) {
                    (Wait::Connect(_), At::Connecting) => {
                        self.at = if good { At::Accepting } else { At::Waiting };
                        self.sessions += good as usize;
                    }
                    (Wait::Accept(_), At::Accepting) => {
                        self.at = if good { At::Session { subscribed: false, driver: true } } else { At::Waiting };
                    }
                    (Wait::Call(..), At::Session { driver, .. }) => {
                        if !good {
                            self.at = At::Waiting;
                        } else {
                            self.at = At::Session { subscribed: true, driver };
                        }
                    }
                    (Wait::Driver(s), At::Session { subscribed, .. }) if s + 1 == self.sessions => {
                        self.at = At::Session { subscribed, driver: false };
                    }
                    (Wait::Driver(_), _) => {} // an abandoned session's
                    (Wait::Sleep(_), At::Waiting) => self.at = At::Connecting,
                    (w, at) => return Err(format!("{w:?} while {at:?}").into()),
                }
            }
            Choice::Send(id, m) => {
                world::decide(*id, Reply::Message("on_event", Rc::new((event(*m, self.version),))));
                self.busy = true;
                match m {
                    Msg::Next => self.version += 1,
                    Msg::Reload | Msg::Head => self.reloads += 1,
                    Msg::Garbage | Msg::Misfit => {}
                }
            }
        }
        Ok(())
    }
    /// Everything the client has begun since the last look.
    fn observe(&mut self) -> Outcome {
        let notes = world::notes();
        for n in &notes[self.seen..] {
            match n {
                Note::Began(_, Wait::Connect(u)) => {
                    ensure!(self.at == At::Connecting, "a connection is opened while {:?}", self.at);
                    ensure!(u == self.setup.url, "connecting to {u}");
                }
                Note::Began(_, Wait::Accept(s)) => ensure!(self.at == At::Accepting && s + 1 == self.sessions, "handshake of session {s} while {:?}", self.at),
                Note::Began(_, Wait::Driver(s)) => ensure!(*s < self.sessions, "driver of session {s}"),
                Note::Began(_, Wait::Call(s, m, a)) => {
                    ensure!(matches!(self.at, At::Session { .. }) && s + 1 == self.sessions, "a call on session {s} while {:?}", self.at);
                    let want = format!("({:?},)", self.path);
                    ensure!(m == "subscribe" && *a == want, "{m}{a} is called instead of subscribe{want}");
                    let calls = notes.iter().filter(|n| matches!(n, Note::Began(_, Wait::Call(k, ..)) if k == s)).count();
                    ensure!(calls == 1, "session {s} subscribes {calls} times");
                }
                Note::Began(_, Wait::Sleep(d)) => {
                    // A session that was established and has ended, or a failure.
                    match self.at {
                        At::Waiting => {}
                        At::Session { subscribed: true, driver: false } => self.attempts = 0,
                        At::Session { subscribed: false, driver: false } => {}
                        at => return Err(format!("the client gives up while {at:?}").into()),
                    }
                    let want = Duration::from_millis((100u64 << self.attempts.min(10)).min(5000));
                    ensure!(*d == want, "waiting {d:?} instead of {want:?} after {} attempts", self.attempts);
                    self.attempts += 1;
                    self.at = At::Waiting;
                }
                Note::Dropped(_, w) => {
                    ensure!(!matches!(w, Wait::Connect(_) | Wait::Accept(_) | Wait::Sleep(_)), "{w:?} is abandoned");
                }
                Note::Handled(_) => {
                    self.busy = false;
                }
            }
        }
        self.seen = notes.len();
        if !self.busy {
            ensure!(web_sys::reloads() == self.reloads, "{} reloads instead of {}", web_sys::reloads(), self.reloads);
            let got = web_read();
            let want = page(self.setup.selector, &version(self.version));
            ensure!(strip(got.body.as_ref().unwrap()) == want, "the page shows {} instead of {}", show_doc(&got), show(&want));
        }
        // At rest, the client has begun what its state asks for.
        if exec::ready().is_empty() {
            let p: Vec<Wait> = world::pending().into_iter().map(|(_, w)| w).collect();
            let has = |f: &dyn Fn(&Wait) -> bool| p.iter().filter(|w| f(w)).count();
            let s = self.sessions.wrapping_sub(1);
            let (c, a, z) = (has(&|w| matches!(w, Wait::Connect(_))), has(&|w| matches!(w, Wait::Accept(_))), has(&|w| matches!(w, Wait::Sleep(_))));
            let (call, drv) = (has(&|w| matches!(w, Wait::Call(k, ..) if *k == s)), has(&|w| *w == Wait::Driver(s)));
            let ok = match self.at {
                At::Connecting => (c, a, z) == (1, 0, 0),
                At::Accepting => (c, a, z) == (0, 1, 0),
                At::Session { subscribed, driver: true } => (c, a, z) == (0, 0, 0) && drv == 1 && call == !subscribed as usize,
                At::Session { driver: false, .. } | At::Waiting => (c, a, z) == (0, 0, 1) && call == 0,
            };
            ensure!(ok, "at rest while {:?} the client waits for {p:?}", self.at);
        }
        Ok(())
    }
}
fn page(selector: &str, inner: &str) -> Vec<T> {
    let t = StrTendril::from(inner);
    let inner = read(&hotmeal::parse(&t)).body.unwrap();
    match selector {
        "body" => inner,
        _ => vec![el("h1", vec![tx("t")]), ela("main", &[("id", "app")], inner), el("footer", vec![])],
    }
}
/// Replays a schedule from the start; returns what can happen next.
fn replay(setup: &Setup, sched: &[usize], obs: &mut Obs) -> Result<Vec<Choice>, Fail> {
    exec::reset();
    world::reset();
    web_load(&doc(page(setup.selector, &version(0))));
    web_sys::navigate("/");
    let mut done = vec![];
    let r = mc_core::guarded(|| {
        hotmeal_wasm::start_live_reload(setup.url, setup.selector).map_err(|e| format!("{e:?}"))?;
        let mut run = Run {
            setup, at: At::Connecting, sessions: 0, attempts: 0, path: "/".into(), version: 0, reloads: 0, busy: false, seen: 0,
        };
        for k in sched {
            let cs = run.choices();
            let c = cs[*k].clone();
            done.push(c.clone());
            run.take(&c)?;
            run.observe()?;
        }
        obs.state(format!("{:?} {} {} {} {} {:?} {:?}", run.at, run.attempts, run.version, run.reloads, run.path, world::pending().iter().map(|p| &p.1).collect::<Vec<_>>(), exec::ready()).as_bytes());
        let cs = run.choices();
        ensure!(!cs.is_empty(), "nothing can happen any more while {:?}", run.at);
        Ok::<_, Fail>(cs)
    });
    exec::reset();
    world::reset();
    let say = |m: String| Fail::from(format!("{m}\n  after {done:?}"));
    match r {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) => Err(say(e.msg)),
        Err(p) => Err(say(format!("panic: {p}"))),
    }
}
fn explore(setup: &Setup, sched: &mut Vec<usize>, depth: usize, obs: &mut Obs) -> Outcome {
    let cs = replay(setup, sched, obs)?;
    obs.step(1);
    if depth == 0 {
        obs.trace();
        return Ok(());
    }
    for k in 0..cs.len() {
        sched.push(k);
        explore(setup, sched, depth - 1, obs)?;
        sched.pop();
    }
    Ok(())
}
fn family(name: &str, what: &str, setup: Setup) -> Family {
    // One case per schedule of the first few steps.
    let first = 10.min(setup.depth);
    let mut list: Vec<Vec<usize>> = vec![vec![]];
    let mut scratch = Obs::default();
    for _ in 0..first {
        let mut next = vec![];
        for s in &list {
            match replay(&setup, s, &mut scratch) {
                Ok(cs) => next.extend((0..cs.len()).map(|k| {
                    let mut s = s.clone();
                    s.push(k);
                    s
                })),
                Err(_) => next.push(s.clone()), // reported when the case runs
            }
        }
        list = next;
    }
    let (n, s2, l2) = (list.len() as u64, setup.clone(), list.clone());
    Family::new(
        name,
        format!("all schedules of {} steps: {what}", setup.depth),
        n,
        move |i| format!("choices {:?} of {} and every continuation", l2[i as usize], s2.url),
        move |i, obs| {
            obs.nontrivial();
            let s = &list[i as usize];
            explore(&setup, &mut s.clone(), setup.depth - s.len().min(setup.depth), obs)
        },
    )
}
pub fn l01_families(t: Tier) -> Vec<Family> {
    let base = Setup { url: "ws://h/_lr", selector: "body", msgs: &[], navigate: false, accept_fails: true, call_fails: true, depth: 0 };
    vec![
        family("everything", "every event, failure and navigation at any time", Setup { msgs: &[Msg::Next, Msg::Garbage, Msg::Misfit, Msg::Reload, Msg::Head], selector: "#app", navigate: true, depth: t.pick(15, 18), ..base.clone() }),
        family("sessions", "connections, sessions and patches", Setup { msgs: &[Msg::Next], depth: t.pick(20, 27), ..base.clone() }),
        family("failures", "connections and sessions that fail or end", Setup { depth: t.pick(38, 46), accept_fails: false, call_fails: false, ..base.clone() }),
    ]
}
