//! Seeded single-process executor with a virtual clock. One runnable task is polled at
//! a time; which one, whether non-ready tasks get spurious polls, which OS thread does
//! the polling and when tasks are cancelled are all seeded decisions.
use crate::src::mix;
use std::collections::BTreeMap;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Default)]
pub struct Clock(Arc<ClockInner>);
#[derive(Default)]
struct ClockInner {
    now: AtomicU64,
    seq: AtomicU64,
    timers: Mutex<BTreeMap<(u64, u64), Waker>>,
    stalls: AtomicU64,
}
impl Clock {
    pub fn now(&self) -> u64 {
        self.0.now.load(SeqCst)
    }
    pub fn wake_at(&self, t: u64, w: Waker) {
        let s = self.0.seq.fetch_add(1, SeqCst);
        self.0.timers.lock().unwrap().insert((t, s), w);
    }
    pub fn note_stall(&self) {
        self.0.stalls.fetch_add(1, SeqCst);
    }
    pub fn stalls(&self) -> u64 {
        self.0.stalls.load(SeqCst)
    }
    /// Advance to the next timer; false if there is none.
    fn advance(&self) -> bool {
        let mut t = self.0.timers.lock().unwrap();
        let Some((&(when, _), _)) = t.iter().next() else { return false };
        self.0.now.fetch_max(when, SeqCst);
        let keep = t.split_off(&(when, u64::MAX));
        let due = std::mem::replace(&mut *t, keep);
        drop(t);
        for (_, w) in due {
            w.wake();
        }
        true
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst)
    }
}

pub struct Task<'a> {
    pub fut: Option<Pin<Box<dyn Future<Output = ()> + Send + 'a>>>,
    /// Drop the future after this many polls.
    pub cancel_after: Option<u64>,
    /// Drop it on another OS thread.
    pub drop_elsewhere: bool,
    pub polls: u64,
    pub done: bool,
    pub cancelled: bool,
    pub panicked: Option<String>,
}
impl<'a> Task<'a> {
    pub fn new(f: impl Future<Output = ()> + Send + 'a) -> Self {
        Task { fut: Some(Box::pin(f)), cancel_after: None, drop_elsewhere: false, polls: 0, done: false, cancelled: false, panicked: None }
    }
}

#[derive(Default, Debug, Clone)]
pub struct ExecStats {
    pub polls: u64,
    pub spurious: u64,
    pub migrated: u64,
    pub cancels: u64,
    pub stuck: Vec<usize>,
    pub order_hash: u64,
    pub virt: u64,
    pub overbudget: bool,
}

pub struct ExecCfg {
    pub seed: u64,
    pub spurious: u64, // per mille
    pub migrate: u64,  // per mille of polls on another OS thread
    pub max_polls: u64,
}
impl Default for ExecCfg {
    fn default() -> Self {
        ExecCfg { seed: 0, spurious: 0, migrate: 0, max_polls: 3_000_000 }
    }
}

pub fn run(clock: &Clock, tasks: &mut [Task<'_>], cfg: &ExecCfg) -> ExecStats {
    let mut st = ExecStats::default();
    let mut rng = mix(cfg.seed ^ 0xe8ec);
    let mut next = move |n: u64| {
        rng = mix(rng);
        rng % n.max(1)
    };
    let flags: Vec<Arc<Flag>> = tasks.iter().map(|_| Arc::new(Flag(AtomicBool::new(true)))).collect();
    let t0 = clock.now();
    loop {
        let live: Vec<usize> = (0..tasks.len()).filter(|&i| tasks[i].fut.is_some()).collect();
        if live.is_empty() {
            break;
        }
        let ready: Vec<usize> = live.iter().copied().filter(|&i| flags[i].0.load(SeqCst)).collect();
        let i = if ready.is_empty() {
            if !clock.advance() {
                st.stuck = live;
                break;
            }
            continue;
        } else if cfg.spurious > 0 && ready.len() < live.len() && next(1000) < cfg.spurious {
            let idle: Vec<usize> = live.iter().copied().filter(|i| !ready.contains(i)).collect();
            st.spurious += 1;
            idle[next(idle.len() as u64) as usize]
        } else {
            ready[next(ready.len() as u64) as usize]
        };
        flags[i].0.store(false, SeqCst);
        st.polls += 1;
        st.order_hash = mix(st.order_hash ^ i as u64);
        if st.polls > cfg.max_polls {
            st.overbudget = true;
            break;
        }
        let t = &mut tasks[i];
        if t.cancel_after.is_some_and(|c| t.polls >= c) {
            st.cancels += 1;
            t.cancelled = true;
            let f = t.fut.take();
            let gone = if t.drop_elsewhere {
                std::thread::scope(|s| s.spawn(move || drop(f)).join())
            } else {
                std::panic::catch_unwind(AssertUnwindSafe(move || drop(f)))
            };
            if let Err(p) = gone {
                t.panicked = Some(panic_text(p));
            }
            continue;
        }
        t.polls += 1;
        let waker = Waker::from(flags[i].clone());
        let fut = t.fut.as_mut().unwrap();
        let migrate = cfg.migrate > 0 && next(1000) < cfg.migrate;
        let poll = |fut: &mut Pin<Box<dyn Future<Output = ()> + Send + '_>>| {
            std::panic::catch_unwind(AssertUnwindSafe(|| {
                let mut cx = Context::from_waker(&waker);
                fut.as_mut().poll(&mut cx)
            }))
        };
        let r = if migrate {
            st.migrated += 1;
            let trace = crate::io::TRACE.with(|t| t.get());
            std::thread::scope(|s| {
                s.spawn(|| {
                    crate::io::TRACE.with(|t| t.set(trace));
                    poll(fut)
                })
                .join()
                .unwrap()
            })
        } else {
            poll(fut)
        };
        match r {
            Ok(Poll::Ready(())) => {
                t.done = true;
                t.fut = None;
            }
            Ok(Poll::Pending) => {}
            Err(p) => {
                t.panicked = Some(panic_text(p));
                t.fut = None;
            }
        }
    }
    st.virt = clock.now() - t0;
    st
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
