//! Stand-in for `futures-timer` used by the verification harness.
//!
//! On a thread that has called [`virtual_begin`], `Delay` runs on a virtual clock that only moves
//! when the harness calls [`virtual_advance`]; this lets monitors decide "within ten seconds" on
//! logical time.  On every other thread `Delay` runs on the real clock, served by one timer thread.
//!
//! Only the public surface of the real crate (`Delay::new`, `reset`, `Future`, `Debug`) is offered
//! to the code under test.

use std::{
    cell::RefCell,
    collections::BTreeMap,
    fmt,
    future::Future,
    pin::Pin,
    sync::{Arc, Condvar, Mutex},
    task::{Context, Poll, Waker},
    time::{Duration, Instant},
};

#[derive(Default)]
struct Virtual {
    now: u64, // nanoseconds
    next_id: u64,
    timers: BTreeMap<(u64, u64), Arc<Mutex<Slot>>>,
    created: u64,
    fired: u64,
}

#[derive(Default)]
struct Slot {
    fired: bool,
    waker: Option<Waker>,
}

thread_local! {
    static VIRT: RefCell<Option<Virtual>> = RefCell::new(None);
}

thread_local! {
    static KEEP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// From now on [`virtual_begin`] leaves a clock that is there already as it is.
pub fn virtual_keep() {
    KEEP.with(|k| k.set(true));
}

/// Start a fresh virtual clock on this thread.
pub fn virtual_begin() {
    if KEEP.with(|k| k.get()) && VIRT.with(|v| v.borrow().is_some()) {
        return;
    }
    VIRT.with(|v| *v.borrow_mut() = Some(Virtual::default()));
}

/// A clock that stands still.
pub struct Clock(Option<Virtual>);

/// Put the clock of this thread aside and start another one.
pub fn virtual_stash() -> Clock {
    VIRT.with(|v| {
        let mut v = v.borrow_mut();
        // timers of different clocks are told apart by their numbers
        let next_id = v.as_ref().map_or(0, |v| v.next_id) + 1_000_000;
        Clock(v.replace(Virtual {
            next_id,
            ..Virtual::default()
        }))
    })
}

/// Go on with a clock that was put aside.
pub fn virtual_restore(c: Clock) {
    VIRT.with(|v| {
        let mut v = v.borrow_mut();
        let next_id = v.as_ref().map_or(0, |v| v.next_id) + 1_000_000;
        *v = c.0.map(|c| Virtual {
            next_id: next_id.max(c.next_id),
            ..c
        });
    })
}

/// Stop virtual time on this thread.
pub fn virtual_end() {
    VIRT.with(|v| *v.borrow_mut() = None);
}

/// Virtual nanoseconds since `virtual_begin`.
pub fn virtual_now() -> u64 {
    VIRT.with(|v| v.borrow().as_ref().map(|v| v.now).unwrap_or(0))
}

/// (timers created, timers fired) on this thread's virtual clock.
pub fn virtual_stats() -> (u64, u64) {
    VIRT.with(|v| v.borrow().as_ref().map(|v| (v.created, v.fired)).unwrap_or((0, 0)))
}

/// The due time of the earliest pending timer.
pub fn virtual_next() -> Option<u64> {
    VIRT.with(|v| {
        v.borrow()
            .as_ref()
            .and_then(|v| v.timers.keys().next().map(|k| k.0))
    })
}

/// Move the clock to `to` (never backwards), firing all timers due by then in due order.
pub fn virtual_advance(to: u64) {
    loop {
        let slot = VIRT.with(|v| {
            let mut v = v.borrow_mut();
            let v = v.as_mut().expect("no virtual clock on this thread");
            match v.timers.keys().next().copied() {
                Some(k) if k.0 <= to => {
                    v.now = v.now.max(k.0);
                    v.fired += 1;
                    v.timers.remove(&k)
                }
                _ => {
                    v.now = v.now.max(to);
                    None
                }
            }
        });
        let waker = match slot {
            None => return,
            Some(slot) => {
                let mut s = slot.lock().unwrap();
                s.fired = true;
                s.waker.take()
            }
        };
        if let Some(w) = waker {
            w.wake();
        }
    }
}

enum Kind {
    Virtual { key: (u64, u64) },
    Real,
}

/// A future which completes after the given duration.
pub struct Delay {
    slot: Arc<Mutex<Slot>>,
    kind: Kind,
}

impl Delay {
    /// Creates a new future which will fire at `dur` time into the future.
    pub fn new(dur: Duration) -> Delay {
        let slot = Arc::new(Mutex::new(Slot::default()));
        let virt = VIRT.with(|v| {
            let mut v = v.borrow_mut();
            v.as_mut().map(|v| {
                let at = v.now.saturating_add(dur.as_nanos() as u64);
                v.next_id += 1;
                v.created += 1;
                let key = (at, v.next_id);
                v.timers.insert(key, slot.clone());
                key
            })
        });
        let kind = match virt {
            Some(key) => Kind::Virtual { key },
            None => {
                real::add(dur, slot.clone());
                Kind::Real
            }
        };
        Delay { slot, kind }
    }

    /// Resets this timeout to a new timeout.
    pub fn reset(&mut self, dur: Duration) {
        let waker = self.slot.lock().unwrap().waker.take();
        let fresh = Delay::new(dur);
        fresh.slot.lock().unwrap().waker = waker;
        *self = fresh;
    }
}

impl Future for Delay {
    type Output = ();

    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut s = self.slot.lock().unwrap();
        if s.fired {
            Poll::Ready(())
        } else {
            s.waker = Some(cx.waker().clone());
            Poll::Pending
        }
    }
}

impl Drop for Delay {
    fn drop(&mut self) {
        if let Kind::Virtual { key } = self.kind {
            let _ = VIRT.try_with(|v| {
                if let Ok(mut v) = v.try_borrow_mut() {
                    if let Some(v) = v.as_mut() {
                        v.timers.remove(&key);
                    }
                }
            });
        }
        // A real timer's entry dies with its due time; drop the waker now.
        let w = match self.slot.lock() {
            Ok(mut s) => s.waker.take(),
            Err(_) => None,
        };
        drop(w);
    }
}

impl fmt::Debug for Delay {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Delay").finish()
    }
}

mod real {
    use super::*;
    use std::sync::Once;

    struct Timers {
        map: BTreeMap<(Instant, u64), Arc<Mutex<Slot>>>,
        next: u64,
    }

    static START: Once = Once::new();
    static mut STATE: Option<&'static (Mutex<Timers>, Condvar)> = None;

    fn state() -> &'static (Mutex<Timers>, Condvar) {
        START.call_once(|| {
            let s: &'static (Mutex<Timers>, Condvar) = Box::leak(Box::new((
                Mutex::new(Timers {
                    map: BTreeMap::new(),
                    next: 0,
                }),
                Condvar::new(),
            )));
            unsafe { STATE = Some(s) };
            std::thread::Builder::new()
                .name("vtimer".into())
                .spawn(move || run(s))
                .unwrap();
        });
        #[allow(static_mut_refs)]
        unsafe {
            STATE.unwrap()
        }
    }

    fn run(s: &'static (Mutex<Timers>, Condvar)) {
        let mut t = s.0.lock().unwrap();
        loop {
            let now = Instant::now();
            match t.map.keys().next().copied() {
                Some(k) if k.0 <= now => {
                    let slot = t.map.remove(&k).unwrap();
                    drop(t);
                    let w = {
                        let mut s = slot.lock().unwrap();
                        s.fired = true;
                        s.waker.take()
                    };
                    if let Some(w) = w {
                        w.wake();
                    }
                    t = s.0.lock().unwrap();
                }
                Some(k) => {
                    let wait = k.0 - now;
                    t = s.1.wait_timeout(t, wait).unwrap().0;
                }
                None => {
                    t = s.1.wait(t).unwrap();
                }
            }
        }
    }

    pub(super) fn add(dur: Duration, slot: Arc<Mutex<Slot>>) {
        let s = state();
        let mut t = s.0.lock().unwrap();
        t.next += 1;
        let key = (Instant::now() + dur, t.next);
        t.map.insert(key, slot);
        s.1.notify_one();
    }
}
