//! Sessions in which several threads are at work.
//!
//! * eager: a helper thread plays an executor on another processor that is always faster than the
//!   application: whenever an operation of the application wakes the client's task, the helper runs
//!   the task, the network and the server to rest (acknowledging, pinging) before the operation goes on;
//! * threaded: application threads operate on the client while another thread runs its task, the
//!   network and the server, at full speed;
//! * two: two clients in one process, interleaved.

use crate::core::{Case, Fail, Verdict};
use crate::jsonref::J;
use crate::rng::Rng;
use crate::session::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Condvar, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- eager

struct Lent(*mut Session);
unsafe impl Send for Lent {}

#[derive(Default)]
struct State {
    /// the session while an operation of the application is under way
    session: Option<Lent>,
    asked: u64,
    done: u64,
    busy: bool,
    quit: bool,
    fail: Option<Fail>,
    late: u64,
}

#[derive(Clone)]
pub struct Eager(Arc<(Mutex<State>, Condvar)>);

thread_local! {
    static APP: Cell<bool> = const { Cell::new(false) };
}

/// How long an operation that holds up the executor is waited for.
const PATIENCE: Duration = Duration::from_millis(50);

impl Eager {
    fn start() -> (Eager, std::thread::JoinHandle<()>) {
        let e = Eager(Arc::new((Mutex::new(State::default()), Condvar::new())));
        let e2 = e.clone();
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::Builder::new()
            .name("helper".into())
            .spawn(move || {
                crate::runner::init_select_rng();
                let _ = tx.send(());
                e2.serve()
            })
            .unwrap();
        let _ = rx.recv();
        (e, h)
    }

    fn serve(&self) {
        let (m, cv) = &*self.0;
        let mut s = m.lock().unwrap();
        loop {
            if s.quit {
                return;
            }
            let p = match &s.session {
                Some(p) if s.asked > s.done => p.0,
                _ => {
                    s = cv.wait(s).unwrap();
                    continue;
                }
            };
            s.busy = true;
            let upto = s.asked;
            drop(s);
            // the application does not touch the session until it has taken it back
            let r = unsafe { turn(&mut *p) };
            s = m.lock().unwrap();
            s.busy = false;
            s.done = upto;
            if let Err(e) = r {
                s.fail.get_or_insert(e);
            }
            cv.notify_all();
        }
    }

    /// Called whenever a task of the client is woken, by whoever wakes it.
    fn woken(&self) {
        if !APP.with(|a| a.get()) {
            return;
        }
        let (m, cv) = &*self.0;
        let mut s = m.lock().unwrap();
        if s.session.is_none() || s.late > 3 {
            return;
        }
        s.asked += 1;
        let mine = s.asked;
        cv.notify_all();
        let until = Instant::now() + PATIENCE;
        while s.done < mine {
            let now = Instant::now();
            if now >= until {
                s.late += 1;
                return;
            }
            s = cv.wait_timeout(s, until - now).unwrap().0;
        }
    }

    pub fn during<T>(&self, session: &mut Session, f: impl FnOnce() -> T) -> Result<T, Fail> {
        let (m, cv) = &*self.0;
        m.lock().unwrap().session = Some(Lent(session as *mut Session));
        APP.with(|a| a.set(true));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        APP.with(|a| a.set(false));
        let mut s = m.lock().unwrap();
        s.asked = s.done.max(if s.busy { s.asked } else { s.done });
        while s.busy {
            s = cv.wait(s).unwrap();
        }
        s.done = s.asked;
        s.session = None;
        let fail = s.fail.take();
        drop(s);
        match (r, fail) {
            (Err(e), _) => std::panic::resume_unwind(e),
            (_, Some(e)) => Err(e),
            (Ok(x), None) => Ok(x),
        }
    }

    fn stop(&self, h: std::thread::JoinHandle<()>) -> u64 {
        let (m, cv) = &*self.0;
        let mut s = m.lock().unwrap();
        s.quit = true;
        let n = s.done;
        cv.notify_all();
        drop(s);
        let _ = h.join();
        n
    }
}

/// What happens elsewhere while the application is in the middle of an operation.
fn turn(s: &mut Session) -> Result<(), Fail> {
    for _ in 0..3 {
        s.settle()?;
        if s.w.srv.close_at.is_some() {
            return Ok(());
        }
        let mut more = false;
        if s.rng.chance(1, 3) {
            s.ping();
            more = true;
        }
        for _ in 0..3 {
            if s.rng.chance(3, 4) && s.queue_ack() {
                more = true;
            }
        }
        if s.rng.chance(1, 8) {
            s.queue_event();
            more = true;
        }
        if !more {
            break;
        }
    }
    s.settle()
}

fn eager(c: &mut Case, rng: &mut Rng, prop: &'static str) -> Verdict {
    let (e, h) = Eager::start();
    let r = eager_session(c, rng, prop, &e);
    let turns = e.stop(h);
    c.add("operations_overtaken_by_the_executor", turns);
    c.add("overtakings_given_up", e.0 .0.lock().unwrap().late);
    r
}

fn eager_session(c: &mut Case, rng: &mut Rng, prop: &'static str, e: &Eager) -> Verdict {
    crate::runner::set_logging(false);
    let mut p = Profile::of(prop);
    p.thread_pct = 0;
    p.reg_quiet = false;
    p.emit = p.emit.max(8);
    p.reply = p.reply.max(4);
    p.id_pct = p.id_pct.max(50);
    p.plan_pct = p.plan_pct.max(50);
    p.emit_ack_pct = p.emit_ack_pct.max(60);
    p.steps = (10, 80);
    let steps = rng.range(p.steps.0, p.steps.1);
    let mut s = Session::new(rng, p)?;
    s.initial_registrations();
    let hook = e.clone();
    s.w.exec.on_wake(Some(Arc::new(move || hook.woken())));
    s.eager = Some(e.clone());
    for _ in 0..steps {
        s.act()?;
        if s.rng.chance(1, 3) {
            s.settle()?;
        }
    }
    s.eager = None;
    s.w.exec.on_wake(None);
    s.finish(c)?;
    s.drop_client();
    s.check_released("after the client was dropped")?;
    s.verdict(c)
}

pub fn c12_eager(c: &mut Case, rng: &mut Rng) -> Verdict {
    eager(c, rng, "C12")
}
pub fn c13_eager(c: &mut Case, rng: &mut Rng) -> Verdict {
    eager(c, rng, "C13")
}
pub fn c14_eager(c: &mut Case, rng: &mut Rng) -> Verdict {
    eager(c, rng, "C14")
}
pub fn c15_eager(c: &mut Case, rng: &mut Rng) -> Verdict {
    eager(c, rng, "C15")
}
pub fn c16_eager(c: &mut Case, rng: &mut Rng) -> Verdict {
    eager(c, rng, "C16")
}
pub fn c17_eager(c: &mut Case, rng: &mut Rng) -> Verdict {
    eager(c, rng, "C17")
}

// ---------------------------------------------------------------- threaded

#[derive(Clone, Debug)]
enum AppOp {
    Client(Op),
    /// through a sender of its own
    Raw { ns: String, binary: bool, args: Vec<J> },
    /// send one of the replies that wait
    Reply { binary: bool, args: Vec<J> },
    Pause(u32),
}

fn gen_app(s: &mut Session, n: usize) -> Vec<AppOp> {
    (0..n)
        .map(|_| match s.rng.below(16) {
            0..=5 => AppOp::Client(s.gen_op(false)),
            6 | 7 => {
                let binary = s.rng.chance(s.p.binary_pct, 100);
                AppOp::Raw { ns: s.a_ns(), binary, args: gen_args(&mut s.rng, binary, 0) }
            }
            8 | 9 => {
                let binary = s.rng.chance(1, 2);
                AppOp::Reply { binary, args: gen_args(&mut s.rng, binary, 0) }
            }
            _ => AppOp::Pause(s.rng.below(20_000) as u32),
        })
        .collect()
}

fn app_op(ctx: &Ctx, op: AppOp) {
    match op {
        AppOp::Client(op) => {
            ctx.op(&op);
        }
        AppOp::Raw { ns, binary, args } => ctx.raw_shared(&ns, binary, &args),
        AppOp::Reply { binary, args } => {
            let h = ctx.sh().handles.pop();
            if let Some(h) = h {
                ctx.reply(h, binary, args);
            }
        }
        AppOp::Pause(n) => {
            for _ in 0..n {
                std::hint::spin_loop();
            }
            if n % 3 == 0 {
                std::thread::yield_now();
            }
        }
    }
}

/// One step of the server, the network and the client's task.
fn server_act(s: &mut Session) -> Result<(), Fail> {
    match s.rng.below(24) {
        0 | 1 => {
            s.queue_event();
        }
        2 => s.ping(),
        3 => s.wsping(),
        4..=6 => {
            s.take_inbox();
            s.queue_ack();
        }
        _ => {
            for _ in 0..s.rng.range(1, 12) {
                if s.rng.chance(1, 3) {
                    s.w.send_next();
                }
                if !s.w.step()? && !s.w.send_next() {
                    std::thread::yield_now();
                    break;
                }
            }
            s.mark_sent();
        }
    }
    Ok(())
}

/// How the session of several threads ends.
#[derive(Clone, Copy, PartialEq)]
enum End {
    /// everything comes to rest
    Rest,
    /// one of the threads drops the client
    Drop,
    /// one of the threads closes the client
    Close,
}

struct Done(Arc<AtomicUsize>);
impl Drop for Done {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}

/// (when close was called, what it gave)
type Closed = Arc<Mutex<Option<(u64, Result<(), socket_io_client::Error>)>>>;

/// Take the client out and close it, on the calling thread.
fn close_here(ctx: &Ctx, closed: &Closed) {
    let cl = ctx.client.lock().unwrap_or_else(|e| e.into_inner()).take();
    if let Some(mut cl) = cl {
        // the timer of this thread stands still
        futures_timer::virtual_begin();
        let t = ctx.tick.next();
        let r = futures::executor::block_on(cl.close());
        *ctx.client.lock().unwrap_or_else(|e| e.into_inner()) = Some(cl);
        *closed.lock().unwrap() = Some((t, r));
    }
}

fn threaded(c: &mut Case, rng: &mut Rng, prop: &'static str, end: End) -> Verdict {
    crate::runner::set_logging(rng.chance(1, 8));
    let mut p = Profile::of(prop);
    p.thread_pct = 0;
    p.reg_quiet = false;
    p.big_pct = 0;
    let mut s = Session::new(rng, p)?;
    if end == End::Close {
        s.w.srv.on_close = crate::sim::OnClose::Ignore;
    }
    s.initial_registrations();
    let threads = s.rng.range(1, 3);
    let mut ctx = s.ctx.clone();
    ctx.wait = true;
    ctx.sender = ctx.client.lock().unwrap().as_ref().map(|c| c.send.clone());
    let running = Arc::new(AtomicUsize::new(threads));
    let barrier = Arc::new(Barrier::new(threads + 1));
    let closed: Closed = Default::default();
    let mut handles = Vec::new();
    for t in 0..threads {
        let n = s.rng.range(if end == End::Rest { 20 } else { 0 }, 150);
        let ops = gen_app(&mut s, n);
        let (ctx, running, barrier, closed) = (ctx.clone(), running.clone(), barrier.clone(), closed.clone());
        let after = if t == 0 { gen_app(&mut s, 30) } else { Vec::new() };
        handles.push(std::thread::spawn(move || {
            let _done = Done(running);
            barrier.wait();
            for op in ops {
                app_op(&ctx, op);
            }
            if t == 0 {
                match end {
                    End::Rest => return,
                    End::Drop => {
                        ctx.op(&Op::DropClient);
                    }
                    End::Close => close_here(&ctx, &closed),
                }
                for op in after {
                    app_op(&ctx, op);
                }
            }
        }));
    }
    drop(ctx);
    barrier.wait();
    let mut r = Ok(());
    let mut acts = 0u64;
    let mut completed = None;
    let mut idle_since: Option<Instant> = None;
    while running.load(Ordering::SeqCst) > 0 {
        if completed.is_none() && s.w.srv.close_at.is_some() && s.rng.chance(1, 4) {
            // the server completes the close behind everything it has sent
            while s.w.send_next() {}
            s.mark_sent();
            completed = Some(s.items.len());
            let mut r2 = s.w.rng.fork();
            s.w.srv.finish_close(&mut r2);
        }
        if acts < 5_000 && completed.is_none() {
            r = server_act(&mut s);
        } else {
            match s.w.step() {
                Ok(true) => idle_since = None,
                Ok(false) => {
                    std::thread::yield_now();
                    let t = *idle_since.get_or_insert_with(Instant::now);
                    if end == End::Close && t.elapsed() > Duration::from_secs(60) && closed.lock().unwrap().is_none() {
                        return Err(Fail::v("close on another thread never resolves"));
                    }
                }
                Err(e) => r = Err(e),
            }
        }
        acts += 1;
        if r.is_err() {
            break;
        }
    }
    if r.is_err() && end == End::Close {
        // the thread that closes may wait for ever
        return r;
    }
    for h in handles {
        if h.join().is_err() {
            // recorded by the hook
            return Err(crate::core::panic_fail(&crate::core::take_panics()).unwrap_or_else(|| Fail::v("an operation panics on an application thread")));
        }
    }
    r?;
    c.add("application_threads", threads as u64);
    match end {
        End::Rest => {
            s.finish(c)?;
            s.drop_client();
        }
        End::Drop => {
            s.settle()?;
            crate::faults::check_silent_after_drop(&mut s, "after the client was dropped by another thread");
            let n = s.items.len();
            s.check_events(0, n);
            s.check_acks(0, n);
            s.check_wire(0);
            s.account_as(c, "dropped by a thread");
        }
        End::Close => {
            s.settle()?;
            after_close(&mut s, &closed, completed)?;
            s.account_as(c, "closed by a thread");
            s.drop_client();
        }
    }
    s.check_released("after the client was dropped")?;
    s.verdict(c)
}

/// The server completed the close after having sent `n` items.
fn after_close(s: &mut Session, closed: &Closed, n: Option<usize>) -> Result<(), Fail> {
    let (t, res) = match closed.lock().unwrap().take() {
        Some(x) => x,
        None => return Err(Fail::Inconclusive("nothing was closed".into())),
    };
    if let Err(e) = &res {
        s.problem(&["C20"], format!("close gives {:?} although the server completes it", e));
    }
    let n = match n {
        Some(n) => n,
        None => {
            s.problem(&["C20"], format!("close gives {:?} before the server completes it", res));
            0
        }
    };
    if s.wire.close.is_none() {
        s.problem(&["C20"], "no close frame is sent".into());
    }
    s.must_until = t;
    s.check_events(n, n);
    s.check_acks(n, n);
    s.check_wire(0);
    s.check_gone(&["C20"], "after closing")?;
    crate::faults::second_close(s)
}

/// Close while an executor is faster than the thread that closes.
pub fn c20_eager(c: &mut Case, rng: &mut Rng) -> Verdict {
    let (e, h) = Eager::start();
    let r = eager_close(c, rng, &e);
    let turns = e.stop(h);
    c.add("operations_overtaken_by_the_executor", turns);
    r
}

fn eager_close(c: &mut Case, rng: &mut Rng, e: &Eager) -> Verdict {
    crate::runner::set_logging(false);
    let mut p = Profile::of("C20");
    p.emit = 10;
    p.reg_quiet = rng.chance(1, 2);
    p.steps = (0, 30);
    let steps = rng.range(p.steps.0, p.steps.1);
    let mut s = Session::new(rng, p)?;
    s.w.srv.on_close = crate::sim::OnClose::Ignore;
    s.initial_registrations();
    for _ in 0..steps {
        s.act()?;
    }
    for _ in 0..s.rng.below(4) {
        let op = s.gen_emit();
        s.ctx.op(&op);
    }
    if s.rng.chance(1, 3) {
        s.settle()?;
    }
    let hook = e.clone();
    s.w.exec.on_wake(Some(Arc::new(move || hook.woken())));
    let mut cl = s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()).take().ok_or_else(|| Fail::v("no client"))?;
    let t = s.w.tick.next();
    let late = s.rng.chance(1, 2);
    if !late {
        s.w.srv.on_close = crate::sim::OnClose::Complete;
    }
    let n0 = s.items.len();
    let mut n = None;
    let mut res = None;
    {
        let mut f = Box::pin(cl.close());
        let mut cx = std::task::Context::from_waker(futures::task::noop_waker_ref());
        let mut quiet = 0;
        while res.is_none() {
            if let std::task::Poll::Ready(r) = e.during(&mut s, || std::future::Future::poll(f.as_mut(), &mut cx))? {
                res = Some(r);
                break;
            }
            if s.w.srv.close_at.is_some() && late && n.is_none() {
                while s.w.send_next() {}
                s.mark_sent();
                n = Some(s.items.len());
                let mut r2 = s.w.rng.fork();
                s.w.srv.finish_close(&mut r2);
            }
            if !s.w.step()? && !s.w.send_next() {
                quiet += 1;
                if quiet > 20 {
                    break;
                }
            }
        }
    }
    s.w.exec.on_wake(None);
    *s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()) = Some(cl);
    s.settle()?;
    match res {
        None => s.problem(&["C20"], format!("close is not resolved at the end ({})", if s.w.srv.close_at.is_some() { "the server has completed it" } else { "no close frame is sent" })),
        Some(r) => {
            let closed: Closed = Default::default();
            *closed.lock().unwrap() = Some((t, r));
            if !late {
                // what was on its way when the server saw the close frame
                n = Some(n0);
                if s.items.iter().any(|i| i.last.map_or(true, |l| l > s.w.srv.close_at.unwrap_or(0))) {
                    n = s.items.iter().position(|i| i.last.map_or(true, |l| l > s.w.srv.close_at.unwrap_or(0)));
                }
            }
            after_close(&mut s, &closed, n)?;
        }
    }
    s.account_as(c, "closed");
    s.drop_client();
    s.check_released("after closing")?;
    s.verdict(c)
}

pub fn c11_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C11", End::Rest)
}
pub fn c12_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C12", End::Rest)
}
pub fn c13_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C13", End::Rest)
}
pub fn c14_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C14", End::Rest)
}
pub fn c15_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C15", End::Rest)
}
pub fn c16_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C16", End::Rest)
}
pub fn c17_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C17", End::Rest)
}
pub fn c18_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C18", End::Rest)
}

pub fn c20_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C20", End::Close)
}
pub fn c22_threads(c: &mut Case, rng: &mut Rng) -> Verdict {
    threaded(c, rng, "C22", End::Drop)
}

// ---------------------------------------------------------------- two clients

fn two(c: &mut Case, rng: &mut Rng, prop: &'static str) -> Verdict {
    crate::runner::set_logging(rng.chance(1, 8));
    let mut p = Profile::of(prop);
    p.steps = (10, 70);
    let mut steps = rng.range(p.steps.0, p.steps.1) * 2;
    let mut a = Session::new(rng, p.clone())?;
    let mut b = Session::new(rng, p)?;
    b.ctx.sh().next_uid = 1 << 40;
    if rng.chance(2, 3) {
        // the same names mean different things to them
        b.nss = a.nss.clone();
        b.names = a.names.clone();
    }
    a.initial_registrations();
    b.initial_registrations();
    let end_early = rng.chance(1, 4);
    while steps > 0 {
        steps -= 1;
        if rng.chance(1, 2) {
            a.act()?;
        } else {
            b.act()?;
        }
        if end_early && rng.chance(1, 60) {
            break;
        }
    }
    if end_early {
        // one session ends, the other one does not notice
        if rng.chance(1, 2) {
            a.drop_client();
            a.w.settle()?;
        } else {
            let m = crate::ws::Msg::Text("9".into());
            a.w.srv.send(&m, rng);
            a.w.settle()?;
        }
        for _ in 0..rng.range(5, 40) {
            b.act()?;
        }
        c.count("sessions_that_outlive_another");
    } else {
        a.finish(c)?;
    }
    b.finish(c)?;
    a.drop_client();
    b.drop_client();
    if !end_early {
        a.check_released("after the first client was dropped")?;
        a.verdict(c)?;
    }
    b.check_released("after the second client was dropped")?;
    b.verdict(c)
}

pub fn c11_two(c: &mut Case, rng: &mut Rng) -> Verdict {
    two(c, rng, "C11")
}
pub fn c12_two(c: &mut Case, rng: &mut Rng) -> Verdict {
    two(c, rng, "C12")
}
pub fn c14_two(c: &mut Case, rng: &mut Rng) -> Verdict {
    two(c, rng, "C14")
}
pub fn c15_two(c: &mut Case, rng: &mut Rng) -> Verdict {
    two(c, rng, "C15")
}
pub fn c16_two(c: &mut Case, rng: &mut Rng) -> Verdict {
    two(c, rng, "C16")
}
pub fn c18_two(c: &mut Case, rng: &mut Rng) -> Verdict {
    two(c, rng, "C18")
}
