//! Deterministic single-threaded execution of a real client against a mock server: the tasks of the
//! client run only when the scenario says so, in the order its random generator picks, on virtual
//! time, over the in-memory transport.

use crate::core::Fail;
use crate::net::{Net, NetCfg};
use crate::rng::Rng;
use crate::ws::{self, Msg};
use futures::future::FutureObj;
use futures::task::{ArcWake, Spawn, SpawnError};
use socket_io_client::{Client, Error};
use std::collections::{BTreeMap, VecDeque};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Weak};
use std::task::{Context, Poll};

pub const SEC: u64 = 1_000_000_000;

// ---------------------------------------------------------------- executor

#[derive(Default)]
struct ExecState {
    tasks: BTreeMap<u64, Option<FutureObj<'static, ()>>>,
    ready: Vec<u64>,
    next: u64,
    refuse: bool,
    spawned: u64,
    polls: u64,
    panicked: u64,
    hook: Option<Arc<dyn Fn() + Send + Sync>>,
}

#[derive(Clone, Default)]
pub struct Exec(Arc<Mutex<ExecState>>);

struct TaskWaker {
    id: u64,
    exec: Weak<Mutex<ExecState>>,
}

impl ArcWake for TaskWaker {
    fn wake_by_ref(a: &Arc<Self>) {
        if let Some(e) = a.exec.upgrade() {
            let mut s = e.lock().unwrap();
            if s.tasks.contains_key(&a.id) && !s.ready.contains(&a.id) {
                s.ready.push(a.id);
            }
            let hook = s.hook.clone();
            drop(s);
            if let Some(h) = hook {
                h();
            }
        }
    }
}

impl Spawn for Exec {
    fn spawn_obj(&self, f: FutureObj<'static, ()>) -> Result<(), SpawnError> {
        let mut s = self.0.lock().unwrap();
        if s.refuse {
            drop(s);
            return Err(SpawnError::shutdown());
        }
        s.next += 1;
        s.spawned += 1;
        let id = s.next;
        s.tasks.insert(id, Some(f));
        s.ready.push(id);
        Ok(())
    }
}

impl Exec {
    pub fn refuse(&self) {
        self.0.lock().unwrap().refuse = true;
    }
    /// Something to call whenever a task is woken.
    pub fn on_wake(&self, f: Option<Arc<dyn Fn() + Send + Sync>>) {
        self.0.lock().unwrap().hook = f;
    }
    pub fn has_ready(&self) -> bool {
        !self.0.lock().unwrap().ready.is_empty()
    }
    pub fn tasks(&self) -> usize {
        self.0.lock().unwrap().tasks.len()
    }
    pub fn polls(&self) -> u64 {
        self.0.lock().unwrap().polls
    }
    pub fn spawned(&self) -> u64 {
        self.0.lock().unwrap().spawned
    }
    pub fn panicked(&self) -> u64 {
        self.0.lock().unwrap().panicked
    }
    /// Poll one woken task.
    pub fn poll_one(&self, rng: &mut Rng) -> bool {
        let (id, f) = {
            let mut s = self.0.lock().unwrap();
            if s.ready.is_empty() {
                return false;
            }
            let i = rng.below(s.ready.len());
            let id = s.ready.swap_remove(i);
            s.polls += 1;
            match s.tasks.get_mut(&id).and_then(|t| t.take()) {
                Some(f) => (id, f),
                None => return true,
            }
        };
        let mut f = f;
        let waker = futures::task::waker(Arc::new(TaskWaker { id, exec: Arc::downgrade(&self.0) }));
        let mut cx = Context::from_waker(&waker);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Pin::new(&mut f).poll(&mut cx)));
        match r {
            Ok(Poll::Pending) => {
                let mut s = self.0.lock().unwrap();
                if let Some(t) = s.tasks.get_mut(&id) {
                    *t = Some(f);
                }
            }
            Ok(Poll::Ready(())) => {
                drop(f);
                self.remove(id);
            }
            Err(_) => {
                drop(f);
                self.remove(id);
                self.0.lock().unwrap().panicked += 1;
            }
        }
        true
    }
    fn remove(&self, id: u64) {
        let mut s = self.0.lock().unwrap();
        s.tasks.remove(&id);
        s.ready.retain(|x| *x != id);
    }
}

pub struct Flag(pub AtomicBool);
impl ArcWake for Flag {
    fn wake_by_ref(a: &Arc<Self>) {
        a.0.store(true, Ordering::SeqCst);
    }
}

// ---------------------------------------------------------------- mock server

#[derive(Clone, Debug, PartialEq)]
pub enum OnClose {
    /// answer with a close frame and end the stream
    Complete,
    /// answer with a close frame, keep the stream open
    ReplyOnly,
    /// end the stream without a close frame
    Eof,
    Ignore,
}

pub struct Server {
    pub net: Net,
    pub dec: ws::Decoder,
    pub handshaken: bool,
    pub auto_handshake: bool,
    pub open_text: String,
    pub inbox: Vec<(u64, Msg)>,
    pub on_close: OnClose,
    pub close_at: Option<u64>,
    pub closed_sent: bool,
    pub fragment: bool,
    pub messages_sent: u64,
    pub raw_in: Vec<u8>,
    pub keep_raw: bool,
}

impl Server {
    pub fn new(net: Net) -> Server {
        Server {
            net,
            dec: Default::default(),
            handshaken: false,
            auto_handshake: true,
            open_text: crate::codec::OPEN.into(),
            inbox: Vec::new(),
            on_close: OnClose::Complete,
            close_at: None,
            closed_sent: false,
            fragment: false,
            messages_sent: 0,
            raw_in: Vec::new(),
            keep_raw: false,
        }
    }

    pub fn handshake_response(key: &str) -> String {
        format!(
            "HTTP/1.1 101 Switching Protocols\r\nConnection: Upgrade\r\nUpgrade: websocket\r\nSec-WebSocket-Accept: {}\r\n\r\n",
            ws::accept_key(key)
        )
    }

    pub fn send(&mut self, m: &Msg, rng: &mut Rng) {
        let mut out = Vec::new();
        let f = self.fragment && rng.chance(1, 3);
        ws::encode(m, rng, f, &mut out);
        self.messages_sent += 1;
        self.net.server_write(&out);
    }

    /// Read what the client wrote.  Returns whether there was anything.
    pub fn read(&mut self, tick: &Tick, rng: &mut Rng) -> Result<bool, Fail> {
        let d = self.net.server_read();
        if d.is_empty() {
            return Ok(false);
        }
        if self.keep_raw {
            self.raw_in.extend_from_slice(&d);
        }
        self.dec.feed(&d);
        if !self.handshaken {
            if !self.auto_handshake {
                return Ok(true);
            }
            match self.dec.take_request().map_err(Fail::Violation)? {
                None => return Ok(true),
                Some(r) => {
                    let key = r.header("sec-websocket-key").unwrap_or("").to_string();
                    self.net.server_write(Server::handshake_response(&key).as_bytes());
                    self.handshaken = true;
                    let open = Msg::Text(self.open_text.clone());
                    self.send(&open, rng);
                }
            }
        }
        while let Some(m) = self.dec.next().map_err(|e| Fail::v(format!("client broke the WebSocket protocol: {}", e)))? {
            let t = tick.next();
            if let Msg::Close(_) = m {
                if self.close_at.is_none() {
                    self.close_at = Some(t);
                    match self.on_close {
                        OnClose::Complete => self.finish_close(rng),
                        OnClose::ReplyOnly => {
                            self.closed_sent = true;
                            self.send(&Msg::Close(vec![]), rng);
                        }
                        OnClose::Eof => self.net.server_eof(),
                        OnClose::Ignore => {}
                    }
                }
            }
            self.inbox.push((t, m));
        }
        Ok(true)
    }

    pub fn finish_close(&mut self, rng: &mut Rng) {
        if !self.closed_sent {
            self.closed_sent = true;
            self.send(&Msg::Close(vec![]), rng);
        }
        self.net.server_eof();
    }
}

#[derive(Clone, Default)]
pub struct Tick(Arc<AtomicU64>);
impl Tick {
    pub fn next(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst) + 1
    }
    pub fn now(&self) -> u64 {
        self.0.load(Ordering::SeqCst)
    }
}

// ---------------------------------------------------------------- world

pub struct World {
    pub rng: Rng,
    pub net: Net,
    pub exec: Exec,
    pub srv: Server,
    pub tick: Tick,
    pub steps: u64,
    step_limit: u64,
    /// the server does not read what the client writes
    pub stall: bool,
    /// messages the server will send, one per step
    pub outq: VecDeque<(Msg, u64)>,
    /// (meta, tick, bytes written by then) of each message from `outq` once sent
    pub sent: Vec<(u64, u64, u64)>,
}

pub enum Driven<T> {
    Done(T),
    /// nothing can happen any more without time passing
    Stuck,
}

/// meta of a message in `outq` that is written as it is, without a frame
pub const RAW: u64 = u64::MAX - 1;

const STEP_LIMIT: u64 = 3_000_000;

impl World {
    pub fn new(rng: &mut Rng, cfg: NetCfg) -> World {
        futures_timer::virtual_begin();
        let net = Net::new(cfg, rng.next());
        World {
            rng: rng.fork(),
            net: net.clone(),
            exec: Exec::default(),
            srv: Server::new(net),
            tick: Tick::default(),
            steps: 0,
            step_limit: STEP_LIMIT,
            stall: false,
            outq: VecDeque::new(),
            sent: Vec::new(),
        }
    }

    pub fn send_next(&mut self) -> bool {
        if self.srv.closed_sent || self.net.lock().inflight_eof {
            self.outq.clear();
        }
        match self.outq.pop_front() {
            Some((m, meta)) => {
                let t = self.tick.next();
                if meta == RAW {
                    if let Msg::Binary(b) = &m {
                        self.net.server_write(b);
                    }
                } else {
                    self.srv.send(&m, &mut self.rng);
                }
                let w = self.net.lock().written;
                self.sent.push((meta, t, w));
                true
            }
            None => false,
        }
    }

    /// One random step of tasks or network; false when nothing can happen.
    pub fn step(&mut self) -> Result<bool, Fail> {
        self.steps += 1;
        crate::runner::progress();
        if self.steps > self.step_limit {
            // what has moved since is progress, one byte at a time at worst
            let n = self.net.lock();
            let moved = n.stats.bytes_in + n.stats.bytes_out;
            drop(n);
            self.step_limit = STEP_LIMIT + 20 * moved;
        }
        if self.steps > self.step_limit {
            return Err(Fail::v("the session never comes to rest"));
        }
        let can_run = self.exec.has_ready();
        let can_deliver = self.net.can_deliver();
        let can_read = !self.stall && self.net.server_pending() > 0;
        let mut opts = [0u8; 3];
        let mut n = 0;
        if can_run {
            opts[n] = 0;
            n += 1;
        }
        if can_deliver {
            opts[n] = 1;
            n += 1;
        }
        if can_read {
            opts[n] = 2;
            n += 1;
        }
        if n == 0 {
            return Ok(false);
        }
        match opts[self.rng.below(n)] {
            0 => {
                self.exec.poll_one(&mut self.rng);
            }
            1 => {
                let d = self.net.lock().cfg.deliver;
                let d = if d > 1 && d < 1 << 20 { self.rng.range(1, d) } else { d };
                self.net.deliver(d);
            }
            _ => {
                self.srv.read(&self.tick, &mut self.rng)?;
            }
        }
        Ok(true)
    }

    /// Run until nothing can happen without time passing (and the server has sent everything).
    pub fn settle(&mut self) -> Result<(), Fail> {
        loop {
            if !self.outq.is_empty() && self.rng.chance(1, 3) {
                self.send_next();
            }
            if !self.step()? && !self.send_next() {
                return Ok(());
            }
        }
    }

    /// Drive a future of the client, without letting time pass.
    pub fn drive<T>(&mut self, f: &mut (impl Future<Output = T> + Unpin)) -> Result<Driven<T>, Fail> {
        let flag = Arc::new(Flag(AtomicBool::new(true)));
        let waker = futures::task::waker(flag.clone());
        let mut cx = Context::from_waker(&waker);
        // a future may have been driven before: poll it once in any case
        loop {
            let go = flag.0.load(Ordering::SeqCst);
            if go && self.rng.chance(1, 2) {
                flag.0.store(false, Ordering::SeqCst);
                if let Poll::Ready(x) = Pin::new(&mut *f).poll(&mut cx) {
                    return Ok(Driven::Done(x));
                }
                continue;
            }
            if !self.outq.is_empty() && self.rng.chance(1, 3) {
                self.send_next();
            }
            if !self.step()? && !flag.0.load(Ordering::SeqCst) && !self.send_next() {
                return Ok(Driven::Stuck);
            }
        }
    }

    /// Drive a future, letting virtual time pass when nothing else can happen, up to `until`.
    pub fn drive_timed<T>(&mut self, f: &mut (impl Future<Output = T> + Unpin), until: u64) -> Result<Driven<T>, Fail> {
        loop {
            match self.drive(f)? {
                Driven::Done(x) => return Ok(Driven::Done(x)),
                Driven::Stuck => match futures_timer::virtual_next() {
                    Some(t) if t <= until => futures_timer::virtual_advance(t),
                    _ => {
                        futures_timer::virtual_advance(until);
                        return self.drive(f);
                    }
                },
            }
        }
    }

    /// Connect over this world's transport.
    pub fn connect(&mut self, url: &str) -> Result<Client, Fail> {
        match self.try_connect(url)? {
            Driven::Done(Ok(c)) => Ok(c),
            Driven::Done(Err(e)) => Err(Fail::v(format!("connecting to a healthy server failed: {} / {:?}", e, e))),
            Driven::Stuck => Err(Fail::v("connecting to a healthy server never resolves")),
        }
    }

    pub fn try_connect(&mut self, url: &str) -> Result<Driven<Result<Client, Error>>, Fail> {
        let exec = self.exec.clone();
        let io = Mutex::new(Some(self.net.io()));
        let direct = self.rng.chance(1, 3);
        if direct {
            let io = io.lock().unwrap().take().unwrap();
            let mut f = Box::pin(Client::from_stream(url, io, &exec));
            self.drive(&mut f)
        } else {
            let mut f = Box::pin(Client::connect(
                url,
                move |_host, _port| {
                    let io = io.lock().unwrap().take();
                    async move { io.ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "second connection")) }
                },
                &exec,
            ));
            self.drive(&mut f)
        }
    }

    /// The client's transport has been given back.
    pub fn released(&self) -> bool {
        self.net.lock().client_dropped
    }
}
