//! In-memory byte transport between the client under test and the mock server.

use crate::rng::Rng;
use futures::io::{AsyncRead, AsyncWrite};
use std::collections::VecDeque;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, Debug)]
pub struct NetCfg {
    /// upper bound of bytes returned by one read (1 = byte at a time)
    pub read_chunk: usize,
    pub write_chunk: usize,
    /// bytes the client may have outstanding before writes block
    pub write_cap: usize,
    /// one in n polls returns Pending and wakes itself (0 = never)
    pub spurious: usize,
    /// bytes delivered per network step
    pub deliver: usize,
}

impl NetCfg {
    pub fn smooth() -> NetCfg {
        NetCfg { read_chunk: 1 << 20, write_chunk: 1 << 20, write_cap: 1 << 24, spurious: 0, deliver: 1 << 20 }
    }
    pub fn random(rng: &mut Rng) -> NetCfg {
        let sz = |rng: &mut Rng| match rng.below(5) {
            0 => 1,
            1 => rng.range(2, 9),
            2 => rng.range(10, 200),
            _ => 1 << 20,
        };
        NetCfg {
            read_chunk: sz(rng),
            write_chunk: sz(rng),
            write_cap: match rng.below(4) {
                0 => rng.range(1, 40),
                1 => rng.range(40, 2000),
                _ => 1 << 24,
            },
            spurious: if rng.chance(1, 4) { rng.range(2, 6) } else { 0 },
            deliver: sz(rng),
        }
    }
}

#[derive(Default)]
pub struct Stats {
    pub reads: u64,
    pub writes: u64,
    pub read_pending: u64,
    pub write_pending: u64,
    pub bytes_in: u64,
    pub bytes_out: u64,
}

pub struct State {
    pub cfg: NetCfg,
    rng: Rng,
    // server -> client
    pub inflight: VecDeque<u8>,
    pub inflight_eof: bool,
    /// bytes the server has written so far
    pub written: u64,
    pub ready: VecDeque<u8>,
    pub ready_eof: bool,
    read_waker: Option<Waker>,
    /// fail the client's read once this many more bytes were read
    pub read_err_after: Option<u64>,
    // client -> server
    pub out: VecDeque<u8>,
    write_waker: Option<Waker>,
    pub write_err_after: Option<u64>,
    /// server no longer reads: writes fail with BrokenPipe
    pub write_broken: bool,
    /// kind of the injected errors
    pub err_kind: ErrorKind,
    /// an injected error occurs only once; afterwards the transport works again
    pub err_once: bool,
    /// once broken, a write accepts nothing instead of failing
    pub write_zero: bool,
    /// server-side stall: server does not drain
    pub client_closed: bool,
    pub client_dropped: bool,
    pub stats: Stats,
    /// a reader that is always ready (used for saturation): called when `ready` is empty
    pub refill: Option<Box<dyn FnMut() -> Option<Vec<u8>> + Send>>,
    /// called with whatever the client has written, inside its poll (a peer that reads eagerly)
    pub sink: Option<Box<dyn FnMut(&[u8]) + Send>>,
}

#[derive(Clone)]
pub struct Net(pub Arc<(Mutex<State>, Condvar)>);

impl Net {
    pub fn new(cfg: NetCfg, seed: u64) -> Net {
        Net(Arc::new((
            Mutex::new(State {
                cfg,
                rng: Rng::new(seed),
                inflight: VecDeque::new(),
                inflight_eof: false,
                written: 0,
                ready: VecDeque::new(),
                ready_eof: false,
                read_waker: None,
                read_err_after: None,
                out: VecDeque::new(),
                write_waker: None,
                write_err_after: None,
                write_broken: false,
                err_kind: ErrorKind::ConnectionReset,
                err_once: false,
                write_zero: false,
                client_closed: false,
                client_dropped: false,
                stats: Stats::default(),
                refill: None,
                sink: None,
            }),
            Condvar::new(),
        )))
    }
    pub fn lock(&self) -> std::sync::MutexGuard<'_, State> {
        self.0 .0.lock().unwrap()
    }
    pub fn io(&self) -> Io {
        Io { net: self.clone() }
    }
    /// Server writes bytes; they become readable by the client only when delivered.
    pub fn server_write(&self, b: &[u8]) {
        let mut s = self.lock();
        s.written += b.len() as u64;
        s.inflight.extend(b.iter().copied());
    }
    pub fn server_eof(&self) {
        self.lock().inflight_eof = true;
    }
    pub fn can_deliver(&self) -> bool {
        let s = self.lock();
        !s.inflight.is_empty() || (s.inflight_eof && !s.ready_eof)
    }
    /// Deliver one chunk towards the client.
    pub fn deliver(&self, max: usize) {
        let mut s = self.lock();
        let n = s.inflight.len().min(max.max(1));
        let chunk: Vec<u8> = s.inflight.drain(..n).collect();
        s.ready.extend(chunk);
        if s.inflight.is_empty() && s.inflight_eof {
            s.ready_eof = true;
        }
        let w = s.read_waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn deliver_all(&self) {
        self.deliver(usize::MAX)
    }
    /// Server takes everything the client wrote.
    pub fn server_read(&self) -> Vec<u8> {
        let mut s = self.lock();
        let v: Vec<u8> = s.out.drain(..).collect();
        let w = s.write_waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake()
        }
        v
    }
    pub fn server_pending(&self) -> usize {
        self.lock().out.len()
    }
    pub fn break_writes(&self) {
        let mut s = self.lock();
        s.write_broken = true;
        let w = s.write_waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake()
        }
    }
    pub fn fail_reads_now(&self) {
        let mut s = self.lock();
        s.read_err_after = Some(0);
        let w = s.read_waker.take();
        drop(s);
        if let Some(w) = w {
            w.wake()
        }
    }
    /// Blocking server read for thread workloads.  None when the client is gone and all is read.
    pub fn server_read_blocking(&self, timeout: std::time::Duration) -> Option<Vec<u8>> {
        let mut s = self.lock();
        let end = std::time::Instant::now() + timeout;
        loop {
            if !s.out.is_empty() {
                let v: Vec<u8> = s.out.drain(..).collect();
                let w = s.write_waker.take();
                drop(s);
                if let Some(w) = w {
                    w.wake()
                }
                return Some(v);
            }
            if s.client_dropped || s.client_closed {
                return None;
            }
            let left = end.saturating_duration_since(std::time::Instant::now());
            if left.is_zero() {
                return Some(Vec::new());
            }
            s = self.0 .1.wait_timeout(s, left).unwrap().0;
        }
    }
}

pub struct Io {
    net: Net,
}

impl Drop for Io {
    fn drop(&mut self) {
        let mut s = self.net.lock();
        s.client_dropped = true;
        drop(s);
        self.net.0 .1.notify_all();
    }
}

impl AsyncRead for Io {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let mut s = self.net.lock();
        s.stats.reads += 1;
        let sp = s.cfg.spurious;
        if sp > 0 && s.rng.chance(1, sp) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if let Some(0) = s.read_err_after {
            if s.err_once {
                s.read_err_after = None;
            }
            return Poll::Ready(Err(io::Error::new(s.err_kind, "injected read error")));
        }
        if s.ready.is_empty() {
            if let Some(mut f) = s.refill.take() {
                drop(s);
                let more = f();
                s = self.net.lock();
                if let Some(b) = more {
                    s.ready.extend(b);
                    s.refill = Some(f);
                }
            }
        }
        if s.ready.is_empty() {
            if s.ready_eof {
                return Poll::Ready(Ok(0));
            }
            s.stats.read_pending += 1;
            s.read_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(s.ready.len()).min(s.cfg.read_chunk);
        if n > 1 && s.cfg.read_chunk < 1 << 20 {
            n = s.rng.range(1, n);
        }
        if let Some(k) = s.read_err_after {
            n = n.min(k as usize);
            s.read_err_after = Some(k - n as u64);
        }
        for b in buf[..n].iter_mut() {
            *b = s.ready.pop_front().unwrap();
        }
        s.stats.bytes_in += n as u64;
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Io {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let mut s = self.net.lock();
        s.stats.writes += 1;
        let sp = s.cfg.spurious;
        if sp > 0 && s.rng.chance(1, sp) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if s.write_broken && !buf.is_empty() {
            if s.err_once {
                s.write_broken = false;
            }
            if s.write_zero {
                return Poll::Ready(Ok(0));
            }
            return Poll::Ready(Err(io::Error::new(ErrorKind::BrokenPipe, "injected broken pipe")));
        }
        if let Some(0) = s.write_err_after {
            if s.err_once {
                s.write_err_after = None;
            }
            return Poll::Ready(Err(io::Error::new(s.err_kind, "injected write error")));
        }
        if let Some(mut f) = s.sink.take() {
            let n = buf.len();
            drop(s);
            f(&buf[..n]);
            s = self.net.lock();
            s.sink = Some(f);
            s.stats.bytes_out += n as u64;
            return Poll::Ready(Ok(n));
        }
        let space = s.cfg.write_cap.saturating_sub(s.out.len());
        if space == 0 {
            s.stats.write_pending += 1;
            s.write_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = buf.len().min(space).min(s.cfg.write_chunk);
        if n > 1 && s.cfg.write_chunk < 1 << 20 {
            n = s.rng.range(1, n);
        }
        if let Some(k) = s.write_err_after {
            n = n.min(k as usize);
            s.write_err_after = Some(k - n as u64);
        }
        s.out.extend(buf[..n].iter().copied());
        s.stats.bytes_out += n as u64;
        drop(s);
        self.net.0 .1.notify_all();
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut s = self.net.lock();
        s.client_closed = true;
        drop(s);
        self.net.0 .1.notify_all();
        Poll::Ready(Ok(()))
    }
}
