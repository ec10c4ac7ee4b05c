//! One direction is kept continuously busy; how long does the other one wait?  (C24)

use crate::core::{Case, Fail, Verdict};
use crate::fail;
use crate::net::NetCfg;
use crate::rng::Rng;
use crate::sim::*;
use crate::ws::{self, Msg};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// Turns of the busy direction that one item of the other one may wait, besides those of the items
/// queued before it.  The loop of the client picks at random, one turn in three at worst.
const WAIT: u64 = 150;

fn event(i: u64, n: usize, rng: &mut Rng) -> Msg {
    let _ = rng;
    Msg::Text(format!("42[\"e\",{},\"{}\"]", i, "x".repeat(n)))
}

pub fn c24(c: &mut Case, rng: &mut Rng) -> Verdict {
    if rng.chance(1, 2) {
        incoming(c, rng)
    } else {
        outgoing(c, rng)
    }
}

#[derive(Default)]
struct Seen {
    /// messages of the busy direction so far when the item went out
    at: Vec<(String, u64)>,
    dec: ws::Decoder,
    broken: Option<String>,
}

fn connect(rng: &mut Rng) -> Result<(World, socket_io_client::Client), Fail> {
    let mut cfg = if rng.chance(1, 2) { NetCfg::smooth() } else { NetCfg::random(rng) };
    // a poll that reports "pending" is not saturation
    cfg.spurious = 0;
    cfg.write_cap = 1 << 24;
    // the flood must not begin in the middle of a frame
    cfg.deliver = 1 << 30;
    let mut w = World::new(rng, cfg);
    let client = w.connect("ws://localhost/")?;
    w.settle()?;
    Ok((w, client))
}

/// The reader always has the next message ready; emissions, pongs and the close have to get out.
fn incoming(c: &mut Case, rng: &mut Rng) -> Verdict {
    let (mut w, mut client) = connect(rng)?;
    let supplied = Arc::new(AtomicU64::new(0));
    let seen: Arc<Mutex<Seen>> = Default::default();
    let burst = *rng.pick(&[1usize, 1, 2, 3]);
    let size = *rng.pick(&[0usize, 1, 100, 5000]);
    let total = 1500u64;
    // what is emitted and when (message count), from inside a callback
    let k = rng.range(1, 5) as u64;
    let mut plan: Vec<u64> = (0..k).map(|_| rng.below(250) as u64).collect();
    plan.sort_unstable();
    let close_at = if rng.chance(1, 2) { Some(rng.below(250) as u64) } else { None };
    let ping_at: Vec<u64> = (0..rng.below(4)).map(|_| rng.below(250) as u64).collect();
    let raw = client.send.clone();
    let emitted: Arc<Mutex<Vec<(String, u64)>>> = Default::default();
    let delivered = Arc::new(AtomicU64::new(0));
    {
        let (plan, emitted, supplied, raw, delivered) = (plan.clone(), emitted.clone(), supplied.clone(), raw, delivered.clone());
        client.set_event_callback("e", move |args: &socket_io_client::protocol::Args, _ack: Option<socket_io_client::AckBuilder>| {
            delivered.fetch_add(1, Ordering::SeqCst);
            let i: u64 = args.get(1).and_then(|a| a.deserialize().ok()).unwrap_or(0);
            for (j, _) in plan.iter().enumerate().filter(|(_, at)| **at == i) {
                let t = format!("42[\"out\",{}]", j);
                emitted.lock().unwrap().push((t.clone(), supplied.load(Ordering::SeqCst)));
                let _ = raw.unbounded_send(vec![tungstenite::Message::Text(t)]);
            }
        });
    }
    let mut first: Vec<(String, u64)> = Vec::new();
    if rng.chance(1, 2) {
        client.emit("before").args().send();
        first.push(("42[\"before\"]".into(), 0));
    }
    {
        let (seen, supplied) = (seen.clone(), supplied.clone());
        w.net.lock().sink = Some(Box::new(move |b: &[u8]| {
            let mut s = seen.lock().unwrap();
            s.dec.feed(b);
            loop {
                match s.dec.next() {
                    Ok(Some(m)) => {
                        let at = supplied.load(Ordering::SeqCst);
                        let t = match m {
                            Msg::Text(t) => t,
                            Msg::Close(_) => "close".into(),
                            m => format!("{:?}", m),
                        };
                        s.at.push((t, at));
                    }
                    Ok(None) => break,
                    Err(e) => {
                        s.broken = Some(e);
                        break;
                    }
                }
            }
        }));
    }
    let close_wanted = Arc::new(AtomicU64::new(u64::MAX));
    let closer: Arc<Mutex<Option<futures::channel::oneshot::Sender<()>>>> = Default::default();
    let (ctx_tx, ctx_rx) = futures::channel::oneshot::channel::<()>();
    *closer.lock().unwrap() = Some(ctx_tx);
    {
        let (supplied, seen, emitted, mut r2) = (supplied.clone(), seen.clone(), emitted.clone(), rng.fork());
        let closer = closer.clone();
        let pings = ping_at.clone();
        w.net.lock().refill = Some(Box::new(move || {
            let mut out = Vec::new();
            for _ in 0..burst {
                let i = supplied.load(Ordering::SeqCst);
                if i >= total {
                    return None;
                }
                // everything is out: the flood may end
                let done = {
                    let s = seen.lock().unwrap();
                    i > 600 || (i > 260 && s.at.len() as u64 >= k + pings.len() as u64 + close_at.map_or(0, |_| 1))
                };
                if done {
                    return None;
                }
                for _ in pings.iter().filter(|p| **p == i) {
                    ws::encode(&Msg::Text("2".into()), &mut r2, false, &mut out);
                    emitted.lock().unwrap().push(("3".into(), i));
                }
                ws::encode(&event(i, size, &mut r2), &mut r2, false, &mut out);
                supplied.store(i + 1, Ordering::SeqCst);
                if close_at == Some(i) {
                    if let Some(c) = closer.lock().unwrap().take() {
                        let _ = c.send(());
                    }
                }
            }
            Some(out)
        }));
    }
    // the flood begins when the reader is woken
    {
        let m = Msg::Text("3".into());
        w.srv.send(&m, &mut rng.fork());
    }
    let d = format!("incoming flood of events of {} bytes, {} at a time; emissions at {:?}, pings at {:?}, close at {:?}", size, burst, plan, ping_at, close_at);
    c.key(&d, true);
    c.sample(|| d.clone());
    if close_at.is_some() {
        // the application asks for the close while the loop is busy: the request is sent from
        // inside the reader, so it falls in the middle of the flood
        let asked = Arc::new(AtomicU64::new(u64::MAX));
        let (a2, sup2) = (asked.clone(), supplied.clone());
        // close() sends its request when first polled; do that from a thread during the flood
        let (tx, rx) = std::sync::mpsc::channel();
        let h = std::thread::spawn(move || {
            futures::executor::block_on(async move {
                let _ = ctx_rx.await;
                a2.store(sup2.load(Ordering::SeqCst), Ordering::SeqCst);
                let r = {
                    let mut f = Box::pin(client.close());
                    let first = futures::poll!(&mut f);
                    let _ = tx.send(());
                    match first {
                        std::task::Poll::Ready(r) => r,
                        std::task::Poll::Pending => f.await,
                    }
                };
                (format!("{:?}", r), client)
            })
        });
        // the refill waits for the request to be made
        let rx = Mutex::new(rx);
        let mut n = w.net.lock();
        let mut inner = n.refill.take().unwrap();
        let closer2 = closer.clone();
        let mut waited = false;
        n.refill = Some(Box::new(move || {
            let r = inner();
            if !waited && closer2.lock().unwrap().is_none() {
                waited = true;
                let _ = rx.lock().unwrap().recv_timeout(std::time::Duration::from_secs(20));
            }
            r
        }));
        drop(n);
        w.settle()?;
        if closer.lock().unwrap().is_some() {
            fail!("{}: the flood stops after {} messages, {} delivered", d, supplied.load(Ordering::SeqCst), delivered.load(Ordering::SeqCst));
        }
        close_wanted.store(asked.load(Ordering::SeqCst), Ordering::SeqCst);
        // complete the close
        w.net.lock().refill = None;
        let mut r3 = rng.fork();
        w.srv.finish_close(&mut r3);
        w.settle()?;
        let (r, cl) = h.join().map_err(|_| Fail::Inconclusive("closing thread".into()))?;
        c.trace(|| format!("close: {}", r));
        drop(cl);
    } else {
        w.settle()?;
        drop(client);
    }
    let s = seen.lock().unwrap();
    if let Some(e) = &s.broken {
        fail!("{}: the client broke the WebSocket protocol: {}", d, e);
    }
    let mut want = first;
    want.extend(emitted.lock().unwrap().iter().cloned());
    let asked = close_wanted.load(Ordering::SeqCst);
    let mut got = s.at.clone();
    let mut worst = 0;
    for (i, (t, at)) in want.iter().enumerate() {
        // things asked for after the close are not sent
        if asked != u64::MAX && *at + 1 >= asked.min(close_at.unwrap_or(u64::MAX)) {
            continue;
        }
        match got.iter().position(|g| g.0 == *t) {
            None => fail!("{}: {:?}, due since message {}, never goes out ({} messages later)", d, t, at, supplied.load(Ordering::SeqCst) - at),
            Some(p) => {
                let g = got.remove(p);
                let wait = g.1.saturating_sub(*at);
                worst = worst.max(wait);
                if wait > WAIT * (i as u64 + 1) {
                    fail!("{}: {:?}, due since message {}, goes out {} messages later", d, t, at, wait);
                }
            }
        }
    }
    if asked != u64::MAX {
        match s.at.iter().find(|g| g.0 == "close") {
            None => fail!("{}: the close frame never goes out, {} messages after it was asked for", d, supplied.load(Ordering::SeqCst) - asked),
            Some(g) => {
                let wait = g.1.saturating_sub(asked);
                worst = worst.max(wait);
                if wait > WAIT * (want.len() as u64 + 1) {
                    fail!("{}: the close frame goes out {} messages after it was asked for", d, wait);
                }
                c.count("closes_under_flood");
            }
        }
    }
    if delivered.load(Ordering::SeqCst) == 0 {
        return Err(Fail::Inconclusive("no flood".into()));
    }
    c.count("incoming_floods");
    c.add("flood_messages", supplied.load(Ordering::SeqCst));
    c.add("items_measured", want.len() as u64);
    c.max("max_wait_messages", worst);
    Ok(())
}

/// The send queue never runs dry; incoming events have to be delivered.
fn outgoing(c: &mut Case, rng: &mut Rng) -> Verdict {
    let (mut w, mut client) = connect(rng)?;
    let sent = Arc::new(AtomicU64::new(0));
    let deliveries: Arc<Mutex<Vec<(u64, u64)>>> = Default::default();
    {
        let (sent, deliveries) = (sent.clone(), deliveries.clone());
        client.set_event_callback("e", move |args: &socket_io_client::protocol::Args, _: Option<socket_io_client::AckBuilder>| {
            let i: u64 = args.get(1).and_then(|a| a.deserialize().ok()).unwrap_or(u64::MAX);
            deliveries.lock().unwrap().push((i, sent.load(Ordering::SeqCst)));
        });
    }
    let k = rng.range(1, 5) as u64;
    let mut plan: Vec<u64> = (0..k).map(|_| rng.below(250) as u64).collect();
    plan.sort_unstable();
    let depth = *rng.pick(&[2usize, 3, 10]);
    let parts = *rng.pick(&[1usize, 1, 2, 4]);
    let size = *rng.pick(&[1usize, 100, 3000]);
    let raw = client.send.clone();
    let packet = move || -> Vec<tungstenite::Message> {
        if parts == 1 {
            vec![tungstenite::Message::Text(format!("42[\"f\",\"{}\"]", "x".repeat(size)))]
        } else {
            let mut v = vec![tungstenite::Message::Text(format!("45{}-[\"f\",{}]", parts - 1, (0..parts - 1).map(|i| format!("{{\"_placeholder\":true,\"num\":{}}}", i)).collect::<Vec<_>>().join(",")))];
            for _ in 1..parts {
                v.push(tungstenite::Message::Binary(vec![4; size + 1]));
            }
            v
        }
    };
    {
        let (sent, deliveries, raw, plan, net) = (sent.clone(), deliveries.clone(), raw.clone(), plan.clone(), w.net.clone());
        let packet = packet.clone();
        let mut dec = ws::Decoder::default();
        let mut messages = 0u64;
        let mut r2 = rng.fork();
        w.net.lock().sink = Some(Box::new(move |b: &[u8]| {
            dec.feed(b);
            while let Ok(Some(_)) = dec.next() {
                messages += 1;
                if messages % parts as u64 != 0 {
                    continue;
                }
                let n = messages / parts as u64;
                sent.store(n, Ordering::SeqCst);
                for (j, _) in plan.iter().enumerate().filter(|(_, at)| **at == n - 1) {
                    let mut v = Vec::new();
                    ws::encode(&event(j as u64, 3, &mut r2), &mut r2, false, &mut v);
                    net.server_write(&v);
                    net.deliver_all();
                }
                let done = deliveries.lock().unwrap().len() as u64 >= k && n > 250;
                if !done && n < 1200 {
                    let _ = raw.unbounded_send(packet());
                }
            }
        }));
    }
    for _ in 0..depth {
        let _ = raw.unbounded_send(packet());
    }
    w.settle()?;
    let d = format!("outgoing flood of packets of {} messages, {} queued, {} bytes; events at {:?}", parts, depth, size, plan);
    c.key(&d, true);
    c.sample(|| d.clone());
    let got = deliveries.lock().unwrap().clone();
    let mut worst = 0;
    for (j, at) in plan.iter().enumerate() {
        match got.iter().find(|g| g.0 == j as u64) {
            None => fail!("{}: event {} is never delivered", d, j),
            Some(g) => {
                let wait = g.1.saturating_sub(*at);
                worst = worst.max(wait);
                if wait > WAIT * (j as u64 + 1) {
                    fail!("{}: event {}, there since packet {}, is delivered {} packets later", d, j, at, wait);
                }
            }
        }
    }
    c.count("outgoing_floods");
    c.add("flood_packets", sent.load(Ordering::SeqCst));
    c.add("items_measured", plan.len() as u64);
    c.max("max_wait_packets", worst);
    drop(client);
    w.settle()?;
    Ok(())
}
