//! Memory (C25): heap accounting of running sessions and of whole lifetimes, validity of every string
//! the library hands out, and callbacks shared between clients that run on different threads.

use crate::codec;
use crate::core::{Case, Fail, Verdict, MEMORY};
use crate::jsonref;
use crate::net::NetCfg;
use crate::proto::{self, Kind, Pkt, Ref};
use crate::rng::Rng;
use crate::session::gen_args;
use crate::shapes::{self, *};
use crate::sim::*;
use crate::ws::Msg;
use crate::for_types;
use serde::Serialize;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, EventCallback};
use socket_io_protocol::engine::{self, Packet as EPacket};
use socket_io_protocol::socket::{self, Packet, PacketBuilder};
use std::alloc::{GlobalAlloc, Layout, System};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Barrier, Mutex};

// ---------------------------------------------------------------- heap accounting

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        count(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        count(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Ordering::Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Ordering::Relaxed);
        count(n.saturating_sub(l.size()));
        System.realloc(p, l, n)
    }
}

thread_local! {
    static ALLOCATED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

fn count(n: usize) {
    let _ = ALLOCATED.try_with(|a| a.set(a.get().wrapping_add(n as u64)));
}

/// Bytes this thread has allocated so far.
pub fn allocated() -> u64 {
    ALLOCATED.with(|a| a.get())
}

pub fn live() -> i64 {
    LIVE.load(Ordering::SeqCst)
}

#[derive(Clone, Debug)]
enum Act {
    Set(String, Option<String>),
    Clear(String, Option<String>),
    /// a name that no other round uses, cleared in the same round
    Passing(String),
    Emit { ns: String, binary: bool, ack: bool, n: usize, abandon: bool, fail: bool },
    Event { ns: String, name: String, binary: bool, id: Option<u64>, args: Vec<jsonref::J> },
    Ping,
    WsPing,
    Other(Kind, String),
    Pong,
}

#[derive(Default)]
struct Held {
    replies: Vec<AckBuilder>,
    runs: u64,
    acks: u64,
}

fn gen_plan(rng: &mut Rng) -> Vec<Act> {
    let ns = |r: &mut Rng| r.pick(&["/", "/", "/n", "/ünï"]).to_string();
    let name = |r: &mut Rng| r.pick(&["a", "b", "c"]).to_string();
    (0..rng.range(3, 14))
        .map(|_| match rng.below(16) {
            0 | 1 => {
                let n = name(rng);
                let f = rng.chance(1, 3);
                Act::Set(ns(rng), if f { None } else { Some(n) })
            }
            2 => {
                let n = name(rng);
                let f = rng.chance(1, 3);
                Act::Clear(ns(rng), if f { None } else { Some(n) })
            }
            3 => Act::Passing(ns(rng)),
            4..=7 => Act::Emit {
                ns: ns(rng),
                binary: rng.chance(1, 2),
                ack: rng.chance(1, 2),
                n: rng.below(4),
                abandon: rng.chance(1, 8),
                fail: rng.chance(1, 8),
            },
            8..=12 => {
                let binary = rng.chance(1, 2);
                Act::Event {
                    ns: ns(rng),
                    name: name(rng),
                    binary,
                    id: if rng.chance(1, 2) { Some(rng.below(100) as u64) } else { None },
                    args: gen_args(rng, binary, 5),
                }
            }
            13 => Act::Ping,
            14 => match rng.below(2) {
                0 => Act::WsPing,
                _ => Act::Pong,
            },
            _ => Act::Other(if rng.chance(1, 2) { Kind::Connect } else { Kind::Disconnect }, ns(rng)),
        })
        .collect()
}

fn callback(held: &Arc<Mutex<Held>>) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
    let held = held.clone();
    let captured = vec![7u8; 64];
    move |args: &Args, ack: Option<AckBuilder>| {
        std::hint::black_box(&captured);
        let n = args.iter().filter(|a| a.to_json_value().is_ok()).count();
        let mut h = held.lock().unwrap();
        h.runs += 1;
        if let Some(a) = ack {
            match (n + h.runs as usize) % 3 {
                0 => drop(a),
                1 => {
                    if let Ok(b) = a.binary(n % 2 == 0).args().arg(&vec![1u8, 2, 3]) {
                        drop(h);
                        b.send();
                    }
                }
                _ => h.replies.push(a),
            }
        }
    }
}

fn round(w: &mut World, client: &mut Client, plan: &[Act], held: &Arc<Mutex<Held>>, k: u64) -> Result<(), Fail> {
    w.steps = 0;
    for a in plan {
        match a {
            Act::Set(ns, Some(n)) => client.set_namespace_event_callback(ns, n, callback(held)),
            Act::Set(ns, None) => client.set_namespace_fallback_callback(ns, callback(held)),
            Act::Clear(ns, Some(n)) => client.clear_namespace_event_callback(ns, n),
            Act::Clear(ns, None) => client.clear_namespace_fallback_callback(ns),
            Act::Passing(ns) => {
                let n = format!("round {:010}", k);
                client.set_namespace_event_callback(ns, &n, callback(held));
                client.clear_namespace_event_callback(ns, &n);
            }
            Act::Emit { ns, binary, ack, n, abandon, fail } => {
                let mut b = client.namespace_emit(ns, "e").binary(*binary);
                if *ack {
                    let held = held.clone();
                    let captured = [3u64; 10];
                    b = b.callback(move |_: &Args| {
                        std::hint::black_box(&captured);
                        held.lock().unwrap().acks += 1;
                    });
                }
                let mut b = b.args();
                for i in 0..*n {
                    let _ = b.arg_ref(&vec![i as u8; 40]);
                    if *fail {
                        let _ = b.arg_ref(&crate::session::Poison);
                    }
                }
                if !*abandon {
                    b.send();
                }
            }
            Act::Event { ns, name, binary, id, args } => {
                let mut all = vec![jsonref::J::S(name.clone())];
                all.extend(args.iter().cloned());
                send(w, Pkt { kind: Kind::Event, binary: *binary, ns: ns.clone(), id: *id, args: all });
            }
            Act::Ping => w.outq.push_back((Msg::Text("2".into()), 0)),
            Act::Pong => w.outq.push_back((Msg::Text("3".into()), 0)),
            Act::WsPing => w.outq.push_back((Msg::Ping(vec![1, 2, 3]), 0)),
            Act::Other(kind, ns) => send(w, Pkt { kind: *kind, binary: false, ns: ns.clone(), id: None, args: vec![] }),
        }
        if w.rng.chance(1, 3) {
            w.settle()?;
        }
    }
    // acknowledge whatever asks for it
    for _ in 0..2 {
        w.settle()?;
        let inbox = std::mem::take(&mut w.srv.inbox);
        for (_, m) in inbox {
            if let Msg::Text(t) = m {
                if let Some(t) = t.strip_prefix('4') {
                    if let Ref::Ok(p) = proto::parse(t) {
                        if let (Kind::Event, Some(id)) = (p.kind, p.id) {
                            send(w, Pkt { kind: Kind::Ack, binary: false, ns: p.ns, id: Some(id), args: vec![jsonref::J::U(1)] });
                        }
                    }
                }
            }
        }
        let replies = std::mem::take(&mut held.lock().unwrap().replies);
        for r in replies {
            r.args().send();
        }
    }
    w.settle()?;
    w.srv.inbox = Vec::new();
    w.sent = Vec::new();
    Ok(())
}

fn send(w: &mut World, p: Pkt) {
    let (text, atts) = proto::encode(&p, &mut Rng::new(5), crate::jsonref::Style { ws: false, esc: false });
    w.outq.push_back((Msg::Text(format!("4{}", text)), 0));
    for a in atts {
        let mut v = vec![4];
        v.extend(a);
        w.outq.push_back((Msg::Binary(v), 0));
    }
}

/// Whether the live bytes, taken each time the number of steps has doubled since `n`, grow with the
/// number of steps (and be it in a table that doubles its size now and then).
fn grows(samples: &[i64], n: i64) -> bool {
    samples.windows(2).enumerate().all(|(i, w)| w[1] - w[0] >= (n << i) * 4)
}

/// A session in which the same things happen over and over keeps no more and no more memory, and
/// neither does a process that opens and ends one session after the other.
pub fn c25_steady(c: &mut Case, rng: &mut Rng) -> Verdict {
    crate::runner::set_logging(false);
    let plan = gen_plan(rng);
    let cfg = if rng.chance(1, 2) { NetCfg::smooth() } else { NetCfg::random(rng) };
    let (cycles, first): (usize, usize) = if cfg!(miri) { (1, 1) } else { (24, 16) };
    let mut ends: Vec<i64> = Vec::with_capacity(64);
    for cycle in 0..cycles {
        {
            let held: Arc<Mutex<Held>> = Default::default();
            let mut w = World::new(rng, cfg);
            let mut client = w.connect("ws://localhost/")?;
            if cycle == 0 {
                let mut at = Vec::with_capacity(16);
                let rounds = first << 4;
                for k in 1..=rounds {
                    round(&mut w, &mut client, &plan, &held, k as u64)?;
                    if k >= first && k.is_power_of_two() {
                        at.push(live());
                    }
                }
                c.trace(|| format!("live bytes after {}, {}, ... rounds of {:?}: {:?}", first, first * 2, plan, at));
                if w.released() {
                    return Err(Fail::v(format!("the session of {:?} ended", plan)));
                }
                if grows(&at, first as i64) {
                    return Err(Fail::v(format!("{}a session whose every round is {:?} keeps more and more memory: live bytes after {}, {}, ... rounds are {:?}", MEMORY, plan, first, first * 2, at)));
                }
                c.add("rounds", rounds as u64);
                let h = held.lock().unwrap();
                c.add("callbacks_run", h.runs);
                c.add("ack_callbacks_run", h.acks);
                c.max("max_windows_with_growth", at.windows(2).filter(|w| w[1] - w[0] > 0).count() as u64);
                c.max("max_growth_in_the_last_half", (at[at.len() - 1] - at[at.len() - 2]).max(0) as u64);
            } else {
                round(&mut w, &mut client, &plan, &held, 0)?;
                // end it in one of the ways there are
                if cycle % 2 == 0 {
                    w.outq.push_back((Msg::Text("9".into()), 0));
                    w.settle()?;
                }
            }
            drop(client);
            w.settle()?;
        }
        futures_timer::virtual_begin();
        ends.push(live());
    }
    c.add("sessions", cycles as u64);
    let ends: Vec<i64> = (0..8).map(|i| 3usize << i).take_while(|i| *i <= ends.len()).map(|i| ends[i - 1]).collect();
    if ends.len() > 2 && grows(&ends, 3) {
        return Err(Fail::v(format!("{}sessions of {:?} leave memory behind: live bytes after 3, 6, 12, ... of them are {:?}", MEMORY, plan, ends)));
    }
    c.key(&format!("{:?}", plan), plan.len() > 2);
    c.sample(|| format!("{:?}", plan));
    Ok(())
}

/// A session short enough for an interpreter, in which a little of everything happens.
pub fn c25_brief(c: &mut Case, rng: &mut Rng) -> Verdict {
    crate::runner::set_logging(rng.chance(1, 4));
    let mut plan = gen_plan(rng);
    plan.truncate(if cfg!(miri) { 5 } else { 14 });
    for a in &mut plan {
        if let Act::Event { args, binary, .. } = a {
            args.clear();
            for i in 0..rng.below(4) {
                args.push(match rng.below(4) {
                    0 => jsonref::J::S(rng.pick(&["", "ünï", "\"\n", "plain"]).to_string()),
                    1 if *binary => jsonref::J::B(nasty_bytes(rng), rng.chance(1, 2)),
                    2 => jsonref::J::A(vec![jsonref::J::U(i as u64), jsonref::J::Null]),
                    _ => jsonref::J::O(vec![("k".into(), if *binary { jsonref::J::B(vec![1, 2, 3], false) } else { jsonref::J::Bool(true) })]),
                });
            }
        }
    }
    let held: Arc<Mutex<Held>> = Default::default();
    {
        let mut w = World::new(rng, NetCfg::smooth());
        let mut client = w.connect("ws://localhost/")?;
        for ns in &["/", "/n"] {
            client.set_namespace_event_callback(ns, "a", callback(&held));
            client.set_namespace_fallback_callback(ns, callback(&held));
        }
        round(&mut w, &mut client, &plan, &held, 0)?;
        match rng.below(4) {
            0 => {
                // the server ends it, with a packet half sent
                w.outq.push_back((Msg::Text("452-[\"a\",{\"_placeholder\":true,\"num\":0}]".into()), 0));
                w.outq.push_back((Msg::Text("1".into()), 0));
                w.settle()?;
            }
            1 => {
                w.outq.push_back((Msg::Text("9".into()), 0));
                w.settle()?;
            }
            2 => {
                // the application closes
                let mut f = Box::pin(client.close());
                match w.drive(&mut f)? {
                    Driven::Done(_) => c.count("closed"),
                    Driven::Stuck => {}
                }
                drop(f);
                c.key(&format!("{:?}", plan), true);
                return Ok(());
            }
            _ => {}
        }
        drop(client);
        w.settle()?;
    }
    // what outlives the session
    for r in held.lock().unwrap().replies.drain(..) {
        r.args().send();
    }
    c.add("callbacks_run", held.lock().unwrap().runs);
    c.key(&format!("{:?}", plan), true);
    Ok(())
}

// ---------------------------------------------------------------- strings

fn text_ok(s: &str, what: &str) -> Verdict {
    bytes_ok(std::hint::black_box(s.as_bytes()), what)
}

fn bytes_ok(b: &[u8], what: &str) -> Verdict {
    match std::str::from_utf8(b) {
        Ok(_) => Ok(()),
        Err(e) => Err(Fail::v(format!("{}{} is not valid UTF-8: {} in {:?}", MEMORY, what, e, &b[..b.len().min(200)]))),
    }
}

fn typed_ok<T: Serialize>(v: T, what: &str) -> Verdict {
    // a formatter copies the strings as they are
    match serde_json::to_vec(&v) {
        Ok(b) => bytes_ok(&b, what),
        Err(_) => Ok(()),
    }
}

fn args_ok(c: &mut Case, args: &Args) -> Verdict {
    text_ok(&format!("{} {:?}", args, args), "the printed form of arguments")?;
    for a in args.iter() {
        c.count("arguments_read");
        text_ok(&format!("{} {:?}", a, a), "the printed form of an argument")?;
        match a.to_json_value() {
            Ok(v) => typed_ok(v, "a JSON value")?,
            Err(e) => text_ok(&format!("{} {:?}", e, e), "an error")?,
        }
        macro_rules! read {
            ($($t:ty),*) => {$(
                match a.deserialize::<$t>() {
                    Ok(v) => { c.count("typed_reads"); typed_ok(v, concat!("a string within ", stringify!($t)))? }
                    Err(e) => text_ok(&format!("{} {:?}", e, e), "an error")?,
                }
            )*};
        }
        read!(
            String, &str, Cow<str>, char, Box<str>, Option<String>, Vec<String>, BTreeMap<String, String>, HashMap<String, serde_json::Value>,
            BTreeMap<char, String>, Vec<char>, (String, String), std::path::PathBuf, Box<serde_json::value::RawValue>, Vec<&str>, BTreeMap<&str, &str>
        );
        // (an interpreter takes its time)
        let few = c.counters["arguments_read"] as usize % 8;
        macro_rules! one {
            ($i:expr, $t:ty, $s:expr) => {
                if $s && (!cfg!(miri) || $i % 8 == few) {
                    read!($t);
                }
            };
        }
        for_types!(one);
    }
    Ok(())
}

fn packet_ok(c: &mut Case, p: &Packet) -> Verdict {
    text_ok(p.namespace(), "a namespace")?;
    text_ok(&format!("{} {:?}", p, p), "the printed form of a packet")?;
    if let Some((_, args)) = codec::args_of(p) {
        args_ok(c, &args)?;
    }
    Ok(())
}

fn nasty_bytes(rng: &mut Rng) -> Vec<u8> {
    match rng.below(5) {
        0 => jsonref::gen_string(rng).into_bytes(),
        1 => rng.pick(&[&[0xffu8][..], &[0xc3], &[0xe2, 0x82], &[0xed, 0xa0, 0x80], &[0xc0, 0x80], &[0xf4, 0x90, 0x80, 0x80], b"a\xff", b"\x80abc", b"abc\xf0\x9f\x98"]).to_vec(),
        2 => {
            // text cut in the middle of a character
            let mut v = "ü日😀".repeat(rng.range(1, 4)).into_bytes();
            let n = rng.below(v.len());
            v.truncate(n);
            v
        }
        3 => {
            let mut v = jsonref::gen_string(rng).into_bytes();
            if !v.is_empty() {
                let i = rng.below(v.len());
                v[i] ^= 1 << rng.below(8);
            }
            v
        }
        _ => jsonref::gen_bytes(rng, false),
    }
}

/// Whatever is decoded or encoded, every string that comes out is UTF-8.
pub fn c25_strings(c: &mut Case, rng: &mut Rng) -> Verdict {
    match rng.below(3) {
        0 => {
            // encode
            let ns = proto::gen_ns(rng);
            let ev = jsonref::gen_string(rng);
            let binary = rng.chance(1, 2);
            let mut b = if rng.chance(1, 2) { PacketBuilder::new_event(&*ev, ns.clone(), Some(rng.next()), binary) } else { PacketBuilder::new_ack(ns.clone(), 3, binary) };
            let mut key = ev.clone();
            for _ in 0..rng.below(5) {
                let d = rng.below(4);
                let mut sh = shapes::gen(rng, d);
                if rng.chance(1, 3) {
                    sh.poison(rng);
                }
                key.push_str(&format!("{:?}", sh));
                if let Err(e) = b.serialize_arg(&sh) {
                    text_ok(&format!("{} {:?}", e, e), "an error")?;
                }
            }
            for m in b.finish() {
                if let tungstenite::Message::Text(t) = m {
                    text_ok(&t, "an encoded packet")?;
                    c.count("packets_encoded");
                }
            }
            for m in [socket::serialize_connect(&ns), socket::serialize_disconnect(&ns)].iter() {
                if let engine::Message::Text(t) = m {
                    text_ok(t, "an encoded packet")?;
                }
            }
            c.key(&key, true);
        }
        1 => {
            // decode a well-formed packet with bytes of any kind
            let mut p = proto::gen_pkt(rng);
            p.binary = true;
            if p.args.is_empty() {
                return Ok(());
            }
            let esc = rng.chance(1, 2);
            let (text, mut atts) = proto::encode(&p, rng, crate::jsonref::Style { ws: true, esc });
            for a in &mut atts {
                *a = nasty_bytes(rng);
            }
            c.key(&(&text, &atts), true);
            if let codec::Decoded::Packet(p, _) = codec::decode(&text, Some(&atts), rng)? {
                packet_ok(c, &p)?;
                c.count("packets_decoded");
            }
        }
        _ => {
            // decode anything
            let text = codec::hostile_text(rng);
            c.key(&text, true);
            let mut d = codec::open_decoder();
            match d.decode(tungstenite::Message::Text(format!("4{}", text))) {
                Ok(EPacket::Message(m)) => text_ok(&format!("{:?}", m), "the printed form of a message")?,
                Ok(p) => text_ok(&format!("{:?}", p), "the printed form of a message")?,
                Err(e) => text_ok(&format!("{} {:?}", e, e), "an error")?,
            }
            let atts: Vec<Vec<u8>> = (0..8).map(|_| nasty_bytes(rng)).collect();
            match codec::decode(&text, Some(&atts), rng)? {
                codec::Decoded::Packet(p, _) => {
                    packet_ok(c, &p)?;
                    c.count("packets_decoded");
                }
                codec::Decoded::Refused(e) => text_ok(&e, "an error")?,
                codec::Decoded::Waiting(_) => {}
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- shared callbacks

/// One callback registered with two clients (and under several names), which run on threads of their
/// own, while further threads reply, emit and drop.
pub fn c25_races(c: &mut Case, rng: &mut Rng) -> Verdict {
    crate::runner::set_logging(rng.chance(1, 8));
    let inside = Arc::new(AtomicBool::new(false));
    let broken: Arc<Mutex<Option<String>>> = Default::default();
    let runs = Arc::new(AtomicU64::new(0));
    let replies: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let mut seen: Vec<u64> = Vec::new();
    let work = if cfg!(miri) { 0 } else { rng.below(3) };
    let shared: EventCallback = {
        let (inside, broken, runs, replies) = (inside.clone(), broken.clone(), runs.clone(), replies.clone());
        let mut plain = [0u64; 8];
        EventCallback::from(move |args: &Args, ack: Option<AckBuilder>| {
            if inside.swap(true, Ordering::SeqCst) {
                *broken.lock().unwrap() = Some("two threads are in the same callback at once".into());
            }
            // state without a lock of its own
            let k = args.get(1).and_then(|a| a.deserialize::<u64>().ok()).unwrap_or(u64::MAX);
            seen.push(k);
            for x in plain.iter_mut() {
                *x += 1;
            }
            if work > 0 {
                for _ in 0..work * 200 {
                    std::hint::spin_loop();
                }
                if work > 1 {
                    std::thread::yield_now();
                }
            }
            let n = runs.fetch_add(1, Ordering::SeqCst) + 1;
            if plain.iter().any(|x| *x != n) || seen.len() as u64 != n {
                *broken.lock().unwrap() = Some(format!("a callback ran {} times, its state has seen {} and {:?}", n, seen.len(), plain));
            }
            if let Some(a) = ack {
                replies.lock().unwrap().push(a);
            }
            inside.store(false, Ordering::SeqCst);
        })
    };
    let clients = rng.range(2, 3);
    let events = if cfg!(miri) { rng.range(2, 4) } else { rng.range(5, 60) };
    let barrier = Arc::new(Barrier::new(clients + 1));
    let ready = Arc::new(AtomicU64::new(0));
    let mut threads = Vec::new();
    for t in 0..clients {
        let (cb, barrier, seed, ready) = (shared.clone(), barrier.clone(), rng.next(), ready.clone());
        threads.push(std::thread::spawn(move || -> Result<u64, Fail> {
            let mut rng = Rng::new(seed);
            struct Arrive(Option<Arc<Barrier>>);
            impl Drop for Arrive {
                fn drop(&mut self) {
                    if let Some(b) = self.0.take() {
                        b.wait();
                    }
                }
            }
            let mut arrive = Arrive(Some(barrier));
            let mut w = World::new(&mut rng, NetCfg::smooth());
            let mut client = w.connect("ws://localhost/")?;
            client.set_event_callback("e", cb.clone());
            client.set_fallback_callback(cb.clone());
            drop(cb);
            for i in 0..events {
                let id = if rng.chance(1, 2) { Some(i as u64) } else { None };
                let name = if rng.chance(1, 2) { "e" } else { "f" };
                let binary = rng.chance(1, 4);
                let mut args = vec![jsonref::J::S(name.into()), jsonref::J::U((t * 1000 + i) as u64)];
                args.extend(gen_args(&mut rng, binary, 0));
                send(&mut w, Pkt { kind: Kind::Event, binary, ns: "/".into(), id, args });
            }
            arrive.0.take().unwrap().wait();
            ready.fetch_add(1, Ordering::SeqCst);
            w.settle()?;
            let wait = if cfg!(miri) { 0 } else { rng.below(3) };
            for _ in 0..wait * 20 {
                w.settle()?;
                std::thread::yield_now();
            }
            // gone while others still hold replies of it
            drop(client);
            w.settle()?;
            Ok(events as u64)
        }));
    }
    drop(shared);
    barrier.wait();
    let mut answered = 0u64;
    while threads.iter().any(|t| !t.is_finished()) {
        let r = replies.lock().unwrap().pop();
        match r {
            Some(r) => {
                let _ = r.binary(answered % 2 == 0).args().arg(&vec![1u8, 2]).map(|b| b.send());
                answered += 1;
            }
            None if cfg!(miri) => std::thread::sleep(std::time::Duration::from_millis(1)),
            None => std::thread::yield_now(),
        }
        crate::runner::progress();
    }
    let mut sent = 0;
    for t in threads {
        match t.join() {
            Ok(r) => sent += r?,
            Err(_) => return Err(crate::core::panic_fail(&crate::core::take_panics()).unwrap_or_else(|| Fail::v("a client thread panics"))),
        }
    }
    for r in replies.lock().unwrap().drain(..) {
        r.args().send();
    }
    if let Some(b) = broken.lock().unwrap().take() {
        return Err(Fail::v(format!("{}{}", MEMORY, b)));
    }
    let n = runs.load(Ordering::SeqCst);
    if n != sent {
        return Err(Fail::v(format!("{} events for a shared callback that ran {} times", sent, n)));
    }
    c.add("shared_callback_runs", n);
    c.add("replies_from_another_thread", answered);
    c.key(&(clients, events, n, answered), true);
    Ok(())
}
