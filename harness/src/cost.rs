//! The work the library does is proportional to the traffic (C27): processor time and memory of the
//! same operation at growing sizes.

use crate::core::{Case, Fail, Verdict};
use crate::memory;
use crate::net::NetCfg;
use crate::rng::Rng;
use crate::sim::*;
use crate::ws::Msg;
use socket_io_client::protocol::Args;
use socket_io_client::AckBuilder;
use socket_io_protocol::engine::{self, Message as EMsg, Packet as EPacket};
use socket_io_protocol::socket::{self, Data, DeserializeResult, Packet, PacketBuilder};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use tungstenite::Message as WsMessage;

// ---------------------------------------------------------------- metering

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    /// processor time of this thread, in ns
    ns: u64,
    /// bytes allocated
    alloc: u64,
}

fn cpu() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
}

/// Accumulates what happens inside `on`.
#[derive(Default)]
pub struct Meter(Cost);

impl Meter {
    pub fn on<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let a = memory::allocated();
        let t = cpu();
        let r = f();
        self.0.ns += cpu() - t;
        self.0.alloc += memory::allocated() - a;
        r
    }
}

/// Run everything that is ready, metering the polls of the client's tasks.
fn run(w: &mut World, m: &mut Meter) -> Result<(), Fail> {
    crate::runner::progress();
    let exec = w.exec.clone();
    loop {
        let mut any = false;
        while w.exec.has_ready() {
            any = true;
            let mut rng = w.rng.fork();
            m.on(|| exec.poll_one(&mut rng));
        }
        if w.net.can_deliver() {
            any = true;
            w.net.deliver(1 << 16);
        }
        if w.net.server_pending() > 0 {
            any = true;
            let tick = w.tick.clone();
            let mut rng = w.rng.fork();
            w.srv.read(&tick, &mut rng)?;
        }
        if !any && !w.send_next() {
            return Ok(());
        }
    }
}

// ---------------------------------------------------------------- operations

type Op = fn(usize, &mut Rng, &mut Meter) -> Verdict;

fn text(s: String) -> EMsg {
    EMsg::Text(s.into())
}

fn decoded(head: &str, s: String, atts: Vec<Vec<u8>>, m: &mut Meter) -> Result<Packet, Fail> {
    let r = m.on(|| {
        let p = match socket::deserialize(text(format!("{}{}", head, s)))? {
            DeserializeResult::Packet(p) => p,
            DeserializeResult::DataNeeded(p) => socket::deserialize_partial(p, atts.into_iter().map(|a| EMsg::Binary(a.into())).collect::<Vec<_>>())?,
        };
        Ok::<_, socket::Error>(p)
    });
    r.map_err(|e| Fail::v(format!("a well-formed packet was refused: {:.200}", e.to_string())))
}

/// Read the arguments in every way.
fn read(p: &Packet, m: &mut Meter) {
    m.on(|| {
        let args = match p.data() {
            Data::Event { args, .. } | Data::Ack { args, .. } => args,
            _ => return,
        };
        let mut n = 0;
        for i in 0..args.len() {
            n += args.get(i).map_or(0, |a| a.to_json_value().is_ok() as usize);
        }
        n += args.iter().count();
        n += args.iter().filter(|a| a.deserialize::<serde_json::Value>().is_ok()).count();
        n += args.iter().filter(|a| a.deserialize::<Vec<serde::de::IgnoredAny>>().is_ok()).count();
        n += p.to_string().len();
        std::hint::black_box(n);
    })
}

fn repeat(item: &str, n: usize) -> String {
    vec![item; n].join(",")
}

const ITEMS: &[&str] = &["1", "\"a\"", "\"\\u00e4\\n\"", "\"ä\"", "[]", "[1,2]", "{\"a\":[]}", "null", "1.5e3", " [ ] ", "\"[,]\""];

fn op_many_args(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let item = *rng.pick(ITEMS);
    let head = *rng.pick(&["2", "2/n,5", "37", "50-", "60-/n,1"]);
    let p = decoded(head, format!("[\"e\",{}]", repeat(item, n)), vec![], m)?;
    read(&p, m);
    Ok(())
}

fn op_wide_arg(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let body = match rng.below(4) {
        0 => format!("[{}]", repeat(rng.pick(ITEMS), n)),
        1 => {
            let mut s = String::from("{");
            for i in 0..n {
                s.push_str(&format!("{}\"k{}\":{}", if i > 0 { "," } else { "" }, i, i));
            }
            s.push('}');
            s
        }
        2 => {
            let c = *rng.pick(&["a", "ä", "\\n", "\\u20ac", "[", ","]);
            format!("\"{}\"", c.repeat(n))
        }
        _ => format!("[{}[]{}]", " ".repeat(n), " ".repeat(n)),
    };
    let binary = rng.chance(1, 2);
    let p = if binary {
        decoded("51-", format!("[\"e\",{{\"_placeholder\":true,\"num\":0}},{}]", body), vec![vec![1, 2, 3]], m)?
    } else {
        decoded("2", format!("[\"e\",{}]", body), vec![], m)?
    };
    read(&p, m);
    m.on(|| {
        if let Data::Event { args, .. } = p.data() {
            let a = args.get(args.len() - 1).unwrap();
            std::hint::black_box((a.deserialize::<HashMap<String, u32>>().is_ok(), a.deserialize::<String>().is_ok(), a.deserialize::<std::borrow::Cow<str>>().is_ok()));
        }
    });
    Ok(())
}

fn op_long_header(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let c = *rng.pick(&["a", "ä", "[", "/", "1", "-", "\n", "{\"", "]"]);
    let name = rng.chance(1, 2);
    let p = if name {
        decoded("2", format!("[\"{}\"]", "ä".repeat(n)), vec![], m)?
    } else {
        decoded("2", format!("/{},[\"e\"]", c.repeat(n)), vec![], m)?
    };
    m.on(|| std::hint::black_box((p.namespace().len(), p.to_string())));
    Ok(())
}

fn op_attachments(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let ph: Vec<String> = (0..n).map(|i| format!("{{\"_placeholder\":true,\"num\":{}}}", i)).collect();
    let size = rng.below(4);
    let atts = vec![vec![7; size]; n];
    let s = match rng.below(7) {
        0 => format!("[\"e\",{}]", ph.join(",")),
        // each in an array or object of its own, or side by side with others
        3 => format!("[\"e\",[[{}]]]", ph.join("],[")),
        4 => format!("[\"e\",[{{\"k\":{}}}]]", ph.join("},{\"k\":")),
        5 => format!("[\"e\",[{}],[{}]]", ph.join("],["), repeat("[]", n)),
        6 => format!("[\"e\",{{\"a\":[{}],\"b\":[{}]}}]", ph[..1].join(","), repeat("[{}]", n)),
        1 => format!("[\"e\",[{}]]", ph.join(",")),
        _ => format!("[\"e\",{{\"a\":[{}],\"b\":[{}]}}]", ph.join(","), repeat("{\"x\":1}", n)),
    };
    let p = decoded(&format!("5{}-", n), s, atts, m)?;
    read(&p, m);
    Ok(())
}

fn op_big_attachment(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let data = rng.bytes(n);
    let p = decoded("61-3", "[{\"_placeholder\":true,\"num\":0}]".to_string(), vec![data], m)?;
    read(&p, m);
    m.on(|| {
        if let Data::Ack { args, .. } = p.data() {
            let a = args.get(0).unwrap();
            std::hint::black_box((a.deserialize::<&[u8]>().is_ok(), a.deserialize::<Vec<u8>>().is_ok(), a.deserialize::<Vec<Option<u16>>>().is_ok()));
        }
    });
    Ok(())
}

fn op_refused(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let s = match rng.below(12) {
        0 => format!("2{}", "[".repeat(n)),
        1 => format!("2{}", "1".repeat(n)),
        2 => format!("2[{}", "1,".repeat(n)),
        3 => format!("2/{}", "a".repeat(n)),
        4 => format!("2/{},", "ä".repeat(n)),
        5 => format!("2[{}]x", repeat("[]", n)),
        6 => format!("5{}-[]", "9".repeat(n)),
        7 => format!("2/{}[]", "a,".repeat(n)),
        8 => format!("2[\"{}]", "\\\"".repeat(n)),
        9 => format!("{}", "2".repeat(n)),
        10 => format!("2[{}{}", "1,".repeat(n), "]".repeat(n)),
        _ => format!("0[{}]", repeat("1", n)),
    };
    let r = m.on(|| socket::deserialize(text(s)).map(|_| ()).map_err(|e| e.to_string()));
    if r.is_ok() {
        return Err(Fail::v("a malformed packet was accepted"));
    }
    Ok(())
}

fn op_engine(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let many = rng.chance(1, 2);
    m.on(|| {
        let mut d = engine::Decoder::new();
        let _ = d.decode(WsMessage::Text(crate::codec::OPEN.into()));
        if many {
            for i in 0..n {
                let msg = match i % 5 {
                    0 => engine::encode_message("2[\"a\"]"),
                    1 => engine::encode_binary(b"abc"),
                    2 => engine::encode_ping(),
                    3 => engine::encode_pong(),
                    _ => WsMessage::Text("9".into()),
                };
                std::hint::black_box(d.decode(msg).is_ok());
            }
        } else {
            for msg in [engine::encode_message(&"x".repeat(n)), engine::encode_binary(&vec![5; n]), engine::package_message(format!("4{}", "x".repeat(n)))] {
                if let Ok(EPacket::Message(x)) = d.decode(msg) {
                    std::hint::black_box(match x {
                        EMsg::Text(t) => t.subslice(1..n).len(),
                        EMsg::Binary(b) => b.subslice(1..n).len(),
                    });
                }
            }
        }
    });
    Ok(())
}

fn finish(b: PacketBuilder, want: usize, m: &mut Meter) -> Verdict {
    let msgs = m.on(|| b.finish());
    if msgs.len() != want {
        return Err(Fail::v(format!("{} messages instead of {}", msgs.len(), want)));
    }
    Ok(())
}

fn op_encode_args(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let binary = rng.chance(1, 2);
    let mut b = if rng.chance(1, 2) { PacketBuilder::new_event("e", "/n", Some(3), binary) } else { PacketBuilder::new_ack("/", 3, binary) };
    let fail_every = *rng.pick(&[0, 0, 2, 7]);
    let kind = rng.below(3);
    let mut bytes = 0;
    m.on(|| {
        for i in 0..n {
            let r = match kind {
                0 => b.serialize_arg(&i),
                1 => b.serialize_arg("text ä"),
                _ => {
                    bytes += binary as usize;
                    b.serialize_arg(&[1u8, 2, 3][..])
                }
            };
            assert!(r.is_ok(), "{}an argument was refused", crate::core::OBSERVED);
            if fail_every > 0 && i % fail_every == 0 {
                let _ = b.serialize_arg(&(vec![1u8, 2], crate::session::Poison));
            }
        }
    });
    finish(b, 1 + bytes, m)
}

fn op_encode_wide(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let binary = rng.chance(2, 3);
    let mut b = PacketBuilder::new_event("e", "/", None, binary);
    let want = match rng.below(8) {
        0 => {
            m.on(|| b.serialize_arg(&vec![9u8; n])).map_err(|e| Fail::v(e.to_string()))?;
            binary as usize
        }
        1 => {
            m.on(|| b.serialize_arg(&vec!["s"; n])).map_err(|e| Fail::v(e.to_string()))?;
            0
        }
        2 => {
            m.on(|| b.serialize_arg(&vec![vec![1u8, 2]; n])).map_err(|e| Fail::v(e.to_string()))?;
            if binary { n } else { 0 }
        }
        3 => {
            let x: BTreeMap<usize, Vec<u8>> = (0..n).map(|i| (i, vec![1u8])).collect();
            m.on(|| b.serialize_arg(&x)).map_err(|e| Fail::v(e.to_string()))?;
            if binary { n } else { 0 }
        }
        4 => {
            // bytes, and then something that is none
            let mut x: Vec<serde_json::Value> = Vec::new();
            x.resize(n, serde_json::Value::from(7));
            m.on(|| b.serialize_arg(&x)).map_err(|e| Fail::v(e.to_string()))?;
            0
        }
        5 => {
            let x = Mixed(n);
            m.on(|| b.serialize_arg(&x)).map_err(|e| Fail::v(e.to_string()))?;
            0
        }
        6 => {
            m.on(|| b.serialize_arg(&"ä\"\n".repeat(n))).map_err(|e| Fail::v(e.to_string()))?;
            0
        }
        _ => {
            // failures after a lot of output
            let x = (vec![vec![1u8, 2]; n], "ä".repeat(n), crate::session::Poison);
            m.on(|| b.serialize_arg(&x).is_err());
            0
        }
    };
    finish(b, 1 + want, m)
}

/// `n` bytes and a string, as a sequence of unknown length.
struct Mixed(usize);

impl serde::Serialize for Mixed {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(None)?;
        for i in 0..self.0 {
            q.serialize_element(&(i as u8))?;
        }
        q.serialize_element("end")?;
        for i in 0..self.0 {
            q.serialize_element(&(i as u8))?;
        }
        q.end()
    }
}

fn op_encode_header(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let binary = rng.chance(1, 2);
    let ns = format!("/{}", "ä[".repeat(n));
    let name = "\"e\n".repeat(n);
    let b = m.on(|| PacketBuilder::new_event(&name, ns, Some(u64::MAX), binary));
    finish(b, 1, m)
}

// ---- sessions

fn begin(rng: &mut Rng, m: &mut Meter) -> Result<(World, socket_io_client::Client), Fail> {
    let _ = m;
    let mut w = World::new(rng, NetCfg { read_chunk: 1 << 20, write_chunk: 1 << 20, write_cap: 1 << 30, spurious: 0, deliver: 1 << 20 });
    let c = w.connect("ws://localhost/")?;
    Ok((w, c))
}

/// Have the server send messages: all at once, or each when the client has dealt with the one before.
fn serve(w: &mut World, msgs: Vec<Msg>, at_once: bool) {
    if at_once {
        for x in msgs {
            let mut rng = w.rng.fork();
            w.srv.send(&x, &mut rng);
        }
    } else {
        w.outq.extend(msgs.into_iter().map(|x| (x, 0)));
    }
}

fn counter(n: &Arc<AtomicU64>) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
    let n = n.clone();
    move |_: &Args, _: Option<AckBuilder>| {
        n.fetch_add(1, Ordering::Relaxed);
    }
}

fn counted(n: &Arc<AtomicU64>, want: usize, what: &str) -> Verdict {
    let got = n.load(Ordering::SeqCst);
    if got != want as u64 {
        return Err(Fail::v(format!("{} {} instead of {}", got, what, want)));
    }
    Ok(())
}

fn ev(s: String) -> Msg {
    Msg::Text(format!("42{}", s))
}

/// Many registrations, of events or of namespaces, then an event for each.
fn op_registered(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let runs = Arc::new(AtomicU64::new(0));
    let by_ns = rng.chance(1, 2);
    let hit_fallback = rng.chance(1, 3);
    let clear = rng.chance(1, 2);
    let names: Vec<String> = (0..n).map(|i| format!("name {}", i)).collect();
    let spaces: Vec<String> = (0..n).map(|i| format!("/ns{}", i)).collect();
    m.on(|| {
        for i in 0..n {
            if by_ns {
                c.set_namespace_event_callback(&spaces[i], "e", counter(&runs));
                if i % 8 == 0 {
                    c.set_namespace_fallback_callback(&spaces[i], counter(&runs));
                }
            } else {
                c.set_event_callback(&names[i], counter(&runs));
            }
        }
        c.set_fallback_callback(counter(&runs));
    });
    let msgs = (0..n)
        .map(|i| {
            if by_ns {
                ev(format!("{},[\"e\"]", spaces[i]))
            } else if hit_fallback {
                ev(format!("[\"other {}\"]", i))
            } else {
                ev(format!("[\"name {}\",{}]", i, i))
            }
        })
        .collect();
    serve(&mut w, msgs, rng.chance(1, 2));
    run(&mut w, m)?;
    counted(&runs, n, "deliveries")?;
    if clear {
        m.on(|| {
            for i in (0..n).rev() {
                if by_ns {
                    c.clear_namespace_event_callback(&spaces[i], "e");
                    c.clear_namespace_fallback_callback(&spaces[i]);
                } else {
                    c.clear_event_callback(&names[i]);
                }
            }
        });
    }
    m.on(move || drop(c));
    Ok(())
}

/// One registration replaced or cleared and set again, over and over.
fn op_replaced(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let runs = Arc::new(AtomicU64::new(0));
    let clear = rng.chance(1, 2);
    let fallback = rng.chance(1, 2);
    m.on(|| {
        for _ in 0..n {
            if clear {
                c.clear_event_callback("e");
                c.clear_fallback_callback();
            }
            if fallback {
                c.set_fallback_callback(counter(&runs));
            } else {
                c.set_event_callback("e", counter(&runs));
            }
        }
    });
    serve(&mut w, vec![ev("[\"e\"]".into())], true);
    run(&mut w, m)?;
    counted(&runs, 1, "deliveries")?;
    m.on(move || drop(c));
    Ok(())
}

/// Many events, one after the other, the same or different ones.
fn op_events(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let runs = Arc::new(AtomicU64::new(0));
    let kind = rng.below(5);
    let mut want = n;
    match kind {
        0 | 3 => c.set_event_callback("e", counter(&runs)),
        1 => c.set_fallback_callback(counter(&runs)),
        2 => want = 0,
        _ => c.set_event_callback("e", counter(&runs)),
    }
    let mut msgs = Vec::new();
    for i in 0..n {
        match kind {
            0 => msgs.push(ev(format!("[\"e\",{}]", i))),
            1 => msgs.push(ev(format!("{}[\"e{}\",{}]", i, i, i))),
            2 => msgs.push(ev(format!("/n{},[\"e\"]", i))),
            3 => msgs.push(ev(format!("{}[\"e\"]", i))),
            _ => {
                msgs.push(Msg::Text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]".into()));
                msgs.push(Msg::Binary(vec![4, 1, 2]));
            }
        }
        if i % 16 == 0 {
            msgs.push(Msg::Text("2".into()));
        }
    }
    serve(&mut w, msgs, rng.chance(1, 2));
    run(&mut w, m)?;
    counted(&runs, want, "deliveries")?;
    m.on(move || drop(c));
    Ok(())
}

/// A binary packet of many attachments, heartbeats in between.
fn op_assembled(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let runs = Arc::new(AtomicU64::new(0));
    c.set_event_callback("e", counter(&runs));
    let ping = rng.chance(1, 2);
    let mut msgs = vec![Msg::Text(format!("45{}-[\"e\"]", n))];
    for i in 0..n {
        msgs.push(Msg::Binary(vec![4, i as u8]));
        if ping && i % 4 == 0 {
            msgs.push(Msg::Text("2".into()));
        }
    }
    serve(&mut w, msgs, rng.chance(1, 2));
    run(&mut w, m)?;
    counted(&runs, 1, "deliveries")?;
    m.on(move || drop(c));
    Ok(())
}

/// Many heartbeats, answered at once or while nothing can be written.
fn op_heartbeats(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, c) = begin(rng, m)?;
    serve(&mut w, vec![Msg::Text("2".into()); n], rng.chance(1, 2));
    run(&mut w, m)?;
    let pongs = w.srv.inbox.iter().filter(|(_, x)| *x == Msg::Text("3".into())).count();
    if pongs != n {
        return Err(Fail::v(format!("{} pongs instead of {}", pongs, n)));
    }
    m.on(move || drop(c));
    Ok(())
}

/// Many emissions that wait to be sent, then closed or not.
fn op_emitted(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let binary = rng.chance(1, 2);
    let raw = rng.chance(1, 4);
    let batch = rng.chance(1, 3);
    let one_by_one = rng.chance(1, 3);
    let close = rng.chance(1, 2);
    let mut messages = match (batch, raw) {
        (true, true) => n,
        (true, false) => n + 1,
        (false, true) => n,
        (false, false) => n * if binary { 2 } else { 1 },
    };
    if batch && raw {
        let batch = vec![WsMessage::Text("42[\"e\"]".into()); n];
        m.on(|| c.send.unbounded_send(batch).is_ok());
    } else if batch {
        m.on(|| {
            let mut b = c.emit("e").binary(true).args();
            for i in 0..n {
                b.arg_ref(&[i as u8, 2][..]).expect("an argument");
            }
            b.send();
        });
    } else {
        for _ in 0..n {
            m.on(|| {
                if raw {
                    let _ = c.send.unbounded_send(vec![WsMessage::Text("42[\"e\"]".into())]);
                } else {
                    c.emit("e").binary(binary).args().arg(&[1u8, 2][..]).expect("an argument").send();
                }
            });
            if one_by_one {
                run(&mut w, m)?;
            }
        }
    }
    if close {
        messages += 1;
        let mut f = Box::pin(c.close());
        let waker = futures::task::noop_waker();
        let mut cx = std::task::Context::from_waker(&waker);
        for _ in 0..4 {
            if m.on(|| std::future::Future::poll(f.as_mut(), &mut cx)).is_ready() {
                break;
            }
            run(&mut w, m)?;
        }
        drop(f);
    } else {
        run(&mut w, m)?;
    }
    if w.srv.inbox.len() != messages {
        return Err(Fail::v(format!("{} messages instead of {}", w.srv.inbox.len(), messages)));
    }
    m.on(move || drop(c));
    Ok(())
}

/// Many events that wait for their acknowledgements, which come in some order.
fn op_acked(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let runs = Arc::new(AtomicU64::new(0));
    let order = rng.below(4);
    let ns = *rng.pick(&["/", "/n", ""]);
    let binary = rng.chance(1, 3);
    m.on(|| {
        for i in 0..n {
            let runs = runs.clone();
            let own = format!("/ns{}", i);
            let b = c.namespace_emit(if ns.is_empty() { &own } else { ns }, "e").binary(binary).callback(move |_: &Args| {
                runs.fetch_add(1, Ordering::Relaxed);
            });
            b.args().send();
        }
    });
    run(&mut w, m)?;
    let mut ids = outstanding(&mut w);
    match order {
        0 => {}
        1 => ids.reverse(),
        2 => {
            for i in (1..ids.len()).rev() {
                ids.swap(i, rng.below(i + 1));
            }
        }
        _ => ids.truncate(ids.len() / 2),
    }
    let want = ids.len();
    let msgs = ids.iter().map(|(h, i)| Msg::Text(format!("43{}{}[]", h, i))).collect();
    serve(&mut w, msgs, rng.chance(1, 2));
    run(&mut w, m)?;
    counted(&runs, want, "acknowledgements")?;
    m.on(move || drop(c));
    Ok(())
}

/// Many events to answer, the replies kept and sent in some order.
fn op_replies(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let held: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let h = held.clone();
    c.set_event_callback("e", move |_: &Args, a: Option<AckBuilder>| h.lock().unwrap().extend(a));
    let msgs = (0..n).map(|i| ev(format!("{}[\"e\"]", i))).collect();
    serve(&mut w, msgs, rng.chance(1, 2));
    run(&mut w, m)?;
    let mut replies = std::mem::take(&mut *held.lock().unwrap());
    if rng.chance(1, 2) {
        replies.reverse();
    }
    if replies.len() != n {
        return Err(Fail::v(format!("{} reply handles instead of {}", replies.len(), n)));
    }
    let binary = rng.chance(1, 2);
    m.on(|| {
        for r in replies {
            r.binary(binary).args().arg("x").expect("an argument").send();
        }
    });
    run(&mut w, m)?;
    if w.srv.inbox.len() != n {
        return Err(Fail::v(format!("{} replies instead of {}", w.srv.inbox.len(), n)));
    }
    m.on(move || drop(c));
    Ok(())
}

/// One thing done over and over beside many others that are registered, outstanding, held or past.
fn op_beside(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let runs = Arc::new(AtomicU64::new(0));
    let other = Arc::new(AtomicU64::new(0));
    let held: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    // near where a hash table grows, and elsewhere
    let many = match rng.below(8) {
        0 => n,
        1 => n / 8 * 7 + 1,
        2 => n / 8 * 7 - 1,
        _ => n / 8 * 7,
    };
    let rest = &mut Meter::default();
    let beside = rng.below(8);
    // (which, how): two independent choices, so that every pair is reachable
    let what = rng.below(9);
    let one_by_one = rng.chance(1, 2);
    c.set_namespace_event_callback("/a", "e", counter(&other));
    match beside {
        0 => {
            for i in 0..many {
                c.set_event_callback(&format!("name {}", i), counter(&other));
            }
        }
        1 => {
            for i in 0..many {
                c.set_namespace_event_callback(&format!("/ns{}", i), "e", counter(&other));
            }
        }
        2 | 3 | 4 => {
            for i in 0..many {
                let ns = if beside == 3 { format!("/ns{}", i) } else { "/".to_string() };
                c.namespace_emit(&ns, "b").callback(|_: &Args| {}).args().send();
            }
            run(&mut w, rest)?;
            let ids = outstanding(&mut w);
            if beside == 4 {
                // all but one of them answered
                serve(&mut w, ids.iter().skip(1).map(|(h, i)| Msg::Text(format!("43{}{}[]", h, i))).collect(), true);
            }
        }
        5 => {
            let h = held.clone();
            c.set_event_callback("h", move |_: &Args, a: Option<AckBuilder>| h.lock().unwrap().extend(a));
            serve(&mut w, (0..many).map(|i| ev(format!("{}[\"h\"]", i))).collect(), true);
        }
        6 => {
            c.set_fallback_callback(counter(&other));
            serve(&mut w, (0..many).map(|i| ev(format!("{}[\"past {}\"]", i, i))).collect(), true);
            run(&mut w, rest)?;
            c.clear_fallback_callback();
        }
        _ => {
            for i in 0..many {
                c.set_event_callback(&format!("name {}", i), counter(&other));
            }
            for i in 1..many {
                c.clear_event_callback(&format!("name {}", i));
            }
        }
    }
    run(&mut w, rest)?;
    w.srv.inbox.clear();
    let ns = *rng.pick(&["", "", "/a,"]);
    let space = if ns.is_empty() { "/" } else { "/a" };
    let mut want = n;
    let mut msgs: Vec<Msg> = Vec::new();
    match what {
        0 | 1 => {
            if what == 0 {
                c.set_namespace_event_callback(space, "e", counter(&runs));
            } else {
                c.clear_namespace_event_callback(space, "e");
                c.set_namespace_fallback_callback(space, counter(&runs));
            }
            msgs.extend((0..n).map(|i| ev(format!("{}[\"e\",{}]", ns, i))));
        }
        2 => {
            for _ in 0..n {
                let r = runs.clone();
                m.on(|| {
                    c.namespace_emit(space, "e")
                        .callback(move |_: &Args| {
                            r.fetch_add(1, Ordering::Relaxed);
                        })
                        .args()
                        .send()
                });
                run(&mut w, m)?;
                for (h, i) in outstanding(&mut w) {
                    serve(&mut w, vec![Msg::Text(format!("43{}{}[]", h, i))], true);
                }
                run(&mut w, m)?;
            }
        }
        3 => {
            want = 0;
            msgs.extend((0..n).map(|_| Msg::Text("2".into())));
        }
        4 => {
            m.on(|| {
                for _ in 0..n {
                    c.set_namespace_event_callback(space, "e", counter(&other));
                    c.clear_namespace_event_callback(space, "e");
                    c.set_namespace_fallback_callback(space, counter(&other));
                    c.clear_namespace_fallback_callback(space);
                    c.clear_namespace_event_callback("/none", "e");
                }
            });
            want = 0;
        }
        5 => {
            let r = runs.clone();
            c.set_namespace_event_callback(space, "e", move |_: &Args, a: Option<AckBuilder>| {
                r.fetch_add(1, Ordering::Relaxed);
                if let Some(a) = a {
                    a.args().send();
                }
            });
            msgs.extend((0..n).map(|i| ev(format!("{}{}[\"e\"]", ns, i))));
        }
        6 => {
            for _ in 0..n {
                m.on(|| c.namespace_emit(space, "e").args().send());
                if one_by_one {
                    run(&mut w, m)?;
                }
            }
            want = 0;
        }
        7 => {
            want = 0;
            msgs.extend((0..n).map(|i| Msg::Text(format!("4{}{}", i % 2, ns))));
        }
        _ => {
            c.set_namespace_event_callback(space, "e", counter(&runs));
            for _ in 0..n {
                msgs.push(Msg::Text(format!("452-{}[\"e\",{{\"_placeholder\":true,\"num\":0}}]", ns)));
                msgs.push(Msg::Binary(vec![4, 1]));
                msgs.push(Msg::Binary(vec![4]));
            }
        }
    }
    serve(&mut w, msgs, !one_by_one);
    run(&mut w, m)?;
    counted(&runs, want, "callback runs")?;
    let sent = match what {
        3 | 5 | 6 => n,
        _ => 0,
    };
    if w.srv.inbox.len() != sent {
        return Err(Fail::v(format!("{} messages from the client instead of {}", w.srv.inbox.len(), sent)));
    }
    Ok(())
}

/// The acknowledgements asked for by what the server has received: namespace and id.
fn outstanding(w: &mut World) -> Vec<(String, u64)> {
    let mut ids = Vec::new();
    for (_, x) in std::mem::take(&mut w.srv.inbox) {
        if let Msg::Text(t) = x {
            if let crate::proto::Ref::Ok(p) = crate::proto::parse(&t[1..]) {
                let head = if p.ns == "/" { String::new() } else { format!("{},", p.ns) };
                ids.extend(p.id.map(|i| (head, i)));
            }
        }
    }
    ids
}

/// One big event or emission.
fn op_big_message(n: usize, rng: &mut Rng, m: &mut Meter) -> Verdict {
    let (mut w, mut c) = begin(rng, m)?;
    let runs = Arc::new(AtomicU64::new(0));
    c.set_event_callback("e", counter(&runs));
    if rng.chance(1, 2) {
        let msgs = if rng.chance(1, 2) {
            vec![ev(format!("[\"e\",\"{}\"]", "ä".repeat(n)))]
        } else {
            let mut d = vec![4; 1];
            d.resize(n + 1, 9);
            vec![Msg::Text("451-[\"e\",{\"_placeholder\":true,\"num\":0}]".into()), Msg::Binary(d)]
        };
        serve(&mut w, msgs, true);
        run(&mut w, m)?;
        counted(&runs, 1, "deliveries")?;
    } else {
        let data = vec![1u8; n];
        let binary = rng.chance(1, 2);
        m.on(|| c.emit("e").binary(binary).args().arg(&data).expect("an argument").send());
        run(&mut w, m)?;
        if w.srv.inbox.len() != 1 + binary as usize {
            return Err(Fail::v("the emission did not arrive"));
        }
    }
    m.on(move || drop(c));
    Ok(())
}

/// (name, operation, largest size, in sessions)
const CODEC: &[(&str, Op, usize)] = &[
    ("many arguments", op_many_args, 1 << 18),
    ("one big argument", op_wide_arg, 1 << 20),
    ("long header", op_long_header, 1 << 20),
    ("many attachments", op_attachments, 1 << 16),
    ("big attachment", op_big_attachment, 1 << 20),
    ("malformed text", op_refused, 1 << 20),
    ("engine messages", op_engine, 1 << 18),
    ("encode arguments", op_encode_args, 1 << 18),
    ("encode one argument", op_encode_wide, 1 << 18),
    ("encode header", op_encode_header, 1 << 18),
];

const SESSIONS: &[(&str, Op, usize)] = &[
    ("registrations", op_registered, 1 << 16),
    ("replaced registrations", op_replaced, 1 << 18),
    ("events", op_events, 1 << 16),
    ("assembled attachments", op_assembled, 1 << 16),
    ("heartbeats", op_heartbeats, 1 << 16),
    ("emissions", op_emitted, 1 << 16),
    ("acknowledgements", op_acked, 1 << 16),
    ("replies", op_replies, 1 << 16),
    ("big message", op_big_message, 1 << 20),
];

/// How much more than in proportion counts as too much.
const SLACK: u64 = 16;
const SLACK_BYTES: u64 = 4;
const SMALL: usize = 256;

fn measure(op: Op, n: usize, seed: u64) -> Result<Cost, Fail> {
    let mut m = Meter::default();
    crate::runner::progress();
    op(n, &mut Rng::new(seed), &mut m)?;
    crate::runner::progress();
    Ok(m.0)
}

fn grows(c: &mut Case, rng: &mut Rng, ops: &[(&str, Op, usize)]) -> Verdict {
    let (name, op, max) = *rng.pick(ops);
    let seed = rng.next();
    let logging = rng.chance(1, 4);
    crate::runner::set_logging(logging);
    let floor = |x: Cost| Cost { ns: x.ns.max(30_000), alloc: x.alloc.max(16_384) };
    let mut at: Vec<(usize, Cost)> = Vec::new();
    let mut n = SMALL;
    // the WebSocket library takes no more than 16 MiB at once
    let hard = if name == "big message" { 4 * max } else { 16 * max };
    measure(op, n, seed)?;
    loop {
        let x = measure(op, n, seed)?;
        at.push((n, floor(x)));
        // what looks out of proportion is followed further, where the difference cannot be noise
        let worst = at.iter().filter(|(n0, _)| n / n0 >= 16).map(|(n0, x0)| {
            let f = (n / n0) as u64;
            (x.ns / (f * x0.ns)).max(3 * (x.alloc / (2 * f * x0.alloc)))
        }).max().unwrap_or(0);
        let (enough, patience) = match worst {
            0..=2 => (max, 2_000_000_000),
            3..=7 => (hard, 8_000_000_000),
            8..=63 => (hard, 15_000_000_000),
            // plenty
            _ => break,
        };
        let before = if at.len() > 1 { at[at.len() - 2].1 } else { x };
        let next = |now: u64, before: u64| now.saturating_mul((now / before.max(1)).max(4));
        if n * 4 > enough || next(x.ns, before.ns) > patience || next(x.alloc, before.alloc) > 16 << 30 {
            break;
        }
        if worst > 2 {
            c.count("followed_further");
        }
        n *= 4;
    }
    let show = |at: &[(usize, Cost)]| at.iter().map(|(n, x)| format!("{}: {} us, {} bytes", n, x.ns / 1000, x.alloc)).collect::<Vec<_>>().join("; ");
    c.trace(|| format!("{} (logging: {}): {}", name, logging, show(&at)));
    let (n1, x1) = *at.last().unwrap();
    for i in 0..at.len() {
        let (n0, mut x0) = at[i];
        let f = (n1 / n0) as u64;
        if f < 16 {
            break;
        }
        // and not only once, as when a dependency changes its strategy at some size: still at the end
        let (n2, x2) = at[at.len() - 3];
        let still = |x1: Cost, x2: Cost| x1.ns > 3 * (n1 / n2) as u64 * x2.ns;
        if (x1.ns <= SLACK * f * x0.ns || !still(x1, x2)) && x1.alloc <= SLACK_BYTES * f * x0.alloc {
            c.max("max_excess_time_percent", 100 * x1.ns / (f * x0.ns));
            c.max("max_excess_memory_percent", 100 * x1.alloc / (f * x0.alloc));
            continue;
        }
        // once more, in favour of the library
        let (mut x1, mut x2) = (x1, x2);
        for _ in 0..4 {
            let y = floor(measure(op, n0, seed)?);
            x0 = Cost { ns: x0.ns.max(y.ns), alloc: x0.alloc.max(y.alloc) };
        }
        for _ in 0..2 {
            let y = measure(op, n2, seed)?;
            x2.ns = x2.ns.max(y.ns);
            let y = measure(op, n1, seed)?;
            x1 = Cost { ns: x1.ns.min(y.ns), alloc: x1.alloc.min(y.alloc) };
        }
        if (x1.ns > SLACK * f * x0.ns && still(x1, x2)) || x1.alloc > SLACK_BYTES * f * x0.alloc {
            return Err(Fail::v(format!(
                "the work is not proportional to the traffic: {}, size {} takes {} us and {} bytes, size {} takes {} us and {} bytes",
                name, n0, x0.ns / 1000, x0.alloc, n1, x1.ns / 1000, x1.alloc
            )));
        }
    }
    c.count(name);
    c.add("measurements", at.len() as u64);
    c.max("max_size", n1 as u64);
    c.max("max_factor", (n1 / SMALL) as u64);
    c.key(&(name, seed), at.len() > 3);
    c.sample(|| format!("{}: {}", name, show(&at)));
    Ok(())
}

pub fn c27_codec(c: &mut Case, rng: &mut Rng) -> Verdict {
    grows(c, rng, CODEC)
}

const BESIDE: &[(&str, Op, usize)] = &[("beside many", op_beside, 1 << 14)];

pub fn c27_beside(c: &mut Case, rng: &mut Rng) -> Verdict {
    grows(c, rng, BESIDE)
}

pub fn c27_sessions(c: &mut Case, rng: &mut Rng) -> Verdict {
    grows(c, rng, SESSIONS)
}
