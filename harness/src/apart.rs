//! Clients and packets do not affect one another (C28): a bystander that behaves deterministically
//! is watched by the monitors of its own properties while everything else happens around it, inside
//! of it and beside it; whatever goes wrong must not go wrong when it is alone.

use crate::core::{self, Case, CaseFn, Fail, Verdict, DELIBERATE};
use crate::net::NetCfg;
use crate::rng::{mix, Rng};
use crate::runner;
use crate::session::{Profile, Session};
use crate::sim::*;
use crate::ws::Msg;
use crate::{codec, connect, faults, hostile, session};
use futures::task::{Spawn, SpawnError};
use serde_json::{json, Value};
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client};
use socket_io_protocol::engine::{self, Message as EMsg};
use socket_io_protocol::socket::{self, Data, DeserializeResult, PacketBuilder};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- whose fault it is

/// how deep in the bystander (or in a host) the thread of the case is
static INSIDE: AtomicU64 = AtomicU64::new(0);
/// the bystander of the case, for the watchdog
static WHO: Mutex<Option<(&'static str, u64)>> = Mutex::new(None);
static CONFIRMED_ELSEWHERE: AtomicU64 = AtomicU64::new(0);

/// Whether what went wrong does not go wrong when the bystander is alone in a process of its own.
fn only_in_company(kind: &str, seed: u64) -> bool {
    let mut k = match std::process::Command::new(std::env::current_exe().unwrap())
        .args(["alone", kind, &seed.to_string()])
        .stdin(std::process::Stdio::null())
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .spawn()
    {
        Ok(k) => k,
        Err(_) => return false,
    };
    let t0 = Instant::now();
    loop {
        runner::progress();
        match k.try_wait() {
            Ok(Some(s)) => return s.code() == Some(0),
            Ok(None) if t0.elapsed() < Duration::from_secs(100) => std::thread::sleep(Duration::from_millis(5)),
            _ => {
                let _ = k.kill();
                let _ = k.wait();
                return false;
            }
        }
    }
}

/// The case hangs: is it the bystander, and only in company?
pub fn to_blame() -> bool {
    if INSIDE.load(Ordering::SeqCst) == 0 {
        return false;
    }
    let who = *WHO.lock().unwrap_or_else(|e| e.into_inner());
    match who {
        Some((kind, seed)) => only_in_company(kind, seed),
        None => false,
    }
}

/// `mon alone`: the bystander and the hosts with nothing around them.
pub fn alone(kind: &str, seed: u64) -> i32 {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    core::install_panic_hook(std::env::var_os("MON_VERBOSE").is_some());
    runner::log_setup();
    let kind = kind.to_string();
    for round in 0..12u64 {
        let kind = kind.clone();
        let r = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                runner::init_select_rng();
                futures_timer::virtual_begin();
                futures_timer::virtual_keep();
                let mut c = Case::new(false);
                let r = if kind == "clients" {
                    bystander(&mut c, seed, &mut |s| s())
                } else {
                    packets_of(&mut c, seed, &mut |s| s())
                };
                r?;
                for (name, place) in PLACES {
                    let mut rng = Rng::new(mix(seed, round));
                    mine(|| place(&mut rng, Box::new(|| {})).map_err(|e| Fail::v(format!("{}: {}", name, e))))?;
                }
                Ok::<(), Fail>(())
            })
            .unwrap()
            .join();
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => {
                println!("{:?}", e);
                return 1;
            }
            Err(_) => return 1,
        }
    }
    0
}

/// A step of the bystander: panics of this thread within it are its own.
fn mine<T>(f: impl FnOnce() -> Result<T, Fail>) -> Result<T, Fail> {
    let before = core::last_panic();
    INSIDE.fetch_add(1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    INSIDE.fetch_sub(1, Ordering::SeqCst);
    let after = core::last_panic();
    drop(before);
    if let Some(p) = &after {
        if let Some(f) = core::panic_fail(std::slice::from_ref(p)) {
            return Err(f);
        }
    }
    match r {
        Ok(r) => r,
        Err(_) => Err(Fail::v("a panic raised on purpose elsewhere comes out here")),
    }
}

/// What is done around a step; it has to do the step exactly once.
type Around<'a> = &'a mut dyn FnMut(&mut dyn FnMut());

/// One step of the bystander, surrounded.
fn step<T>(around: Around, mut f: impl FnMut() -> Result<T, Fail>) -> Result<T, Fail> {
    let mut r = None;
    around(&mut || {
        if r.is_none() {
            r = Some(mine(&mut f));
        }
    });
    match r {
        Some(r) => r,
        // what should have led there did not
        None => mine(f),
    }
}

// ---------------------------------------------------------------- bystanders

const KINDS: &[&str] = &["C11", "C12", "C14", "C15", "C16", "C17", "C18", "none"];

/// A client in a session of its own, judged by every monitor there is.
fn bystander(c: &mut Case, seed: u64, around: Around) -> Verdict {
    let mut rng = Rng::new(seed);
    let mut p = Profile::of(KINDS[rng.below(KINDS.len())]);
    p.steps = (8, 50);
    let steps = rng.range(p.steps.0, p.steps.1);
    let mut s = step(around, || Session::new(&mut rng.clone(), p.clone()))?;
    s.initial_registrations();
    for _ in 0..steps {
        step(around, || s.act())?;
        c.count("steps_of_the_bystander");
    }
    step(around, || s.finish(c))?;
    step(around, || {
        s.drop_client();
        s.check_released("after the client was dropped")
    })?;
    match s.problems.first() {
        Some((_, d)) => Err(Fail::v(d.clone())),
        None => Ok(()),
    }
}

const CODECS: &[(&str, CaseFn)] = &[
    ("decode", codec::c01),
    ("decode near misses", codec::c01_near),
    ("refuse", codec::c02),
    ("refuse attachments", codec::c02_attachments),
    ("encode", codec::c04),
    ("round trip", codec::c05),
    ("typed round trip", codec::c05_typed),
    ("encode failures", codec::c06),
    ("read", codec::c07),
    ("read bytes", codec::c07_bytes),
    ("engine", codec::c08),
    ("framing", codec::c09),
    ("views", codec::c26),
];

/// Packets encoded, decoded and read, judged by the reference models.
fn packets_of(c: &mut Case, seed: u64, around: Around) -> Verdict {
    let mut rng = Rng::new(seed);
    for _ in 0..rng.range(1, 8) {
        let (name, f) = CODECS[rng.below(CODECS.len())];
        let s = rng.next();
        let mut sub = Case::new(false);
        step(around, || f(&mut sub, &mut Rng::new(s))).map_err(|e| e.context(name))?;
        c.count("packet_cases_of_the_bystander");
    }
    Ok(())
}

// ---------------------------------------------------------------- places

/// What the code of a user does while the library calls it.
type Guest = Box<dyn FnOnce() + Send>;
type Place = fn(&mut Rng, Guest) -> Result<(), String>;

const PLACES: &[(&str, Place)] = &[
    ("an event callback", p_callback),
    ("an acknowledgement callback", p_ack),
    ("the connector", p_connector),
    ("the connector's future", p_connecting),
    ("the transport, read from", p_read),
    ("the transport, written to", p_write),
    ("the serialization of an argument of an event", p_serialize_event),
    ("the serialization of an argument of a packet", p_serialize),
    ("the serialization of an argument of a reply", p_serialize_reply),
    ("the deserialization of an argument", p_deserialize),
    ("a formatter", p_format),
    ("an iterator over attachments", p_attachments),
    ("the drop of a callback", p_drop),
    ("the spawner", p_spawn),
    ("a waker", p_wake),
    ("the logger", p_log),
];

fn e2s(f: Fail) -> String {
    match f {
        Fail::Violation(s) | Fail::Inconclusive(s) => s,
    }
}

struct Host {
    w: World,
    client: Client,
}

impl Host {
    fn new(rng: &mut Rng) -> Result<Host, String> {
        let mut w = World::new(rng, NetCfg::smooth());
        let client = w.connect("ws://localhost/").map_err(e2s)?;
        w.settle().map_err(e2s)?;
        w.srv.inbox.clear();
        Ok(Host { w, client })
    }
    fn settle(&mut self) -> Result<(), String> {
        self.w.settle().map_err(e2s)
    }
    fn send(&mut self, t: &str) -> Result<(), String> {
        let mut rng = self.w.rng.fork();
        self.w.srv.send(&Msg::Text(t.into()), &mut rng);
        self.settle()
    }
    fn got(&mut self, want: &[Msg]) -> Result<(), String> {
        self.settle()?;
        let got: Vec<Msg> = std::mem::take(&mut self.w.srv.inbox).into_iter().map(|x| x.1).collect();
        if got != want {
            return Err(format!("the server received {:.300} instead of {:.300}", format!("{:?}", got), format!("{:?}", want)));
        }
        Ok(())
    }
    /// Everything still works.
    fn end(mut self) -> Result<(), String> {
        self.settle()?;
        self.w.srv.inbox.clear();
        let n = Arc::new(AtomicU64::new(0));
        let n2 = n.clone();
        self.client.set_event_callback("end", move |a: &Args, _: Option<AckBuilder>| {
            n2.fetch_add(if a.len() == 2 { 1 } else { 100 }, Ordering::SeqCst);
        });
        self.client.emit("z").args().arg(&1).map_err(|e| e.to_string())?.send();
        self.send("42[\"end\",null]")?;
        self.got(&[Msg::Text("42[\"z\",1]".into())])?;
        if n.load(Ordering::SeqCst) != 1 {
            return Err(format!("an event afterwards is delivered {} times", n.load(Ordering::SeqCst)));
        }
        let Host { mut w, client } = self;
        drop(client);
        w.settle().map_err(e2s)?;
        if !w.released() || w.exec.tasks() != 0 {
            return Err("dropping the client does not release everything".into());
        }
        Ok(())
    }
}

fn once(g: Guest) -> impl FnMut() + Send + 'static {
    let mut g = Some(g);
    move || {
        if let Some(g) = g.take() {
            g()
        }
    }
}

fn values(a: &Args) -> Vec<Value> {
    a.iter().map(|a| a.to_json_value().unwrap_or(Value::Null)).collect()
}

fn p_callback(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let mut g = once(g);
    let seen: Arc<Mutex<Vec<(Vec<Value>, Vec<Value>)>>> = Default::default();
    let s2 = seen.clone();
    let cb = move |a: &Args, ack: Option<AckBuilder>| {
        let before = values(a);
        g();
        s2.lock().unwrap().push((before, values(a)));
        if let Some(b) = ack {
            let _ = b.args().arg(&[5, 6]).map(|b| b.send());
        }
    };
    let name = if rng.chance(1, 2) {
        h.client.set_event_callback("e", cb);
        "e"
    } else {
        h.client.set_fallback_callback(cb);
        "f"
    };
    h.send(&format!("421[\"{}\",\"x\",{{\"a\":[2]}}]", name))?;
    h.got(&[Msg::Text("431[[5,6]]".into())])?;
    let want = vec![json!(name), json!("x"), json!({"a": [2]})];
    let seen = seen.lock().unwrap();
    if seen.len() != 1 || seen[0].0 != want || seen[0].1 != want {
        return Err(format!("a callback saw {:?}", seen));
    }
    drop(seen);
    h.end()
}

fn p_ack(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let mut g = once(g);
    let seen: Arc<Mutex<Vec<Vec<Value>>>> = Default::default();
    let s2 = seen.clone();
    h.client
        .emit("q")
        .callback(move |a: &Args| {
            g();
            s2.lock().unwrap().push(values(a));
        })
        .args()
        .send();
    h.settle()?;
    let id: String = match h.w.srv.inbox.last() {
        Some((_, Msg::Text(t))) => t[2..].chars().take_while(|c| c.is_ascii_digit()).collect(),
        x => return Err(format!("the server received {:?}", x)),
    };
    h.send(&format!("43{}[1,\"ä\"]", id))?;
    if *seen.lock().unwrap() != vec![vec![json!(1), json!("ä")]] {
        return Err(format!("an acknowledgement callback saw {:?}", seen.lock().unwrap()));
    }
    h.end()
}

fn connected(mut w: World, r: Result<Driven<Result<Client, socket_io_client::Error>>, Fail>) -> Result<(), String> {
    match r.map_err(e2s)? {
        Driven::Done(Ok(client)) => {
            w.settle().map_err(e2s)?;
            Host { w, client }.end()
        }
        Driven::Done(Err(e)) => Err(format!("connecting fails: {}", e)),
        Driven::Stuck => Err("connecting never resolves".into()),
    }
}

fn p_connector(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut w = World::new(rng, NetCfg::smooth());
    let slot = Mutex::new(Some((w.net.io(), g)));
    let exec = w.exec.clone();
    let mut f = Box::pin(Client::connect(
        "ws://host:1/",
        move |_, _| {
            let io = slot.lock().unwrap().take().map(|(io, g)| {
                g();
                io
            });
            async move { io.ok_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, "twice")) }
        },
        &exec,
    ));
    let r = w.drive(&mut f);
    drop(f);
    connected(w, r)
}

fn p_connecting(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut w = World::new(rng, NetCfg::smooth());
    let slot = Mutex::new(Some((w.net.io(), g)));
    let exec = w.exec.clone();
    let mut f = Box::pin(Client::connect(
        "ws://host:1/",
        move |_, _| {
            let x = slot.lock().unwrap().take();
            async move {
                match x {
                    Some((io, g)) => {
                        g();
                        Ok(io)
                    }
                    None => Err(std::io::Error::new(std::io::ErrorKind::Other, "twice")),
                }
            }
        },
        &exec,
    ));
    let r = w.drive(&mut f);
    drop(f);
    connected(w, r)
}

fn p_read(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let n = Arc::new(AtomicU64::new(0));
    let n2 = n.clone();
    h.client.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| {
        n2.fetch_add(1, Ordering::SeqCst);
    });
    let mut g = once(g);
    h.w.net.lock().refill = Some(Box::new(move || {
        g();
        None
    }));
    h.send("42[\"e\"]")?;
    if n.load(Ordering::SeqCst) != 1 {
        return Err(format!("an event was delivered {} times", n.load(Ordering::SeqCst)));
    }
    h.end()
}

fn p_write(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let mut g = once(g);
    let kept: Arc<Mutex<Vec<u8>>> = Default::default();
    let k2 = kept.clone();
    h.w.net.lock().sink = Some(Box::new(move |b| {
        k2.lock().unwrap().extend_from_slice(b);
        g();
    }));
    h.client.emit("e").args().arg("ü").map_err(|e| e.to_string())?.send();
    h.settle()?;
    h.w.net.lock().sink = None;
    let kept = std::mem::take(&mut *kept.lock().unwrap());
    h.w.net.lock().out.extend(kept);
    h.got(&[Msg::Text("42[\"e\",\"ü\"]".into())])?;
    h.end()
}

/// Serializes as bytes, a number and bytes, with something else in between.
struct Nested(RefCell<Option<Guest>>);
struct B(&'static [u8]);
impl serde::Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(self.0)
    }
}
impl serde::Serialize for Nested {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(Some(4))?;
        q.serialize_element(&B(b"one"))?;
        q.serialize_element(&1)?;
        let g = self.0.borrow_mut().take();
        if let Some(g) = g {
            g();
        }
        q.serialize_element("é\n")?;
        q.serialize_element(&B(b""))?;
        q.end()
    }
}

/// The messages of a packet with the arguments "pre", a `Nested` and "post".
fn nested_is(head: &str, got: Vec<Msg>, binary: bool) -> Result<(), String> {
    let bad = || format!("a packet was encoded as {:.300} ({})", format!("{:?}", got), head);
    let ph = |n: usize, b: &[u8]| if binary { json!({"_placeholder": true, "num": n}) } else { json!(b) };
    let want = json!(["pre", [ph(0, b"one"), 1, "é\n", ph(1, b"")], "post"]);
    let text = match got.first() {
        Some(Msg::Text(t)) => t,
        _ => return Err(bad()),
    };
    let at = text.find('[').ok_or_else(bad)?;
    let mut v: Vec<Value> = serde_json::from_str(&text[at..]).map_err(|_| bad())?;
    if head.starts_with("42") || head.starts_with("45") {
        if v.is_empty() || v.remove(0) != json!("n") {
            return Err(bad());
        }
    }
    if Value::Array(v) != want || &text[..at] != head {
        return Err(bad());
    }
    let atts: Vec<Msg> = if binary { vec![Msg::Binary(b"\x04one".to_vec()), Msg::Binary(b"\x04".to_vec())] } else { vec![] };
    if got[1..] != atts[..] {
        return Err(bad());
    }
    Ok(())
}

fn p_serialize_event(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let binary = rng.chance(1, 2);
    let s = |e: socket_io_client::protocol::ArgsError| e.to_string();
    h.client.emit("n").binary(binary).args().arg("pre").map_err(s)?.arg(&Nested(RefCell::new(Some(g)))).map_err(s)?.arg("post").map_err(s)?.send();
    h.settle()?;
    let got = std::mem::take(&mut h.w.srv.inbox).into_iter().map(|x| x.1).collect();
    nested_is(if binary { "452-" } else { "42" }, got, binary)?;
    h.end()
}

fn p_serialize_reply(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let binary = rng.chance(1, 2);
    let held: Arc<Mutex<Vec<AckBuilder>>> = Default::default();
    let h2 = held.clone();
    h.client.set_event_callback("e", move |_: &Args, a: Option<AckBuilder>| h2.lock().unwrap().extend(a));
    h.send("427[\"e\"]")?;
    let b = held.lock().unwrap().pop().ok_or("no reply handle")?;
    let s = |e: socket_io_client::protocol::ArgsError| e.to_string();
    b.binary(binary).args().arg("pre").map_err(s)?.arg(&Nested(RefCell::new(Some(g)))).map_err(s)?.arg("post").map_err(s)?.send();
    h.settle()?;
    let got = std::mem::take(&mut h.w.srv.inbox).into_iter().map(|x| x.1).collect();
    nested_is(if binary { "462-7" } else { "437" }, got, binary)?;
    h.end()
}

fn to_msg(m: tungstenite::Message) -> Msg {
    match m {
        tungstenite::Message::Text(t) => Msg::Text(t),
        tungstenite::Message::Binary(b) => Msg::Binary(b),
        x => Msg::Text(format!("{:?}", x)),
    }
}

fn p_serialize(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let binary = rng.chance(1, 2);
    let mut b = PacketBuilder::new_event("n", "/x", Some(3), binary);
    b.serialize_arg("pre").map_err(|e| e.to_string())?;
    b.serialize_arg(&Nested(RefCell::new(Some(g)))).map_err(|e| e.to_string())?;
    b.serialize_arg("post").map_err(|e| e.to_string())?;
    nested_is(if binary { "452-/x,3" } else { "42/x,3" }, b.finish().into_iter().map(to_msg).collect(), binary)
}

thread_local! {
    static SLOT: RefCell<Option<Guest>> = const { RefCell::new(None) };
}

/// A list whose deserialization does something else after its first element.
#[derive(Debug, PartialEq)]
struct Interrupted(Vec<serde_bytes_like::Either>);

mod serde_bytes_like {
    use serde::de::{Deserialize, Deserializer, Visitor};
    #[derive(Debug, PartialEq)]
    pub enum Either {
        Bytes(Vec<u8>),
        Num(u64),
        Str(String),
    }
    impl<'de> Deserialize<'de> for Either {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Either, D::Error> {
            struct V;
            impl<'de> Visitor<'de> for V {
                type Value = Either;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    f.write_str("bytes, a number or a string")
                }
                fn visit_bytes<E>(self, b: &[u8]) -> Result<Either, E> {
                    Ok(Either::Bytes(b.to_vec()))
                }
                fn visit_byte_buf<E>(self, b: Vec<u8>) -> Result<Either, E> {
                    Ok(Either::Bytes(b))
                }
                fn visit_u64<E>(self, n: u64) -> Result<Either, E> {
                    Ok(Either::Num(n))
                }
                fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Either, A::Error> {
                    let mut v = Vec::new();
                    while let Some(b) = a.next_element()? {
                        v.push(b);
                    }
                    Ok(Either::Bytes(v))
                }
                fn visit_str<E>(self, s: &str) -> Result<Either, E> {
                    Ok(Either::Str(s.to_string()))
                }
            }
            d.deserialize_any(V)
        }
    }
}

impl<'de> serde::Deserialize<'de> for Interrupted {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Interrupted, D::Error> {
        struct V;
        impl<'de> serde::de::Visitor<'de> for V {
            type Value = Vec<serde_bytes_like::Either>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("a list")
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_element()? {
                    v.push(x);
                    let g = SLOT.with(|s| s.borrow_mut().take());
                    if let Some(g) = g {
                        g();
                    }
                }
                Ok(v)
            }
        }
        d.deserialize_seq(V).map(Interrupted)
    }
}

fn binary_event() -> Result<socket::Packet, String> {
    let e = |e: socket::Error| e.to_string();
    match socket::deserialize(EMsg::Text("52-/x,3[\"n\",[{\"_placeholder\":true,\"num\":1},\"\\u00e4\",7,{\"_placeholder\":true,\"num\":0}],\"z\"]".to_string().into())).map_err(e)? {
        DeserializeResult::DataNeeded(p) => socket::deserialize_partial(p, vec![EMsg::Binary(vec![1, 2].into()), EMsg::Binary(vec![255].into())]).map_err(e),
        DeserializeResult::Packet(_) => Err("a binary packet is complete without its attachments".into()),
    }
}

fn p_deserialize(_: &mut Rng, g: Guest) -> Result<(), String> {
    use serde_bytes_like::Either::*;
    let p = binary_event()?;
    let want = Interrupted(vec![Bytes(vec![255]), Str("ä".into()), Num(7), Bytes(vec![1, 2])]);
    if let Data::Event { args, .. } = p.data() {
        SLOT.with(|s| *s.borrow_mut() = Some(g));
        let r = args.get(1).map(|a| a.deserialize::<Interrupted>());
        SLOT.with(|s| s.borrow_mut().take());
        match r {
            Some(Ok(v)) if v == want => return Ok(()),
            r => return Err(format!("an argument is read as {:.300}", format!("{:?}", r.map(|r| r.map_err(|e| e.to_string()))))),
        }
    }
    Err("not an event".into())
}

fn p_format(_: &mut Rng, g: Guest) -> Result<(), String> {
    use std::fmt::Write;
    struct W(String, Option<Guest>);
    impl Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0.push_str(s);
            if self.0.len() > 12 {
                if let Some(g) = self.1.take() {
                    g();
                }
            }
            Ok(())
        }
    }
    let p = binary_event()?;
    let plain = p.to_string();
    let mut w = W(String::new(), Some(g));
    write!(w, "{}", p).map_err(|_| "formatting fails")?;
    if w.0 != plain || p.to_string() != plain || !plain.contains("[1,2]") {
        return Err(format!("a packet is printed as {:?} and as {:?}", w.0, plain));
    }
    Ok(())
}

fn p_attachments(_: &mut Rng, g: Guest) -> Result<(), String> {
    let e = |e: socket::Error| e.to_string();
    let p = match socket::deserialize(EMsg::Text("52-[\"n\",{\"_placeholder\":true,\"num\":1},{\"num\":0,\"_placeholder\":true}]".to_string().into())).map_err(e)? {
        DeserializeResult::DataNeeded(p) => p,
        DeserializeResult::Packet(_) => return Err("a binary packet is complete without its attachments".into()),
    };
    let mut g = once(g);
    let mut n = 0u8;
    let atts = std::iter::from_fn(move || {
        n += 1;
        if n == 2 {
            g();
        }
        if n < 3 { Some(EMsg::Binary(vec![n; 3].into())) } else { None }
    });
    let p = socket::deserialize_partial(p, atts).map_err(e)?;
    if let Data::Event { args, .. } = p.data() {
        if values(&args) == vec![json!("n"), json!([2, 2, 2]), json!([1, 1, 1])] {
            return Ok(());
        }
    }
    Err(format!("a packet is read as {}", p))
}

struct OnDrop(Option<Guest>);
impl Drop for OnDrop {
    fn drop(&mut self) {
        if let Some(g) = self.0.take() {
            g();
        }
    }
}

fn p_drop(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let d = OnDrop(Some(g));
    match rng.below(5) {
        0 => {
            h.client.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| drop(&d));
            h.client.clear_event_callback("e");
        }
        1 => {
            h.client.set_fallback_callback(move |_: &Args, _: Option<AckBuilder>| drop(&d));
            h.client.set_fallback_callback(|_: &Args, _: Option<AckBuilder>| ());
        }
        2 => {
            let b = h.client.emit("q").callback(move |_: &Args| drop(d));
            drop(b.args());
        }
        3 => {
            h.client.emit("q").callback(move |_: &Args| drop(d)).args().send();
            h.settle()?;
            let id: String = match h.w.srv.inbox.last() {
                Some((_, Msg::Text(t))) => t[2..].chars().take_while(|c| c.is_ascii_digit()).collect(),
                x => return Err(format!("the server received {:?}", x)),
            };
            h.send(&format!("43{}[]", id))?;
        }
        _ => {
            h.client.set_event_callback("e", move |_: &Args, _: Option<AckBuilder>| drop(&d));
        }
    }
    h.end()
}

struct Spawner(Exec, Mutex<Option<Guest>>);
impl Spawn for Spawner {
    fn spawn_obj(&self, f: futures::task::FutureObj<'static, ()>) -> Result<(), SpawnError> {
        let g = self.1.lock().unwrap().take();
        if let Some(g) = g {
            g();
        }
        self.0.spawn_obj(f)
    }
}

fn p_spawn(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut w = World::new(rng, NetCfg::smooth());
    let spawner = Spawner(w.exec.clone(), Mutex::new(Some(g)));
    let io = w.net.io();
    let mut f = Box::pin(Client::from_stream("ws://host:1/", io, &spawner));
    let r = w.drive(&mut f);
    drop(f);
    connected(w, r)
}

fn p_wake(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    let slot = Mutex::new(Some(g));
    h.w.exec.on_wake(Some(Arc::new(move || {
        let g = slot.lock().unwrap().take();
        if let Some(g) = g {
            g();
        }
    })));
    h.client.emit("e").args().arg("ü").map_err(|e| e.to_string())?.send();
    h.got(&[Msg::Text("42[\"e\",\"ü\"]".into())])?;
    h.w.exec.on_wake(None);
    h.end()
}

fn p_log(rng: &mut Rng, g: Guest) -> Result<(), String> {
    let mut h = Host::new(rng)?;
    h.client.set_event_callback("e", |_: &Args, _: Option<AckBuilder>| ());
    let was = runner::logging();
    runner::set_logging(true);
    runner::LOG_GUEST.with(|s| *s.borrow_mut() = Some(g));
    let r = h.send("42[\"e\",[1]]");
    runner::LOG_GUEST.with(|s| s.borrow_mut().take());
    runner::set_logging(was);
    r?;
    h.end()
}

// ---------------------------------------------------------------- the others

const NOISE: &[(&str, CaseFn)] = &[
    ("connection attempts", connect::c19),
    ("connection attempts", connect::c19),
    ("URLs", connect::c23),
    ("failing sessions", faults::c21),
    ("failing sessions", faults::c21),
    ("closed sessions", faults::c20),
    ("dropped clients", faults::c22),
    ("panicking callbacks", faults::c13_panic),
    ("panicking callbacks", faults::c13_panic),
    ("hostile servers", hostile::c03_session),
    ("hostile servers", hostile::c03_session),
    ("sessions", session::c14),
    ("sessions", session::c16),
    ("hostile packets", codec::c03_decode),
    ("refused packets", codec::c02),
    ("failing arguments", codec::c06),
    ("partial packets", leftovers),
    ("partial packets", leftovers),
    ("panicking arguments", panics),
    ("panicking arguments", panics),
];

struct Bomb;
impl serde::Serialize for Bomb {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::SerializeSeq;
        let mut q = s.serialize_seq(None)?;
        q.serialize_element(&B(b"bomb"))?;
        q.serialize_element("bomb")?;
        std::panic::panic_any(DELIBERATE)
    }
}
struct Dud;
impl<'de> serde::Deserialize<'de> for Dud {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Dud, D::Error> {
        let _ = serde_json::Value::deserialize(d);
        std::panic::panic_any(DELIBERATE)
    }
}

/// User code that panics while the library calls it, or that the library calls when it is dropped.
fn panics(_: &mut Case, rng: &mut Rng) -> Verdict {
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let (_, place) = PLACES[rng.below(PLACES.len())];
        place(rng, Box::new(|| std::panic::panic_any(DELIBERATE)))
    }));
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let mut b = PacketBuilder::new_event("bomb", "/bomb", Some(7), rng.chance(1, 2));
        let _ = b.serialize_arg(&B(b"before"));
        let _ = b.serialize_arg(&Bomb);
    }));
    let _ = catch_unwind(AssertUnwindSafe(|| {
        if let Ok(p) = binary_event() {
            if let Data::Event { args, .. } = p.data() {
                let _ = args.get(1).map(|a| a.deserialize::<Dud>());
            }
        }
    }));
    Ok(())
}

/// Packets that are begun and never finished.
fn leftovers(_: &mut Case, rng: &mut Rng) -> Verdict {
    let mut b = PacketBuilder::new_event("left", "/over", Some(9), rng.chance(2, 3));
    let _ = b.serialize_arg(&B(b"left"));
    if rng.chance(1, 2) {
        let _ = b.serialize_arg(&session::Poison);
    }
    drop(b);
    let p = socket::deserialize(EMsg::Text("53-/over,9[\"left\",{\"_placeholder\":true,\"num\":0},{\"_placeholder\":true,\"num\":9}]".to_string().into()));
    if let Ok(DeserializeResult::DataNeeded(p)) = p {
        if rng.chance(1, 2) {
            let n = rng.below(5);
            let _ = socket::deserialize_partial(p, (0..n).map(|i| EMsg::Binary(vec![i as u8].into())));
        }
    }
    let mut d = engine::Decoder::new();
    for m in ["0{\"sid\":\"x\"", "4", "3x", "2"].iter().take(rng.below(5)) {
        let _ = d.decode(tungstenite::Message::Text(m.to_string()));
    }
    Ok(())
}

fn noise(c: &mut Case, rng: &mut Rng) {
    let (name, f) = NOISE[rng.below(NOISE.len())];
    let mut sub = Case::new(false);
    // a verdict about another property, on a clock of its own
    let clock = futures_timer::virtual_stash();
    let r = catch_unwind(AssertUnwindSafe(|| f(&mut sub, rng)));
    futures_timer::virtual_restore(clock);
    c.count(&format!("around: {}", name));
    if !matches!(r, Ok(Ok(()))) {
        c.count("observations_about_other_properties");
    }
    let _ = core::last_panic();
}

/// Another session, in the middle of which the bystander does its steps.
#[derive(Default)]
struct Other(Option<Session>);

impl Other {
    fn act(&mut self, c: &mut Case, rng: &mut Rng) {
        let r = catch_unwind(AssertUnwindSafe(|| {
            if self.0.is_none() {
                let mut p = Profile::of(KINDS[rng.below(KINDS.len())]);
                p.panic_pct = *rng.pick(&[0, 0, 5, 50]);
                p.plan_pct = 60;
                let mut s = Session::new(rng, p)?;
                s.initial_registrations();
                self.0 = Some(s);
            }
            let s = self.0.as_mut().unwrap();
            for _ in 0..rng.range(1, 4) {
                s.act()?;
            }
            if rng.chance(1, 6) {
                let mut out = Vec::new();
                hostile::message(rng, &mut out, &mut Vec::new(), false);
                s.w.net.server_write(&out);
            }
            Ok::<(), Fail>(())
        }));
        c.count("around: steps of another session");
        if !matches!(r, Ok(Ok(()))) || rng.chance(1, 40) {
            let s = self.0.take();
            let _ = catch_unwind(AssertUnwindSafe(|| drop(s)));
            c.count("around: another session is given up");
        }
        let _ = core::last_panic();
    }
}

struct Lent(*mut (dyn FnMut() + 'static));
unsafe impl Send for Lent {}
impl Lent {
    /// The guest has to be gone before `f` is.
    fn guest(f: &mut dyn FnMut()) -> Guest {
        let l = Lent(unsafe { std::mem::transmute::<*mut dyn FnMut(), *mut (dyn FnMut() + 'static)>(f) });
        Box::new(move || {
            let l = l;
            unsafe { (*l.0)() }
        })
    }
}

/// Do `f` while the library calls user code somewhere, `depth` times over.
fn hosted(c: &mut Case, rng: &mut Rng, depth: usize, fails: &mut Option<Fail>, f: &mut dyn FnMut()) {
    if depth == 0 {
        return f();
    }
    let (name, place) = PLACES[rng.below(PLACES.len())];
    let mut prng = rng.fork();
    let mut done = false;
    let inner: *mut Case = c;
    let mut once = || {
        if !done {
            done = true;
            // the host does not wait for its guest
            let clock = futures_timer::virtual_stash();
            hosted(unsafe { &mut *inner }, rng, depth - 1, fails, f);
            futures_timer::virtual_restore(clock);
        }
    };
    let r = {
        let g = Lent::guest(&mut once);
        mine(|| place(&mut prng, g).map_err(|e| Fail::v(format!("{}: {}", name, e))))
    };
    if !done {
        f();
    }
    c.count(&format!("inside: {}", name));
    if let Err(e) = r {
        fails.get_or_insert(e.context("a client that lends itself to another one"));
    }
}

/// Threads that are stuck in user code for as long as this lives.
struct Stuck {
    go: Vec<mpsc::Sender<()>>,
    threads: Vec<std::thread::JoinHandle<Result<(), String>>>,
}

impl Stuck {
    fn new(c: &mut Case, rng: &mut Rng, n: usize) -> Stuck {
        let mut s = Stuck { go: vec![], threads: vec![] };
        for _ in 0..n {
            let (name, place) = PLACES[rng.below(PLACES.len())];
            let mut r = rng.fork();
            let (go, wait) = mpsc::channel::<()>();
            let (there, arrived) = mpsc::channel::<()>();
            let h = std::thread::Builder::new()
                .name("stuck".into())
                .stack_size(4 << 20)
                .spawn(move || {
                    runner::init_select_rng();
                    let g = Box::new(move || {
                        let _ = there.send(());
                        let _ = wait.recv();
                    });
                    catch_unwind(AssertUnwindSafe(|| place(&mut r, g))).unwrap_or_else(|_| Err("a panic".into()))
                })
                .unwrap();
            // it either gets there or ends
            if arrived.recv_timeout(Duration::from_secs(20)).is_ok() {
                c.count(&format!("beside: a thread stuck in {}", name));
            } else {
                c.count("beside: a thread that never got there");
            }
            s.go.push(go);
            s.threads.push(h);
        }
        s
    }
    fn end(self) -> Verdict {
        drop(self.go);
        for h in self.threads {
            match h.join() {
                Ok(Ok(())) => {}
                Ok(Err(e)) => return Err(Fail::v(format!("a client that was held up by its user code: {}", e))),
                Err(_) => return Err(Fail::Inconclusive("thread died".into())),
            }
        }
        Ok(())
    }
}

/// Threads that make noise for as long as this lives.
struct Loud(Arc<AtomicBool>, Vec<std::thread::JoinHandle<Case>>);

impl Loud {
    fn new(rng: &mut Rng, n: usize) -> Loud {
        let stop = Arc::new(AtomicBool::new(false));
        let threads = (0..n)
            .map(|_| {
                let (mut r, stop) = (rng.fork(), stop.clone());
                std::thread::Builder::new()
                    .name("loud".into())
                    .stack_size(16 << 20)
                    .spawn(move || {
                        runner::init_select_rng();
                        let mut c = Case::new(false);
                        let mut other = Other::default();
                        while !stop.load(Ordering::Relaxed) {
                            if r.chance(1, 2) {
                                noise(&mut c, &mut r);
                            } else {
                                other.act(&mut c, &mut r);
                            }
                        }
                        c
                    })
                    .unwrap()
            })
            .collect();
        Loud(stop, threads)
    }
    fn end(self, c: &mut Case) {
        self.0.store(true, Ordering::Relaxed);
        for h in self.1 {
            if let Ok(x) = h.join() {
                c.add("beside: noises on other threads", x.counters.values().sum());
            }
        }
    }
}

// ---------------------------------------------------------------- the workloads

fn company(c: &mut Case, rng: &mut Rng, kind: &'static str) -> Verdict {
    futures_timer::virtual_begin();
    futures_timer::virtual_keep();
    let seed = rng.next();
    INSIDE.store(0, Ordering::SeqCst);
    *WHO.lock().unwrap_or_else(|e| e.into_inner()) = Some((kind, seed));
    let mode = rng.below(8);
    for _ in 0..rng.below(3) {
        noise(c, rng);
    }
    let stuck = if mode == 0 || mode == 1 || rng.chance(1, 12) {
        let n = rng.range(1, 3);
        Some(Stuck::new(c, rng, n))
    } else {
        None
    };
    let loud = if mode == 2 {
        let n = rng.range(1, 2);
        Some(Loud::new(rng, n))
    } else {
        None
    };
    let pct = if mode == 3 || mode == 4 { 5 + rng.below(60) } else { 0 };
    let inside_pct = if mode == 5 || mode == 6 { 5 + rng.below(60) } else { 0 };
    let whole = if mode == 7 { rng.range(1, 3) } else { 0 };
    let mut others = [Other::default(), Other::default()];
    let mut fails: Option<Fail> = None;
    let r = {
        let mut result: Verdict = Ok(());
        let mut hrng = rng.fork();
        let mut counts = Case::new(false);
        let mut hfails: Option<Fail> = None;
        let mut body = || {
            let mut counts2 = Case::new(false);
            let mut around = |f: &mut dyn FnMut()| {
                if rng.chance(pct, 100) {
                    // time is spent elsewhere, not by the bystander
                    let inside = INSIDE.swap(0, Ordering::SeqCst);
                    if rng.chance(2, 3) {
                        others[rng.below(2)].act(&mut counts2, rng);
                    } else {
                        noise(&mut counts2, rng);
                    }
                    INSIDE.store(inside, Ordering::SeqCst);
                }
                if rng.chance(inside_pct, 100) {
                    let d = rng.range(1, 2);
                    hosted(&mut counts2, rng, d, &mut fails, f);
                } else {
                    f();
                }
            };
            result = if kind == "clients" { bystander(c, seed, &mut around) } else { packets_of(c, seed, &mut around) };
            for (k, n) in counts2.counters {
                c.add(&k, n);
            }
        };
        hosted(&mut counts, &mut hrng, whole, &mut hfails, &mut body);
        for (k, n) in counts.counters {
            c.add(&k, n);
        }
        if let Some(f) = hfails {
            fails.get_or_insert(f);
        }
        result
    };
    let mut r = match fails {
        Some(f) => r.and(Err(f)),
        None => r,
    };
    for o in others {
        let _ = catch_unwind(AssertUnwindSafe(|| drop(o)));
    }
    if let Some(l) = loud {
        l.end(c);
    }
    if let Some(s) = stuck {
        r = r.and(s.end());
    }
    let _ = core::last_panic();
    core::take_panics();
    c.key(&seed, true);
    c.sample(|| format!("{} {} in mode {}", kind, seed, mode));
    match r {
        Err(Fail::Violation(s)) => {
            if only_in_company(kind, seed) {
                Err(Fail::Violation(format!("{} (it does not happen to the same client or packets alone)", s)))
            } else {
                CONFIRMED_ELSEWHERE.fetch_add(1, Ordering::Relaxed);
                c.count("failures_that_happen_alone_as_well");
                if c.samples.len() < 12 {
                    c.samples.push(format!("happens alone as well: {:.300}", s));
                }
                Ok(())
            }
        }
        r => r,
    }
}

pub fn c28_clients(c: &mut Case, rng: &mut Rng) -> Verdict {
    company(c, rng, "clients")
}

pub fn c28_packets(c: &mut Case, rng: &mut Rng) -> Verdict {
    company(c, rng, "packets")
}
