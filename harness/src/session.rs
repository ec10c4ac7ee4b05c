//! Randomised sessions of a real client against the mock server on the deterministic executor, and
//! the offline monitors over what was recorded: C11-C18, C21, C22.

use crate::core::{Case, Fail, Verdict, DELIBERATE};
use crate::jsonref::{self, Ser, Style, J};
use crate::net::NetCfg;
use crate::proto::{self, Kind, Pkt, Ref};
use crate::rng::Rng;
use crate::sim::*;
use crate::ws::Msg;
use serde_json::Value;
use socket_io_client::protocol::Args;
use socket_io_client::{AckBuilder, Client, EventCallback};
use std::collections::HashMap;
use std::sync::{Arc, Mutex, Weak};

pub const NAMES: &[&str] = &["a", "b", "msg", "A", "a ", "", "message", "ünï", "日本", "a\"b", "x,y", "[1]", "\n", "😀", "a/b", "connect", "*", "disconnect", "error", "ping", "a:b", "a.b", "_placeholder", "connect_error", "disconnecting", "newListener", "reconnect", "pong"];
pub const NSS: &[&str] = &["/", "/", "/nsp", "/n", "/nsp/", "/ünï", "/a[1]", "/\"q\"", "/1"];

// ---------------------------------------------------------------- what is recorded

#[derive(Clone, Debug)]
pub struct Reg {
    pub t0: u64,
    pub t1: u64,
    pub ns: String,
    /// None: the fallback
    pub name: Option<String>,
    pub token: Option<u64>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum EKind {
    Event,
    Reply(u64),
    Raw,
}

#[derive(Clone, Debug)]
pub struct Emission {
    pub uid: u64,
    pub t0: u64,
    pub t1: u64,
    pub ns: String,
    pub kind: EKind,
    pub binary: bool,
    pub args: Vec<J>,
    pub ack: bool,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub tick: u64,
    /// which poll of the executor it happened in
    pub poll: u64,
    pub token: u64,
    pub uid: Option<u64>,
    pub args: Vec<Result<Value, String>>,
    pub typed_ok: bool,
    pub handle: bool,
}

#[derive(Clone, Debug)]
pub struct AckRun {
    pub tick: u64,
    pub poll: u64,
    pub uid: u64,
    pub args: Vec<Result<Value, String>>,
}

pub struct Handle {
    pub uid: u64,
    pub ns: String,
    pub id: u64,
    pub b: AckBuilder,
}

#[derive(Clone, Debug)]
pub enum When {
    Now,
    Later,
    Thread,
    Never,
}

#[derive(Clone, Debug)]
pub enum Op {
    Set { ns: String, name: Option<String>, reuse: bool },
    Clear { ns: String, name: Option<String> },
    Emit { ns: String, name: String, binary: bool, ack: bool, args: Vec<J>, poison: bool, abandon: bool },
    Raw { ns: String, binary: bool, args: Vec<J> },
    DropClient,
    /// the operation is done by another thread while this one waits
    Thread(Box<Op>),
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub ops: Vec<Op>,
    pub reply: When,
    pub reply_binary: bool,
    pub reply_args: Vec<J>,
    pub panic: bool,
}

#[derive(Default)]
pub struct Shared {
    pub regs: Vec<Reg>,
    pub emissions: Vec<Emission>,
    pub runs: Vec<Run>,
    pub ack_runs: Vec<AckRun>,
    pub plans: HashMap<u64, Plan>,
    pub ack_plans: HashMap<u64, Vec<Op>>,
    /// event uid -> (namespace, id) as sent by the server
    pub ids: HashMap<u64, (String, u64)>,
    pub handles: Vec<Handle>,
    pub tokens: Vec<Weak<()>>,
    pub kept: Vec<(u64, EventCallback)>,
    pub ack_live: HashMap<u64, Weak<()>>,
    pub next_uid: u64,
    pub ops_skipped: u64,
    pub ops_in_callbacks: u64,
    /// (tick, poll) of the moment the client was dropped
    pub dropped: Option<(u64, u64)>,
    pub poisoned_panics: u64,
}

#[derive(Clone)]
pub struct Ctx {
    pub sh: Arc<Mutex<Shared>>,
    pub client: Arc<Mutex<Option<Client>>>,
    pub tick: Tick,
    pub exec: Exec,
    /// operations wait for the client instead of being skipped when another thread uses it
    pub wait: bool,
    /// a sender of the client, to be used without it
    pub sender: Option<futures::channel::mpsc::UnboundedSender<Vec<tungstenite::Message>>>,
}

pub struct Poison;
impl serde::Serialize for Poison {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::{Error, SerializeSeq};
        let mut q = s.serialize_seq(None)?;
        q.serialize_element(&1u8)?;
        q.serialize_element(&"x")?;
        Err(S::Error::custom("poison"))
    }
}

pub fn read_args(args: &Args) -> (Vec<Result<Value, String>>, bool) {
    let mut typed_ok = true;
    let v = args
        .iter()
        .map(|a| {
            let j = a.to_json_value().map_err(|e| e.to_string());
            match (&j, a.deserialize::<Value>()) {
                (Ok(x), Ok(y)) => typed_ok &= *x == y,
                (Err(_), _) => {}
                (Ok(_), Err(_)) => typed_ok = false,
            }
            j
        })
        .collect();
    (v, typed_ok)
}

fn uid_of(v: &[Result<Value, String>], at: usize) -> Option<u64> {
    v.get(at).and_then(|x| x.as_ref().ok()).and_then(|x| x.as_u64())
}

impl Ctx {
    pub fn new(tick: Tick, exec: Exec) -> Ctx {
        Ctx { sh: Default::default(), client: Default::default(), tick, exec, wait: false, sender: None }
    }
    pub fn sh(&self) -> std::sync::MutexGuard<'_, Shared> {
        self.sh.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn uid(&self) -> u64 {
        let mut s = self.sh();
        s.next_uid += 1;
        s.next_uid
    }

    /// A callback that records its runs under `token`.
    pub fn callback(&self, token: u64, live: Arc<()>) -> impl FnMut(&Args, Option<AckBuilder>) + Send + 'static {
        let ctx = Ctx { wait: false, sender: None, ..self.clone() };
        move |args: &Args, ack: Option<AckBuilder>| {
            let _hold = &live;
            let tick = ctx.tick.next();
            let (vals, typed_ok) = read_args(args);
            let uid = uid_of(&vals, 1);
            let plan = {
                let mut s = ctx.sh();
                s.runs.push(Run { tick, poll: ctx.exec.polls(), token, uid, args: vals, typed_ok, handle: ack.is_some() });
                uid.and_then(|u| s.plans.remove(&u))
            };
            let uid = match uid {
                Some(u) => u,
                None => return,
            };
            let plan = match plan {
                Some(p) => p,
                None => return,
            };
            let Plan { ops, reply, reply_binary, reply_args, panic } = plan;
            let (before, after) = ops.split_at(ops.len() / 2);
            for op in before {
                ctx.sh().ops_in_callbacks += 1;
                ctx.op(op);
            }
            if let Some(b) = ack {
                let sent = ctx.sh().ids.get(&uid).cloned();
                if let Some((ns, id)) = sent {
                    let h = Handle { uid, ns, id, b };
                    match reply {
                        When::Now => ctx.reply(h, reply_binary, reply_args),
                        When::Later => ctx.sh().handles.push(h),
                        When::Thread => {
                            let c2 = ctx.clone();
                            std::thread::spawn(move || c2.reply(h, reply_binary, reply_args)).join().expect("replying thread");
                        }
                        When::Never => drop(h),
                    }
                }
            }
            for op in after {
                ctx.sh().ops_in_callbacks += 1;
                ctx.op(op);
            }
            if panic {
                std::panic::panic_any(DELIBERATE);
            }
        }
    }

    pub fn reply(&self, h: Handle, binary: bool, mut args: Vec<J>) {
        let uid = self.uid();
        args.insert(0, J::U(uid));
        let t0 = self.tick.next();
        // only the last mode counts
        let mut b = match uid % 4 {
            1 => h.b.binary(!binary).binary(binary),
            3 if !binary => h.b,
            _ => h.b.binary(binary),
        }
        .args();
        for (i, a) in args.iter().enumerate() {
            if i % 2 == 0 {
                b.arg_ref(&Ser(a)).expect("observed: argument of a reply");
            } else {
                b = b.arg(&Ser(a)).expect("observed: argument of a reply");
            }
        }
        // record before the send so that the order of records is the order of sends
        let i = {
            let mut s = self.sh();
            s.emissions.push(Emission { uid, t0, t1: 0, ns: h.ns, kind: EKind::Reply(h.id), binary, args, ack: false });
            s.emissions.len() - 1
        };
        b.send();
        let t1 = self.tick.next();
        self.sh().emissions[i].t1 = t1;
    }

    /// Queue messages of the application's own making.
    fn raw(&self, send: &futures::channel::mpsc::UnboundedSender<Vec<tungstenite::Message>>, ns: &str, binary: bool, args: &[J]) {
        let uid = self.uid();
        let mut all = vec![J::S("raw".into()), J::U(uid)];
        all.extend(args.iter().cloned());
        let p = Pkt { kind: Kind::Event, binary, ns: ns.to_string(), id: None, args: all.clone() };
        let (text, atts) = proto::encode(&p, &mut Rng::new(uid), Style { ws: uid % 2 == 0, esc: uid % 3 == 0 });
        let mut msgs = Vec::new();
        // the application may queue whatever it likes
        match raw_extra(uid) {
            Some(Msg::Text(x)) => msgs.push(tungstenite::Message::Text(x)),
            Some(Msg::Binary(x)) => msgs.push(tungstenite::Message::Binary(x)),
            Some(Msg::Ping(x)) => msgs.push(tungstenite::Message::Ping(x)),
            _ => {}
        }
        if uid % 5 == 2 {
            let _ = send.unbounded_send(Vec::new());
        }
        msgs.push(tungstenite::Message::Text(format!("4{}", text)));
        for a in atts {
            let mut v = vec![4];
            v.extend(a);
            msgs.push(tungstenite::Message::Binary(v));
        }
        let t0 = self.tick.next();
        let i = {
            let mut s = self.sh();
            s.emissions.push(Emission { uid, t0, t1: 0, ns: ns.to_string(), kind: EKind::Raw, binary, args: all, ack: false });
            s.emissions.len() - 1
        };
        let _ = send.unbounded_send(msgs);
        let t1 = self.tick.next();
        self.sh().emissions[i].t1 = t1;
    }

    pub fn raw_shared(&self, ns: &str, binary: bool, args: &[J]) {
        if let Some(s) = &self.sender {
            self.raw(s, ns, binary, args);
        }
    }

    /// Perform an operation on the client; skipped when there is none.
    pub fn op(&self, op: &Op) -> bool {
        if let Op::Thread(inner) = op {
            let (ctx, op) = (self.clone(), (**inner).clone());
            return match std::thread::spawn(move || ctx.op(&op)).join() {
                Ok(x) => x,
                Err(_) => panic!("an operation panicked on another thread"),
            };
        }
        let mut slot = match self.client.try_lock() {
            Ok(s) => s,
            Err(std::sync::TryLockError::Poisoned(e)) => e.into_inner(),
            Err(_) if self.wait => self.client.lock().unwrap_or_else(|e| e.into_inner()),
            Err(_) => {
                self.sh().ops_skipped += 1;
                return false;
            }
        };
        if let Op::DropClient = op {
            let c = slot.take();
            drop(slot);
            if c.is_some() {
                drop(c);
                let at = (self.tick.now(), self.exec.polls());
                self.sh().dropped = Some(at);
            }
            return true;
        }
        let client = match slot.as_mut() {
            Some(c) => c,
            None => {
                drop(slot);
                self.sh().ops_skipped += 1;
                return false;
            }
        };
        match op {
            Op::Set { ns, name, reuse } => {
                let (token, cb) = {
                    let mut s = self.sh();
                    if *reuse && !s.kept.is_empty() {
                        let k = s.kept[s.kept.len() / 2].clone();
                        (k.0, k.1)
                    } else {
                        let live = Arc::new(());
                        s.tokens.push(Arc::downgrade(&live));
                        let token = s.tokens.len() as u64 - 1;
                        drop(s);
                        let cb: EventCallback = self.callback(token, live).into();
                        if *reuse {
                            self.sh().kept.push((token, cb.clone()));
                        }
                        (token, cb)
                    }
                };
                let t0 = self.tick.next();
                match (name, ns.as_str(), token % 2) {
                    (Some(n), "/", 0) => client.set_event_callback(n, cb),
                    (Some(n), _, _) => client.set_namespace_event_callback(ns, n, cb),
                    (None, "/", 0) => client.set_fallback_callback(cb),
                    (None, _, _) => client.set_namespace_fallback_callback(ns, cb),
                }
                let t1 = self.tick.next();
                self.sh().regs.push(Reg { t0, t1, ns: ns.clone(), name: name.clone(), token: Some(token) });
            }
            Op::Clear { ns, name } => {
                let t0 = self.tick.next();
                match (name, ns.as_str(), t0 % 2) {
                    (Some(n), "/", 0) => client.clear_event_callback(n),
                    (Some(n), _, _) => client.clear_namespace_event_callback(ns, n),
                    (None, "/", 0) => client.clear_fallback_callback(),
                    (None, _, _) => client.clear_namespace_fallback_callback(ns),
                }
                let t1 = self.tick.next();
                self.sh().regs.push(Reg { t0, t1, ns: ns.clone(), name: name.clone(), token: None });
            }
            Op::Emit { ns, name, binary, ack, args, poison, abandon } => {
                let uid = self.uid();
                let mut all = vec![J::S(name.clone()), J::U(uid)];
                all.extend(args.iter().cloned());
                let t0 = self.tick.next();
                let mut b = if ns == "/" && uid % 2 == 0 { client.emit(name) } else { client.namespace_emit(ns, name) };
                match uid % 6 {
                    0 | 4 => b = b.binary(*binary),
                    3 => b = b.binary(!*binary),
                    _ => (),
                }
                if *ack && uid % 5 == 0 {
                    // the callback that is set last is the one
                    let ctx = Ctx { wait: false, sender: None, ..self.clone() };
                    b = b.callback(move |_: &Args| {
                        let tick = ctx.tick.next();
                        ctx.sh().ack_runs.push(AckRun { tick, poll: ctx.exec.polls(), uid: u64::MAX, args: vec![Err("a callback that was replaced before the event was sent".into())] });
                    });
                }
                if *ack {
                    let live = Arc::new(());
                    if !abandon {
                        self.sh().ack_live.insert(uid, Arc::downgrade(&live));
                    }
                    let ctx = Ctx { wait: false, sender: None, ..self.clone() };
                    b = b.callback(move |args: &Args| {
                        let _hold = &live;
                        let tick = ctx.tick.next();
                        let (vals, _) = read_args(args);
                        let ops = {
                            let mut s = ctx.sh();
                            s.ack_runs.push(AckRun { tick, poll: ctx.exec.polls(), uid, args: vals });
                            s.ack_plans.remove(&uid).unwrap_or_default()
                        };
                        for op in ops {
                            ctx.sh().ops_in_callbacks += 1;
                            ctx.op(&op);
                        }
                    });
                }
                let mut b = match uid % 6 {
                    // the mode was chosen before the callback was given
                    4 => b,
                    5 if !*binary => b,
                    _ => b.binary(*binary),
                }
                .args();
                for (i, a) in all.iter().enumerate().skip(1) {
                    if *poison && i % 2 == 0 {
                        let _ = b.arg_ref(&Poison).expect_err("observed: a failing argument is accepted");
                    }
                    if i % 2 == 0 {
                        b.arg_ref(&Ser(a)).expect("observed: argument of an event");
                    } else {
                        b = b.arg(&Ser(a)).expect("observed: argument of an event");
                    }
                }
                if *abandon {
                    drop(b);
                    return true;
                }
                let i = {
                    let mut s = self.sh();
                    s.emissions.push(Emission { uid, t0, t1: 0, ns: ns.clone(), kind: EKind::Event, binary: *binary, args: all, ack: *ack });
                    s.emissions.len() - 1
                };
                b.send();
                let t1 = self.tick.next();
                self.sh().emissions[i].t1 = t1;
            }
            Op::Raw { ns, binary, args } => {
                let send = client.send.clone();
                self.raw(&send, ns, *binary, args);
            }
            Op::DropClient | Op::Thread(_) => unreachable!(),
        }
        true
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Debug)]
pub struct Profile {
    pub prop: &'static str,
    pub steps: (usize, usize),
    pub event: usize,
    pub ping: usize,
    pub wsping: usize,
    pub reg: usize,
    pub emit: usize,
    pub raw: usize,
    pub ack: usize,
    pub reply: usize,
    pub other: usize,
    pub run: usize,
    pub settle: usize,
    pub binary_pct: usize,
    pub id_pct: usize,
    pub emit_ack_pct: usize,
    pub plan_pct: usize,
    /// registrations change only while nothing is under way
    pub reg_quiet: bool,
    pub big_pct: usize,
    pub thread_pct: usize,
    pub panic_pct: usize,
}

impl Profile {
    pub fn base(prop: &'static str) -> Profile {
        Profile {
            prop,
            steps: (20, 140),
            event: 10,
            ping: 3,
            wsping: 1,
            reg: 3,
            emit: 4,
            raw: 1,
            ack: 3,
            reply: 2,
            other: 1,
            run: 25,
            settle: 1,
            binary_pct: 35,
            id_pct: 25,
            emit_ack_pct: 40,
            plan_pct: 25,
            reg_quiet: true,
            big_pct: 1,
            thread_pct: 0,
            panic_pct: 0,
        }
    }
    pub fn of(prop: &'static str) -> Profile {
        let mut p = Profile::base(prop);
        match prop {
            "C11" => {
                p.event = 16;
                p.emit = 1;
                p.ack = 1;
            }
            "C12" => {
                p.event = 16;
                p.reg = 12;
                p.emit = 2;
                p.reg_quiet = false;
                p.plan_pct = 50;
            }
            "C13" => {
                p.plan_pct = 90;
                p.reg_quiet = false;
                p.event = 14;
                p.thread_pct = 15;
            }
            "C14" => {
                p.emit = 14;
                p.ack = 12;
                p.emit_ack_pct = 85;
                p.event = 3;
                p.reg_quiet = false;
            }
            "C15" => {
                p.event = 16;
                p.id_pct = 80;
                p.plan_pct = 90;
                p.reply = 8;
                p.emit = 2;
            }
            "C16" => {
                p.emit = 16;
                p.raw = 5;
                p.ping = 8;
                p.binary_pct = 50;
                p.event = 4;
                p.plan_pct = 60;
                p.reg_quiet = false;
            }
            "C17" => {
                p.ping = 20;
                p.wsping = 5;
                p.binary_pct = 60;
                p.emit = 8;
                p.event = 8;
            }
            "C18" => {
                p.binary_pct = 90;
                p.ping = 8;
                p.wsping = 3;
                p.event = 14;
                p.ack = 5;
                p.emit = 5;
                p.emit_ack_pct = 80;
            }
            "C22" => {
                p.reg = 8;
                p.reg_quiet = false;
                p.emit = 6;
                p.emit_ack_pct = 70;
                p.plan_pct = 50;
            }
            _ => {}
        }
        p
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum IKind {
    Event,
    Ack(u64),
    Other,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub kind: IKind,
    pub uid: u64,
    pub ns: String,
    pub name: String,
    pub id: Option<u64>,
    pub args: Vec<J>,
    pub binary: bool,
    pub first: Option<u64>,
    pub last: Option<u64>,
    /// bytes the server had written when the item was complete
    pub end: u64,
    pub nmsgs: usize,
}

#[derive(Clone, Debug)]
pub struct WirePkt {
    pub tick: u64,
    pub kind: Kind,
    pub binary: bool,
    pub ns: String,
    pub id: Option<u64>,
    pub args: Vec<J>,
    pub extra: Option<Msg>,
}

#[derive(Default)]
pub struct Wire {
    taken: usize,
    extra: Option<Msg>,
    pending: Option<(proto::Parsed, u64, Vec<Vec<u8>>)>,
    pub pkts: Vec<WirePkt>,
    pub pongs: Vec<u64>,
    pub ws_pongs: Vec<(u64, Vec<u8>)>,
    pub close: Option<u64>,
    pub after_close: u64,
}

pub type Problem = (Vec<&'static str>, String);

pub struct Session {
    pub w: World,
    pub ctx: Ctx,
    pub p: Profile,
    pub items: Vec<Item>,
    pub wire: Wire,
    pub pings: Vec<u64>,
    pub ws_pings: Vec<(u64, Vec<u8>)>,
    /// (ns, id) -> uid of events the server knows and has not acknowledged
    pub outstanding: Vec<(String, u64, u64)>,
    /// the same, to find them by
    pub awaited: HashMap<(String, u64), u64>,
    pub acked: HashMap<u64, usize>,
    pub problems: Vec<Problem>,
    pub rng: Rng,
    pub nss: Vec<String>,
    pub names: Vec<String>,
    /// operations of the application meet an executor that is faster than they are
    pub eager: Option<crate::stress::Eager>,
    /// events delivered while the registrations that concern them changed
    pub raced: u64,
    /// what was emitted before has to arrive
    pub must_until: u64,
}

pub fn gen_args(rng: &mut Rng, binary: bool, big_pct: usize) -> Vec<J> {
    let n = rng.size(5);
    let mut v: Vec<J> = (0..n)
        .map(|_| {
            let d = rng.below(3);
            jsonref::gen(rng, d, binary)
        })
        .collect();
    if rng.chance(big_pct, 100) {
        if binary {
            let n = *rng.pick(&[10usize, 11, 99, 100, 101, 255, 256, 257]);
            if rng.chance(1, 3) {
                let n = *rng.pick(&[123usize, 124, 125, 126, 127, 65_533, 65_534, 65_535, 65_536, 100_000]);
                v.push(J::B((0..n).map(|i| (i * 7 + i / 251) as u8).collect(), true));
                return v;
            }
            v.push(J::A((0..n).map(|i| J::B(vec![i as u8, (i >> 8) as u8, 7], i % 2 == 0)).collect()));
        } else {
            let n = *rng.pick(&[100usize, 125, 126, 127, 65500, 65536, 100_000]);
            v.push(J::S("x".repeat(n)));
        }
    }
    v
}

/// A string that is easily confused with another one; starts with the same character.
fn near(s: &str, rng: &mut Rng) -> String {
    let first: String = s.chars().take(1).collect();
    let n = s.chars().count();
    let t: String = match rng.below(13) {
        8 => format!("{}:x", s),
        9 => format!("{}.x", s),
        10 => format!("{}*", s),
        11 => format!("{}?x=1", s),
        12 => format!("{}#x", s),
        0 => format!("{} ", s),
        1 => format!("{}/", s),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        4 => s.chars().take(n.saturating_sub(1).max(1)).collect(),
        5 => format!("{}{}", s, s),
        6 => format!("{}\u{0}", s),
        _ => s.trim_end().to_string(),
    };
    if t.starts_with(&first) { t } else { s.to_string() }
}

impl Session {
    pub fn new(rng: &mut Rng, p: Profile) -> Result<Session, Fail> {
        let cfg = if rng.chance(1, 4) { NetCfg::smooth() } else { NetCfg::random(rng) };
        let mut w = World::new(rng, cfg);
        w.srv.fragment = rng.chance(1, 3);
        let url = *rng.pick(&["ws://localhost/socket.io/", "http://localhost:3000/socket.io/?a=b", "ws://[::1]:80/x"]);
        let client = w.connect(url)?;
        let ctx = Ctx::new(w.tick.clone(), w.exec.clone());
        *ctx.client.lock().unwrap() = Some(client);
        let mut nss: Vec<String> = vec!["/".into()];
        for _ in 0..rng.below(3) {
            nss.push(match rng.below(12) {
                0..=8 => rng.pick(NSS).to_string(),
                9 => {
                    let s = nss[rng.below(nss.len())].clone();
                    near(&s, rng).replace(',', "")
                }
                10 if rng.chance(1, 2) => format!("/{}", jsonref::long_string(rng, 4)),
                _ => proto::gen_ns(rng),
            });
        }
        let mut names = Vec::new();
        for _ in 0..rng.range(1, 4) {
            names.push(match rng.below(12) {
                9 if !names.is_empty() => {
                    let s: &String = &names[rng.below(names.len())];
                    near(s, rng)
                }
                10 if rng.chance(1, 2) => jsonref::long_string(rng, 4),
                9..=11 => jsonref::gen_string(rng),
                _ => rng.pick(NAMES).to_string(),
            });
        }
        Ok(Session {
            w,
            ctx,
            p,
            items: Vec::new(),
            wire: Wire::default(),
            pings: Vec::new(),
            ws_pings: Vec::new(),
            outstanding: Vec::new(),
            awaited: HashMap::new(),
            acked: HashMap::new(),
            problems: Vec::new(),
            rng: rng.fork(),
            nss,
            names,
            eager: None,
            raced: 0,
            must_until: 0,
        })
    }

    /// An operation of the application.
    pub fn app<T>(&mut self, f: impl FnOnce(&Ctx) -> T) -> Result<T, Fail> {
        let ctx = self.ctx.clone();
        match &self.eager {
            None => Ok(f(&ctx)),
            Some(e) => {
                let e = e.clone();
                e.during(self, move || f(&ctx))
            }
        }
    }

    pub fn problem(&mut self, props: &[&'static str], what: String) {
        if self.problems.len() < 200 {
            self.problems.push((props.to_vec(), what));
        }
    }

    pub fn a_ns(&mut self) -> String {
        self.rng.pick(&self.nss).clone()
    }
    pub fn a_name(&mut self) -> String {
        self.rng.pick(&self.names).clone()
    }

    pub fn gen_op(&mut self, reg_only: bool) -> Op {
        let op = self.gen_simple_op(reg_only);
        if self.rng.chance(self.p.thread_pct, 100) {
            Op::Thread(Box::new(op))
        } else {
            op
        }
    }

    fn gen_simple_op(&mut self, reg_only: bool) -> Op {
        let ns = self.a_ns();
        let name = self.a_name();
        let k = if reg_only { self.rng.below(6) } else { self.rng.below(9) };
        match k {
            0..=2 => Op::Set { ns, name: if self.rng.chance(2, 3) { Some(name) } else { None }, reuse: self.rng.chance(1, 8) },
            3 | 4 => Op::Clear { ns, name: if self.rng.chance(2, 3) { Some(name) } else { None } },
            5 => Op::Set { ns, name: Some(name), reuse: false },
            6 | 7 => self.gen_emit(),
            _ => {
                let binary = self.rng.chance(self.p.binary_pct, 100);
                Op::Raw { ns, binary, args: gen_args(&mut self.rng, binary, 0) }
            }
        }
    }

    pub fn gen_emit(&mut self) -> Op {
        let binary = self.rng.chance(self.p.binary_pct, 100);
        Op::Emit {
            ns: self.a_ns(),
            name: self.a_name(),
            binary,
            ack: self.rng.chance(self.p.emit_ack_pct, 100),
            args: gen_args(&mut self.rng, binary, self.p.big_pct),
            poison: self.rng.chance(1, 12),
            abandon: self.rng.chance(1, 25),
        }
    }

    /// Queue a packet of the server.
    pub fn queue(&mut self, kind: IKind, pk: Pkt, uid: u64, name: String) -> usize {
        let st = Style { ws: self.rng.chance(1, 3), esc: self.rng.chance(1, 3) };
        let (text, atts) = proto::encode(&pk, &mut self.rng, st);
        let idx = self.items.len();
        let n = 1 + atts.len();
        self.w.outq.push_back((Msg::Text(format!("4{}", text)), idx as u64));
        for a in &atts {
            let mut v = vec![4];
            v.extend_from_slice(a);
            self.w.outq.push_back((Msg::Binary(v), idx as u64));
        }
        self.items.push(Item { kind, uid, ns: pk.ns, name, id: pk.id, args: pk.args, binary: pk.binary, first: None, last: None, end: 0, nmsgs: n });
        idx
    }

    pub fn queue_event(&mut self) -> usize {
        let uid = self.ctx.uid();
        let ns = self.a_ns();
        let name = if self.rng.chance(5, 6) { self.a_name() } else { self.rng.pick(NAMES).to_string() };
        let binary = self.rng.chance(self.p.binary_pct, 100);
        let id = if self.rng.chance(self.p.id_pct, 100) { Some(jsonref::gen_u64(&mut self.rng)) } else { None };
        let mut args = vec![J::S(name.clone()), J::U(uid)];
        args.extend(gen_args(&mut self.rng, binary, self.p.big_pct));
        if self.rng.chance(self.p.plan_pct, 100) {
            let n = self.rng.below(3);
            let reg_only = false;
            let ops = if self.p.reg_quiet { vec![] } else { (0..n).map(|_| self.gen_op(reg_only)).collect() };
            let reply_binary = self.rng.chance(1, 2);
            let plan = Plan {
                ops,
                reply: match self.rng.below(6) {
                    0 | 1 => When::Now,
                    2 | 3 => When::Later,
                    4 => When::Thread,
                    _ => When::Never,
                },
                reply_binary,
                reply_args: gen_args(&mut self.rng, reply_binary, 0),
                panic: self.rng.chance(self.p.panic_pct, 100),
            };
            self.ctx.sh().plans.insert(uid, plan);
        }
        if let Some(id) = id {
            self.ctx.sh().ids.insert(uid, (ns.clone(), id));
        }
        self.queue(IKind::Event, Pkt { kind: Kind::Event, binary, ns, id, args }, uid, name)
    }

    /// Acknowledge one of the events the server has received.
    pub fn queue_ack(&mut self) -> bool {
        if self.outstanding.is_empty() {
            return false;
        }
        let i = self.rng.below(self.outstanding.len());
        let (ns, id, uid) = self.outstanding.swap_remove(i);
        self.awaited.remove(&(ns.clone(), id));
        *self.acked.entry(uid).or_insert(0) += 1;
        let binary = self.rng.chance(self.p.binary_pct, 100);
        let args = gen_args(&mut self.rng, binary, self.p.big_pct);
        if !self.p.reg_quiet && self.rng.chance(self.p.plan_pct, 100) {
            let ops = (0..self.rng.range(1, 2)).map(|_| self.gen_op(false)).collect();
            self.ctx.sh().ack_plans.insert(uid, ops);
        }
        self.queue(IKind::Ack(uid), Pkt { kind: Kind::Ack, binary, ns, id: Some(id), args }, uid, String::new());
        true
    }

    pub fn ping(&mut self) {
        let t = self.w.tick.next();
        self.pings.push(t);
        let m = Msg::Text("2".into());
        self.w.srv.send(&m, &mut self.rng);
    }

    pub fn wsping(&mut self) {
        let t = self.w.tick.next();
        let n = self.rng.below(20);
        let mut d = t.to_be_bytes().to_vec();
        d.extend(self.rng.bytes(n));
        self.ws_pings.push((t, d.clone()));
        self.w.srv.send(&Msg::Ping(d), &mut self.rng);
    }

    pub fn reply_later(&mut self) -> Result<bool, Fail> {
        let h = {
            let mut sh = self.ctx.sh();
            let n = sh.handles.len();
            if n == 0 {
                return Ok(false);
            }
            let i = self.rng.below(n);
            sh.handles.swap_remove(i)
        };
        if self.rng.chance(1, 10) {
            drop(h);
            return Ok(true);
        }
        let binary = self.rng.chance(1, 2);
        let args = gen_args(&mut self.rng, binary, 0);
        if self.rng.chance(1, 4) {
            let c = self.ctx.clone();
            std::thread::spawn(move || c.reply(h, binary, args)).join().expect("replying thread");
        } else {
            self.app(|c| c.reply(h, binary, args))?;
        }
        Ok(true)
    }

    /// Nothing queued, in flight, or unread anywhere.
    pub fn settle(&mut self) -> Result<(), Fail> {
        self.w.settle()?;
        self.take_inbox();
        self.mark_sent();
        Ok(())
    }

    pub fn mark_sent(&mut self) {
        for (idx, t, at) in self.w.sent.drain(..) {
            let it = match self.items.get_mut(idx as usize) {
                Some(i) => i,
                None => continue,
            };
            if it.first.is_none() {
                it.first = Some(t);
            }
            it.nmsgs -= 1;
            if it.nmsgs == 0 {
                it.last = Some(t);
                it.end = at;
            }
        }
    }

    /// Follow what the client has sent.
    pub fn take_inbox(&mut self) {
        while self.wire.taken < self.w.srv.inbox.len() {
            let (t, m) = self.w.srv.inbox[self.wire.taken].clone();
            self.wire.taken += 1;
            if self.wire.close.is_some() {
                self.wire.after_close += 1;
                self.problem(&["C20"], format!("the client sends {:.200?} after its close frame", m));
                continue;
            }
            match m {
                Msg::Close(_) => {
                    self.wire.close = Some(t);
                    if self.wire.pending.is_some() {
                        self.problem(&["C16", "C20"], "close frame between a packet and its attachments".into());
                    }
                }
                // control frames may be sent between messages
                Msg::Ping(d) if d.len() != 8 => self.problem(&["C17"], "the client sends a WebSocket ping".into()),
                Msg::Pong(d) => self.wire.ws_pongs.push((t, d)),
                m @ Msg::Ping(_) => self.extra(m),
                m if m == Msg::Text(String::new()) || m == Msg::Binary(Vec::new()) => self.extra(m),
                Msg::Text(s) => {
                    if let Some((p, ..)) = &self.wire.pending {
                        let d = format!("message {:.200?} between a binary packet and its attachments ({:?})", s, p);
                        if s == "3" {
                            self.problem(&["C16", "C17"], d);
                        } else {
                            self.problem(&["C16"], d);
                        }
                        self.wire.pending = None;
                    }
                    if s == "3" {
                        if self.wire.extra.is_some() {
                            self.problem(&["C16"], "a heartbeat reply inside a packet of the application".into());
                        }
                        self.wire.pongs.push(t);
                        if self.wire.pongs.len() > self.pings.len() {
                            self.problem(&["C17"], format!("{} pongs for {} pings", self.wire.pongs.len(), self.pings.len()));
                        }
                        continue;
                    }
                    if !s.starts_with('4') {
                        self.problem(&["C16", "C17"], format!("the client sends {:.200?}", s));
                        continue;
                    }
                    match proto::parse(&s[1..]) {
                        Ref::Ok(p) if p.attachments > 0 => self.wire.pending = Some((p, t, Vec::new())),
                        Ref::Ok(p) => self.complete(p, t, Vec::new()),
                        other => self.problem(&["C04", "C16"], format!("the client sends {:.300?}: {:?}", s, other)),
                    }
                }
                Msg::Binary(b) => match self.wire.pending.take() {
                    None => self.problem(&["C16"], format!("binary message {:.100?} without a packet", b)),
                    Some((p, t0, mut v)) => {
                        if b.first() != Some(&4) {
                            self.problem(&["C04", "C16"], format!("binary message without header: {:.100?}", b));
                        }
                        v.push(b[1.min(b.len())..].to_vec());
                        if v.len() as u64 == p.attachments {
                            self.complete(p, t, v);
                        } else {
                            self.wire.pending = Some((p, t0, v));
                        }
                    }
                },
            }
        }
    }

    /// A message of the application that is no packet.
    fn extra(&mut self, m: Msg) {
        if let Some((p, ..)) = &self.wire.pending {
            let d = format!("message {:.200?} between a binary packet and its attachments ({:?})", m, p);
            self.problem(&["C16"], d);
        }
        if let Some(o) = self.wire.extra.replace(m) {
            let d = format!("message {:?} without the packet it was queued with", o);
            self.problem(&["C16"], d);
        }
    }

    fn complete(&mut self, p: proto::Parsed, tick: u64, atts: Vec<Vec<u8>>) {
        let mut args = Vec::new();
        for a in &p.args {
            match jsonref::fill(a, &atts) {
                Ok(j) => args.push(j),
                Err(e) => {
                    self.problem(&["C04", "C16"], format!("placeholders of a sent packet do not fit: {}: {:.300?}", e, p));
                    return;
                }
            }
        }
        if p.kind == Kind::Event {
            if let (Some(id), Some(J::U(uid))) = (p.id, args.get(1)) {
                let uid = *uid;
                if let Some(o) = self.awaited.insert((p.ns.clone(), id), uid) {
                    let d = format!("id {} of namespace {:?} is given to event {} while event {} awaits it", id, p.ns, uid, o);
                    self.problem(&["C14"], d);
                }
                self.outstanding.push((p.ns.clone(), id, uid));
            }
        }
        let extra = self.wire.extra.take();
        self.wire.pkts.push(WirePkt { tick, kind: p.kind, binary: p.binary, ns: p.ns, id: p.id, args, extra });
    }

    /// One random step of the session.
    pub fn act(&mut self) -> Result<(), Fail> {
        let p = self.p.clone();
        let table = [p.event, p.ping, p.wsping, p.reg, p.emit, p.raw, p.ack, p.reply, p.other, p.run, p.settle];
        let total: usize = table.iter().sum();
        let mut k = self.rng.below(total);
        let mut what = 0;
        while k >= table[what] {
            k -= table[what];
            what += 1;
        }
        match what {
            0 => {
                self.queue_event();
            }
            1 => self.ping(),
            2 => self.wsping(),
            3 => {
                if p.reg_quiet {
                    self.settle()?;
                }
                let op = self.gen_op(true);
                self.app(|c| c.op(&op))?;
            }
            4 => {
                let op = self.gen_emit();
                self.app(|c| c.op(&op))?;
            }
            5 => {
                let binary = self.rng.chance(p.binary_pct, 100);
                let op = Op::Raw { ns: self.a_ns(), binary, args: gen_args(&mut self.rng, binary, 0) };
                self.app(|c| c.op(&op))?;
            }
            6 => {
                self.take_inbox();
                self.queue_ack();
            }
            7 => {
                self.reply_later()?;
            }
            8 => {
                let kind = if self.rng.chance(1, 2) { Kind::Connect } else { Kind::Disconnect };
                let ns = self.a_ns();
                if self.rng.chance(1, 3) {
                    let m = Msg::Text("3".into()); // a pong nobody asked for
                    self.w.srv.send(&m, &mut self.rng);
                } else {
                    self.queue(IKind::Other, Pkt { kind, binary: false, ns, id: None, args: vec![] }, 0, String::new());
                }
            }
            9 => {
                for _ in 0..self.rng.range(1, 8) {
                    if self.rng.chance(1, 2) {
                        self.w.send_next();
                    }
                    self.w.step()?;
                }
                self.mark_sent();
                self.take_inbox();
            }
            _ => {
                self.settle()?;
                if self.rng.chance(1, 3) {
                    // nothing happens for a while; no longer than the server promised
                    self.ping();
                    self.settle()?;
                    let d = self.rng.range(1, 20_000) as u64 * 1_000_000;
                    futures_timer::virtual_advance(futures_timer::virtual_now() + d);
                    self.settle()?;
                }
            }
        }
        Ok(())
    }

    /// Some registrations to begin with.
    pub fn initial_registrations(&mut self) {
        for ns in self.nss.clone() {
            for n in self.names.clone() {
                if self.rng.chance(2, 3) {
                    self.ctx.op(&Op::Set { ns: ns.clone(), name: Some(n), reuse: self.rng.chance(1, 10) });
                }
            }
            if self.rng.chance(1, 2) {
                self.ctx.op(&Op::Set { ns, name: None, reuse: false });
            }
        }
    }

    // ------------------------------------------------------------ monitors

    /// Events: `must` items (in order) have to be delivered, `may` more are allowed to.
    pub fn check_events(&mut self, must: usize, may: usize) {
        self.mark_sent();
        let end = self.w.tick.next();
        let sh = self.ctx.sh.clone();
        let sh = sh.lock().unwrap_or_else(|e| e.into_inner());
        let mut regs = sh.regs.clone();
        regs.sort_by_key(|r| r.t0);
        let mut by_uid: HashMap<u64, Vec<&Run>> = HashMap::new();
        for r in &sh.runs {
            match r.uid {
                Some(u) => by_uid.entry(u).or_default().push(r),
                None => self.problems.push((vec!["C11"], format!("callback {} run with arguments nobody sent: {:.300?}", r.token, r.args))),
            }
        }
        let mut known = std::collections::HashSet::new();
        let mut last_run = 0;
        let mut gap: Option<u64> = None;
        for (i, it) in self.items.iter().enumerate() {
            if it.kind != IKind::Event {
                continue;
            }
            known.insert(it.uid);
            let runs = by_uid.get(&it.uid).map(|v| v.as_slice()).unwrap_or(&[]);
            let mut props = vec!["C11"];
            if it.binary {
                props.push("C18");
            }
            if runs.len() > 1 {
                self.problems.push((props.clone(), format!("event {} runs {} callbacks", it.uid, runs.len())));
            }
            if i >= may {
                if !runs.is_empty() {
                    self.problems.push((vec!["C21", "C18"], format!("event {} is delivered although it came after the failure", it.uid)));
                }
                continue;
            }
            let from = match it.first {
                Some(t) => t,
                None => {
                    if !runs.is_empty() {
                        self.problems.push((props, format!("event {} is delivered before it is sent", it.uid)));
                    }
                    continue;
                }
            };
            match runs.first() {
                None => {
                    if i < must {
                        let a = allowed(&regs, &it.ns, &it.name, from, end);
                        if !a.contains(&None) {
                            if it.last.is_some() {
                                props.push("C12");
                                props.push("C21");
                                self.problems.push((props, format!("event {} {:?} {:?} reaches no callback, registered: {:?}", it.uid, it.ns, it.name, a)));
                            }
                        } else if a.len() > 1 {
                            gap = gap.or(Some(it.uid));
                        }
                    }
                }
                Some(r) => {
                    if it.last.map_or(true, |l| r.tick < l) {
                        self.problems.push((props.clone(), format!("event {} is delivered before its last message is sent", it.uid)));
                    }
                    let a = allowed(&regs, &it.ns, &it.name, from, r.tick);
                    if a.len() > 1 {
                        self.raced += 1;
                    }
                    if !a.contains(&Some(r.token)) {
                        self.problems.push((
                            vec!["C11", "C12"],
                            format!("event {} {:?} {:?} reaches callback {}, registered: {:?}", it.uid, it.ns, it.name, r.token, a),
                        ));
                    }
                    if r.tick < last_run {
                        self.problems.push((props.clone(), format!("event {} is delivered out of order", it.uid)));
                    }
                    last_run = r.tick;
                    if r.handle != it.id.is_some() {
                        self.problems.push((vec!["C15"], format!("event {} with id {:?} gets a reply handle: {}", it.uid, it.id, r.handle)));
                    }
                    if !r.typed_ok {
                        props.push("C07");
                        self.problems.push((props.clone(), format!("event {}: typed and JSON access to the arguments differ", it.uid)));
                    }
                    if let Err(e) = same_args(&it.args, &r.args) {
                        self.problems.push((props.clone(), format!("event {}: {}", it.uid, e)));
                    }
                }
            }
        }
        for u in by_uid.keys() {
            if !known.contains(u) {
                self.problems.push((vec!["C11"], format!("a callback is run for event {} that was never sent", u)));
            }
        }
    }

    /// Acknowledgements of events emitted by the client.
    pub fn check_acks(&mut self, must: usize, may: usize) {
        self.mark_sent();
        let sh = self.ctx.sh.clone();
        let sh = sh.lock().unwrap_or_else(|e| e.into_inner());
        let mut runs: HashMap<u64, Vec<&AckRun>> = HashMap::new();
        for r in &sh.ack_runs {
            runs.entry(r.uid).or_default().push(r);
        }
        let mut acked: HashMap<u64, usize> = HashMap::new();
        for (i, it) in self.items.iter().enumerate() {
            if let IKind::Ack(uid) = it.kind {
                acked.insert(uid, i);
                let r = runs.get(&uid).map(|v| v.as_slice()).unwrap_or(&[]);
                let mut props = vec!["C14"];
                if it.binary {
                    props.push("C18");
                }
                if i >= may {
                    if !r.is_empty() {
                        self.problems.push((vec!["C21"], format!("acknowledgement {} is delivered although it came after the failure", uid)));
                    }
                    continue;
                }
                match r.len() {
                    0 => {
                        if i < must && it.last.is_some() {
                            props.push("C21");
                            self.problems.push((props, format!("the callback of event {} is not run although the event was acknowledged", uid)));
                        }
                    }
                    1 => {
                        if it.last.map_or(true, |l| r[0].tick < l) {
                            self.problems.push((props.clone(), format!("the callback of event {} is run before its acknowledgement is complete", uid)));
                        }
                        if let Err(e) = same_args(&it.args, &r[0].args) {
                            self.problems.push((props, format!("acknowledgement of event {}: {}", uid, e)));
                        }
                    }
                    n => self.problems.push((props, format!("the callback of event {} is run {} times", uid, n))),
                }
            }
        }
        for (uid, r) in &runs {
            if !acked.contains_key(uid) {
                self.problems.push((vec!["C14"], format!("the callback of event {} is run {} times although nobody acknowledged it", uid, r.len())));
            }
        }
    }

    /// What the server received against what was emitted; all of it when `complete`.
    pub fn check_wire(&mut self, must: usize) {
        self.take_inbox();
        let sh = self.ctx.sh.clone();
        let sh = sh.lock().unwrap_or_else(|e| e.into_inner());
        let em = &sh.emissions;
        let by_uid: HashMap<u64, usize> = em.iter().enumerate().map(|(i, e)| (e.uid, i)).collect();
        let mut at: Vec<Option<usize>> = vec![None; em.len()];
        // the latest beginning of an emission among those already on the wire
        let mut begun: (u64, usize) = (0, 0);
        for (i, w) in self.wire.pkts.iter().enumerate() {
            let uid = match w.args.get(if w.kind == Kind::Ack { 0 } else { 1 }) {
                Some(J::U(u)) => Some(*u),
                _ => None,
            };
            let k = match uid.and_then(|u| by_uid.get(&u)) {
                Some(k) => *k,
                None => {
                    let mut props = vec!["C16"];
                    if w.kind == Kind::Ack {
                        props.push("C15");
                    }
                    self.problems.push((props, format!("packet {} of {} on the wire was never emitted: {:.300?}", i + 1, em.len(), w)));
                    break;
                }
            };
            let e = &em[k];
            let mut props = vec!["C16"];
            if w.kind == Kind::Ack || matches!(e.kind, EKind::Reply(_)) {
                props.push("C15");
            }
            if e.ack {
                props.push("C14");
            }
            if let Some(j) = at[k] {
                self.problems.push((props, format!("packets {} and {} on the wire are the same emission {:.300?}", j, i, e)));
                break;
            }
            at[k] = Some(i);
            if let Err(d) = same_emission(e, w) {
                self.problems.push((props, format!("packet {} on the wire is not the one emitted: {}; emitted {:.400?}, received {:.400?}", i, d, e, w)));
                break;
            }
            if e.t1 != 0 && e.t1 < begun.0 {
                self.problems.push((props, format!("packet {} on the wire was emitted before packet {}: {:.300?}", i, begun.1, e)));
                break;
            }
            begun = begun.max((e.t0, i));
        }
        // nothing is left out: not of what must have arrived, nor before something that did
        for (k, e) in em.iter().enumerate() {
            if at[k].is_none() && e.t1 != 0 && (k < must || e.t1 < self.must_until || e.t1 < begun.0) {
                let mut props = vec!["C16", "C20"];
                if matches!(e.kind, EKind::Reply(_)) {
                    props.push("C15");
                }
                if k >= must && e.t1 >= self.must_until {
                    props.retain(|p| *p != "C20");
                }
                self.problems.push((props, format!("only {} of {} packets arrive, missing {:.300?}", self.wire.pkts.len(), em.len(), e)));
                break;
            }
        }
        if let Some((p, ..)) = &self.wire.pending {
            if must == em.len() {
                self.problems.push((vec!["C16"], format!("a packet is never completed: {:.300?}", p)));
            }
        }
    }

    pub fn check_heartbeat(&mut self) {
        if self.wire.pongs.len() != self.pings.len() {
            let d = format!("{} pings, {} pongs", self.pings.len(), self.wire.pongs.len());
            self.problem(&["C17"], d);
        }
        if let Some((_, last)) = self.ws_pings.last() {
            if !self.wire.ws_pongs.iter().any(|(_, d)| d == last) {
                let d = format!("WebSocket ping {:?} is not answered", last);
                self.problem(&["C17"], d);
            }
        }
        let sent: Vec<_> = self.ws_pings.iter().map(|x| x.1.clone()).collect();
        for (_, d) in self.wire.ws_pongs.clone() {
            if !sent.contains(&d) {
                self.problem(&["C17"], format!("WebSocket pong {:?} without a ping", d));
            }
        }
    }

    /// Callbacks are alive exactly while something can still run them.
    pub fn check_live(&mut self) {
        let sh = self.ctx.sh.clone();
        let sh = sh.lock().unwrap_or_else(|e| e.into_inner());
        let mut state: HashMap<(&str, Option<&str>), Option<u64>> = HashMap::new();
        let mut regs: Vec<&Reg> = sh.regs.iter().collect();
        regs.sort_by_key(|r| r.t0);
        for r in regs {
            state.insert((&r.ns, r.name.as_deref()), r.token);
        }
        let current: std::collections::HashSet<u64> = state.values().flatten().copied().collect();
        for (t, w) in sh.tokens.iter().enumerate() {
            let t = t as u64;
            if sh.kept.iter().any(|k| k.0 == t) {
                continue;
            }
            let n = w.strong_count();
            if n > 0 && !current.contains(&t) {
                self.problems.push((vec!["C22"], format!("callback {} is kept although it was replaced or cleared", t)));
            }
            if n == 0 && current.contains(&t) {
                self.problems.push((vec!["C11", "C12"], format!("callback {} is gone although it is registered", t)));
            }
        }
        let ran: std::collections::HashSet<u64> = sh.ack_runs.iter().map(|r| r.uid).collect();
        for (uid, w) in &sh.ack_live {
            let n = w.strong_count();
            if n > 0 && ran.contains(uid) {
                self.problems.push((vec!["C22"], format!("the acknowledgement callback of event {} is kept after it ran", uid)));
            }
            if n == 0 && !ran.contains(uid) && sh.emissions.iter().any(|e| e.uid == *uid) {
                self.problems.push((vec!["C14"], format!("the acknowledgement callback of event {} is gone before it ran", uid)));
            }
        }
    }

    /// After the client is gone everything is released, and reply handles are still safe.
    pub fn check_released(&mut self, when: &str) -> Result<(), Fail> {
        self.check_gone(&["C22"], when)?;
        {
            let sh = self.ctx.sh.clone();
            let sh = sh.lock().unwrap_or_else(|e| e.into_inner());
            for (t, w) in sh.tokens.iter().enumerate() {
                if w.strong_count() > 0 && !sh.kept.iter().any(|k| k.0 == t as u64) {
                    self.problems.push((vec!["C22"], format!("{}: callback {} is not dropped", when, t)));
                }
            }
            for (uid, w) in &sh.ack_live {
                if w.strong_count() > 0 {
                    self.problems.push((vec!["C22"], format!("{}: the acknowledgement callback of event {} is not dropped", when, uid)));
                }
            }
        }
        while self.reply_later()? {}
        self.w.settle()?;
        Ok(())
    }

    /// The session is over: no transport, no task, no callback.
    pub fn check_gone(&mut self, props: &[&'static str], when: &str) -> Result<(), Fail> {
        self.w.settle()?;
        let before = {
            let s = self.ctx.sh();
            s.runs.len() + s.ack_runs.len()
        };
        if !self.w.released() {
            self.problem(props, format!("{}: the transport is not released", when));
        }
        if self.w.exec.tasks() != 0 {
            let d = format!("{}: {} background tasks are left", when, self.w.exec.tasks());
            self.problem(props, d);
        }
        // more input for nobody
        for _ in 0..2 {
            self.queue_event();
        }
        self.ping();
        self.w.settle()?;
        let after = {
            let s = self.ctx.sh();
            s.runs.len() + s.ack_runs.len()
        };
        if after != before {
            self.problem(props, format!("{}: a callback runs afterwards", when));
        }
        Ok(())
    }

    pub fn drop_client(&mut self) {
        let c = self.ctx.client.lock().unwrap_or_else(|e| e.into_inner()).take();
        drop(c);
    }

    /// The first problem that concerns the property under check.
    pub fn verdict(&mut self, c: &mut Case) -> Verdict {
        let prop = self.p.prop;
        for (props, d) in &self.problems {
            c.trace(|| format!("problem {:?}: {}", props, d));
        }
        let other = self.problems.iter().filter(|(p, _)| !p.contains(&prop)).count();
        if other > 0 {
            c.add("observations_about_other_properties", other as u64);
        }
        match self.problems.iter().find(|(p, _)| p.contains(&prop)) {
            Some((_, d)) => Err(Fail::v(d.clone())),
            None => Ok(()),
        }
    }

    /// The records of the session in order.
    fn order(&self, s: &Shared) -> Vec<(u64, u8, u64)> {
        let mut order: Vec<(u64, u8, u64)> = Vec::new();
        order.extend(s.runs.iter().map(|r| (r.tick, 0, r.uid.unwrap_or(0))));
        order.extend(s.ack_runs.iter().map(|r| (r.tick, 1, r.uid)));
        order.extend(s.emissions.iter().map(|r| (r.t0, 2, r.uid)));
        order.extend(s.regs.iter().map(|r| (r.t0, 3, r.token.unwrap_or(u64::MAX))));
        order.extend(self.wire.pkts.iter().map(|r| (r.tick, 4, 0)));
        order.extend(self.wire.pongs.iter().map(|t| (*t, 5, 0)));
        order.extend(self.pings.iter().map(|t| (*t, 6, 0)));
        order.extend(self.items.iter().filter_map(|i| i.first).map(|t| (t, 7, 0)));
        order.sort_unstable();
        order
    }

    pub fn history_hash(&self) -> Vec<(u8, u64)> {
        let s = self.ctx.sh.clone();
        let s = s.lock().unwrap_or_else(|e| e.into_inner());
        self.order(&s).iter().map(|x| (x.1, x.2)).collect()
    }

    /// Statistics and the identity of the session.
    pub fn account(&mut self, c: &mut Case) {
        self.account_as(c, "")
    }

    pub fn account_as(&mut self, c: &mut Case, tag: &str) {
        let s = self.ctx.sh.clone();
        let s = s.lock().unwrap_or_else(|e| e.into_inner());
        c.add("events_sent", self.items.iter().filter(|i| i.kind == IKind::Event).count() as u64);
        c.add("binary_items_sent", self.items.iter().filter(|i| i.binary).count() as u64);
        c.add("acks_sent", self.items.iter().filter(|i| matches!(i.kind, IKind::Ack(_))).count() as u64);
        c.add("callbacks_run", s.runs.len() as u64);
        c.add("ack_callbacks_run", s.ack_runs.len() as u64);
        c.add("reply_handles_given", s.runs.iter().filter(|r| r.handle).count() as u64);
        c.add("registration_changes", s.regs.len() as u64);
        c.add("deliveries_during_a_registration_change", self.raced);
        c.add("operations_inside_callbacks", s.ops_in_callbacks);
        c.add("operations_skipped", s.ops_skipped);
        c.add("packets_emitted", s.emissions.len() as u64);
        c.add("replies_emitted", s.emissions.iter().filter(|e| matches!(e.kind, EKind::Reply(_))).count() as u64);
        c.add("packets_received_by_server", self.wire.pkts.len() as u64);
        c.add("pings", self.pings.len() as u64);
        c.add("pongs", self.wire.pongs.len() as u64);
        c.add("ws_pings", self.ws_pings.len() as u64);
        c.add("task_polls", self.w.exec.polls());
        c.add("scheduler_steps", self.w.steps);
        let n = self.w.net.lock();
        c.add("bytes_to_client", n.stats.bytes_in);
        c.add("bytes_from_client", n.stats.bytes_out);
        c.add("writes_blocked", n.stats.write_pending);
        drop(n);
        // two sessions are the same when the same things happened in the same order
        let order = self.order(&s);
        let shape: Vec<(u8, u64)> = order.iter().map(|x| (x.1, x.2)).collect();
        c.key(&(tag, &shape), shape.len() >= 6);
        c.max("max_history_length", shape.len() as u64);
        c.sample(|| {
            let kinds: String = order.iter().map(|x| b"cAeRwpPs"[x.1 as usize] as char).collect();
            format!("{} records (c callback, A ack callback, e emit, R registration, w packet at server, p pong, P ping, s server packet): {}", kinds.len(), kinds)
        });
    }
}

/// Handlers that are registered for an event at some instant of [from, to].
pub fn allowed(regs: &[Reg], ns: &str, name: &str, from: u64, to: u64) -> Vec<Option<u64>> {
    let mut ev: Option<u64> = None;
    let mut fb: Option<u64> = None;
    let mut out = Vec::new();
    let mut push = |x: Option<u64>| {
        if !out.contains(&x) {
            out.push(x)
        }
    };
    let mut open = false;
    for r in regs.iter().filter(|r| r.ns == ns && r.name.as_deref().map_or(true, |n| n == name)) {
        if r.t0 > to {
            break;
        }
        // the state before this change held until t1 at the latest
        if r.t1 > from {
            push(ev.or(fb));
        }
        match r.name {
            Some(_) => ev = r.token,
            None => fb = r.token,
        }
        open = true;
    }
    let _ = open;
    push(ev.or(fb));
    out
}

pub fn same_args(want: &[J], got: &[Result<Value, String>]) -> Result<(), String> {
    if want.len() != got.len() {
        return Err(format!("{} arguments delivered, {} sent: {:.300?}", got.len(), want.len(), got));
    }
    for (i, (j, v)) in want.iter().zip(got).enumerate() {
        match v {
            Ok(v) if jsonref::same(j, v) => {}
            other => return Err(format!("argument {} is {:.300?}, sent {:.300?}", i, other, j)),
        }
    }
    Ok(())
}

/// What a raw packet has in front of it.
pub fn raw_extra(uid: u64) -> Option<Msg> {
    match uid % 16 {
        1 => Some(Msg::Text(String::new())),
        5 => Some(Msg::Binary(Vec::new())),
        9 => Some(Msg::Ping(uid.to_be_bytes().to_vec())),
        _ => None,
    }
}

pub fn same_emission(e: &Emission, w: &WirePkt) -> Result<(), String> {
    let extra = match e.kind {
        EKind::Raw => raw_extra(e.uid),
        _ => None,
    };
    if extra != w.extra {
        return Err(format!("message {:?} before it, queued with {:?}", w.extra, extra));
    }
    let kind = match e.kind {
        EKind::Reply(_) => Kind::Ack,
        _ => Kind::Event,
    };
    if kind != w.kind {
        return Err("type".into());
    }
    if e.ns != w.ns {
        return Err("namespace".into());
    }
    if e.binary != w.binary {
        return Err("binary".into());
    }
    match e.kind {
        EKind::Reply(id) => {
            if w.id != Some(id) {
                return Err("id".into());
            }
        }
        EKind::Event if e.ack => {
            if w.id.is_none() {
                return Err("no id".into());
            }
        }
        _ => {
            if w.id.is_some() {
                return Err("unwanted id".into());
            }
        }
    }
    if e.args.len() != w.args.len() {
        return Err(format!("{} arguments", w.args.len()));
    }
    for (i, (a, b)) in e.args.iter().zip(&w.args).enumerate() {
        if !jsonref::same(a, &b.value()) {
            return Err(format!("argument {}", i));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the basic workload

/// A healthy session, checked as a whole once everything has come to rest.
pub fn healthy(c: &mut Case, rng: &mut Rng, p: Profile) -> Result<Session, Fail> {
    crate::runner::set_logging(rng.chance(1, 8));
    let steps = rng.range(p.steps.0, p.steps.1);
    let mut s = Session::new(rng, p)?;
    s.initial_registrations();
    for _ in 0..steps {
        s.act()?;
        if s.rng.chance(1, 20) {
            s.settle()?;
            s.check_live();
        }
    }
    s.finish(c)?;
    Ok(s)
}

impl Session {
  /// Come to rest and check the session as a whole.
  pub fn finish(&mut self, c: &mut Case) -> Result<(), Fail> {
    let s = self;
    s.settle()?;
    s.check_live();
    let n = s.items.len();
    s.check_events(n, n);
    s.check_acks(n, n);
    let e = s.ctx.sh().emissions.len();
    s.check_wire(e);
    s.check_heartbeat();
    s.account(c);
    if s.w.released() {
        c.count("sessions_that_ended_by_themselves");
    }
    Ok(())
  }
}

fn session(c: &mut Case, rng: &mut Rng, prop: &'static str) -> Verdict {
    let mut s = healthy(c, rng, Profile::of(prop))?;
    s.drop_client();
    s.check_released("after the client was dropped")?;
    s.verdict(c)
}

pub fn c11(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C11")
}
pub fn c12(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C12")
}
pub fn c13(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C13")
}
pub fn c14(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C14")
}
pub fn c15(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C15")
}
pub fn c16(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C16")
}
pub fn c17(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C17")
}
pub fn c18(c: &mut Case, rng: &mut Rng) -> Verdict {
    session(c, rng, "C18")
}
