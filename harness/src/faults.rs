//! Sessions that end: by a failure (C21, C14, C18), a panicking callback (C13), a drop (C22) or a
//! close (C20).

use crate::core::{Case, Fail, Verdict};
use crate::fail;
use crate::jsonref::J;
use crate::proto::{Kind, Pkt};
use crate::rng::Rng;
use crate::session::*;
use crate::sim::*;
use crate::ws::Msg;
use socket_io_client::{Client, Error};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

/// The session up to some arbitrary moment.
fn begin(c: &mut Case, rng: &mut Rng, p: Profile) -> Result<Session, Fail> {
    let _ = c;
    crate::runner::set_logging(rng.chance(1, 8));
    let steps = rng.range(p.steps.0, p.steps.1);
    let mut s = Session::new(rng, p)?;
    s.initial_registrations();
    for _ in 0..steps {
        s.act()?;
    }
    Ok(s)
}

/// Many emissions that nobody has time to send.
fn burst(c: &mut Case, s: &mut Session) {
    let n = match s.rng.below(4) {
        0 => s.rng.range(10, 100),
        1 | 2 => s.rng.range(100, 700),
        _ => s.rng.range(700, 3_000),
    };
    let n = if crate::runner::sanitized() { n.min(100) } else { n };
    let big = std::mem::replace(&mut s.p.big_pct, 0);
    for _ in 0..n {
        let op = s.gen_emit();
        s.ctx.op(&op);
    }
    s.p.big_pct = big;
    c.count("bursts");
    c.max("max_burst", n as u64);
}

/// In what way the transport fails.
fn how_it_fails(s: &mut Session) -> String {
    use std::io::ErrorKind::*;
    let kind = *s.rng.pick(&[ConnectionReset, ConnectionReset, BrokenPipe, ConnectionAborted, UnexpectedEof, TimedOut, Other, InvalidData, NotConnected]);
    let once = s.rng.chance(1, 3);
    let zero = s.rng.chance(1, 5);
    let mut n = s.w.net.lock();
    n.err_kind = kind;
    n.err_once = once;
    n.write_zero = zero;
    format!("{:?}{}", kind, if once { " once" } else { "" })
}

// ---------------------------------------------------------------- failures

fn frame(b0: u8, b1: u8, rest: &[u8]) -> Msg {
    let mut v = vec![b0, b1];
    v.extend_from_slice(rest);
    Msg::Binary(v)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    /// the library's own protocols
    Protocol,
    /// WebSocket or below
    Transport,
}

/// Something no correct server sends, as (message, written raw).
fn violation(s: &mut Session, mid_packet: bool) -> (String, Vec<(Msg, bool)>, Class) {
    let rng = &mut s.rng;
    let t = |x: &str| vec![(Msg::Text(x.into()), false)];
    let texts_any = ["", "x", "5", "7abc", "-", "０", "0{\"sid\":\"b\",\"pingTimeout\":1,\"pingInterval\":1}", "0", "6"];
    let texts_idle = [
        "4", "49", "47[]", "4x", "42", "42{}", "42[", "42[]", "42[\"a\"", "42[\"a\",]", "42[\"a\"]x", "42\"a\"", "42,[\"a\"]", "40[1]", "41{}", "43[1]", "43",
        "43/n,[1]", "42999999999999999999999[\"a\"]", "45[\"a\"]",
        "4599999999999999999999-[\"a\"]", "46[1]", "421-[\"a\"]", "42/n[\"a\"]", "42[\"\\ud800\"]", "42[\"a\" 1]", "42[\"a\\x\"]",
    ];
    // may be refused as late as with the last attachment
    let texts_binary = [
        "451-[\"a\",{\"_placeholder\":true,\"num\":0}",
        "461-[{\"_placeholder\":true,\"num\":0}]",
        "451-{\"_placeholder\":true,\"num\":0}",
        "451-[]",
        "451-[1,{\"_placeholder\":true,\"num\":0}]",
        "451-[[\"a\"],{\"_placeholder\":true,\"num\":0}]",
        "451-[null,{\"_placeholder\":true,\"num\":0}]",
        "451-",
        "4511[\"a\",{\"_placeholder\":true,\"num\":0}]",
    ];
    let k = rng.below(if mid_packet { 12 } else { 21 });
    if k == 20 {
        let x = *rng.pick(&texts_binary);
        return (format!("text {:?} with its attachment", x), vec![(Msg::Text(x.into()), false), (Msg::Binary(vec![4, 1, 2]), false)], Class::Protocol);
    }
    let ack_first = !mid_packet;
    match k {
        0..=2 => {
            let x = *rng.pick(&texts_any);
            (format!("text {:?}", x), t(x), Class::Protocol)
        }
        3 => {
            let b = *rng.pick(&[&[][..], &[0][..], &[5, 1, 2][..], &[b'4', b'2'][..], &[255][..]]);
            (format!("binary message {:?}", b), vec![(Msg::Binary(b.to_vec()), false)], Class::Protocol)
        }
        4 => ("second open after close".into(), vec![(Msg::Text("1".into()), false), (Msg::Text(rng.pick(&["2", "3", "1", "42[\"a\"]", "0{}"]).to_string()), false)], Class::Protocol),
        5 => ("reserved bit".into(), vec![(frame(0xc1, 2, b"42"), true)], Class::Transport),
        6 => ("masked frame".into(), vec![(frame(0x81, 0x81, &[0, 0, 0, 0, b'2']), true)], Class::Transport),
        7 => ("opcode 3".into(), vec![(frame(0x83, 1, b"x"), true)], Class::Transport),
        8 => match rng.below(4) {
            0 => ("fragmented ping".into(), vec![(frame(0x09, 1, b"x"), true)], Class::Transport),
            1 => {
                let mut v = vec![0x89, 126, 0, 200];
                v.extend(vec![7; 200]);
                ("oversized ping".into(), vec![(Msg::Binary(v), true)], Class::Transport)
            }
            2 => ("opcode 11".into(), vec![(frame(0x8b, 0, b""), true)], Class::Transport),
            _ => ("frame of 2^40 bytes".into(), vec![(Msg::Binary(vec![0x81, 127, 0, 0, 1, 0, 0, 0, 0, 0, b'4']), true)], Class::Transport),
        },
        9 => ("text that is not UTF-8".into(), vec![(frame(0x81, 5, &[b'4', b'2', 0xc3, 0x28, b']']), true)], Class::Transport),
        10 => ("continuation without a start".into(), vec![(frame(0x80, 1, b"x"), true)], Class::Transport),
        11 => ("text inside a fragmented text".into(), vec![(frame(0x01, 2, b"42"), true), (frame(0x81, 1, b"2"), true)], Class::Transport),
        12 if ack_first => {
            let d = s.rng.range(0, 6);
            let b = s.rng.bytes(d);
            let mut v = vec![4];
            v.extend(b);
            ("binary message that no packet needs".into(), vec![(Msg::Binary(v), false)], Class::Protocol)
        }
        13 if ack_first => {
            s.take_inbox();
            let ns = s.a_ns();
            let id = 1_000_000 + s.rng.below(1000) as u64;
            if s.rng.chance(1, 2) {
                // the same, complete with its attachments
                let ns = if ns == "/" { String::new() } else { format!("{},", ns) };
                let n = s.rng.range(1, 3);
                let args: Vec<String> = (0..n).map(|i| format!("{{\"_placeholder\":true,\"num\":{}}}", i)).collect();
                let mut v = vec![(Msg::Text(format!("46{}-{}{}[{}]", n, ns, id, args.join(","))), false)];
                v.extend((0..n).map(|i| (Msg::Binary(vec![4, i as u8]), false)));
                return ("binary acknowledgement of nothing".into(), v, Class::Protocol);
            }
            let text = proto_text(s, Pkt { kind: Kind::Ack, binary: false, ns, id: Some(id), args: vec![J::U(1)] });
            ("acknowledgement of nothing".into(), t(&text), Class::Protocol)
        }
        _ => {
            let x = *rng.pick(&texts_idle);
            (format!("text {:?}", x), t(x), Class::Protocol)
        }
    }
}

fn proto_text(s: &mut Session, p: Pkt) -> String {
    let st = crate::jsonref::Style { ws: s.rng.chance(1, 3), esc: false };
    let (text, _) = crate::proto::encode(&p, &mut s.rng, st);
    format!("4{}", text)
}

/// Drive `close()` to its end, letting time pass up to `until`.
fn drive_close(s: &mut Session, until: u64) -> Result<Option<std::thread::Result<Result<(), Error>>>, Fail> {
    let c = s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()).take();
    let mut c = match c {
        Some(c) => c,
        None => return Ok(None),
    };
    let r = {
        let mut f = Box::pin(CatchPanic(Box::pin(c.close())));
        match s.w.drive_timed(&mut f, until)? {
            Driven::Done(r) => Some(r),
            Driven::Stuck => None,
        }
    };
    *s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()) = Some(c);
    Ok(r)
}

struct CatchPanic<'a, T>(Pin<Box<dyn Future<Output = T> + 'a>>);
impl<'a, T> Future for CatchPanic<'a, T> {
    type Output = std::thread::Result<T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match catch_unwind(AssertUnwindSafe(|| self.0.as_mut().poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)),
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}

/// Things an application that has not noticed yet might do.
fn harmless(s: &mut Session) -> Result<(), Fail> {
    for _ in 0..s.rng.range(1, 6) {
        let op = s.gen_op(false);
        let ctx = s.ctx.clone();
        if let Err(e) = catch_unwind(AssertUnwindSafe(|| ctx.op(&op))) {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            crate::core::take_panics();
            s.problem(&["C21", "C13"], format!("{:?} after the session ended panics: {}", op, m));
        }
        if s.rng.chance(1, 2) {
            s.w.settle()?;
        }
    }
    while s.reply_later()? {}
    s.w.settle()?;
    Ok(())
}

fn check_close_fails(s: &mut Session, class: Option<Class>, what: &str) -> Result<(), Fail> {
    let t0 = futures_timer::virtual_now();
    let r = drive_close(s, t0 + 11 * SEC)?;
    let took = futures_timer::virtual_now() - t0;
    match r {
        None => s.problem(&["C21", "C20"], format!("{}: close never resolves", what)),
        Some(Err(_)) => s.problem(&["C21"], format!("{}: close panics", what)),
        Some(Ok(Ok(()))) => s.problem(&["C21"], format!("{}: close succeeds although the session failed", what)),
        Some(Ok(Err(e))) => {
            let fits = match (&e, class) {
                (Error::ProcessingError(_), Some(Class::Protocol)) => true,
                (Error::WebsocketError(_), Some(Class::Transport)) => true,
                (Error::ProcessingError(_), None) | (Error::WebsocketError(_), None) => true,
                _ => false,
            };
            if !fits {
                s.problem(&["C21"], format!("{}: close reports {:?}", what, e));
            }
            if took > 0 {
                s.problem(&["C21"], format!("{}: close reports the failure only after {} ns", what, took));
            }
        }
    }
    second_close(s)
}

pub fn second_close(s: &mut Session) -> Result<(), Fail> {
    let t0 = futures_timer::virtual_now();
    match drive_close(s, t0 + 11 * SEC)? {
        Some(Ok(Err(Error::AlreadyClosed))) => {}
        other => s.problem(&["C20", "C21"], format!("closing again gives {:?}", other.map(|r| r.map_err(|_| "panic")))),
    }
    Ok(())
}

pub fn c21(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = Profile::of("C21");
    p.steps = (0, 60);
    p.reg_quiet = rng.chance(1, 2);
    let mut s = begin(c, rng, p)?;
    if s.rng.chance(1, 2) {
        s.settle()?;
    }
    let kind = s.rng.below(11);
    if kind == 10 {
        return c21_drain(c, s);
    }
    let how = how_it_fails(&mut s);
    let what;
    let mut class = None;
    let mut must;
    let may;
    match kind {
        0..=5 => {
            // a protocol violation behind everything queued so far
            let mut mid = false;
            must = s.items.len();
            if s.rng.chance(1, 4) {
                // in the middle of a packet
                s.p.binary_pct = 100;
                for _ in 0..20 {
                    let i = s.queue_event();
                    must = i;
                    let n = s.items[i].nmsgs;
                    if n > 1 {
                        let drop = s.rng.range(1, n - 1);
                        for _ in 0..drop {
                            s.w.outq.pop_back();
                        }
                        mid = true;
                        break;
                    }
                    must = s.items.len();
                }
            }
            may = must;
            let (d, msgs, cl) = violation(&mut s, mid);
            class = Some(cl);
            what = if mid { format!("{} between a packet and its attachments", d) } else { d };
            for (m, raw) in msgs {
                s.w.outq.push_back((m, if raw { RAW } else { u64::MAX }));
            }
            for _ in 0..s.rng.below(4) {
                s.queue_event();
                s.take_inbox();
                s.queue_ack();
            }
        }
        6 | 7 => {
            // the transport fails after some byte
            let flush = s.rng.chance(1, 2);
            if flush {
                while s.w.send_next() {}
            }
            let (written, left) = {
                let n = s.w.net.lock();
                (n.written, n.inflight.len() + n.ready.len())
            };
            let k = if left == 0 || s.rng.chance(1, 3) { left } else { s.rng.range(0, left) };
            let at = written - (left - k) as u64;
            if s.rng.chance(1, 2) {
                what = format!("read error {} after {} more bytes of {}", how, k, left);
                s.w.net.lock().read_err_after = Some(k as u64);
                if k == 0 {
                    s.w.net.fail_reads_now();
                }
            } else {
                what = format!("end of stream after {} more bytes of {}", k, left);
                let mut n = s.w.net.lock();
                // cut the stream
                let mut cut = left - k;
                while cut > 0 && n.inflight.pop_back().is_some() {
                    cut -= 1;
                }
                while cut > 0 && n.ready.pop_back().is_some() {
                    cut -= 1;
                }
                n.inflight_eof = true;
            }
            class = Some(Class::Transport);
            s.mark_sent();
            must = s.items.iter().position(|i| i.last.is_none() || i.end > at).unwrap_or(s.items.len());
            may = must;
            c.count("transport_read_failures");
        }
        8 => {
            // writing fails
            s.settle()?;
            must = s.items.len();
            for _ in 0..s.rng.below(3) {
                s.queue_event();
            }
            what = format!("write error {}", how);
            if s.rng.chance(1, 2) {
                s.w.net.break_writes();
            } else {
                let n = s.rng.below(60) as u64;
                s.w.net.lock().write_err_after = Some(n);
            }
            let op = Op::Raw { ns: "/".into(), binary: false, args: vec![J::S("x".repeat(100))] };
            s.ctx.op(&op);
            class = Some(Class::Transport);
            may = s.items.len();
            c.count("transport_write_failures");
        }
        _ => {
            // a close frame of the server that the transport does not survive
            must = s.items.len();
            may = must;
            what = "close frame, then a reset".to_string();
            while s.w.send_next() {}
            let d = s.rng.pick(&[&[][..], &[3, 232][..], &[3, 233, b'b', b'y', b'e'][..]]).to_vec();
            let m = Msg::Close(d);
            s.w.srv.send(&m, &mut s.w.rng.clone());
            let left = {
                let n = s.w.net.lock();
                (n.inflight.len() + n.ready.len()) as u64
            };
            s.w.net.lock().read_err_after = Some(left);
        }
    }
    c.trace(|| format!("failure: {}; must {} may {} of {}", what, must, may, s.items.len()));
    s.settle()?;
    s.mark_sent();
    must = must.min(s.items.len());
    s.check_events(must, may);
    s.check_acks(must, may);
    s.check_wire(0);
    if kind == 9 {
        // the reset may be seen as the end of an orderly close or not
        s.check_gone(&["C21"], &what)?;
        harmless(&mut s)?;
        let t0 = futures_timer::virtual_now();
        match drive_close(&mut s, t0 + 11 * SEC)? {
            Some(Ok(_)) => {}
            other => s.problem(&["C21"], format!("{}: close gives {:?}", what, other.map(|r| r.map_err(|_| "panic")))),
        }
        second_close(&mut s)?;
    } else {
        let order = s.rng.chance(1, 2);
        if order {
            s.check_gone(&["C21"], &what)?;
            harmless(&mut s)?;
            s.w.settle()?;
        }
        if kind == 8 {
            check_close_fails(&mut s, Some(Class::Transport), &what)?;
        } else {
            check_close_fails(&mut s, class, &what)?;
        }
        if !order {
            harmless(&mut s)?;
            s.check_gone(&["C21"], &what)?;
        }
    }
    s.account_as(c, &what);
    c.count(if class == Some(Class::Protocol) { "protocol_violations" } else { "transport_failures" });
    s.drop_client();
    s.check_released("after a failed session")?;
    s.verdict(c)
}

/// Writing fails while the client, being closed, sends what is left.
fn c21_drain(c: &mut Case, mut s: Session) -> Verdict {
    s.settle()?;
    let must = s.items.len();
    let how = how_it_fails(&mut s);
    for _ in 0..s.rng.below(3) {
        s.queue_event();
    }
    if s.rng.chance(1, 4) {
        burst(c, &mut s);
    } else {
        for _ in 0..s.rng.below(5) {
            let op = s.gen_emit();
            s.ctx.op(&op);
        }
    }
    let op = Op::Raw { ns: "/".into(), binary: false, args: vec![J::S("x".repeat(100))] };
    s.ctx.op(&op);
    if s.rng.chance(1, 2) {
        s.w.net.break_writes();
    } else {
        let n = s.rng.below(100) as u64;
        s.w.net.lock().write_err_after = Some(n);
    }
    let what = format!("write error {} while closing", how);
    check_close_fails(&mut s, Some(Class::Transport), &what)?;
    s.settle()?;
    let may = s.items.len();
    s.check_events(must, may);
    s.check_acks(must, may);
    s.check_wire(0);
    s.check_gone(&["C21"], &what)?;
    harmless(&mut s)?;
    s.account_as(c, "write error while closing");
    c.count("transport_failures_while_closing");
    s.drop_client();
    s.check_released("after a failed close")?;
    s.verdict(c)
}

/// Acknowledgements nobody waits for.
pub fn c14_unmatched(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = Profile::of("C14");
    p.steps = (5, 60);
    let mut s = begin(c, rng, p)?;
    s.settle()?;
    s.take_inbox();
    let must = s.items.len();
    let acked: Vec<(String, u64)> = s.items.iter().filter(|i| matches!(i.kind, IKind::Ack(_))).map(|i| (i.ns.clone(), i.id.unwrap_or(0))).collect();
    let waiting = s.outstanding.clone();
    let free = |s: &Session, ns: &str, id: u64| !s.outstanding.iter().any(|o| o.0 == ns && o.1 == id);
    let (ns, id, what) = match s.rng.below(4) {
        0 if !acked.is_empty() => {
            let (ns, id) = s.rng.pick(&acked).clone();
            (ns, id, "a second time")
        }
        1 if !waiting.is_empty() => {
            let (ns, id, _) = s.rng.pick(&waiting).clone();
            let other = s.rng.pick(&["/", "/other", "/nsp", "/n", "/nsp/", ""]).to_string();
            let other = if other == ns || other.is_empty() { format!("{}x", ns) } else { other };
            (other, id, "in another namespace")
        }
        2 if !waiting.is_empty() => {
            let (ns, id, _) = s.rng.pick(&waiting).clone();
            let d = *s.rng.pick(&[1u64, 1 << 8, 1 << 16, 1 << 32, 1 << 63, u64::MAX]);
            (ns, id.wrapping_add(d), "with a similar id")
        }
        _ => {
            let ns = s.a_ns();
            let id = *s.rng.pick(&[u64::MAX, 1 << 32, 1 << 53, 12345]);
            (ns, id, "for an id never used")
        }
    };
    if !free(&s, &ns, id) {
        return Ok(());
    }
    c.count(&format!("acknowledgements {}", what));
    let binary = s.rng.chance(1, 3);
    let args = gen_args(&mut s.rng, binary, 0);
    s.queue(IKind::Other, Pkt { kind: Kind::Ack, binary, ns, id: Some(id), args }, 0, String::new());
    s.settle()?;
    let n = s.items.len();
    s.check_events(must, n);
    s.check_acks(must, n);
    s.check_wire(0);
    harmless(&mut s)?;
    let n = s.items.len();
    s.check_acks(must, n);
    s.account(c);
    s.drop_client();
    s.check_released("after an acknowledgement of nothing")?;
    s.verdict(c)
}

/// Many events that await their acknowledgement.
pub fn c14_many(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = Profile::of("C14");
    p.steps = (1, 10);
    p.big_pct = 0;
    let mut s = Session::new(rng, p)?;
    // more than fit into 16 bits, now and then
    let n = if c.thorough || s.rng.chance(1, 8) { s.rng.range(65_600, if c.thorough { 140_000 } else { 66_500 }) } else { s.rng.range(500, 6_000) };
    for i in 0..n {
        let ns = s.a_ns();
        s.ctx.op(&Op::Emit { ns, name: "q".into(), binary: false, ack: true, args: vec![], poison: false, abandon: false });
        if i % 500 == 0 {
            s.settle()?;
        }
    }
    s.settle()?;
    let must = s.ctx.sh().emissions.len();
    s.check_wire(must);
    let first = (s.outstanding.first().cloned(), s.outstanding.last().cloned());
    let mut k = 0;
    while k < 400 && s.queue_ack() {
        k += 1;
        if s.rng.chance(1, 10) {
            let op = s.gen_emit();
            s.ctx.op(&op);
        }
    }
    for o in [first.0, first.1].iter().flatten() {
        if s.outstanding.contains(o) {
            *s.acked.entry(o.2).or_insert(0) += 1;
            s.outstanding.retain(|x| x != o);
            s.awaited.remove(&(o.0.clone(), o.1));
            s.queue(IKind::Ack(o.2), Pkt { kind: Kind::Ack, binary: false, ns: o.0.clone(), id: Some(o.1), args: vec![] }, o.2, String::new());
        }
    }
    s.settle()?;
    let all = s.items.len();
    s.check_acks(all, all);
    s.check_events(all, all);
    c.add("awaiting_at_once", n as u64);
    s.account(c);
    s.drop_client();
    s.check_released("with many outstanding acknowledgements")?;
    s.verdict(c)
}

/// Sessions in which something happens more often than fits into 8 or 16 bits.
fn long(c: &mut Case, rng: &mut Rng, prop: &'static str) -> Verdict {
    crate::runner::set_logging(false);
    let mut p = Profile::of(prop);
    p.big_pct = 0;
    p.reg_quiet = true;
    p.thread_pct = 0;
    match prop {
        "C11" => {
            p.plan_pct = 0;
            p.binary_pct = 10;
        }
        "C12" => p.plan_pct = 0,
        "C15" => {
            p.id_pct = 90;
            p.plan_pct = 95;
        }
        "C18" => p.binary_pct = 95,
        _ => {}
    }
    let n = if prop == "C12" {
        rng.range(300, 2_500)
    } else if rng.chance(1, 6) && !crate::runner::sanitized() {
        rng.range(65_600, if c.thorough { 140_000 } else { 66_300 })
    } else {
        rng.range(300, 5_000)
    };
    let mut s = Session::new(rng, p)?;
    s.w.net.lock().cfg = crate::net::NetCfg::smooth();
    s.w.srv.fragment = false;
    s.initial_registrations();
    // with the whole session as one batch nothing is sent before the end
    let batch = *s.rng.pick(&[1usize, 7, 64, 300, 1500, usize::MAX]);
    let many = prop == "C12" && s.rng.chance(1, 3);
    let mut last = false;
    if prop == "C16" && batch > 300 && s.rng.chance(1, 2) {
        // closing is what gets everything sent
        last = true;
    }
    for i in 0..n {
        match prop {
            "C11" => {
                s.queue_event();
            }
            "C12" => {
                if i % 3 == 0 {
                    s.settle()?;
                    let op = s.gen_op(true);
                    s.ctx.op(&op);
                }
                if many && i % 50 == 0 {
                    for k in 0..40 {
                        let ns = (*s.rng.pick(&["/", "/", "/", "/filler"])).to_string();
                        let op = Op::Set { ns, name: Some(format!("filler {}", i + k)), reuse: false };
                        s.ctx.op(&op);
                    }
                }
                s.queue_event();
            }
            "C14" => {
                let op = s.gen_emit();
                s.ctx.op(&op);
                s.take_inbox();
                s.queue_ack();
                s.queue_ack();
            }
            "C15" => {
                s.queue_event();
                if i % 2 == 0 {
                    s.reply_later()?;
                }
            }
            "C16" => {
                let op = s.gen_emit();
                s.ctx.op(&op);
            }
            "C17" => {
                s.ping();
                if i % 16 == 0 {
                    s.wsping();
                }
            }
            _ => {
                s.queue_event();
            }
        }
        if i % batch == 0 {
            s.settle()?;
        }
    }
    c.max("max_repetitions", n as u64);
    if matches!(prop, "C15" | "C16") && s.rng.chance(1, 2) {
        // a great many replies at once, long after the events
        s.settle()?;
        s.p.id_pct = 90;
        s.p.plan_pct = 100;
        let m = s.rng.range(300, 3_000);
        for i in 0..m {
            s.queue_event();
            if i % 512 == 511 {
                s.settle()?;
            }
        }
        s.settle()?;
        let mut k = 0;
        while s.reply_later()? {
            k += 1;
        }
        c.max("max_replies_at_once", k);
    }
    if last {
        let e = s.ctx.sh().emissions.len();
        let t0 = futures_timer::virtual_now();
        let r = drive_close(&mut s, t0 + 9 * SEC)?;
        if !matches!(r, Some(Ok(Ok(())))) {
            s.problem(&["C20"], format!("closing after {} emissions gives {:?}", n, r.map(|r| r.map_err(|_| "panic"))));
        }
        s.settle()?;
        s.check_wire(e);
        s.account(c);
        c.count("closed_with_everything_unsent");
        s.drop_client();
        s.check_released("after a long session")?;
        return s.verdict(c);
    }
    s.finish(c)?;
    s.drop_client();
    s.check_released("after a long session")?;
    s.verdict(c)
}

pub fn c11_long(c: &mut Case, rng: &mut Rng) -> Verdict {
    long(c, rng, "C11")
}
pub fn c12_long(c: &mut Case, rng: &mut Rng) -> Verdict {
    long(c, rng, "C12")
}
pub fn c14_long(c: &mut Case, rng: &mut Rng) -> Verdict {
    long(c, rng, "C14")
}
pub fn c15_long(c: &mut Case, rng: &mut Rng) -> Verdict {
    long(c, rng, "C15")
}
pub fn c16_long(c: &mut Case, rng: &mut Rng) -> Verdict {
    long(c, rng, "C16")
}
pub fn c17_long(c: &mut Case, rng: &mut Rng) -> Verdict {
    long(c, rng, "C17")
}
pub fn c18_long(c: &mut Case, rng: &mut Rng) -> Verdict {
    long(c, rng, "C18")
}

/// Callbacks that panic.
pub fn c13_panic(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = Profile::of("C13");
    p.steps = (5, 60);
    p.panic_pct = 15;
    p.event = 20;
    let mut s = begin(c, rng, p)?;
    // make it happen
    for _ in 0..6 {
        s.p.panic_pct = 60;
        s.queue_event();
    }
    s.settle()?;
    let n = s.items.len();
    s.check_events(0, n);
    let over = s.w.released();
    c.count(if over { "sessions_ended_by_a_panic" } else { "sessions_without_a_panic" });
    harmless(&mut s)?;
    if !over {
        // the registry must still work for the callbacks that remain
        s.settle()?;
    } else {
        s.check_gone(&["C13"], "after a callback panicked")?;
        harmless(&mut s)?;
        let t0 = futures_timer::virtual_now();
        match drive_close(&mut s, t0 + 11 * SEC)? {
            Some(Err(_)) => c.count("close_reports_the_panic_by_panicking"),
            Some(Ok(Ok(()))) => s.problem(&["C13"], "close succeeds although a callback panicked".into()),
            Some(Ok(Err(_))) => c.count("close_reports_the_panic"),
            None => s.problem(&["C13"], "close never resolves after a callback panicked".into()),
        }
    }
    s.account(c);
    s.drop_client();
    s.check_released("after a callback panicked")?;
    s.verdict(c)
}

/// Text where an attachment is due.
pub fn c18_text(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = Profile::of("C18");
    p.steps = (0, 40);
    p.reg_quiet = true;
    let mut s = begin(c, rng, p)?;
    s.settle()?;
    let must = s.items.len();
    s.p.binary_pct = 100;
    let mut n = 0;
    for _ in 0..50 {
        let i = if s.rng.chance(1, 4) {
            s.take_inbox();
            if !s.queue_ack() {
                s.queue_event();
            }
            s.items.len() - 1
        } else {
            s.queue_event()
        };
        n = s.items[i].nmsgs - 1;
        if n > 0 {
            break;
        }
        s.settle()?;
    }
    if n == 0 {
        return Ok(());
    }
    let it = s.items.len() - 1;
    let must = must.max(it);
    // replace one of the attachments by a text message
    let at = s.w.outq.len() - 1 - s.rng.below(n);
    let ns = s.a_ns();
    let name = s.a_name();
    let bait = s.ctx.uid();
    let text = match s.rng.below(5) {
        0 => "4".to_string(),
        1 => "4x".to_string(),
        2 => "4{\"_placeholder\":true,\"num\":0}".to_string(),
        3 => format!("451-[\"a\",{},{{\"_placeholder\":true,\"num\":0}}]", bait),
        _ => proto_text(&mut s, Pkt { kind: Kind::Event, binary: false, ns, id: None, args: vec![J::S(name), J::U(bait)] }),
    };
    let (old, meta) = s.w.outq[at].clone();
    s.w.outq[at] = (Msg::Text(text.clone()), meta);
    if s.rng.chance(1, 3) {
        // the attachment itself comes afterwards
        s.w.outq.insert(at + 1, (old, meta));
        s.items[it].nmsgs += 1;
    }
    for _ in 0..s.rng.below(3) {
        s.queue_event();
    }
    s.settle()?;
    let all = s.items.len();
    let _ = all;
    // whatever is built from the text must not be delivered
    s.check_events(must, it);
    s.check_acks(must, it);
    if s.ctx.sh().runs.iter().any(|r| r.uid == Some(bait)) {
        s.problem(&["C18"], "a text message where an attachment was due is delivered as a packet".into());
    }
    c.count("texts_in_place_of_attachments");
    s.account(c);
    s.drop_client();
    s.check_released("after a text in place of an attachment")?;
    s.verdict(c)
}

// ---------------------------------------------------------------- dropping

pub fn check_silent_after_drop(s: &mut Session, what: &str) {
    let sh = s.ctx.sh.clone();
    let sh = sh.lock().unwrap_or_else(|e| e.into_inner());
    if let Some((tick, poll)) = sh.dropped {
        for r in &sh.runs {
            if r.tick > tick && r.poll > poll {
                s.problems.push((vec!["C22"], format!("{}: event {:?} runs a callback after the drop", what, r.uid)));
            }
        }
        for r in &sh.ack_runs {
            if r.tick > tick && r.poll > poll {
                s.problems.push((vec!["C22"], format!("{}: the callback of event {} runs after the drop", what, r.uid)));
            }
        }
    }
}

pub fn c22(c: &mut Case, rng: &mut Rng) -> Verdict {
    match rng.below(8) {
        0 => return c22_connecting(c, rng),
        1 => return c22_closing(c, rng),
        _ => {}
    }
    let mut p = Profile::of("C22");
    p.steps = (0, 80);
    let mut s = begin(c, rng, p)?;
    if s.rng.chance(1, 3) {
        s.settle()?;
        s.check_live();
    }
    if s.rng.chance(1, 4) {
        s.w.stall = true;
    }
    // a sender that outlives the client
    let sender = {
        let g = s.ctx.client.lock().unwrap_or_else(|e| e.into_inner());
        g.as_ref().map(|c| c.send.clone())
    };
    let inside = s.rng.chance(1, 2);
    if inside {
        let plan = Plan { ops: vec![Op::DropClient], reply: When::Later, reply_binary: false, reply_args: vec![], panic: false };
        for _ in 0..6 {
            let i = s.queue_event();
            let uid = s.items[i].uid;
            let mut plan = plan.clone();
            if s.rng.chance(1, 2) {
                plan.ops.insert(0, s.gen_op(false));
            }
            s.ctx.sh().plans.insert(uid, plan);
            s.take_inbox();
            if s.queue_ack() {
                let n = s.items.len() - 1;
                let uid = s.items[n].uid;
                s.ctx.sh().ack_plans.insert(uid, vec![Op::DropClient]);
            }
        }
        s.settle()?;
    }
    let still = s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()).is_some();
    if still {
        let thread = s.rng.chance(1, 4);
        let ctx = s.ctx.clone();
        if thread {
            std::thread::spawn(move || ctx.op(&Op::DropClient)).join().expect("dropping thread");
        } else {
            ctx.op(&Op::DropClient);
        }
        c.count("drops_outside_callbacks");
    } else {
        c.count("drops_inside_callbacks");
    }
    s.w.settle()?;
    check_silent_after_drop(&mut s, "after the client was dropped");
    let n = s.items.len();
    s.check_events(0, n);
    s.check_acks(0, n);
    s.check_wire(0);
    s.account_as(c, "dropped");
    if let Some(x) = &sender {
        let _ = x.unbounded_send(vec![tungstenite::Message::Text("42[\"late\"]".into())]);
    }
    s.check_released("after the client was dropped")?;
    if let Some(x) = sender {
        let _ = x.unbounded_send(vec![tungstenite::Message::Text("42[\"late\"]".into())]);
    }
    check_silent_after_drop(&mut s, "after the client was dropped");
    s.verdict(c)
}

/// The connect future is dropped before it has resolved.
fn c22_connecting(c: &mut Case, rng: &mut Rng) -> Verdict {
    let cfg = crate::net::NetCfg::random(rng);
    let mut w = World::new(rng, cfg);
    let exec = w.exec.clone();
    let io = w.net.io();
    let hold_open = w.rng.chance(1, 2);
    if hold_open {
        w.srv.open_text = "2".into();
        w.srv.auto_handshake = w.rng.chance(3, 4);
    }
    let mut polls = 0;
    let limit = w.rng.below(60);
    let mut done = false;
    {
        let mut f: Pin<Box<dyn Future<Output = Result<Client, Error>>>> = Box::pin(Client::from_stream("ws://localhost/", io, &exec));
        let flag = Arc::new(Flag(std::sync::atomic::AtomicBool::new(true)));
        let waker = futures::task::waker(flag);
        let mut cx = Context::from_waker(&waker);
        for _ in 0..limit {
            if w.rng.chance(1, 2) {
                polls += 1;
                if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
                    drop(r);
                    done = true;
                    break;
                }
            } else {
                w.step()?;
            }
        }
    }
    w.settle()?;
    let d = format!("connect future dropped after {} polls of {} steps, {} tasks spawned", polls, limit, w.exec.spawned());
    c.count(if done { "connects_finished" } else { "connects_abandoned" });
    c.key(&(polls, limit, hold_open, done, w.net.lock().stats.bytes_in), true);
    if !w.released() {
        fail!("{}: the transport is not released", d);
    }
    if w.exec.tasks() != 0 {
        fail!("{}: a background task is left", d);
    }
    Ok(())
}

/// The client goes away while it is closing.
fn c22_closing(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = Profile::of("C22");
    p.steps = (0, 40);
    let mut s = begin(c, rng, p)?;
    s.w.srv.on_close = s.rng.pick(&[OnClose::Ignore, OnClose::ReplyOnly, OnClose::Complete]).clone();
    if s.rng.chance(1, 3) {
        return c22_timed_out(c, s);
    }
    let mut cl = match s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()).take() {
        Some(x) => x,
        None => return Ok(()),
    };
    let keep = s.rng.chance(1, 3);
    let limit = s.rng.below(40);
    {
        let mut f = Box::pin(cl.close());
        let flag = Arc::new(Flag(std::sync::atomic::AtomicBool::new(true)));
        let waker = futures::task::waker(flag);
        let mut cx = Context::from_waker(&waker);
        for i in 0..limit {
            if s.rng.chance(1, 3) || i == 0 {
                if f.as_mut().poll(&mut cx).is_ready() {
                    break;
                }
            } else {
                s.w.step()?;
                s.w.send_next();
            }
        }
    }
    if keep && limit > 0 {
        // only the future is gone: the session is given up all the same
        *s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()) = Some(cl);
        s.ctx.sh().dropped = Some((s.w.tick.now(), s.w.exec.polls()));
        s.w.settle()?;
        s.check_gone(&["C22", "C20"], "after the close future was dropped")?;
        second_close(&mut s)?;
        harmless(&mut s)?;
        s.drop_client();
        c.count("close_futures_abandoned");
    } else {
        drop(cl);
        s.ctx.sh().dropped = Some((s.w.tick.now(), s.w.exec.polls()));
        c.count("clients_dropped_while_closing");
    }
    s.w.settle()?;
    check_silent_after_drop(&mut s, "after the close was abandoned");
    let n = s.items.len();
    s.check_events(0, n);
    s.check_wire(0);
    s.account_as(c, "closing");
    s.check_released("after the close was abandoned")?;
    s.verdict(c)
}

/// The close is not answered in time, and then the client goes away.
fn c22_timed_out(c: &mut Case, mut s: Session) -> Verdict {
    s.w.srv.on_close = OnClose::Ignore;
    if s.rng.chance(1, 3) {
        s.w.stall = true;
    }
    let t0 = futures_timer::virtual_now();
    let r = drive_close(&mut s, t0 + 11 * SEC)?;
    if !matches!(r, Some(Ok(Err(Error::Timeout(_))))) {
        s.problem(&["C20"], format!("a close nobody answers gives {:?}", r.map(|r| r.map_err(|_| "panic"))));
    }
    c.count("closes_timed_out");
    if s.rng.chance(1, 2) {
        // what the server still sends meets nobody
        for _ in 0..s.rng.range(1, 4) {
            s.queue_event();
        }
    }
    s.ctx.sh().dropped = Some((s.w.tick.now(), s.w.exec.polls()));
    if s.rng.chance(1, 2) {
        s.w.settle()?;
        s.check_gone(&["C22", "C20"], "after the close timed out")?;
    }
    s.drop_client();
    s.w.settle()?;
    check_silent_after_drop(&mut s, "after the close timed out");
    let n = s.items.len();
    s.check_events(0, n);
    s.check_wire(0);
    s.account_as(c, "timed out");
    s.check_released("after the close timed out and the client was dropped")?;
    s.verdict(c)
}

// ---------------------------------------------------------------- closing

#[derive(Clone, Copy, Debug, PartialEq)]
enum CloseMode {
    Immediate,
    Delayed(u64),
    Never,
    ReplyOnly,
    Eof,
    BadWhileClosing,
    BadBeforeClose,
    Stalled,
    ServerFirst,
}

pub fn c20(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = Profile::of("C20");
    p.steps = (0, 60);
    p.event = 8;
    p.emit = 10;
    p.ping = 4;
    p.reg_quiet = rng.chance(1, 2);
    let mut s = begin(c, rng, p)?;
    if s.rng.chance(1, 4) {
        s.settle()?;
    }
    // a little more that nobody had time to send
    if s.rng.chance(1, 10) {
        burst(c, &mut s);
    } else {
        for _ in 0..s.rng.below(4) {
            let op = s.gen_emit();
            s.ctx.op(&op);
        }
    }
    let mode = match s.rng.below(14) {
        0..=3 => CloseMode::Immediate,
        4..=6 => CloseMode::Delayed(*s.rng.pick(&[1, SEC / 1000, SEC, 4 * SEC, 5 * SEC, 7 * SEC, 9 * SEC, 9_900_000_000])),
        7 => CloseMode::Never,
        8 => CloseMode::ReplyOnly,
        9 => CloseMode::Eof,
        10 => CloseMode::BadWhileClosing,
        11 => CloseMode::BadBeforeClose,
        12 => CloseMode::Stalled,
        _ => CloseMode::ServerFirst,
    };
    c.count(&format!("close {}", format!("{:?}", mode).split('(').next().unwrap()));
    s.w.srv.on_close = match mode {
        CloseMode::Immediate | CloseMode::ServerFirst => OnClose::Complete,
        CloseMode::ReplyOnly => OnClose::ReplyOnly,
        CloseMode::Eof => OnClose::Eof,
        _ => OnClose::Ignore,
    };
    let mut bad_at = usize::MAX;
    match mode {
        CloseMode::Stalled => {
            s.w.stall = true;
            let mut n = s.w.net.lock();
            n.cfg.write_cap = n.cfg.write_cap.min(s.rng.below(30));
        }
        CloseMode::BadBeforeClose => {
            bad_at = s.items.len();
            let (_, msgs, _) = violation(&mut s, false);
            for (m, raw) in msgs {
                s.w.outq.push_back((m, if raw { RAW } else { u64::MAX }));
            }
        }
        CloseMode::ServerFirst => {
            let m = Msg::Close(vec![]);
            s.w.outq.push_back((m, u64::MAX));
            bad_at = s.items.len();
        }
        _ => {}
    }
    let emitted = s.ctx.sh().emissions.len();
    let t0 = futures_timer::virtual_now() + if s.rng.chance(1, 3) { 3 * SEC } else { 0 };
    futures_timer::virtual_advance(t0);
    let mut cl = s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()).take().ok_or_else(|| Fail::v("no client"))?;
    let mut problems: Vec<Problem> = Vec::new();
    let mut must_wire = emitted;
    let result: Option<std::thread::Result<Result<(), Error>>>;
    let mut took;
    {
        let mut f = Box::pin(CatchPanic(Box::pin(cl.close())));
        // some of what the server sends arrives while the client closes
        let mut res = match s.w.drive(&mut f)? {
            Driven::Done(r) => Some(r),
            Driven::Stuck => None,
        };
        took = futures_timer::virtual_now() - t0;
        s.mark_sent();
        if res.is_none() && !matches!(mode, CloseMode::Immediate) {
            for _ in 0..s.rng.below(4) {
                s.queue_event();
                if s.rng.chance(1, 2) {
                    s.take_inbox();
                    s.queue_ack();
                }
                if s.rng.chance(1, 2) && mode != CloseMode::ReplyOnly {
                    s.w.outq.push_back((Msg::Text("2".into()), u64::MAX));
                }
            }
            match mode {
                CloseMode::Delayed(d) => {
                    if let Driven::Done(r) = s.w.drive_timed(&mut f, t0 + d)? {
                        problems.push((vec!["C20"], format!("close resolves after {} ns, before the server completed it: {:?}", futures_timer::virtual_now() - t0, r.map_err(|_| "panic"))));
                        res = Some(Ok(Ok(())));
                    } else {
                        if s.w.srv.close_at.is_none() {
                            problems.push((vec!["C20"], "no close frame is sent".into()));
                        }
                        let mut r2 = s.w.rng.fork();
                        s.w.srv.finish_close(&mut r2);
                        if let Driven::Done(r) = s.w.drive(&mut f)? {
                            res = Some(r);
                        }
                        took = futures_timer::virtual_now() - t0;
                    }
                }
                CloseMode::BadWhileClosing => {
                    bad_at = s.items.len();
                    let (_, msgs, _) = violation(&mut s, false);
                    for (m, raw) in msgs {
                        s.w.outq.push_back((m, if raw { RAW } else { u64::MAX }));
                    }
                    s.queue_event();
                    if let Driven::Done(r) = s.w.drive_timed(&mut f, t0 + 9 * SEC)? {
                        res = Some(r);
                    }
                    took = futures_timer::virtual_now() - t0;
                }
                _ => {
                    if let Driven::Done(r) = s.w.drive_timed(&mut f, t0 + 10 * SEC - 1)? {
                        res = Some(r);
                        took = futures_timer::virtual_now() - t0;
                    } else if let Driven::Done(r) = s.w.drive_timed(&mut f, t0 + 10 * SEC)? {
                        took = futures_timer::virtual_now() - t0;
                        res = Some(r);
                    }
                }
            }
        }
        result = res;
    }
    *s.ctx.client.lock().unwrap_or_else(|e| e.into_inner()) = Some(cl);
    s.problems.extend(problems);
    s.w.settle()?;
    s.take_inbox();
    s.mark_sent();
    let show = format!("{:?} after {} ns", result.as_ref().map(|r| r.as_ref().map_err(|_| "panic")), took);
    c.trace(|| format!("{:?}: {}", mode, show));
    let mut must = s.items.len();
    let mut may = s.items.len();
    let ok = matches!(result, Some(Ok(Ok(()))));
    let timeout = matches!(result, Some(Ok(Err(Error::Timeout(_)))));
    let failed = matches!(result, Some(Ok(Err(Error::ProcessingError(_))))) || matches!(result, Some(Ok(Err(Error::WebsocketError(_)))));
    match mode {
        CloseMode::Immediate | CloseMode::Delayed(_) => {
            if !ok {
                s.problem(&["C20"], format!("{:?}: close gives {}", mode, show));
            }
        }
        CloseMode::Never => {
            if !timeout || took != 10 * SEC {
                s.problem(&["C20"], format!("{:?}: close gives {}", mode, show));
            }
        }
        CloseMode::ReplyOnly => {
            if !(ok || timeout && took == 10 * SEC) {
                s.problem(&["C20"], format!("{:?}: close gives {}", mode, show));
            }
            must = 0;
        }
        CloseMode::Eof => {
            if !failed {
                s.problem(&["C20"], format!("{:?}: close gives {}", mode, show));
            }
        }
        CloseMode::BadWhileClosing => {
            if !failed {
                s.problem(&["C20", "C21"], format!("{:?}: close gives {}", mode, show));
            }
            must = bad_at;
            may = bad_at;
        }
        CloseMode::BadBeforeClose => {
            if !failed {
                s.problem(&["C20", "C21"], format!("{:?}: close gives {}", mode, show));
            }
            must = bad_at;
            may = bad_at;
            must_wire = 0;
        }
        CloseMode::Stalled => {
            if !timeout || took != 10 * SEC {
                s.problem(&["C20"], format!("{:?}: close gives {}", mode, show));
            }
            must = 0;
            must_wire = 0;
        }
        CloseMode::ServerFirst => {
            if !(ok || failed) {
                s.problem(&["C20"], format!("{:?}: close gives {}", mode, show));
            }
            must = bad_at;
            may = bad_at;
            must_wire = 0;
        }
    }
    if must_wire > 0 && s.wire.close.is_none() {
        s.problem(&["C20"], format!("{:?}: no close frame is sent", mode));
    }
    s.check_events(must, may);
    s.check_acks(must, may);
    s.check_wire(must_wire);
    s.w.stall = false;
    s.check_gone(&["C20"], &format!("{:?}: after closing", mode))?;
    second_close(&mut s)?;
    harmless(&mut s)?;
    s.account_as(c, &format!("{:?}", mode));
    s.drop_client();
    s.check_released("after closing")?;
    s.verdict(c)
}
