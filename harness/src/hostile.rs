//! A hostile server against a connected client with logging enabled: nothing panics, everything
//! comes to rest, and the application can still use and close the client.  (C03)

use crate::codec;
use crate::core::{Case, Fail, Verdict};
use crate::fail;
use crate::net::NetCfg;
use crate::rng::Rng;
use crate::sim::*;
use crate::ws::{self, Msg};
use socket_io_client::protocol::Args;
use socket_io_client::AckBuilder;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub fn message(rng: &mut Rng, out: &mut Vec<u8>, what: &mut Vec<String>, big: bool) {
    let k = rng.below(24);
    let m = match k {
        0 => Msg::Text(rng.pick(&["", "1", "2", "3", "2probe", "3x", "5", "6", "4", "é", "\u{0}", "40", "41", "0{}", "0[]", "0null"]).to_string()),
        1 => Msg::Text("2".into()),
        2 => {
            let n = rng.below(60);
            let mut v = rng.bytes(n);
            if rng.chance(2, 3) {
                v.insert(0, 4);
            }
            Msg::Binary(v)
        }
        3 => {
            let n = rng.below(125);
            Msg::Ping(rng.bytes(n))
        }
        4 => {
            let n = rng.below(125);
            Msg::Pong(rng.bytes(n))
        }
        5 => {
            let mut d = rng.pick(&[&[][..], &[3][..], &[3, 232][..], &[0, 0][..], &[255, 255, b'x'][..], &[3, 232, 0xff][..], &[15, 160, b'e', b'n', b'd'][..], &[3, 232][..], &[3, 243][..]]).to_vec();
            if d.len() == 2 && rng.chance(2, 3) {
                // a reason, often of more than one byte per character
                let r = format!("{}{}", "x".repeat(rng.below(4)), rng.pick(&["é", "日本", "😀", "bye ", "\u{0}"]).repeat(rng.range(1, 40)));
                d.extend(r.chars().scan(0, |n, c| { *n += c.len_utf8(); if *n > 123 { None } else { Some(c) } }).collect::<String>().bytes());
            }
            Msg::Close(d)
        }
        6 => {
            // a count nobody can satisfy
            let n = rng.pick(&["1", "2", "18446744073709551615", "18446744073709551616", "9223372036854775808", "4294967296", "00001", "1000000"]).to_string();
            Msg::Text(format!("4{}{}-[\"ev\"]", rng.pick(&["5", "6"]), n))
        }
        7 => {
            // many attachments, some of them used twice, some not at all
            let n = rng.range(1, if big { 3000 } else { 40 });
            let mut s = format!("45{}-[\"ev\"", n);
            for _ in 0..rng.below(if big { 3000 } else { 40 }) {
                s.push_str(&format!(",{{\"_placeholder\":true,\"num\":{}}}", rng.below(n + 2)));
            }
            s.push(']');
            what.push(format!("{} attachments", n));
            ws::encode(&Msg::Text(s), rng, false, out);
            for _ in 0..n {
                let k = rng.below(5);
                let mut v = vec![4];
                v.extend(rng.bytes(k));
                ws::encode(&Msg::Binary(v), rng, false, out);
            }
            return;
        }
        8 if big => {
            let n = rng.range(100_000, 2_000_000);
            match rng.below(4) {
                0 => Msg::Text(format!("42[\"ev\",\"{}\"]", "x".repeat(n))),
                1 => Msg::Text(format!("42[\"ev\",{}]", vec!["1"; n / 2].join(","))),
                2 => Msg::Text(format!("42[\"ev\",{}", "[".repeat(n))),
                _ => Msg::Text(format!("42/{},[\"ev\"]", "n".repeat(n))),
            }
        }
        9 => {
            // fragments without end
            let n = rng.range(1, if big { 3000 } else { 30 });
            let mut v = vec![0x01, 1, b'4'];
            for _ in 0..n {
                v.extend_from_slice(&[0, 0]);
            }
            if rng.chance(1, 2) {
                v.extend_from_slice(&[0x80, 0]);
            }
            out.extend_from_slice(&v);
            what.push(format!("{} empty fragments", n));
            return;
        }
        10 => {
            let n = rng.range(1, 30);
            let v = rng.bytes(n);
            what.push(format!("{:?}", v));
            out.extend_from_slice(&v);
            return;
        }
        11 => {
            let l = rng.next();
            out.extend_from_slice(&[0x82, 127]);
            out.extend_from_slice(&(l >> rng.below(64)).to_be_bytes());
            what.push("frame of some huge length".into());
            return;
        }
        12 => Msg::Text(format!("43{}[]", rng.below(3))),
        _ => {
            let mut t = codec::hostile_text(rng);
            if rng.chance(1, 3) {
                // an acknowledgement of one of the first events
                t = t.replacen("\"ev\"", "1", 1);
                t = format!("3{}{}", rng.below(3), t.trim_start_matches(|c: char| c != '['));
            }
            let n = t.bytes().next().map_or(false, |b| b == b'5' || b == b'6');
            what.push(format!("{:.80?}", t));
            let f = rng.chance(1, 8);
            ws::encode(&Msg::Text(format!("4{}", t)), rng, f, out);
            if n {
                for _ in 0..rng.below(3) {
                    let k = rng.below(6);
                    let mut v = vec![4];
                    v.extend(rng.bytes(k));
                    ws::encode(&Msg::Binary(v), rng, false, out);
                }
            }
            return;
        }
    };
    what.push(match &m {
        Msg::Text(t) => format!("{:.80?}", t),
        m => format!("{:.80}", format!("{:?}", m)),
    });
    let f = rng.chance(1, 8);
    ws::encode(&m, rng, f, out);
}

pub fn c03_session(c: &mut Case, rng: &mut Rng) -> Verdict {
    crate::runner::set_logging(rng.chance(2, 3));
    let big = rng.chance(1, 60);
    let mut cfg = if big || rng.chance(1, 3) { NetCfg::smooth() } else { NetCfg::random(rng) };
    if big {
        cfg.write_cap = 1 << 24;
    }
    let mut w = World::new(rng, cfg);
    if rng.chance(1, 3) {
        // valid, though hardly what an honest server would send
        let sid = match rng.below(4) {
            0 => "日本😀é".repeat(rng.below(60)),
            1 => "\\u0000\\\"\\ud83d\\ude00".repeat(rng.below(4)),
            2 => "x".repeat(rng.below(5000)),
            _ => "€".into(),
        };
        let n = |rng: &mut Rng| *rng.pick(&[0, 1, 25000, u32::MAX as u64, i64::MAX as u64, u64::MAX - 1, u64::MAX]);
        let (a, b) = (n(rng), n(rng));
        w.srv.open_text = format!("0{{\"sid\":\"{}\",\"pingInterval\":{},\"pingTimeout\":{},\"upgrades\":[\"é\",null,{{}}]}}", sid, a, b);
    }
    let mut client = w.connect("ws://localhost/")?;
    let runs = Arc::new(AtomicU64::new(0));
    let seen = Arc::new(AtomicU64::new(0));
    let full = !big;
    let cb = |runs: &Arc<AtomicU64>, seen: &Arc<AtomicU64>| {
        let (runs, seen) = (runs.clone(), seen.clone());
        move |args: &Args, ack: Option<AckBuilder>| {
            runs.fetch_add(1, Ordering::Relaxed);
            let n = if full { codec::exercise_args(args) } else { format!("{}", args).len() };
            seen.fetch_add(n as u64, Ordering::Relaxed);
            if let Some(a) = ack {
                let _ = a.args().arg(&n).map(|b| b.send());
            }
        }
    };
    client.set_event_callback("ev", cb(&runs, &seen));
    client.set_fallback_callback(cb(&runs, &seen));
    client.set_namespace_fallback_callback("/n", cb(&runs, &seen));
    for _ in 0..3 {
        let (runs, seen) = (runs.clone(), seen.clone());
        let b = client.emit("q").callback(move |args: &Args| {
            runs.fetch_add(1, Ordering::Relaxed);
            let n = if full { codec::exercise_args(args) } else { format!("{}", args).len() };
            seen.fetch_add(n as u64, Ordering::Relaxed);
        });
        b.args().send();
    }
    let n = if big { rng.range(1, 4) } else { rng.range(1, 12) };
    let mut what = Vec::new();
    for _ in 0..n {
        let mut out = Vec::new();
        message(rng, &mut out, &mut what, big);
        w.net.server_write(&out);
        if rng.chance(1, 2) {
            w.settle()?;
        }
        crate::runner::progress();
    }
    c.trace(|| format!("sent {:?}", what));
    if rng.chance(1, 3) {
        w.net.server_eof();
    }
    w.settle()?;
    c.key(&what, true);
    c.sample(|| format!("{:?}", what));
    c.add("callbacks_run", runs.load(Ordering::Relaxed));
    c.add("arguments_exercised", seen.load(Ordering::Relaxed));
    c.add("log_records", crate::runner::logged());
    c.count(if w.released() { "sessions_ended" } else { "sessions_alive" });
    // the application goes on
    let r = catch_unwind(AssertUnwindSafe(|| {
        client.emit("after").args().send();
        client.set_event_callback("x", |_: &Args, _: Option<AckBuilder>| {});
        client.clear_fallback_callback();
    }));
    if r.is_err() {
        fail!("using the client after hostile input panics: {:?}", what);
    }
    w.settle()?;
    let t0 = futures_timer::virtual_now();
    let r = {
        let mut f = Box::pin(client.close());
        if rng.chance(1, 2) {
            // the server does not let that disturb it
            if rng.chance(2, 3) {
                w.srv.on_close = rng.pick(&[OnClose::Ignore, OnClose::ReplyOnly]).clone();
            }
            let d = w.drive(&mut f)?;
            if let Driven::Stuck = d {
                for _ in 0..rng.range(1, 6) {
                    let mut out = Vec::new();
                    if rng.chance(1, 3) {
                        ws::encode(&Msg::Text("2".into()), rng, false, &mut out);
                    } else {
                        message(rng, &mut out, &mut what, false);
                    }
                    w.net.server_write(&out);
                }
                c.count("hostile_while_closing");
                if rng.chance(1, 2) {
                    w.settle()?;
                    if rng.chance(1, 2) {
                        w.srv.finish_close(rng);
                    } else {
                        w.net.server_eof();
                    }
                }
                w.drive_timed(&mut f, t0 + 10 * SEC)?
            } else {
                d
            }
        } else {
            w.drive_timed(&mut f, t0 + 10 * SEC)?
        }
    };
    match r {
        Driven::Done(_) => {}
        Driven::Stuck => fail!("closing after hostile input does not end: {:?}", what),
    }
    w.settle()?;
    if !w.released() {
        fail!("the transport is not released after closing: {:?}", what);
    }
    drop(client);
    if w.exec.panicked() > 0 {
        return Err(Fail::v(format!("a background task panicked: {:?}", what)));
    }
    Ok(())
}
