//! Connecting: whether and when it resolves (C19), and what is dialled and requested (C23).

use crate::core::{Case, Fail, Verdict};
use crate::fail;
use crate::net::NetCfg;
use crate::rng::Rng;
use crate::sim::*;
use crate::ws::{self, Msg};
use socket_io_client::{Client, Error};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, Debug, PartialEq)]
enum Handshake {
    Valid,
    Invalid,
}

fn response(rng: &mut Rng, key: &str, what: &mut String) -> (Handshake, Vec<u8>) {
    let accept = ws::accept_key(key);
    let conn = rng.pick(&["Connection: Upgrade", "connection: upgrade", "CONNECTION:Upgrade", "Connection:   Upgrade  "]).to_string();
    let up = rng.pick(&["Upgrade: websocket", "upgrade: WebSocket", "UPGRADE:websocket"]).to_string();
    let acc = format!("{}: {}", rng.pick(&["Sec-WebSocket-Accept", "sec-websocket-accept"]), accept);
    let mut headers = vec![conn, up, acc];
    for i in 0..rng.below(4) {
        let n = rng.size(30);
        headers.push(format!("X-Extra-{}: {}", i, "v".repeat(n)));
    }
    let status = rng.pick(&["101 Switching Protocols", "101 OK", "101 "]).to_string();
    let join = |status: &str, headers: &[String]| format!("HTTP/1.1 {}\r\n{}\r\n\r\n", status, headers.join("\r\n")).into_bytes();
    if rng.chance(3, 5) {
        rng_shuffle(rng, &mut headers);
        return (Handshake::Valid, join(&status, &headers));
    }
    let k = rng.below(12);
    let out = match k {
        0..=2 => {
            headers.remove(k);
            *what = format!("handshake without header {}", k);
            join(&status, &headers)
        }
        3 => {
            let s = *rng.pick(&["200 OK", "400 Bad Request", "404 Not Found", "301 Moved", "500 X", "100 Continue", "403 Forbidden"]);
            *what = format!("status {}", s);
            join(s, &headers)
        }
        4 => {
            let other = ws::accept_key("AAAAAAAAAAAAAAAAAAAAAA==");
            headers[2] = format!("Sec-WebSocket-Accept: {}", rng.pick(&[other, String::new(), accept[1..].to_string(), accept.to_lowercase(), format!("{}x", accept)]));
            *what = "wrong accept key".into();
            join(&status, &headers)
        }
        5 => {
            headers[1] = rng.pick(&["Upgrade: h2c", "Upgrade: ", "Upgrade: websockets"]).to_string();
            *what = "wrong upgrade".into();
            join(&status, &headers)
        }
        6 => {
            headers[0] = rng.pick(&["Connection: close", "Connection: ", "Connection: Upgraded"]).to_string();
            *what = "wrong connection header".into();
            join(&status, &headers)
        }
        7 => {
            *what = "not HTTP".into();
            rng.pick(&[&b"SSH-2.0-x\r\n\r\n"[..], b"\r\n\r\n\x01\r\n\r\n", b"\x15\x03\x03\x00\x02\x02\x28", b"HTTP/9.9 101 X\r\n\r\n", b"{}\r\n\r\n"]).to_vec()
        }
        8 => {
            *what = "broken header".into();
            headers.insert(1, rng.pick(&["no colon", "bad name : x", ": x", "a\u{1}: b"]).to_string());
            join(&status, &headers)
        }
        9 => {
            *what = "random bytes".into();
            let n = rng.range(1, 300);
            let mut b = rng.bytes(n);
            b[0] |= 0x80;
            b
        }
        10 => {
            *what = "no status line".into();
            format!("{}\r\n\r\n", headers.join("\r\n")).into_bytes()
        }
        _ => {
            *what = "headers without end".into();
            let mut v = format!("HTTP/1.1 101 X\r\n{}\r\n", headers.join("\r\n")).into_bytes();
            let n = *rng.pick(&[10usize, 1000, 200_000]);
            for i in 0..n {
                v.extend_from_slice(if i % 30 == 29 { b"\r\n" } else if i % 30 == 3 { b":" } else { b"y" });
            }
            v
        }
    };
    (Handshake::Invalid, out)
}

fn rng_shuffle<T>(rng: &mut Rng, v: &mut [T]) {
    for i in (1..v.len()).rev() {
        let j = rng.below(i + 1);
        v.swap(i, j);
    }
}

pub fn valid_open(rng: &mut Rng) -> String {
    let sid = rng.pick(&["\"abc\"", "\"\"", "\"\\u00e9\\ud83d\\ude00\"", "\"a b\\n\"", "\"日本\""]).to_string();
    let num = |rng: &mut Rng| rng.pick(&["0", "1", "25000", "18446744073709551615", "60000"]).to_string();
    let mut f = vec![format!("\"sid\":{}", sid), format!("\"pingTimeout\":{}", num(rng)), format!("\"pingInterval\": {}", num(rng))];
    if rng.chance(1, 2) {
        f.push("\"upgrades\":[]".into());
    }
    if rng.chance(1, 3) {
        f.push("\"maxPayload\":{\"a\":[1,null,\"}\"]}".into());
    }
    rng_shuffle(rng, &mut f);
    let sep = *rng.pick(&[",", " , ", ",\n\t"]);
    format!("0{}{{{}}}{}", rng.pick(&["", " ", "\n"]), f.join(sep), rng.pick(&["", " "]))
}

fn invalid_open(rng: &mut Rng) -> (String, Msg) {
    let t = |s: &str| (format!("first message {:?}", s), Msg::Text(s.into()));
    match rng.below(5) {
        0 => t(*rng.pick(&["2", "3", "1", "4", "42[\"a\"]", "40", "", "x", "5", "6"])),
        1 => t(*rng.pick(&["0", "0{}", "0[]", "0null", "0{\"sid\":\"a\"", "0{\"sid\":1,\"pingTimeout\":1,\"pingInterval\":1}", "0{\"sid\":\"a\",\"pingTimeout\":-1,\"pingInterval\":1}"])),
        2 => t(*rng.pick(&[
            "0{\"sid\":\"a\",\"pingTimeout\":1}",
            "0{\"sid\":\"a\",\"pingInterval\":1}",
            "0{\"pingTimeout\":1,\"pingInterval\":1}",
            "0{\"sid\":\"a\",\"pingTimeout\":1,\"pingInterval\":1}x",
            "0{\"sid\":\"a\",\"pingTimeout\":18446744073709551616,\"pingInterval\":1}",
            "0{\"sid\":\"a\",\"pingTimeout\":\"1\",\"pingInterval\":1}",
            "00{\"sid\":\"a\",\"pingTimeout\":1,\"pingInterval\":1}",
            "{\"sid\":\"a\",\"pingTimeout\":1,\"pingInterval\":1}",
        ])),
        3 => {
            let b = rng.pick(&[&[][..], &[4][..], &[4, 1][..], &[0][..], b"0{\"sid\":\"a\",\"pingTimeout\":1,\"pingInterval\":1}"]).to_vec();
            (format!("first message binary {:?}", b), Msg::Binary(b))
        }
        _ => {
            let d = rng.pick(&[&[][..], &[3, 232][..], &[3, 240, b'x'][..]]).to_vec();
            (format!("close frame {:?}", d), Msg::Close(d))
        }
    }
}

#[derive(Debug)]
enum Act {
    /// read what the client wrote from now on
    Read,
    Response,
    Bytes(Vec<u8>),
    Eof,
    ReadErr,
}

pub fn c19(c: &mut Case, rng: &mut Rng) -> Verdict {
    crate::runner::set_logging(rng.chance(1, 8));
    let cfg = if rng.chance(1, 3) { NetCfg::smooth() } else { NetCfg::random(rng) };
    let mut w = World::new(rng, cfg);
    w.srv.auto_handshake = false;
    w.srv.keep_raw = true;
    let rng = &mut w.rng.fork();
    let mut what: Vec<String> = Vec::new();

    // the part before the transport
    if rng.chance(1, 25) {
        return c19_refused(c, rng, w);
    }
    let refuse_spawn = rng.chance(1, 25);
    if refuse_spawn {
        w.exec.refuse();
        what.push("spawner refuses".into());
    }
    let start = rng.below(3) as u64 * SEC;
    futures_timer::virtual_advance(start);
    let dial_delay = if rng.chance(1, 4) { *rng.pick(&[1, SEC, 9 * SEC, 15 * SEC, 100 * SEC]) } else { 0 };
    let direct = dial_delay == 0 && rng.chance(1, 3);
    let t_open = start + dial_delay;

    // what the server does when: stages in order, each with its delay since the previous one
    let frame = |m: &Msg, rng: &mut Rng| {
        let mut v = Vec::new();
        let f = rng.chance(1, 4);
        ws::encode(m, rng, f, &mut v);
        v
    };
    let mut hs_what = String::new();
    let key = "\0"; // replaced when the request has arrived
    let _ = key;
    let mut hs_rng = rng.fork();
    let hs = response(&mut hs_rng.clone(), "probe", &mut hs_what).0;
    let mut tail: Vec<u8> = Vec::new();
    for _ in 0..rng.below(3) {
        let n = rng.below(10);
        let m = if rng.chance(1, 2) { Msg::Ping(rng.bytes(n)) } else { Msg::Pong(rng.bytes(n)) };
        tail.extend(frame(&m, rng));
    }
    let open_ok = rng.chance(4, 5);
    if open_ok {
        let o = valid_open(rng);
        tail.extend(frame(&Msg::Text(o), rng));
    } else {
        let (d, m) = invalid_open(rng);
        what.push(d);
        tail.extend(frame(&m, rng));
    }
    let open_end = tail.len();
    for _ in 0..rng.below(3) {
        let m = match rng.below(6) {
            0 => Msg::Text("2".into()),
            1 => Msg::Text("42[\"a\",1]".into()),
            2 => Msg::Text("bad".into()),
            3 => Msg::Binary(vec![4, 1]),
            4 => Msg::Close(vec![]),
            _ => Msg::Text("451-[\"a\",{\"_placeholder\":true,\"num\":0}]".into()),
        };
        tail.extend(frame(&m, rng));
    }
    if hs == Handshake::Invalid {
        what.push(hs_what.clone());
    }
    // the moments
    let budget: u64 = match rng.below(5) {
        0 => 12 * SEC,
        1 => 9_990_000_000,
        2 => 5 * SEC,
        _ => 0,
    };
    let mut cuts: Vec<u64> = (0..4).map(|_| if budget == 0 { 0 } else { rng.next() % budget }).collect();
    if budget > 9 * SEC && rng.chance(1, 2) {
        cuts[rng.below(4)] = budget;
    }
    cuts.sort_unstable();
    // never on the edge
    for x in cuts.iter_mut() {
        if *x > 9_990_000_000 && *x < 10_010_000_000 {
            *x = 10_010_000_000;
        }
    }
    let mut plan: VecDeque<(u64, Act)> = VecDeque::new();
    plan.push_back((cuts[0], Act::Read));
    plan.push_back((cuts[1], Act::Response));
    let split = rng.range(0, open_end);
    plan.push_back((cuts[2], Act::Bytes(tail[..split].to_vec())));
    plan.push_back((cuts[3], Act::Bytes(tail[split..].to_vec())));
    let mut open_at = cuts[3];
    if split == open_end {
        open_at = cuts[2];
    }
    // a fault at some byte of what the server sends, or silence from there on
    let fault = rng.below(8);
    let mut fault_at: Option<usize> = None; // offset in response ++ tail
    match fault {
        0 => what.push("end of stream".into()),
        1 => what.push("read error".into()),
        2 => what.push("silence".into()),
        3 => what.push("write error".into()),
        _ => {}
    }
    if fault == 3 {
        let n = rng.below(260) as u64;
        w.net.lock().write_err_after = Some(n);
    }
    let fault_pos = rng.next();
    let fault_edge = rng.below(6);

    // run it
    let exec = w.exec.clone();
    let net = w.net.clone();
    let mut f: Pin<Box<dyn Future<Output = Result<Client, Error>>>> = if direct {
        Box::pin(async move { Client::from_stream("ws://localhost:1234/x", net.io(), &exec).await })
    } else {
        Box::pin(async move {
            Client::connect(
                "http://localhost:1234/x",
                move |_h, _p| {
                    let io = net.io();
                    async move {
                        if dial_delay > 0 {
                            futures_timer::Delay::new(std::time::Duration::from_nanos(dial_delay)).await;
                        }
                        Ok::<_, std::io::Error>(io)
                    }
                },
                &exec,
            )
            .await
        })
    };
    w.stall = true;
    if rng.chance(1, 2) {
        // a server that does not react to anything
        w.srv.on_close = OnClose::Ignore;
    }
    let mut responded = false;
    let mut sent_len = 0usize; // of response ++ tail
    let mut open_sent_at: Option<u64> = None; // the open packet is completely on its way
    let mut resp_len = 0usize;
    let mut faulted = false;
    let result = loop {
        if let Driven::Done(r) = w.drive(&mut f)? {
            break r;
        }
        let now = futures_timer::virtual_now();
        let next_act = plan.front().map(|x| t_open + x.0);
        let next = match (next_act, futures_timer::virtual_next()) {
            (Some(a), Some(b)) => Some(a.min(b)),
            (a, b) => a.or(b),
        };
        let next = match next {
            Some(t) => t,
            None if now < t_open + 11 * SEC => t_open + 11 * SEC,
            None => fail!("connecting never resolves: {:?}", what),
        };
        if next > now {
            futures_timer::virtual_advance(next);
        }
        let now = futures_timer::virtual_now();
        while plan.front().map_or(false, |x| t_open + x.0 <= now) {
            let (_, a) = plan.pop_front().unwrap();
            let mut bytes = match a {
                Act::Read => {
                    w.stall = false;
                    while w.step()? {}
                    continue;
                }
                Act::Response => match w.srv.dec.take_request().map_err(Fail::Violation)? {
                    None => continue,
                    Some(r) => {
                        responded = true;
                        w.srv.handshaken = true;
                        let key = r.header("sec-websocket-key").unwrap_or("").to_string();
                        let b = response(&mut hs_rng, &key, &mut hs_what).1;
                        resp_len = b.len();
                        if fault <= 2 {
                            let total = resp_len + tail.len();
                            fault_at = Some(match fault_edge {
                                0 => 0,
                                1 => resp_len,
                                2 => resp_len + open_end,
                                3 => (resp_len + open_end).saturating_sub(1),
                                _ => (fault_pos % (total as u64 + 1)) as usize,
                            });
                        }
                        b
                    }
                },
                Act::Bytes(b) => {
                    if !responded {
                        continue;
                    }
                    b
                }
                Act::Eof => {
                    w.net.server_eof();
                    continue;
                }
                Act::ReadErr => {
                    let left = {
                        let n = w.net.lock();
                        (n.inflight.len() + n.ready.len()) as u64
                    };
                    w.net.lock().read_err_after = Some(left);
                    if left == 0 {
                        w.net.fail_reads_now();
                    }
                    continue;
                }
            };
            if faulted {
                continue;
            }
            if let Some(k) = fault_at {
                if sent_len + bytes.len() >= k {
                    bytes.truncate(k - sent_len);
                    faulted = true;
                    match fault {
                        0 => plan.push_front((now - t_open, Act::Eof)),
                        1 => plan.push_front((now - t_open, Act::ReadErr)),
                        _ => {}
                    }
                }
            }
            sent_len += bytes.len();
            w.net.server_write(&bytes);
            if sent_len >= resp_len + open_end && open_sent_at.is_none() && responded {
                open_sent_at = Some(now - t_open);
            }
        }
    };
    drop(f);
    let took = futures_timer::virtual_now().saturating_sub(t_open);
    let in_time = open_sent_at.map_or(false, |t| t < 10 * SEC);
    let want_ok = hs == Handshake::Valid && open_ok && in_time && !refuse_spawn;
    let show = match &result {
        Ok(_) => "a client".to_string(),
        Err(e) => format!("{:?}", e),
    };
    let d = format!("{:?} {:?} fault {} at {:?} (response {} open {} sent {}), open at {:?} planned {}: {} after {} ns", hs, what, fault, fault_at, resp_len, open_end, sent_len, open_sent_at, open_at, show, took);
    c.trace(|| d.clone());
    if took > 10 * SEC {
        fail!("connecting takes more than ten seconds: {}", d);
    }
    match (&result, want_ok) {
        (Ok(_), false) => fail!("connecting succeeds: {}", d),
        // answering a WebSocket ping may have failed
        (Err(_), true) if fault == 3 => c.count("write_errors_after_the_request"),
        (Err(_), true) => fail!("connecting fails although the server opened the session in time: {}", d),
        _ => {}
    }
    c.count(if want_ok { "connected" } else { "refused" });
    c.max("max_time_ns", took);
    if took == 10 * SEC {
        c.count("timeouts");
    }
    c.key(&(what.clone(), cuts.clone(), resp_len, tail.clone(), fault_at), true);
    c.sample(|| d.clone());
    match result {
        Ok(mut client) => {
            client.emit("hello").args().send();
            w.stall = false;
            w.settle()?;
            if fault > 3 && sent_len == resp_len + open_end {
                let got = w.srv.inbox.iter().any(|m| m.1 == Msg::Text("42[\"hello\"]".into()));
                if !got {
                    fail!("the new client does not work: {}", d);
                }
            }
            drop(client);
        }
        Err(_) => {}
    }
    w.stall = false;
    w.settle()?;
    if !w.released() {
        fail!("the transport is not released: {}", d);
    }
    if w.exec.tasks() != 0 {
        fail!("a background task is left: {}", d);
    }
    Ok(())
}

/// Attempts that never get a transport.
fn c19_refused(c: &mut Case, rng: &mut Rng, mut w: World) -> Verdict {
    let exec = w.exec.clone();
    let dialled = Rc::new(RefCell::new(0));
    let d2 = dialled.clone();
    let invalid = rng.chance(1, 2);
    let url = if invalid {
        rng.pick(&["", "localhost", "ftp://a/", "ws:", "ws://", "http:///", "wss://a:99999/", "//a/b", "ws://[::1/", "file:///x", "ws://a b/"]).to_string()
    } else {
        "ws://localhost/".to_string()
    };
    let delay = if rng.chance(1, 2) { 20 * SEC } else { 0 };
    let kind = *rng.pick(&[std::io::ErrorKind::ConnectionRefused, std::io::ErrorKind::Other, std::io::ErrorKind::TimedOut]);
    let u2 = url.clone();
    let mut f: Pin<Box<dyn Future<Output = Result<Client, Error>>>> = Box::pin(async move {
        Client::connect(
            &u2,
            move |_h, _p| {
                *d2.borrow_mut() += 1;
                async move {
                    if delay > 0 {
                        futures_timer::Delay::new(std::time::Duration::from_nanos(delay)).await;
                    }
                    Err::<crate::net::Io, _>(std::io::Error::new(kind, "refused"))
                }
            },
            &exec,
        )
        .await
    });
    let r = w.drive_timed(&mut f, 60 * SEC)?;
    drop(f);
    w.net.lock().client_dropped = true; // no transport was made
    let n = *dialled.borrow();
    c.key(&(url.clone(), delay, format!("{:?}", kind)), true);
    match r {
        Driven::Stuck => fail!("connecting to {:?} never resolves", url),
        Driven::Done(Ok(_)) => fail!("connecting to {:?} succeeds without a transport", url),
        Driven::Done(Err(e)) => {
            if invalid {
                if !matches!(e, Error::UrlError(..)) || n != 0 {
                    fail!("url {:?}: {:?}, dialled {} times", url, e, n);
                }
                c.count("invalid_urls");
            } else {
                if !matches!(e, Error::ConnectionError(_)) || n != 1 {
                    fail!("failing connector: {:?}, dialled {} times", e, n);
                }
                c.count("connector_errors");
            }
        }
    }
    if w.exec.tasks() != 0 {
        fail!("a task is left after a connection that was never made");
    }
    Ok(())
}

// ---------------------------------------------------------------- C23

fn pct_decode_form(s: &str) -> String {
    let b = s.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'+' {
            out.push(b' ');
        } else if b[i] == b'%' && i + 2 < b.len() + 0 && i + 2 <= b.len() - 1 {
            let h = std::str::from_utf8(&b[i + 1..i + 3]).ok().and_then(|h| u8::from_str_radix(h, 16).ok());
            match h {
                Some(x) => {
                    out.push(x);
                    i += 2;
                }
                None => out.push(b'%'),
            }
        } else {
            out.push(b[i]);
        }
        i += 1;
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn pairs(q: &str) -> Vec<(String, String)> {
    q.split('&')
        .filter(|p| !p.is_empty())
        .map(|p| {
            let mut it = p.splitn(2, '=');
            (pct_decode_form(it.next().unwrap()), pct_decode_form(it.next().unwrap_or("")))
        })
        .collect()
}

pub fn c23(c: &mut Case, rng: &mut Rng) -> Verdict {
    let scheme = *rng.pick(&["ws", "http", "ws", "http", "wss", "https", "WS", "Http", "HTTPS", "ftp", "socket.io", "wsx", "file", "data", "htt", "unix", "ws+unix", "tcp"]);
    let lower = scheme.to_ascii_lowercase();
    let secure = lower == "wss" || lower == "https";
    let accepted = secure || lower == "ws" || lower == "http";
    // (in the url, to dial, in the Host header)
    let (host_url, host_dial, host_hdr): (String, String, String) = match rng.below(9) {
        0 | 1 => {
            let h = rng.pick(&["localhost", "example.com", "a", "x-y.z.example", "1a.example"]).to_string();
            (h.clone(), h.clone(), h)
        }
        2 => ("EXAMPLE.com".into(), "example.com".into(), "example.com".into()),
        3 => {
            let h = format!("{}.{}.{}.{}", rng.below(256), rng.below(256), rng.below(256), rng.below(256));
            (h.clone(), h.clone(), h)
        }
        4 | 5 => {
            let a = *rng.pick(&["::1", "2001:db8::1", "fe80::1:2:3", "1:2:3:4:5:6:7:8", "2001:db8:0:1::", "::"]);
            (format!("[{}]", a), a.to_string(), format!("[{}]", a))
        }
        6 => ("xn--nxasmq6b".into(), "xn--nxasmq6b".into(), "xn--nxasmq6b".into()),
        7 => {
            // other ways to write a host
            let (u, h) = *rng.pick(&[
                ("localhost.", "localhost."),
                ("Example.COM.", "example.com."),
                ("my_host", "my_host"),
                ("b\u{fc}cher.example", "xn--bcher-kva.example"),
                ("127.1", "127.0.0.1"),
                ("0x7f000001", "127.0.0.1"),
                ("2130706433", "127.0.0.1"),
                ("a%2db", "a-b"),
                ("www.www", "www.www"),
            ]);
            (u.to_string(), h.to_string(), h.to_string())
        }
        _ => {
            let h: String = (0..rng.range(1, 40)).map(|_| *rng.pick(&['a', 'b', 'z', '0', '9'])).collect::<String>() + ".test";
            (h.clone(), h.clone(), h)
        }
    };
    let default = if secure { 443 } else { 80 };
    let port = match rng.below(5) {
        0 | 1 => None,
        2 => Some(*rng.pick(&[80u16, 443, 8080])),
        3 => Some(rng.next() as u16),
        _ => Some(*rng.pick(&[1u16, 65535, 3000, 0])),
    };
    let dial_port = port.unwrap_or(default);
    let segs = rng.below(4);
    let mut path = String::new();
    for _ in 0..segs {
        path.push('/');
        path.push_str(*rng.pick(&["socket.io", "a", "", "a%2Fb", "socket.io", "a:80", "b%20c", "%E6%97%A5", "x;y=1", "~u", "a@b:c", "1", "A-Z_", "a+b", "q=1"]));
    }
    if rng.chance(1, 2) {
        path.push('/');
    }
    let hdr_path = if path.is_empty() { "/".to_string() } else { path.clone() };
    let nq = rng.below(4);
    let mut qs: Vec<String> = Vec::new();
    for _ in 0..nq {
        let k = *rng.pick(&["a", "b", "EIO", "transport", "token", "%C3%A9", "sid", "a+b", "t"]);
        let v = *rng.pick(&["", "1", "x%26y", "polling", "3", "a=b", "%3D", "+", "é", "a/b?c"]);
        qs.push(if rng.chance(1, 10) { k.to_string() } else { format!("{}={}", k, v) });
    }
    let query = qs.join("&");
    let user = if rng.chance(1, 12) { "user:pw@" } else { "" };
    let frag = if rng.chance(1, 6) { "#frag?x=1" } else { "" };
    let url = format!(
        "{}://{}{}{}{}{}{}",
        scheme,
        user,
        host_url,
        match port {
            Some(p) if rng.chance(1, 12) => format!(":000{}", p),
            Some(p) => format!(":{}", p),
            None if rng.chance(1, 12) => ":".to_string(),
            None => String::new(),
        },
        path,
        if qs.is_empty() && !rng.chance(1, 8) { String::new() } else { format!("?{}", query) },
        frag
    );
    let broken = accepted && rng.chance(1, 12);
    let url = if broken {
        match rng.below(6) {
            0 => format!("{}:", lower),
            1 => format!("{}://", lower),
            2 => host_url.clone(),
            3 => format!("{}://{}:99999/", lower, host_url),
            4 => format!("{}://:80/", lower),
            _ => format!("/{}", url),
        }
    } else {
        url
    };
    let accepted = accepted && !broken;
    let cfg = if rng.chance(1, 2) { NetCfg::smooth() } else { NetCfg::random(rng) };
    let mut w = World::new(rng, cfg);
    w.srv.keep_raw = true;
    w.srv.auto_handshake = !secure;
    c.key(&url, true);
    c.sample(|| url.clone());
    let exec = w.exec.clone();
    let net = w.net.clone();
    let dials: Rc<RefCell<Vec<(String, u16)>>> = Rc::default();
    let d2 = dials.clone();
    let direct = rng.chance(1, 5);
    let u2 = url.clone();
    let used = Rc::new(RefCell::new(false));
    let used2 = used.clone();
    let mut f: Pin<Box<dyn Future<Output = Result<Client, Error>>>> = if direct {
        Box::pin(async move {
            *used2.borrow_mut() = true;
            Client::from_stream(&u2, net.io(), &exec).await
        })
    } else {
        Box::pin(async move {
            Client::connect(
                &u2,
                move |h, p| {
                    d2.borrow_mut().push((h, p));
                    *used2.borrow_mut() = true;
                    let io = net.io();
                    async move { Ok::<_, std::io::Error>(io) }
                },
                &exec,
            )
            .await
        })
    };
    let r = w.drive(&mut f)?;
    let dials = dials.borrow().clone();
    if !accepted {
        match &r {
            Driven::Done(Err(Error::UrlError(..))) => {}
            Driven::Done(Ok(_)) => fail!("url {:?} is accepted", url),
            Driven::Done(Err(e)) => fail!("url {:?}: {:?}", url, e),
            Driven::Stuck => fail!("url {:?}: connecting hangs", url),
        }
        if !dials.is_empty() {
            fail!("url {:?} is refused but {:?} is dialled", url, dials);
        }
        w.settle()?;
        if w.net.lock().stats.bytes_out > 0 {
            fail!("url {:?} is refused but something is sent", url);
        }
        c.count("urls_refused");
        return Ok(());
    }
    if !direct && dials != vec![(host_dial.clone(), dial_port)] {
        fail!("url {:?} dials {:?} instead of {:?}", url, dials, (host_dial, dial_port));
    }
    if secure {
        let d = w.srv.raw_in.clone();
        let res = match &r {
            Driven::Done(Err(e)) => Some(format!("{:?}", e)),
            Driven::Done(Ok(_)) => fail!("url {:?}: a client without TLS", url),
            Driven::Stuck => None,
        };
        check_tls(&d, &host_dial).map_err(|e| Fail::v(format!("url {:?} ({:?}): {}", url, res, e)))?;
        if res.is_none() && d.is_empty() {
            fail!("url {:?}: nothing is sent", url);
        }
        c.count(if d.is_empty() { "tls_not_attempted" } else { "tls_hellos" });
        drop(f);
        w.settle()?;
        return Ok(());
    }
    match &r {
        Driven::Done(Ok(_)) => {}
        Driven::Done(Err(e)) => fail!("url {:?}: {:?}", url, e),
        Driven::Stuck => fail!("url {:?}: connecting hangs", url),
    }
    let q = w.srv.dec.request.clone().ok_or_else(|| Fail::v("no request"))?;
    if q.method != "GET" || q.version != "HTTP/1.1" {
        fail!("url {:?}: request {:?} {:?}", url, q.method, q.version);
    }
    let mut it = q.target.splitn(2, '?');
    let got_path = it.next().unwrap();
    let got_query = it.next().unwrap_or("");
    if got_path != hdr_path {
        fail!("url {:?}: path {:?} is requested instead of {:?}", url, got_path, hdr_path);
    }
    let mut want = pairs(&query);
    want.push(("EIO".into(), "4".into()));
    want.push(("transport".into(), "websocket".into()));
    if pairs(got_query) != want {
        fail!("url {:?}: query {:?} is requested instead of {:?}", url, got_query, want);
    }
    // and as written, but for what cannot stand in a request
    let mut raw = query.replace('é', "%C3%A9");
    if !raw.is_empty() {
        raw.push('&');
    }
    raw.push_str("EIO=4&transport=websocket");
    if got_query != raw {
        fail!("url {:?}: query {:?} is requested instead of {:?}", url, got_query, raw);
    }
    let hdr = q.header("host").unwrap_or("");
    let want_hdr = if dial_port == 80 { host_hdr.clone() } else { format!("{}:{}", host_hdr, dial_port) };
    if hdr != want_hdr {
        fail!("url {:?}: Host {:?} instead of {:?}", url, hdr, want_hdr);
    }
    let up = q.header("upgrade").unwrap_or("").to_ascii_lowercase();
    if up != "websocket" {
        fail!("url {:?}: Upgrade {:?}", url, up);
    }
    c.count("urls_requested");
    drop(r);
    drop(f);
    w.settle()?;
    Ok(())
}

/// Everything sent is TLS, beginning with a ClientHello for this host.
fn check_tls(d: &[u8], host: &str) -> Result<(), String> {
    if d.is_empty() {
        return Ok(());
    }
    let mut at = 0;
    let mut first = true;
    while at < d.len() {
        if d.len() < at + 5 {
            return Err(format!("truncated TLS record: {:?}", &d[at..]));
        }
        let (typ, maj) = (d[at], d[at + 1]);
        let n = u16::from_be_bytes([d[at + 3], d[at + 4]]) as usize;
        if !(20..=24).contains(&typ) || maj != 3 || d.len() < at + 5 + n {
            return Err(format!("not a TLS record: {:?}", &d[at..d.len().min(at + 40)]));
        }
        let body = &d[at + 5..at + 5 + n];
        if first {
            if typ != 22 || body.first() != Some(&1) {
                return Err("the first record is not a ClientHello".into());
            }
            let sni = sni(body).ok_or("unreadable ClientHello")?;
            if sni.as_deref() != Some(host) {
                return Err(format!("the ClientHello is for {:?} instead of {:?}", sni, host));
            }
        }
        first = false;
        at += 5 + n;
    }
    Ok(())
}

fn sni(b: &[u8]) -> Option<Option<String>> {
    let mut p = 4 + 2 + 32;
    p += 1 + *b.get(p)? as usize;
    let n = u16::from_be_bytes([*b.get(p)?, *b.get(p + 1)?]) as usize;
    p += 2 + n;
    p += 1 + *b.get(p)? as usize;
    let total = u16::from_be_bytes([*b.get(p)?, *b.get(p + 1)?]) as usize;
    p += 2;
    let end = p + total;
    while p + 4 <= end {
        let t = u16::from_be_bytes([*b.get(p)?, *b.get(p + 1)?]);
        let n = u16::from_be_bytes([*b.get(p + 2)?, *b.get(p + 3)?]) as usize;
        let e = b.get(p + 4..p + 4 + n)?;
        if t == 0 {
            let n = u16::from_be_bytes([*e.get(3)?, *e.get(4)?]) as usize;
            return Some(String::from_utf8(e.get(5..5 + n)?.to_vec()).ok());
        }
        p += 4 + n;
    }
    Some(None)
}
