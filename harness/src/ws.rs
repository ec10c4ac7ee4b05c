//! Minimal server side of RFC 6455, written for the mock server.

use crate::rng::Rng;

pub fn sha1(data: &[u8]) -> [u8; 20] {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    for c in m.chunks(64) {
        let mut w = [0u32; 80];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([c[i * 4], c[i * 4 + 1], c[i * 4 + 2], c[i * 4 + 3]]);
        }
        for i in 16..80 {
            w[i] = (w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1);
        }
        let [mut a, mut b, mut cc, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i {
                0..=19 => ((b & cc) | (!b & d), 0x5A827999),
                20..=39 => (b ^ cc ^ d, 0x6ED9EBA1),
                40..=59 => ((b & cc) | (b & d) | (cc & d), 0x8F1BBCDC),
                _ => (b ^ cc ^ d, 0xCA62C1D6u32),
            };
            let t = a
                .rotate_left(5)
                .wrapping_add(f)
                .wrapping_add(e)
                .wrapping_add(k)
                .wrapping_add(*wi);
            e = d;
            d = cc;
            cc = b.rotate_left(30);
            b = a;
            a = t;
        }
        for (x, y) in h.iter_mut().zip([a, b, cc, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    let mut out = [0; 20];
    for i in 0..5 {
        out[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    out
}

pub fn base64(d: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(T[(n >> (18 - 6 * i)) as usize & 63] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}

pub fn accept_key(key: &str) -> String {
    base64(&sha1(format!("{}258EAFA5-E914-47DA-95CA-C5AB0DC85B11", key).as_bytes()))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Msg {
    Text(String),
    Binary(Vec<u8>),
    Ping(Vec<u8>),
    Pong(Vec<u8>),
    Close(Vec<u8>),
}

fn frame(op: u8, fin: bool, data: &[u8], out: &mut Vec<u8>) {
    out.push(if fin { 0x80 } else { 0 } | op);
    if data.len() < 126 {
        out.push(data.len() as u8);
    } else if data.len() < 65536 {
        out.push(126);
        out.extend_from_slice(&(data.len() as u16).to_be_bytes());
    } else {
        out.push(127);
        out.extend_from_slice(&(data.len() as u64).to_be_bytes());
    }
    out.extend_from_slice(data);
}

/// Encode a server message; data messages are optionally fragmented, with control frames between.
pub fn encode(m: &Msg, rng: &mut Rng, fragment: bool, out: &mut Vec<u8>) {
    let (op, data): (u8, &[u8]) = match m {
        Msg::Text(t) => (1, t.as_bytes()),
        Msg::Binary(b) => (2, b),
        Msg::Ping(b) => (9, b),
        Msg::Pong(b) => (10, b),
        Msg::Close(b) => (8, b),
    };
    if op < 8 && fragment && data.len() > 1 {
        let mut rest = data;
        let mut first = true;
        while !rest.is_empty() {
            let n = rng.range(0, rest.len());
            let (a, b) = rest.split_at(n);
            frame(if first { op } else { 0 }, b.is_empty(), a, out);
            first = false;
            if !b.is_empty() && rng.chance(1, 6) {
                frame(10, true, b"", out); // unsolicited pong between fragments
            }
            rest = b;
        }
    } else {
        frame(op, true, data, out);
    }
}

#[derive(Debug, Clone)]
pub struct Request {
    pub target: String,
    pub method: String,
    pub version: String,
    pub headers: Vec<(String, String)>,
}

impl Request {
    pub fn header(&self, name: &str) -> Option<&str> {
        self.headers.iter().find(|(k, _)| k.eq_ignore_ascii_case(name)).map(|(_, v)| v.as_str())
    }
}

/// Incremental decoder of what the client sends.
#[derive(Default)]
pub struct Decoder {
    buf: Vec<u8>,
    /// how much of `buf` is used up
    used: usize,
    pub request: Option<Request>,
    frag: Option<(u8, Vec<u8>)>,
    pub frames: u64,
}

impl Decoder {
    pub fn feed(&mut self, d: &[u8]) {
        self.buf.extend_from_slice(d);
    }

    /// Try to take a complete HTTP request head.
    pub fn take_request(&mut self) -> Result<Option<Request>, String> {
        let p = match self.buf.windows(4).position(|w| w == b"\r\n\r\n") {
            None => return Ok(None),
            Some(p) => p,
        };
        let head: Vec<u8> = self.buf.drain(..p + 4).collect();
        let head = String::from_utf8(head).map_err(|_| "request head not utf-8")?;
        let mut lines = head.split("\r\n");
        let mut first = lines.next().unwrap().splitn(3, ' ');
        let method = first.next().unwrap_or("").to_string();
        let target = first.next().unwrap_or("").to_string();
        let version = first.next().unwrap_or("").to_string();
        let headers = lines
            .filter(|l| !l.is_empty())
            .map(|l| {
                let mut p = l.splitn(2, ':');
                (p.next().unwrap().trim().to_string(), p.next().unwrap_or("").trim().to_string())
            })
            .collect();
        let r = Request { target, method, version, headers };
        self.request = Some(r.clone());
        Ok(Some(r))
    }

    /// Next complete message from the client, if any.
    pub fn next(&mut self) -> Result<Option<Msg>, String> {
        loop {
            if self.used > self.buf.len() / 2 {
                self.buf.drain(..self.used);
                self.used = 0;
            }
            let b = &self.buf[self.used..];
            if b.len() < 2 {
                return Ok(None);
            }
            let fin = b[0] & 0x80 != 0;
            if b[0] & 0x70 != 0 {
                return Err("reserved bits set by client".into());
            }
            let op = b[0] & 0xf;
            if b[1] & 0x80 == 0 {
                return Err("client frame not masked".into());
            }
            let (len, mut at) = match b[1] & 0x7f {
                126 => {
                    if b.len() < 4 {
                        return Ok(None);
                    }
                    (u16::from_be_bytes([b[2], b[3]]) as usize, 4)
                }
                127 => {
                    if b.len() < 10 {
                        return Ok(None);
                    }
                    let mut x = [0; 8];
                    x.copy_from_slice(&b[2..10]);
                    (u64::from_be_bytes(x) as usize, 10)
                }
                n => (n as usize, 2),
            };
            if b.len() < at + 4 + len {
                return Ok(None);
            }
            let mask = [b[at], b[at + 1], b[at + 2], b[at + 3]];
            at += 4;
            let data: Vec<u8> = b[at..at + len].iter().enumerate().map(|(i, x)| x ^ mask[i % 4]).collect();
            self.used += at + len;
            self.frames += 1;
            match op {
                8 => return Ok(Some(Msg::Close(data))),
                9 => return Ok(Some(Msg::Ping(data))),
                10 => return Ok(Some(Msg::Pong(data))),
                1 | 2 | 0 => {
                    let (op, data) = if op == 0 {
                        let (o, mut d) = self.frag.take().ok_or("continuation without start")?;
                        d.extend_from_slice(&data);
                        (o, d)
                    } else {
                        if self.frag.is_some() {
                            return Err("data frame inside a fragmented message".into());
                        }
                        (op, data)
                    };
                    if !fin {
                        self.frag = Some((op, data));
                        continue;
                    }
                    return Ok(Some(if op == 1 {
                        Msg::Text(String::from_utf8(data).map_err(|_| "text frame is not UTF-8")?)
                    } else {
                        Msg::Binary(data)
                    }));
                }
                x => return Err(format!("client opcode {}", x)),
            }
        }
    }
}

#[cfg(test)]
mod tests {
    #[test]
    fn accept() {
        assert_eq!(super::accept_key("dGhlIHNhbXBsZSBub25jZQ=="), "s3pPLMBiTxaa9kYG" .to_string() + "zzhZRbK+xOo=");
    }
}
