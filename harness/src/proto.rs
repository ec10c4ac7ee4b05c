//! Reference implementation of the socket.io (protocol 3/4 text form) packet grammar, written from
//! the protocol description, used as oracle for what the library decodes and encodes.

use crate::jsonref::{self, Notes, Style, J};
use crate::rng::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Connect,
    Disconnect,
    Event,
    Ack,
}

#[derive(Clone, Debug)]
pub struct Pkt {
    pub kind: Kind,
    pub binary: bool,
    /// "/" when absent
    pub ns: String,
    pub id: Option<u64>,
    pub args: Vec<J>,
}

/// What the reference grammar says about a text.
#[derive(Debug)]
pub enum Ref {
    Ok(Parsed),
    Bad(&'static str),
    /// not pinned down by the properties (e.g. `0[]`, white space after the arguments)
    Grey(&'static str),
}

#[derive(Debug)]
pub struct Parsed {
    pub kind: Kind,
    pub binary: bool,
    pub attachments: u64,
    pub ns: String,
    pub ns_present: bool,
    pub id: Option<u64>,
    pub args: Vec<J>,
    pub notes: Notes,
}

fn number(s: &[u8], i: &mut usize) -> Option<&'static str> {
    // advances over 0|[1-9][0-9]*; returns Some(reason) never, kept simple
    if *i < s.len() && s[*i] == b'0' {
        *i += 1;
    } else {
        while *i < s.len() && s[*i].is_ascii_digit() {
            *i += 1;
        }
    }
    None
}

pub fn parse(text: &str) -> Ref {
    let s = text.as_bytes();
    let mut i = 0;
    let (kind, binary) = match s.first() {
        Some(b'0') => (Kind::Connect, false),
        Some(b'1') => (Kind::Disconnect, false),
        Some(b'2') => (Kind::Event, false),
        Some(b'3') => (Kind::Ack, false),
        Some(b'5') => (Kind::Event, true),
        Some(b'6') => (Kind::Ack, true),
        _ => return Ref::Bad("type"),
    };
    i += 1;
    // attachments
    let mut attachments: Option<Option<u64>> = None;
    {
        let mut k = i;
        number(s, &mut k);
        if k > i && s.get(k) == Some(&b'-') {
            attachments = Some(text[i..k].parse().ok());
            i = k + 1;
        }
    }
    // namespace
    let mut ns = "/".to_string();
    let mut ns_present = false;
    if s.get(i) == Some(&b'/') {
        match text[i..].find(',') {
            Some(p) if p >= 2 => {
                ns = text[i..i + p].to_string();
                ns_present = true;
                i += p + 1;
            }
            Some(_) => return Ref::Grey("namespace of one character"),
            None => return Ref::Bad("unterminated namespace"),
        }
    }
    // id
    let mut id: Option<Option<u64>> = None;
    {
        let mut k = i;
        number(s, &mut k);
        if k > i {
            id = Some(text[i..k].parse().ok());
            i = k;
        }
    }
    // arguments
    let mut args = Vec::new();
    let mut present = false;
    let mut notes = Notes::default();
    if i < s.len() {
        if s[i] != b'[' {
            return Ref::Bad("junk after header");
        }
        match jsonref::parse(&text[i..]) {
            Ok((J::A(v), n)) => {
                if !text.ends_with(']') {
                    return Ref::Bad("white space after the argument list");
                }
                args = v;
                notes = n;
                present = true;
            }
            Ok(_) => return Ref::Bad("arguments are not an array"),
            Err(e) if e.contains("too deep") => return Ref::Grey("beyond the reference parser's depth"),
            Err(_) => return Ref::Bad("arguments are not JSON"),
        }
    }
    if attachments == Some(None) || id == Some(None) {
        return Ref::Bad("number does not fit");
    }
    let attachments = attachments.map(|x| x.unwrap());
    let id = id.map(|x| x.unwrap());
    match kind {
        Kind::Connect | Kind::Disconnect => {
            if attachments.is_some() || id.is_some() || !args.is_empty() {
                return Ref::Bad("data on a dataless packet");
            }
            if present {
                return Ref::Grey("empty argument list on a dataless packet");
            }
        }
        Kind::Event | Kind::Ack => {
            if binary && attachments.is_none() {
                return Ref::Bad("binary packet without attachment count");
            }
            if !binary && attachments == Some(0) {
                return Ref::Grey("non-binary packet declaring zero attachments");
            }
            if !binary && attachments.is_some() {
                return Ref::Bad("non-binary packet with attachments");
            }
            if kind == Kind::Event && args.is_empty() {
                return Ref::Bad("event without arguments");
            }
            if kind == Kind::Ack && id.is_none() {
                return Ref::Bad("ack without id");
            }
        }
    }
    Ref::Ok(Parsed { kind, binary, attachments: attachments.unwrap_or(0), ns, ns_present, id, args, notes })
}

/// Encode a packet as a server would. Returns the text (without the engine.io header) and the
/// attachments.
pub fn encode(p: &Pkt, rng: &mut Rng, st: Style) -> (String, Vec<Vec<u8>>) {
    let mut att = if p.binary { Some(Vec::new()) } else { None };
    let mut body = String::new();
    let list = J::A(p.args.clone());
    match p.kind {
        Kind::Connect | Kind::Disconnect => {}
        Kind::Ack if p.args.is_empty() && rng.chance(1, 4) => {}
        _ => jsonref::write(&list, &mut body, rng, st, &mut att),
    }
    let mut s = String::new();
    s.push(match (p.kind, p.binary) {
        (Kind::Connect, _) => '0',
        (Kind::Disconnect, _) => '1',
        (Kind::Event, false) => '2',
        (Kind::Ack, false) => '3',
        (Kind::Event, true) => '5',
        (Kind::Ack, true) => '6',
    });
    let att = att.unwrap_or_default();
    if p.binary {
        s.push_str(&format!("{}-", att.len()));
    }
    if p.ns != "/" {
        s.push_str(&p.ns);
        s.push(',');
    }
    if let Some(id) = p.id {
        s.push_str(&id.to_string());
    }
    s.push_str(&body);
    (s, att)
}

const NAMESPACES: &[&str] = &[
    "/nsp", "/a", "/admin/x", "/ünï", "/日本", "/1", "/[x]", "/a[1]", "/\"q\"", "/-", "/5-", "/ sp", "//", "/a?token=1&b=[2]", "/😀",
    "/nsp2", "/_", "/\n", "/A", "/nsp/",
];

pub fn gen_ns(rng: &mut Rng) -> String {
    if rng.chance(1, 200) {
        return format!("/{}", jsonref::gen_long_string(rng));
    }
    match rng.below(4) {
        0 | 1 => "/".into(),
        2 => rng.pick(NAMESPACES).to_string(),
        _ => {
            let mut s: String = jsonref::gen_string(rng).chars().filter(|c| *c != ',').collect();
            if s.is_empty() {
                s.push('n');
            }
            format!("/{}", s)
        }
    }
}

pub fn gen_pkt(rng: &mut Rng) -> Pkt {
    let kind = match rng.below(12) {
        0 => Kind::Connect,
        1 => Kind::Disconnect,
        2..=7 => Kind::Event,
        _ => Kind::Ack,
    };
    let ns = gen_ns(rng);
    let dataless = matches!(kind, Kind::Connect | Kind::Disconnect);
    let binary = !dataless && rng.chance(1, 2);
    let id = match kind {
        Kind::Event if rng.chance(1, 2) => Some(jsonref::gen_u64(rng)),
        Kind::Ack => Some(jsonref::gen_u64(rng)),
        _ => None,
    };
    let args = if dataless {
        vec![]
    } else {
        let mut v = Vec::new();
        if kind == Kind::Event {
            v.push(if rng.chance(9, 10) { J::S(jsonref::gen_string(rng)) } else { jsonref::gen(rng, 2, binary) });
        }
        let n = if rng.chance(1, 60) { rng.range(200, 300) } else { rng.size(12) };
        for _ in 0..n {
            let d = rng.below(5);
            v.push(jsonref::gen(rng, d, binary));
        }
        v
    };
    Pkt { kind, binary, ns, id, args }
}
