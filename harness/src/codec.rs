//! Monitors for the protocol crates (C01-C10, C26 and the decoding half of C03).

use crate::core::{Case, Fail, Verdict};
use crate::jsonref::{self, J, Style};
use crate::proto::{self, Kind, Parsed, Ref};
use crate::rng::Rng;
use crate::shapes::{self, *};
use crate::{fail, for_types};
use owned_subslice::OwnedSubslice;
use serde::{Deserialize, Serialize};
use serde_json::Value;
use socket_io_protocol::engine::{self, Decoder, Message as EMsg, Packet as EPacket};
use socket_io_protocol::socket::{self, Args, Data, DeserializeResult, Packet, PacketBuilder};
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use tungstenite::Message as WsMessage;

pub const OPEN: &str = "0{\"sid\":\"s\",\"upgrades\":[],\"pingInterval\":25000,\"pingTimeout\":5000}";

pub fn open_decoder() -> Decoder {
    let mut d = Decoder::new();
    d.decode(WsMessage::Text(OPEN.into())).expect("observed: open packet refused");
    d
}

/// The engine message as the decoder hands it out, or built directly.
pub fn emsg_text(t: &str, rng: &mut Rng) -> Result<EMsg, Fail> {
    if rng.chance(1, 2) {
        Ok(EMsg::Text(t.to_string().into()))
    } else {
        match open_decoder().decode(WsMessage::Text(format!("4{}", t))) {
            Ok(EPacket::Message(m)) => Ok(m),
            other => Err(Fail::v(format!("engine message {:?} not decoded: {:?}", t, other))),
        }
    }
}

pub fn emsg_bin(b: &[u8], rng: &mut Rng) -> Result<EMsg, Fail> {
    match rng.below(3) {
        0 => Ok(EMsg::Binary(b.to_vec().into())),
        1 => {
            // a window in the middle of a larger buffer
            let mut v = vec![0xEE; 3];
            v.extend_from_slice(b);
            v.extend_from_slice(&[0xDD; 2]);
            Ok(EMsg::Binary(OwnedSubslice::new(v, 3..3 + b.len())))
        }
        _ => {
            let mut v = vec![4];
            v.extend_from_slice(b);
            match open_decoder().decode(WsMessage::Binary(v)) {
                Ok(EPacket::Message(m)) => Ok(m),
                other => Err(Fail::v(format!("engine binary message not decoded: {:?}", other))),
            }
        }
    }
}

pub enum Decoded {
    Packet(Packet, Option<u64>),
    Refused(String),
    /// more attachments needed than we are willing to supply
    Waiting(u64),
}

/// Decode a text, completing it with as many of `atts` as it asks for.
pub fn decode(text: &str, atts: Option<&[Vec<u8>]>, rng: &mut Rng) -> Result<Decoded, Fail> {
    let m = emsg_text(text, rng)?;
    Ok(match socket::deserialize(m) {
        Ok(DeserializeResult::Packet(p)) => Decoded::Packet(p, None),
        Err(e) => Decoded::Refused(format!("{} / {:?}", e, e)),
        Ok(DeserializeResult::DataNeeded(part)) => {
            let n = part.attachments();
            if n > 400 {
                return Ok(Decoded::Waiting(n));
            }
            let mut v = Vec::new();
            for i in 0..n as usize {
                let b = match atts {
                    Some(a) if i < a.len() => a[i].clone(),
                    _ => vec![i as u8; i % 5],
                };
                v.push(emsg_bin(&b, rng)?);
            }
            match socket::deserialize_partial(part, v) {
                Ok(p) => Decoded::Packet(p, Some(n)),
                Err(e) => Decoded::Refused(format!("{} / {:?}", e, e)),
            }
        }
    })
}

pub fn args_of<'a>(p: &'a Packet) -> Option<(Option<u64>, Args<'a>)> {
    match p.data() {
        Data::Event { id, args } => Some((id, args)),
        Data::Ack { id, args } => Some((Some(id), args)),
        _ => None,
    }
}

fn kind_of(p: &Packet) -> Kind {
    match p.data() {
        Data::Connect => Kind::Connect,
        Data::Disconnect => Kind::Disconnect,
        Data::Event { .. } => Kind::Event,
        Data::Ack { .. } => Kind::Ack,
    }
}

/// Compare a decoded packet with what was encoded.
fn check_packet(p: &Packet, kind: Kind, ns: &str, id: Option<u64>, args: &[J], skip_values: bool) -> Verdict {
    if kind_of(p) != kind {
        fail!("decoded as {:?}, encoded {:?}", kind_of(p), kind);
    }
    if p.namespace() != ns {
        fail!("namespace decoded as {:?}, encoded {:?}", p.namespace(), ns);
    }
    match args_of(p) {
        None => {
            if !args.is_empty() {
                fail!("arguments lost");
            }
        }
        Some((did, dargs)) => {
            if did != id {
                fail!("id decoded as {:?}, encoded {:?}", did, id);
            }
            if dargs.len() != args.len() {
                fail!("{} arguments decoded, {} encoded: {:?} vs {:?}", dargs.len(), args.len(), dargs, args);
            }
            for (i, a) in args.iter().enumerate() {
                let d = match dargs.get(i) {
                    Some(d) => d,
                    None => fail!("argument {} missing", i),
                };
                if skip_values {
                    continue;
                }
                match d.to_json_value() {
                    Ok(v) if jsonref::same(a, &v) => {}
                    other => fail!("argument {} decoded as {:?}, encoded {:?}", i, other, a.value()),
                }
                match d.deserialize::<Value>() {
                    Ok(v) if jsonref::same(a, &v) => {}
                    other => fail!("argument {} read (typed) as {:?}, encoded {:?}", i, other, a.value()),
                }
            }
        }
    }
    Ok(())
}

fn style(rng: &mut Rng) -> Style {
    Style { ws: rng.chance(1, 2), esc: rng.chance(1, 2) }
}

fn feature_pkt(c: &mut Case, p: &proto::Pkt, text: &str, natt: usize) {
    c.count(&format!("kind_{:?}{}", p.kind, if p.binary { "_binary" } else { "" }));
    if p.ns != "/" {
        c.count("with_namespace");
        if !p.ns.is_ascii() {
            c.count("non_ascii_namespace");
        }
    }
    if p.id.is_some() {
        c.count("with_id");
    }
    if natt > 0 {
        c.count("with_attachments");
    }
    if natt > 9 {
        c.count("attachments_over_9");
    }
    if text.contains('\n') {
        c.count("with_newline");
    }
    c.add("arguments", p.args.len() as u64);
}

// ---------------------------------------------------------------- C01

pub fn c01(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut p = proto::gen_pkt(rng);
    if rng.chance(1, 200) && p.kind == Kind::Event {
        // deep but representable
        let mut j = J::U(7);
        for i in 0..rng.range(20, 100) {
            j = if i % 2 == 0 { J::A(vec![j]) } else { J::O(vec![("k".into(), j)]) };
        }
        p.args.push(j);
    }
    if p.kind != Kind::Connect && p.kind != Kind::Disconnect && rng.chance(1, 3000) {
        // very many arguments
        let n = *rng.pick(&[1000, 1025, 4097, 10_001, 65_537]);
        p.args.extend((0..n).map(|i| J::U(i)));
    }
    if p.binary && rng.chance(1, 30) {
        let n = *rng.pick(&[10, 11, 99, 100, 255, 256, 257, 300]);
        let via = rng.chance(1, 2);
        p.args.push(J::A((0..n).map(|i| J::B(vec![i as u8; i % 3], via)).collect()));
    }
    let st = style(rng);
    let (text, atts) = proto::encode(&p, rng, st);
    c.trace(|| format!("text {:?} attachments {:?}", text, atts));
    c.key(&(text.as_str(), &atts), p.args.len() > 1 || p.ns != "/" || p.id.is_some() || !atts.is_empty());
    feature_pkt(c, &p, &text, atts.len());
    c.sample(|| format!("{:?} + {} attachments", text, atts.len()));
    match decode(&text, Some(&atts), rng)? {
        Decoded::Packet(d, needed) => {
            let expect = if p.binary && !atts.is_empty() { Some(atts.len() as u64) } else { None };
            if needed != expect {
                fail!("needed {:?} attachments, encoded {:?} for {:?}", needed, expect, text);
            }
            check_packet(&d, p.kind, &p.ns, p.id, &p.args, false).map_err(|e| e.context(&text))?;
        }
        Decoded::Refused(e) => fail!("well-formed packet refused: {:?}: {}", text, e),
        Decoded::Waiting(n) => fail!("waits for {} attachments, encoded {}: {:?}", n, atts.len(), text),
    }
    Ok(())
}

// a mutated packet text
pub fn mutate(text: &str, rng: &mut Rng) -> String {
    const TOK: &[&str] = &[
        "0", "1", "2", "3", "4", "5", "6", "7", "-", "/", ",", "[", "]", "{", "}", "\"", "\\", " ", "\n", "1-", "0-", "00", "01-",
        "18446744073709551615", "18446744073709551616", "99999999999999999999999", "/n,", "[]", "[1]", "null", "e", "E", ".", "1e999",
        "\\ud800", "\u{0}", "é", "\t", ":", "\u{feff}", "\u{a0}", "\u{200b}", "\u{661}", "\u{ff11}", "\r\n", "\u{2028}", "tru", "-1", "+1", "\\u12", "\u{7f}", "[\"a\"]", "{\"_placeholder\":true,\"num\":0}",
    ];
    let mut s: Vec<char> = text.chars().collect();
    for _ in 0..rng.range(1, 3) {
        let n = s.len();
        // edits near the head are the interesting ones
        let at = if rng.chance(2, 3) { rng.below(n.min(12) + 1) } else { rng.below(n + 1) };
        match rng.below(7) {
            0 if n > 0 => {
                s.remove(at.min(n - 1));
            }
            1 | 2 => {
                let t: Vec<char> = rng.pick(TOK).chars().collect();
                for (i, ch) in t.into_iter().enumerate() {
                    s.insert(at + i, ch);
                }
            }
            3 if n > 0 => {
                let t: Vec<char> = rng.pick(TOK).chars().collect();
                s.splice(at.min(n - 1)..at.min(n - 1) + 1, t);
            }
            4 => s.truncate(at),
            5 if n > 1 => {
                let a = rng.below(n);
                let b = rng.below(n);
                s.swap(a, b);
            }
            6 if n > 0 => {
                let b = rng.range(at.min(n - 1), n - 1);
                let part: Vec<char> = s[at.min(n - 1)..b].to_vec();
                s.splice(at.min(n - 1)..at.min(n - 1), part);
            }
            _ => s.insert(at, *rng.pick(&['x', '5', '[', '-'])),
        }
    }
    s.into_iter().collect()
}

/// Short texts over the header alphabet, to cover the header grammar densely.
fn short_text(rng: &mut Rng) -> String {
    const TOK: &[&str] = &["0", "1", "2", "3", "5", "6", "4", "10", "07", "-", "/a", "/", ",", "[\"e\"]", "[]", "[1,\"x\"]", "[", "]", "/é,", "256", "\n", " "];
    let n = rng.range(0, 7);
    (0..n).map(|_| *rng.pick(TOK)).collect()
}

fn check_against_reference(c: &mut Case, text: &str, atts: Option<&[Vec<u8>]>, rng: &mut Rng, accept_side: bool, refuse_side: bool) -> Verdict {
    let r = proto::parse(text);
    let d = decode(text, atts, rng)?;
    match (&r, d) {
        (Ref::Grey(g), _) => c.count(&format!("grey: {}", g)),
        (Ref::Bad(why), Decoded::Packet(p, _)) => {
            if refuse_side {
                fail!("malformed packet ({}) {:?} decoded as {:?}", why, text, p);
            }
        }
        (Ref::Bad(why), _) => c.count(&format!("refused: {}", why)),
        (Ref::Ok(p), Decoded::Packet(d, needed)) => {
            c.count("accepted");
            if accept_side {
                let expect = if p.binary && p.attachments > 0 { Some(p.attachments) } else { None };
                if needed != expect {
                    fail!("needs {:?} attachments instead of {:?}: {:?}", needed, expect, text);
                }
                // with placeholders the values depend on the attachments, checked elsewhere
                let skip = p.attachments > 0 || p.notes.unrepresentable || p.notes.depth > 120;
                let dup = p.args.iter().any(has_dup);
                check_packet(&d, p.kind, &p.ns, p.id, &p.args, skip || dup).map_err(|e| e.context(text))?;
            }
        }
        (Ref::Ok(_), Decoded::Refused(e)) => {
            if accept_side {
                fail!("well-formed packet refused: {:?}: {}", text, e);
            }
        }
        (Ref::Ok(p), Decoded::Waiting(n)) => {
            c.count("waiting");
            if accept_side && n != p.attachments {
                fail!("waits for {} attachments instead of {}: {:?}", n, p.attachments, text);
            }
        }
    }
    Ok(())
}

fn has_dup(j: &J) -> bool {
    match j {
        J::A(v) => v.iter().any(has_dup),
        J::O(m) => m.iter().enumerate().any(|(i, (k, v))| has_dup(v) || m[..i].iter().any(|(x, _)| x == k)),
        _ => false,
    }
}

pub fn c01_near(c: &mut Case, rng: &mut Rng) -> Verdict {
    let text = if rng.chance(1, 3) {
        short_text(rng)
    } else {
        let p = proto::gen_pkt(rng);
        let st = style(rng);
        mutate(&proto::encode(&p, rng, st).0, rng)
    };
    c.trace(|| format!("text {:?}", text));
    c.key(&text, matches!(proto::parse(&text), Ref::Ok(_)));
    c.sample(|| format!("{:?}", text));
    check_against_reference(c, &text, None, rng, true, false)
}

// ---------------------------------------------------------------- C02

pub fn c02(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut text = if rng.chance(1, 3) {
        short_text(rng)
    } else {
        let p = proto::gen_pkt(rng);
        let st = style(rng);
        let mut t = proto::encode(&p, rng, st).0;
        if rng.chance(1, 4) {
            // remove or swap a whole header field
            let v: [(&str, &str); 12] = [
                ("5", "2"), ("6", "3"), ("2", "5"), ("3", "6"), ("2", "0"), ("3", "1"), ("5", "0"), ("6", "1"), ("2", "4"), ("5", "7"), ("3", "2"), ("6", "5"),
            ];
            let (a, b) = *rng.pick(&v);
            if let Some(rest) = t.strip_prefix(a) {
                t = format!("{}{}", b, rest);
            }
        }
        t
    };
    if rng.chance(3, 4) {
        text = mutate(&text, rng);
    }
    c.trace(|| format!("text {:?}", text));
    c.key(&text, matches!(proto::parse(&text), Ref::Bad(_)));
    c.sample(|| format!("{:?} -> {:?}", text, proto::parse(&text)));
    check_against_reference(c, &text, None, rng, false, true)
}

pub fn c02_attachments(c: &mut Case, rng: &mut Rng) -> Verdict {
    // a valid binary header with a wrong list of attachments
    let mut p = proto::gen_pkt(rng);
    while !p.binary {
        p = proto::gen_pkt(rng);
    }
    p.args.push(J::B(jsonref::gen_bytes(rng, false), true));
    let st = style(rng);
    let (text, atts) = proto::encode(&p, rng, st);
    let m = emsg_text(&text, rng)?;
    let part = match socket::deserialize(m) {
        Ok(DeserializeResult::DataNeeded(p)) => p,
        Ok(DeserializeResult::Packet(p)) => fail!("binary packet complete without its attachments: {:?} -> {:?}", text, p),
        Err(e) => fail!("valid binary header refused: {:?}: {}", text, e),
    };
    let n = atts.len();
    let what = rng.below(4);
    let mut list: Vec<EMsg> = Vec::new();
    for a in &atts {
        list.push(emsg_bin(a, rng)?);
    }
    match what {
        0 => {
            let drop = rng.range(1, n);
            for _ in 0..drop {
                let i = rng.below(list.len());
                list.remove(i);
            }
        }
        1 => {
            for _ in 0..rng.range(1, 3) {
                let i = rng.below(list.len() + 1);
                let e = emsg_bin(b"extra", rng)?;
                list.insert(i, e);
            }
        }
        2 => {
            let i = rng.below(n);
            let t = *rng.pick(&["2[\"x\"]", "", "text", "51-[{\"_placeholder\":true,\"num\":0}]"]);
            list[i] = emsg_text(t, rng)?;
        }
        _ => {
            // too many, one of them text; or a text where all binary ones are present
            let i = rng.below(n + 1);
            let t = emsg_text("2[\"x\"]", rng)?;
            list.insert(i, t);
        }
    }
    let shape = format!("{} declared, case {}, given {}", n, what, list.len());
    c.trace(|| format!("{:?} {}", text, shape));
    c.key(&(&text, what, list.len()), true);
    c.count(["too_few", "too_many", "text_attachment", "extra_text"][what]);
    c.sample(|| format!("{:?}: {}", text, shape));
    if let Ok(p) = socket::deserialize_partial(part, list) {
        fail!("wrong attachments ({}) accepted for {:?}: {:?}", shape, text, p);
    }
    // a binary message where no attachment is expected
    let b = jsonref::gen_bytes(rng, false);
    let b2 = if rng.chance(1, 3) { text.into_bytes() } else { b };
    match socket::deserialize(emsg_bin(&b2, rng)?) {
        Err(_) => Ok(()),
        Ok(r) => fail!("stray binary message {:?} decoded as {:?}", b2, r),
    }
}

// ---------------------------------------------------------------- C03 (decoding half)

fn hostile_json(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => {
            let n = *rng.pick(&[126, 127, 128, 129, 200, 1000, 20000]);
            let (a, b) = *rng.pick(&[("[", "]"), ("{\"a\":", "}")]);
            format!("{}1{}", a.repeat(n), b.repeat(n))
        }
        1 => "1e999".into(),
        2 => format!("-{}", "9".repeat(rng.range(1, 400))),
        3 => "\"\\ud800\"".into(),
        4 => "\"\\udc00x\"".into(),
        5 => "\"\\ud83d\\u0041\"".into(),
        6 => format!("{{\"_placeholder\":true,\"num\":{}}}", rng.pick(&["0", "1", "99", "18446744073709551615", "-1", "1e99", "\"0\"", "null", "[]", "1.5", "18446744073709551616"])),
        7 => "{\"_placeholder\":true}".into(),
        8 => format!("{{\"num\":0,\"_placeholder\":{}}}", rng.pick(&["true", "1", "{}"])),
        9 => "{\"_placeholder\":true,\"num\":0,\"x\":{\"_placeholder\":true,\"num\":7}}".into(),
        10 => "1E400".into(),
        _ => {
            let j = jsonref::gen(rng, 3, false);
            let mut s = String::new();
            let st = style(rng);
            jsonref::write(&j, &mut s, rng, st, &mut None);
            s
        }
    }
}

/// A text a hostile server might send as a socket.io packet.
pub fn hostile_text(rng: &mut Rng) -> String {
    match rng.below(5) {
        0 => short_text(rng),
        1 => {
            let p = proto::gen_pkt(rng);
            let st = style(rng);
            mutate(&proto::encode(&p, rng, st).0, rng)
        }
        2 => jsonref::gen_string(rng),
        _ => {
            let n = rng.size(4);
            let mut s = rng.pick(&["2", "3", "51-", "61-", "52-", "50-", "2/n,", "37", "51-/n,5", "62-9", "312"]).to_string();
            s.push('[');
            if rng.chance(2, 3) {
                s.push_str("\"ev\"");
                if n > 0 {
                    s.push(',');
                }
            }
            for i in 0..n {
                if i > 0 {
                    s.push(',');
                }
                s.push_str(&hostile_json(rng));
            }
            s.push(']');
            s
        }
    }
}

macro_rules! try_types {
    ($arg:expr, $($t:ty),*) => { $( { let r = $arg.deserialize::<$t>(); let _ = format!("{:?}", r); if let Err(e) = r { let _ = e.to_string(); } } )* };
}

/// Use every accessor; nothing may panic.
fn exercise(p: &Packet) -> usize {
    let mut n = 0;
    let _ = format!("{} {:?} {:?} {}", p, p, p.data(), p.data());
    let _ = p.namespace().len();
    if let Some((_, args)) = args_of(p) {
        n = exercise_args(&args);
    }
    n
}

pub fn exercise_args(args: &Args) -> usize {
    let mut n = 0;
    {
        let _ = format!("{} {:?} {}", args, args, args.is_empty());
        for i in 0..args.len() + 2 {
            let _ = args.get(i).map(|a| a.to_string());
        }
        for a in args.iter() {
            n += 1;
            let v = a.to_json_value();
            let _ = format!("{} {:?} {:?}", a, a, v);
            if let Err(e) = v {
                let _ = e.to_string();
            }
            try_types!(
                a, Value, String, &str, Cow<str>, Vec<u8>, &[u8], Bb, u8, i64, u64, f64, f32, bool, char, (), Option<Value>, Vec<Value>,
                BTreeMap<String, Value>, HashMap<String, Bb>, BTreeMap<u32, Value>, Plain, WithBytes, Nested, Flat, En, IntTag, AdjTag, Unt,
                Nt, Us, (u8, u8), [u8; 4], u128, i128, serde::de::IgnoredAny, Vec<Vec<Vec<u8>>>, IntMaps
            );
        }
    }
    n
}

pub fn c03_decode(c: &mut Case, rng: &mut Rng) -> Verdict {
    let text = hostile_text(rng);
    c.trace(|| format!("text {:?}", if text.len() > 300 { &text[..text.char_indices().take(300).last().map(|x| x.0).unwrap_or(0)] } else { &text }));
    c.key(&text, true);
    c.sample(|| format!("{:.120?}", text));
    // through a decoder in any state
    let mut dec = if rng.chance(1, 2) { Decoder::new() } else { open_decoder() };
    for _ in 0..rng.below(4) {
        let m = hostile_ws(rng);
        match dec.decode(m) {
            Ok(p) => {
                let _ = format!("{:?}", p);
                if let EPacket::Message(m) = p {
                    match socket::deserialize(m) {
                        Ok(r) => {
                            let _ = format!("{:?}", r);
                        }
                        Err(e) => {
                            let _ = format!("{} {:?}", e, e);
                        }
                    }
                }
            }
            Err(e) => {
                let _ = format!("{} {:?}", e, e);
            }
        }
    }
    match decode(&text, None, rng)? {
        Decoded::Packet(p, _) => {
            c.count("decoded");
            let n = exercise(&p);
            c.add("arguments_exercised", n as u64);
        }
        Decoded::Refused(_) => c.count("refused"),
        Decoded::Waiting(_) => c.count("waiting"),
    }
    Ok(())
}

pub fn hostile_ws(rng: &mut Rng) -> WsMessage {
    match rng.below(10) {
        0 => WsMessage::Text(OPEN.into()),
        1 => WsMessage::Text(mutate(OPEN, rng)),
        2 => WsMessage::Text(rng.pick(&["", "1", "2", "3", "2probe", "3x", "5", "6", "4", "é", "\u{0}", "40", "41", "0{}", "0[]", "0null"]).to_string()),
        3 => WsMessage::Binary(jsonref::gen_bytes(rng, true)),
        4 => {
            let mut v = vec![4];
            v.extend(jsonref::gen_bytes(rng, true));
            WsMessage::Binary(v)
        }
        5 => WsMessage::Ping(vec![1]),
        6 => WsMessage::Close(None),
        _ => WsMessage::Text(format!("4{}", hostile_text(rng))),
    }
}

// ---------------------------------------------------------------- C04, C05

struct Built {
    msgs: Vec<WsMessage>,
    kind: Kind,
    binary: bool,
    ns: String,
    id: Option<u64>,
    /// including the event name
    args: Vec<J>,
    event: Option<String>,
}

fn builder(kind: Kind, ns: &str, id: Option<u64>, event: &str, binary: bool, rng: &mut Rng) -> PacketBuilder {
    match (kind, rng.chance(1, 2)) {
        (Kind::Event, true) => PacketBuilder::new_event(event, ns, id, binary),
        (Kind::Event, false) => PacketBuilder::new_event(event, ns.to_string(), id, binary),
        (_, true) => PacketBuilder::new_ack(ns, id.unwrap(), binary),
        (_, false) => PacketBuilder::new_ack(ns.to_string(), id.unwrap(), binary),
    }
}

fn build(rng: &mut Rng) -> Result<Built, Fail> {
    let kind = if rng.chance(3, 5) { Kind::Event } else { Kind::Ack };
    let ns = proto::gen_ns(rng);
    let binary = rng.chance(2, 3);
    let id = if kind == Kind::Ack || rng.chance(1, 2) { Some(jsonref::gen_u64(rng)) } else { None };
    let event = jsonref::gen_string(rng);
    let mut b = builder(kind, &ns, id, &event, binary, rng);
    let mut args = Vec::new();
    if kind == Kind::Event {
        args.push(J::S(event.clone()));
    }
    let n = if rng.chance(1, 50) { rng.range(10, 40) } else { rng.size(6) };
    for _ in 0..n {
        let d = rng.below(5);
        if rng.chance(1, 4) {
            let j = jsonref::gen(rng, d, true);
            if let Err(e) = b.serialize_arg(&jsonref::Ser(&j)) {
                fail!("argument {:?} refused: {}", j, e);
            }
            args.push(j);
        } else {
            let s = shapes::gen(rng, d);
            if let Err(e) = b.serialize_arg(&s) {
                fail!("argument {:?} refused: {}", s, e);
            }
            args.push(s.j());
        }
    }
    if binary && rng.chance(1, 60) {
        let n = *rng.pick(&[10usize, 11, 99, 100, 101, 255, 256, 260]);
        let s = Sh::Tuple((0..n).map(|i| Sh::Bytes(vec![i as u8; i % 4])).collect());
        if let Err(e) = b.serialize_arg(&s) {
            fail!("argument refused: {}", e);
        }
        args.push(s.j());
    }
    let msgs = b.finish();
    Ok(Built { msgs, kind, binary, ns, id, args, event: if kind == Kind::Event { Some(event) } else { None } })
}

fn all_bytes<'a>(j: &'a J, out: &mut Vec<&'a [u8]>) {
    match j {
        J::B(b, _) => out.push(b),
        J::A(v) => v.iter().for_each(|x| all_bytes(x, out)),
        J::O(m) => m.iter().for_each(|(_, x)| all_bytes(x, out)),
        _ => {}
    }
}

/// Which byte values become attachments: `serialize_bytes` always, sequences when non-empty.
fn normal(j: &J) -> J {
    match j {
        J::B(b, false) if b.is_empty() => J::A(vec![]),
        J::A(v) => J::A(v.iter().map(normal).collect()),
        J::O(m) => J::O(m.iter().map(|(k, v)| (k.clone(), normal(v))).collect()),
        x => x.clone(),
    }
}

fn placeholders(j: &J, out: &mut Vec<u64>) -> Result<(), String> {
    match j {
        J::A(v) => v.iter().try_for_each(|x| placeholders(x, out)),
        J::O(m) => {
            if m.first().map(|(k, _)| k == "_placeholder").unwrap_or(false) {
                match (&m[0].1, m.get(1)) {
                    (J::Bool(true), Some((k, J::U(n)))) if k == "num" && m.len() == 2 => {
                        out.push(*n);
                        Ok(())
                    }
                    _ => Err(format!("odd placeholder {:?}", m)),
                }
            } else {
                m.iter().try_for_each(|(_, x)| placeholders(x, out))
            }
        }
        _ => Ok(()),
    }
}

fn show_msgs(m: &[WsMessage]) -> String {
    let s = format!("{:?}", m);
    s.chars().take(1500).collect()
}

/// The oracle for an encoded packet; returns the reference parse.
pub fn check_encoded(msgs: &[WsMessage], kind: Kind, binary: bool, ns: &str, id: Option<u64>, nargs: usize) -> Result<Parsed, Fail> {
    let text = match msgs.first() {
        Some(WsMessage::Text(t)) => t,
        other => fail!("first message is {:?}", other),
    };
    if std::str::from_utf8(text.as_bytes()).is_err() {
        fail!("text message is not valid UTF-8: {:?}", text.as_bytes());
    }
    if !text.starts_with('4') {
        fail!("message header missing: {:?}", text);
    }
    let p = match proto::parse(&text[1..]) {
        Ref::Ok(p) => p,
        other => fail!("encoded packet is not well-formed: {:?}: {:?}", text, other),
    };
    if p.kind != kind || p.binary != binary {
        fail!("encoded as {:?} binary={}, asked for {:?} binary={}: {:?}", p.kind, p.binary, kind, binary, text);
    }
    if p.ns != ns {
        fail!("encoded namespace {:?} instead of {:?}: {:?}", p.ns, ns, text);
    }
    if p.id != id {
        fail!("encoded id {:?} instead of {:?}: {:?}", p.id, id, text);
    }
    if p.args.len() != nargs {
        fail!("{} arguments encoded instead of {}: {:?}", p.args.len(), nargs, text);
    }
    if msgs.len() as u64 - 1 != p.attachments {
        fail!("{} binary messages, header declares {}: {:?}", msgs.len() - 1, p.attachments, text);
    }
    for m in &msgs[1..] {
        match m {
            WsMessage::Binary(b) if b.first() == Some(&4) => {}
            other => fail!("attachment message {:?}", other),
        }
    }
    Ok(p)
}

pub fn c04(c: &mut Case, rng: &mut Rng) -> Verdict {
    if rng.chance(1, 40) {
        // the dataless packets
        let ns = proto::gen_ns(rng);
        for (m, k) in [(socket::serialize_connect(&ns), "0"), (socket::serialize_disconnect(&ns), "1")] {
            let t = match &m {
                EMsg::Text(t) => t.to_string(),
                other => fail!("dataless packet encoded as {:?}", other),
            };
            let t = t.strip_prefix('4').unwrap_or(&t).to_string();
            let want = if ns == "/" { k.to_string() } else { format!("{}{},", k, ns) };
            if t != want {
                fail!("dataless packet for {:?} encoded as {:?}", ns, t);
            }
        }
        c.key(&ns, true);
        return Ok(());
    }
    let b = build(rng)?;
    c.trace(|| show_msgs(&b.msgs));
    c.key(&format!("{:?}", b.msgs), b.args.len() > 1 || b.ns != "/" || b.id.is_some());
    c.sample(|| show_msgs(&b.msgs).chars().take(200).collect());
    c.count(if b.binary { "binary" } else { "text" });
    c.count(if b.kind == Kind::Event { "events" } else { "acks" });
    c.add("attachments", b.msgs.len() as u64 - 1);
    let p = check_encoded(&b.msgs, b.kind, b.binary, &b.ns, b.id, b.args.len())?;
    if let Some(e) = &b.event {
        if p.args[0] != J::S(e.clone()) {
            fail!("event name {:?} encoded as {:?}", e, p.args[0]);
        }
    }
    // placeholder numbering
    let mut nums = Vec::new();
    if b.binary {
        for a in &p.args {
            placeholders(a, &mut nums).map_err(|e| Fail::v(format!("{} in {}", e, show_msgs(&b.msgs))))?;
        }
    }
    if nums.iter().enumerate().any(|(i, n)| *n != i as u64) || nums.len() != b.msgs.len() - 1 {
        fail!("placeholders {:?} for {} attachments: {}", nums, b.msgs.len() - 1, show_msgs(&b.msgs));
    }
    if b.binary {
        let norm: Vec<J> = b.args.iter().map(normal).collect();
        let mut want = Vec::new();
        norm.iter().for_each(|a| all_bytes(a, &mut want));
        if want.len() != nums.len() {
            fail!("{} byte values, {} attachments: {}", want.len(), nums.len(), show_msgs(&b.msgs));
        }
        for (w, m) in want.iter().zip(&b.msgs[1..]) {
            match m {
                WsMessage::Binary(d) if &d[1..] == *w => {}
                other => fail!("attachment {:?} instead of {:?}", other, w),
            }
        }
    }
    Ok(())
}

/// Run messages of the encoder through the decoder.
fn roundtrip(msgs: &[WsMessage]) -> Result<Packet, Fail> {
    let mut d = open_decoder();
    let mut it = msgs.iter().map(|m| match d.decode(m.clone()) {
        Ok(EPacket::Message(m)) => Ok(m),
        other => Err(Fail::v(format!("encoded message {:?} decodes as {:?}", m, other))),
    });
    let first = match it.next() {
        Some(x) => x?,
        None => fail!("nothing encoded"),
    };
    match socket::deserialize(first) {
        Ok(DeserializeResult::Packet(p)) => {
            if msgs.len() > 1 {
                fail!("packet complete before its attachments: {}", show_msgs(msgs));
            }
            Ok(p)
        }
        Ok(DeserializeResult::DataNeeded(part)) => {
            let rest = it.collect::<Result<Vec<_>, Fail>>()?;
            socket::deserialize_partial(part, rest).map_err(|e| Fail::v(format!("{}: {}", e, show_msgs(msgs))))
        }
        Err(e) => fail!("{}: {}", e, show_msgs(msgs)),
    }
}

pub fn c05(c: &mut Case, rng: &mut Rng) -> Verdict {
    let b = build(rng)?;
    c.trace(|| show_msgs(&b.msgs));
    c.key(&format!("{:?}", b.msgs), b.args.len() > 1);
    c.sample(|| show_msgs(&b.msgs).chars().take(200).collect());
    c.add("attachments", b.msgs.len() as u64 - 1);
    let p = roundtrip(&b.msgs)?;
    check_packet(&p, b.kind, &b.ns, b.id, &b.args, false).map_err(|e| e.context(&show_msgs(&b.msgs)))
}

fn typed_rt<T>(c: &mut Case, rng: &mut Rng, name: &str) -> Verdict
where
    T: Gen + Serialize + for<'a> Deserialize<'a> + PartialEq + std::fmt::Debug,
{
    let d = rng.below(4);
    let vals: Vec<T> = (0..rng.range(1, 3)).map(|_| T::g(rng, d)).collect();
    let binary = rng.chance(3, 4);
    let kind = if rng.chance(1, 2) { Kind::Event } else { Kind::Ack };
    let mut b = builder(kind, "/", Some(1), "e", binary, rng);
    let mut kept = Vec::new();
    for v in &vals {
        // what plain JSON can carry is what must survive
        let plain = match serde_json::to_string(v) {
            Ok(s) => s,
            Err(_) => {
                c.count("unserializable");
                continue;
            }
        };
        match serde_json::from_str::<T>(&plain) {
            Ok(x) if x == *v => {}
            _ => {
                c.count("not_json_stable");
                continue;
            }
        }
        if let Err(e) = b.serialize_arg(v) {
            fail!("{}: {:?} refused: {}", name, v, e);
        }
        kept.push(v);
    }
    let msgs = b.finish();
    c.trace(|| format!("{} {}", name, show_msgs(&msgs)));
    c.key(&(name, format!("{:?}", msgs)), !kept.is_empty());
    c.count(&format!("type {}", name));
    c.sample(|| format!("{}: {:.150}", name, show_msgs(&msgs)));
    let p = roundtrip(&msgs)?;
    let off = if kind == Kind::Event { 1 } else { 0 };
    let (_, args) = match args_of(&p) {
        Some(x) => x,
        None => fail!("no arguments"),
    };
    if args.len() != kept.len() + off {
        fail!("{} arguments instead of {}", args.len(), kept.len() + off);
    }
    for (i, v) in kept.iter().enumerate() {
        match args.get(i + off).unwrap().deserialize::<T>() {
            Ok(x) if x == **v => {}
            other => fail!("{}: {:?} came back as {:?}; wire {}", name, v, other, show_msgs(&msgs)),
        }
    }
    Ok(())
}

pub fn c05_typed(c: &mut Case, rng: &mut Rng) -> Verdict {
    let which = rng.below(NTYPES);
    macro_rules! one {
        ($i:expr, $t:ty, $s:expr) => {
            if which == $i {
                return typed_rt::<$t>(c, rng, stringify!($t));
            }
        };
    }
    for_types!(one);
    unreachable!()
}

// ---------------------------------------------------------------- C06

pub fn c06(c: &mut Case, rng: &mut Rng) -> Verdict {
    let kind = if rng.chance(1, 2) { Kind::Event } else { Kind::Ack };
    let ns = proto::gen_ns(rng);
    let binary = rng.chance(2, 3);
    let id = if kind == Kind::Ack || rng.chance(1, 2) { Some(jsonref::gen_u64(rng)) } else { None };
    let event = jsonref::gen_string(rng);
    let mut a = builder(kind, &ns, id, &event, binary, rng);
    let mut b = builder(kind, &ns, id, &event, binary, rng);
    let n = rng.range(1, 8);
    let mut plan = Vec::new();
    let mut fails = 0;
    for i in 0..n {
        let d = rng.below(4);
        let mut s = shapes::gen(rng, d);
        if rng.chance(1, 2) || (i == n - 1 && fails == 0) {
            s.poison(rng);
            fails += 1;
            plan.push(format!("FAIL {:?}", s));
            if a.serialize_arg(&s).is_ok() {
                // serialization of the poisoned value did not fail: the error was swallowed
                fail!("argument that fails to serialize was accepted: {:?}", s);
            }
        } else {
            plan.push(format!("ok {:?}", s));
            if let Err(e) = a.serialize_arg(&s) {
                fail!("good argument {:?} refused after {:?}: {}", s, plan, e);
            }
            if let Err(e) = b.serialize_arg(&s) {
                fail!("good argument {:?} refused: {}", s, e);
            }
        }
    }
    c.trace(|| format!("{:?} {:?}", kind, plan));
    c.key(&format!("{:?}{:?}{}{:?}", kind, plan, binary, id), true);
    c.add("failed_arguments", fails);
    c.sample(|| format!("{:.300?}", plan));
    let (ma, mb) = (a.finish(), b.finish());
    if ma != mb {
        fail!("with failures {} / without {}; arguments {:?}", show_msgs(&ma), show_msgs(&mb), plan);
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

/// Turn some arrays of bytes into byte values.
fn byteify(j: &J, rng: &mut Rng) -> J {
    match j {
        J::A(v) => {
            if v.iter().all(|x| matches!(x, J::U(n) if *n < 256)) && rng.chance(2, 3) {
                return J::B(
                    v.iter()
                        .map(|x| match x {
                            J::U(n) => *n as u8,
                            _ => 0,
                        })
                        .collect(),
                    true,
                );
            }
            J::A(v.iter().map(|x| byteify(x, rng)).collect())
        }
        J::O(m) => J::O(m.iter().map(|(k, v)| (k.clone(), byteify(v, rng))).collect()),
        x => x.clone(),
    }
}

fn nudge(j: &mut J, rng: &mut Rng) {
    match j {
        J::A(v) if !v.is_empty() && rng.chance(3, 4) => {
            let i = rng.below(v.len());
            nudge(&mut v[i], rng)
        }
        J::O(m) if !m.is_empty() && rng.chance(3, 4) => {
            let i = rng.below(m.len());
            match rng.below(6) {
                0 => {
                    m.remove(i);
                }
                1 => {
                    let k = m.len() - 1;
                    m.swap(i, k);
                }
                2 => m[i].0 = rng.pick(&["x", "1", "-5", "true", "data", " 1", "01", "1.5", "num", "first"]).to_string(),
                3 => {
                    let e = (rng.pick(&["zz", "a", "é\""]).to_string(), J::U(1));
                    m.insert(0, e);
                }
                _ => nudge(&mut m[i].1, rng),
            }
        }
        _ => *j = jsonref::gen(rng, 2, true),
    }
}

/// (packet with attachments, packet without): the same argument list twice.
fn pair(args: &[J], rng: &mut Rng) -> Result<(Packet, Packet, String), Fail> {
    let st = style(rng);
    let mut t1 = String::new();
    let mut att = Some(Vec::new());
    if rng.chance(1, 3) {
        // attachments in another order, or attachments nobody refers to
        let mut pre: Vec<&[u8]> = Vec::new();
        args.iter().for_each(|a| all_bytes(a, &mut pre));
        let mut v: Vec<Vec<u8>> = pre.iter().rev().map(|x| x.to_vec()).collect();
        if rng.chance(1, 2) {
            v.insert(0, b"unused".to_vec());
        }
        att = Some(v);
    }
    // write one argument at a time so both texts use the same freedom
    let seed = rng.next();
    t1.push('[');
    let mut t2 = t1.clone();
    for (i, a) in args.iter().enumerate() {
        if i > 0 {
            t1.push(',');
            t2.push(',');
        }
        jsonref::write(a, &mut t1, &mut Rng::new(seed ^ i as u64), st, &mut att);
        jsonref::write(a, &mut t2, &mut Rng::new(seed ^ i as u64), st, &mut None);
    }
    t1.push(']');
    t2.push(']');
    let mut att = att.unwrap();
    if att.is_empty() {
        att.push(b"only there to have an attachment".to_vec());
    }
    let t1 = format!("6{}-1{}", att.len(), t1);
    let t2 = format!("31{}", t2);
    let p1 = match decode_many(&t1, &att, rng)? {
        Ok(p) => p,
        Err(e) => fail!("{:?} refused: {}", t1, e),
    };
    let p2 = match decode_many(&t2, &[], rng)? {
        Ok(p) => p,
        Err(e) => fail!("{:?} refused: {}", t2, e),
    };
    let what = format!("{:.600} with {:?} vs {:.600}", t1, att.iter().map(|a| &a[..a.len().min(20)]).collect::<Vec<_>>(), t2);
    Ok((p1, p2, what))
}

fn decode_many(text: &str, att: &[Vec<u8>], rng: &mut Rng) -> Result<Result<Packet, String>, Fail> {
    let m = emsg_text(text, rng)?;
    Ok(match socket::deserialize(m) {
        Ok(DeserializeResult::Packet(p)) => Ok(p),
        Err(e) => Err(e.to_string()),
        Ok(DeserializeResult::DataNeeded(part)) => {
            let mut v = Vec::new();
            for a in att {
                v.push(emsg_bin(a, rng)?);
            }
            socket::deserialize_partial(part, v).map_err(|e| e.to_string())
        }
    })
}

macro_rules! compare {
    ($c:expr, $a1:expr, $a2:expr, $t:ty, $stringy:expr, $bytes:expr, $what:expr) => {{
        let r1 = $a1.deserialize::<$t>();
        let r2 = $a2.deserialize::<$t>();
        match (&r1, &r2) {
            (Ok(x), Ok(y)) => {
                $c.count("both_ok");
                if x != y {
                    fail!("{}: {:?} with attachments, {:?} without: {}", stringify!($t), x, y, $what);
                }
            }
            (Err(_), Err(_)) => $c.count("both_err"),
            // bytes that are UTF-8 may be read as a string
            (Ok(_), Err(_)) if $stringy && $bytes => $c.count("bytes_as_string"),
            _ => fail!("{}: {:?} with attachments, {:?} without: {}", stringify!($t), r1, r2, $what),
        }
    }};
}

pub fn c07(c: &mut Case, rng: &mut Rng) -> Verdict {
    // a value fitting some type, sometimes bent, read as that type and as a few others
    let which = rng.below(NTYPES);
    let d = rng.below(4);
    let mut text = None;
    macro_rules! gen_one {
        ($i:expr, $t:ty, $s:expr) => {
            if which == $i {
                text = serde_json::to_string(&<$t>::g(rng, d)).ok();
            }
        };
    }
    for_types!(gen_one);
    let mut j = match text.as_deref().map(jsonref::parse) {
        Some(Ok((j, n))) if !n.unrepresentable => j,
        _ => jsonref::gen(rng, 3, true),
    };
    j = byteify(&j, rng);
    if rng.chance(1, 3) {
        nudge(&mut j, rng);
    }
    if rng.chance(1, 6) {
        j = match rng.below(3) {
            0 => J::A(vec![j.clone(), j]),
            1 => J::O(vec![("a\"b".into(), j)]),
            _ => J::O(vec![(rng.below(300).to_string(), j)]),
        };
    }
    let (p1, p2, what) = pair(&[j.clone()], rng)?;
    c.trace(|| what.clone());
    c.key(&(&what, which), true);
    c.sample(|| what.chars().take(200).collect());
    let (a1, a2) = (args_of(&p1).unwrap().1, args_of(&p2).unwrap().1);
    let (a1, a2) = match (a1.get(0), a2.get(0)) {
        (Some(x), Some(y)) => (x, y),
        _ => fail!("argument lost: {}", what),
    };
    let bytes = j.has_bytes();
    if bytes {
        c.count("with_placeholders");
    } else {
        c.count("without_placeholders");
    }
    match (a1.to_json_value(), a2.to_json_value()) {
        (Ok(x), Ok(y)) if x == y => {}
        (x, y) => fail!("JSON value {:?} with attachments, {:?} without: {}", x, y, what),
    }
    let others = [which, rng.below(NTYPES), rng.below(NTYPES), 35];
    macro_rules! cmp_one {
        ($i:expr, $t:ty, $s:expr) => {
            if others.contains(&$i) {
                compare!(c, a1, a2, $t, $s, bytes, what);
            }
        };
    }
    for_types!(cmp_one);
    // borrowing types see the same text
    if !bytes {
        compare!(c, a1, a2, &str, false, false, what);
        compare!(c, a1, a2, Borrowed, false, false, what);
        compare!(c, a1, a2, Raw, false, false, what);
        compare!(c, a1, a2, Vec<Raw>, false, false, what);
        compare!(c, a1, a2, BTreeMap<String, Raw>, false, false, what);
        compare!(c, a1, a2, RawRef, false, false, what);
        compare!(c, a1, a2, serde_json::Number, false, false, what);
        compare!(c, a1, a2, HashMap<&str, Value>, false, false, what);
        compare!(c, a1, a2, BTreeMap<Cow<str>, Value>, false, false, what);
        if what.is_ascii() { compare!(c, a1, a2, BTreeMap<bool, Value>, false, false, what); }
        compare!(c, a1, a2, BTreeMap<char, Value>, false, false, what);
        compare!(c, a1, a2, BTreeMap<u64, Value>, false, false, what);
        compare!(c, a1, a2, BTreeMap<Bb, Value>, false, false, what);
        compare!(c, a1, a2, Vec<&str>, false, false, what);
        compare!(c, a1, a2, (), false, false, what);
        compare!(c, a1, a2, i8, false, false, what);
        compare!(c, a1, a2, u64, false, false, what);
        compare!(c, a1, a2, i128, false, false, what);
        compare!(c, a1, a2, bool, false, false, what);
    }
    Ok(())
}

/// Placeholders whose keys are in the other order, which JSON does not distinguish.
pub fn c07_order(c: &mut Case, rng: &mut Rng) -> Verdict {
    let which = rng.below(NTYPES);
    let d = rng.below(3);
    let mut text = None;
    macro_rules! gen_one {
        ($i:expr, $t:ty, $s:expr) => {
            if which == $i {
                text = serde_json::to_string(&<$t>::g(rng, d)).ok();
            }
        };
    }
    for_types!(gen_one);
    let j = match text.as_deref().map(jsonref::parse) {
        Some(Ok((j, n))) if !n.unrepresentable => byteify(&j, rng),
        _ => jsonref::gen(rng, 3, true),
    };
    let plain = Style { ws: false, esc: false };
    let mut att = Some(Vec::new());
    let (mut placed, mut arrays) = (String::new(), String::new());
    jsonref::write(&j, &mut placed, &mut Rng::new(1), plain, &mut att);
    jsonref::write(&j, &mut arrays, &mut Rng::new(1), plain, &mut None);
    let mut att = att.unwrap();
    // (with placeholders, some of them in the other order; the same with those left as objects)
    let (mut swapped, mut literal) = (String::new(), String::new());
    let mut n = 0;
    let mut rest = &placed[..];
    const HEAD: &str = "{\"_placeholder\":true,\"num\":";
    while let Some(i) = rest.find(HEAD) {
        swapped.push_str(&rest[..i]);
        literal.push_str(&rest[..i]);
        let num: String = rest[i + HEAD.len()..].chars().take_while(|c| c.is_ascii_digit()).collect();
        let whole = &rest[i..i + HEAD.len() + num.len() + 1];
        rest = &rest[i + whole.len()..];
        if rng.chance(2, 3) {
            n += 1;
            let o = format!("{{\"num\":{},\"_placeholder\":true}}", num);
            swapped.push_str(&o);
            literal.push_str(&o);
        } else {
            swapped.push_str(whole);
            let b = &att[num.parse::<usize>().unwrap()];
            literal.push_str(&serde_json::to_string(b).unwrap());
        }
    }
    swapped.push_str(rest);
    literal.push_str(rest);
    if att.is_empty() {
        att.push(b"unused".to_vec());
    }
    let t1 = format!("6{}-1[{}]", att.len(), swapped);
    let what = format!("{:.600} with {:?}", t1, att.iter().map(|a| &a[..a.len().min(20)]).collect::<Vec<_>>());
    c.trace(|| what.clone());
    c.key(&(&what, which), n > 0);
    let (p1, p2, p3) = match (decode_many(&t1, &att, rng)?, decode_many(&format!("31[{}]", arrays), &[], rng)?, decode_many(&format!("31[{}]", literal), &[], rng)?) {
        (Ok(a), Ok(b), Ok(c)) => (a, b, c),
        _ => fail!("refused: {}", what),
    };
    let (a1, a2, a3) = (args_of(&p1).unwrap().1, args_of(&p2).unwrap().1, args_of(&p3).unwrap().1);
    let (a1, a2, a3) = match (a1.get(0), a2.get(0), a3.get(0)) {
        (Some(x), Some(y), Some(z)) => (x, y, z),
        _ => fail!("argument lost: {}", what),
    };
    match (a1.to_json_value(), a2.to_json_value()) {
        (Ok(x), Ok(y)) if x == y => c.count("json_values"),
        (x, y) => fail!("JSON value {:?} with attachments, {:?} without: {}", x, y, what),
    }
    let others = [which, rng.below(NTYPES), 35];
    macro_rules! cmp_one {
        ($i:expr, $t:ty, $s:expr) => {
            if others.contains(&$i) {
                let (r1, r2, r3) = (a1.deserialize::<$t>(), a2.deserialize::<$t>(), a3.deserialize::<$t>());
                let as_it_should = match (&r1, &r2) {
                    (Ok(x), Ok(y)) => x == y,
                    (Err(_), Err(_)) => true,
                    (Ok(_), Err(_)) => $s && j.has_bytes(),
                    _ => false,
                };
                let left_alone = match (&r1, &r3) {
                    (Ok(x), Ok(y)) => x == y,
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if as_it_should {
                    c.count("typed_reads");
                } else if n > 0 && left_alone && c.known("C07", "placeholder-num-first") {
                    // typed access takes the object for an ordinary one
                } else {
                    fail!("{}: {:?} with attachments, {:?} without: {}", stringify!($t), r1, r2, what);
                }
            }
        };
    }
    for_types!(cmp_one);
    Ok(())
}

/// The text of a value, compared by what it says.
#[derive(Debug, Deserialize)]
struct Raw(Box<serde_json::value::RawValue>);
impl PartialEq for Raw {
    fn eq(&self, o: &Raw) -> bool {
        serde_json::from_str::<Value>(self.0.get()).ok() == serde_json::from_str::<Value>(o.0.get()).ok()
    }
}
#[derive(Debug, Deserialize)]
struct RawRef<'a>(#[serde(borrow)] &'a serde_json::value::RawValue);
impl PartialEq for RawRef<'_> {
    fn eq(&self, o: &Self) -> bool {
        serde_json::from_str::<Value>(self.0.get()).ok() == serde_json::from_str::<Value>(o.0.get()).ok()
    }
}

#[derive(Debug, PartialEq, Deserialize)]
struct Borrowed<'a> {
    b: &'a str,
    #[serde(borrow)]
    e: Option<Cow<'a, str>>,
}

/// Reading bytes in every way, and bad placeholders.
pub fn c07_bytes(c: &mut Case, rng: &mut Rng) -> Verdict {
    let n = rng.range(1, 6);
    let atts: Vec<Vec<u8>> = (0..n).map(|_| jsonref::gen_bytes(rng, true)).collect();
    let k = rng.below(n);
    let mut s = String::new();
    let st = style(rng);
    jsonref::write_placeholder(k as u64, &mut s, rng, st);
    // wrap it at some depth, remembering how to get there
    let wrap = rng.below(4);
    let s = match wrap {
        0 => s,
        1 => format!("[1,{}]", s),
        2 => format!("{{\"k\":{}}}", s),
        _ => format!("{{\"\\u006b\":{}}}", s),
    };
    let text = format!("5{}-[\"e\",{}]", n, s);
    c.key(&(&text, &atts[k]), true);
    c.trace(|| text.clone());
    c.sample(|| text.clone());
    let p = match decode_many(&text, &atts, rng)? {
        Ok(p) => p,
        Err(e) => fail!("{:?} refused: {}", text, e),
    };
    let args = args_of(&p).unwrap().1;
    let a = match args.get(1) {
        Some(a) => a,
        None => fail!("argument lost: {}", text),
    };
    let want = &atts[k];
    macro_rules! expect {
        ($get:expr, $t:ty) => {
            match $get {
                Ok(x) => {
                    let x: Vec<u64> = x.iter().map(|b| *b as u64).collect();
                    if x != want.iter().map(|b| *b as u64).collect::<Vec<_>>() {
                        fail!("attachment read as {}: {:?} instead of {:?} in {}", stringify!($t), x, want, text);
                    }
                }
                Err(e) => fail!("attachment not readable as {}: {} in {}", stringify!($t), e, text),
            }
        };
    }
    macro_rules! read {
        ($t:ty) => {
            match wrap {
                0 => expect!(a.deserialize::<$t>(), $t),
                1 => expect!(a.deserialize::<(Value, $t)>().map(|x| x.1), $t),
                _ => expect!(
                    a.deserialize::<BTreeMap<String, $t>>().map(|mut m| m.remove("k").unwrap_or_default()),
                    $t
                ),
            }
        };
    }
    #[derive(Default, Deserialize)]
    struct Own(#[serde(deserialize_with = "own")] Vec<u8>);
    fn own<'de, D: serde::Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        Bb::deserialize(d).map(|b| b.0)
    }
    impl Own {
        fn iter(&self) -> std::slice::Iter<'_, u8> {
            self.0.iter()
        }
    }
    read!(Vec<u8>);
    read!(&[u8]);
    read!(Own);
    read!(Vec<u16>);
    read!(Vec<i64>);
    read!(Box<[u8]>);
    read!(std::collections::VecDeque<u32>);
    c.count("reads");
    let v = match a.to_json_value() {
        Ok(v) => v,
        Err(e) => fail!("attachment has no JSON value: {} in {}", e, text),
    };
    let wantv = J::B(want.clone(), true).value();
    let got = match wrap {
        0 => &v,
        1 => &v[1],
        _ => &v["k"],
    };
    if *got != wantv {
        fail!("attachment as JSON is {:?} instead of {:?} in {}", v, wantv, text);
    }
    // bad placeholders
    let bad = match rng.below(8) {
        0 => format!("{{\"_placeholder\":true,\"num\":{}}}", n as u64 + *rng.pick(&[0u64, 1, 255, u32::MAX as u64, u64::MAX / 2])),
        1 => format!("{{\"_placeholder\":true,\"num\":{}}}", u64::MAX),
        2 => "{\"_placeholder\":true}".into(),
        3 => format!("{{\"_placeholder\":true,\"num\":{}}}", rng.pick(&["-1", "\"0\"", "null", "[0]", "{}", "0.5", "true", "1e30"])),
        4 => "{\"_placeholder\":true,\"nim\":0}".into(),
        5 => format!("{{\"_placeholder\":true,\"num\":{}}}", n),
        6 => format!("{{\"_placeholder\":true,\"num\":{}{}}}", n, "0".repeat(rng.range(0, 12))),
        _ => format!("{{\"_placeholder\":true,\"num\":{}}}", (1u64 << *rng.pick(&[32u32, 33, 48, 63])) + rng.below(n) as u64),
    };
    let (pre, post) = *rng.pick(&[("", ""), ("[", "]"), ("[1,{\"a\":", "}]"), ("{\"x\":1,\"y\":", "}"), ("{\"z\":[[", "]]}")]);
    let text = format!("6{}-3[{}{}{}]", n, pre, bad, post);
    c.trace(|| text.clone());
    let p = match decode_many(&text, &atts, rng)? {
        Ok(p) => p,
        Err(e) => fail!("{:?} refused: {}", text, e),
    };
    let args = args_of(&p).unwrap().1;
    let a = match args.get(0) {
        Some(a) => a,
        None => fail!("argument lost: {}", text),
    };
    c.count("bad_placeholders");
    if let Ok(v) = a.to_json_value() {
        fail!("bad placeholder has the JSON value {:?}: {}", v, text);
    }
    if let Ok(v) = a.deserialize::<Value>() {
        fail!("bad placeholder read (typed) as {:?}: {}", v, text);
    }
    if pre.is_empty() {
        if let Ok(v) = a.deserialize::<Vec<u8>>() {
            fail!("bad placeholder read as bytes {:?}: {}", v, text);
        }
        if let Ok(v) = a.deserialize::<&[u8]>() {
            fail!("bad placeholder read as borrowed bytes {:?}: {}", v, text);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C08, C09

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Init,
    Active,
    Closed,
}

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Open(String, u64, u64),
    Close,
    Ping,
    Pong,
    Text(String),
    Bin(Vec<u8>),
    Err,
    /// trailing data after a one-character packet is not pinned down
    Either(Box<Want>),
}

fn gen_open(rng: &mut Rng) -> (String, String, u64, u64) {
    let sid = jsonref::gen_string(rng);
    let (t, i) = (jsonref::gen_u64(rng), jsonref::gen_u64(rng));
    let mut m = vec![
        ("sid".to_string(), J::S(sid.clone())),
        ("pingInterval".into(), J::U(i)),
        ("pingTimeout".into(), J::U(t)),
    ];
    if rng.chance(2, 3) {
        m.push(("upgrades".into(), J::A(vec![J::S("websocket".into())])));
    }
    if rng.chance(1, 3) {
        m.push(("maxPayload".into(), jsonref::gen(rng, 2, false)));
    }
    for i in (1..m.len()).rev() {
        let k = rng.below(i + 1);
        m.swap(i, k);
    }
    let mut s = String::from("0");
    let st = style(rng);
    jsonref::write(&J::O(m), &mut s, rng, st, &mut None);
    (s, sid, t, i)
}

fn gen_ws(rng: &mut Rng) -> (WsMessage, Want) {
    match rng.below(16) {
        0 | 1 => {
            let (s, sid, t, i) = gen_open(rng);
            (WsMessage::Text(s), Want::Open(sid, t, i))
        }
        2 => {
            let t = *rng.pick(&["0", "0{}", "0[]", "0null", "0{\"sid\":\"x\"}", "0{\"sid\":1,\"pingInterval\":1,\"pingTimeout\":1}",
                "0{\"sid\":\"x\",\"pingInterval\":-1,\"pingTimeout\":1}", "0{\"sid\":\"x\",\"pingInterval\":1}", "0{\"sid\":\"x\",\"pingInterval\":1,\"pingTimeout\":1",
                "0{\"sid\":\"x\",\"pingInterval\":1,\"pingTimeout\":1}x", "0{\"sid\":\"x\",\"pingInterval\":18446744073709551616,\"pingTimeout\":1}",
                "0{\"sid\":\"x\",\"pingInterval\":\"5\",\"pingTimeout\":1}"]);
            (WsMessage::Text(t.into()), Want::Err)
        }
        3 => {
            if rng.chance(2, 3) {
                (WsMessage::Text("1".into()), Want::Close)
            } else {
                (WsMessage::Text(rng.pick(&["1x", "11", "1{}", "1é", "1 "]).to_string()), Want::Either(Box::new(Want::Close)))
            }
        }
        4 | 5 => (WsMessage::Text("2".into()), Want::Ping),
        6 => (WsMessage::Text("3".into()), Want::Pong),
        7 => {
            let (t, w) = rng.pick(&[("2probe", Want::Ping), ("3probe", Want::Pong), ("2é", Want::Ping)]).clone();
            (WsMessage::Text(t.into()), w)
        }
        8 | 9 => {
            let s = jsonref::gen_string(rng);
            (WsMessage::Text(format!("4{}", s)), Want::Text(s))
        }
        10 | 11 => {
            let b = jsonref::gen_bytes(rng, true);
            let mut v = vec![4];
            v.extend_from_slice(&b);
            (WsMessage::Binary(v), Want::Bin(b))
        }
        12 => {
            let v = rng.pick(&[vec![], vec![0], vec![3, 4, 4], vec![b'4'], vec![52, 1], vec![255], vec![5, 4]]).clone();
            (WsMessage::Binary(v), Want::Err)
        }
        13 => {
            let t = *rng.pick(&["", "5", "6", "7", "9", "x", "é", " 2", "\u{0}", "b4", "42\u{0}", "{}", "[", "-1", "\u{664}"]);
            if t.starts_with('4') {
                (WsMessage::Text(t.into()), Want::Text(t[1..].into()))
            } else {
                // 5 (upgrade) and 6 (noop) are engine.io packets this library does not support
                (WsMessage::Text(t.into()), Want::Err)
            }
        }
        14 => (WsMessage::Ping(vec![1, 2]), Want::Err),
        _ => (if rng.chance(1, 2) { WsMessage::Pong(vec![]) } else { WsMessage::Close(None) }, Want::Err),
    }
}

fn got(r: &Result<EPacket, engine::Error>) -> Want {
    match r {
        Ok(EPacket::Open(o)) => Want::Open(o.sid.clone(), o.ping_timeout, o.ping_interval),
        Ok(EPacket::Close) => Want::Close,
        Ok(EPacket::Ping) => Want::Ping,
        Ok(EPacket::Pong) => Want::Pong,
        Ok(EPacket::Message(EMsg::Text(t))) => Want::Text(t.to_string()),
        Ok(EPacket::Message(EMsg::Binary(b))) => Want::Bin(b.to_vec()),
        Err(_) => Want::Err,
    }
}

pub fn c08(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut dec = Decoder::new();
    let mut st = St::Init;
    let n = rng.range(1, 30);
    let mut log = Vec::new();
    // an "other run" that never sees the refused messages: must behave the same
    let mut accepted = Vec::new();
    let p_open = rng.range(1, 4);
    for i in 0..n {
        let (m, content) = if st == St::Init && rng.chance(1, p_open * 2) && i > 0 {
            let (s, sid, t, i) = gen_open(rng);
            (WsMessage::Text(s), Want::Open(sid, t, i))
        } else {
            let x = gen_ws(rng);
            let close = matches!(&x.1, Want::Close) || matches!(&x.1, Want::Either(w) if **w == Want::Close);
            if close && rng.chance(3, 4) && st == St::Active {
                continue; // do not end most sessions early
            }
            x
        };
        let control = matches!(m, WsMessage::Ping(_) | WsMessage::Pong(_) | WsMessage::Close(_));
        let (either, content) = match content {
            Want::Either(w) => (true, *w),
            w => (false, w),
        };
        let want = if control {
            Want::Err
        } else {
            match (st, &content) {
                (St::Closed, _) => Want::Err,
                (St::Init, Want::Open(..)) => content.clone(),
                (St::Init, _) => Want::Err,
                (St::Active, Want::Open(..)) => Want::Err,
                (St::Active, w) => w.clone(),
            }
        };
        let r = dec.decode(m.clone());
        let g = got(&r);
        log.push(format!("{:.80?} -> {:.80?}", m, g));
        c.count(&format!("{:?}/{}", st, want_name(&want)));
        if g != want && !(either && g == Want::Err) {
            fail!("in state {:?}: {:?} decoded as {:?} ({:?}), expected {:?}; history {:?}", st, m, g, r, want, log);
        }
        if let Err(e) = r {
            let _ = format!("{} {:?}", e, e);
        } else {
            accepted.push((m, g.clone()));
        }
        match g {
            Want::Open(..) => st = St::Active,
            Want::Close => st = St::Closed,
            _ => {}
        }
    }
    let mut dec = Decoder::new();
    for (m, g) in &accepted {
        let r = dec.decode(m.clone());
        if got(&r) != *g {
            fail!("without the refused messages {:?} decodes as {:?} instead of {:?}", m, r, g);
        }
    }
    c.trace(|| format!("{:#?}", log));
    c.key(&format!("{:?}", log), accepted.len() > 1);
    c.add("messages", log.len() as u64);
    c.sample(|| format!("{:.300?}", log));
    Ok(())
}

fn want_name(w: &Want) -> &'static str {
    match w {
        Want::Open(..) => "open",
        Want::Close => "close",
        Want::Ping => "ping",
        Want::Pong => "pong",
        Want::Text(_) => "text",
        Want::Bin(_) => "binary",
        Want::Err | Want::Either(_) => "refused",
    }
}

pub fn c09(c: &mut Case, rng: &mut Rng) -> Verdict {
    let mut dec = Decoder::new();
    let (s, sid, t, i) = gen_open(rng);
    c.trace(|| s.clone());
    match dec.decode(WsMessage::Text(s.clone())) {
        Ok(EPacket::Open(o)) => {
            if o.sid != sid || o.ping_timeout != t || o.ping_interval != i {
                fail!("open {:?} reported as {:?}", s, o);
            }
        }
        other => fail!("open {:?} decoded as {:?}", s, other),
    }
    for _ in 0..rng.range(1, 6) {
        match rng.below(6) {
            0 | 1 => {
                let text = if rng.chance(1, 6) {
                    let n = rng.range(1, 5000);
                    jsonref::gen_string(rng).repeat(n.min(200))
                } else if rng.chance(1, 4) {
                    rng.pick(&["", "4", "44", "2", "3", "1", "0{}", "\u{4}", "4é", "é", "\u{0}", "😀"]).to_string()
                } else {
                    jsonref::gen_string(rng)
                };
                c.key(&text, !text.is_empty());
                c.count("text_payloads");
                c.add("bytes", text.len() as u64);
                c.sample(|| format!("{:.60?}", text));
                let m = if rng.chance(1, 2) { engine::encode_message(&text) } else { engine::package_message(format!("4{}", text)) };
                match dec.decode(m.clone()) {
                    Ok(EPacket::Message(EMsg::Text(x))) if *x == *text => {}
                    other => fail!("text {:?} encoded as {:?}, decoded as {:?}", text, m, other),
                }
            }
            2 | 3 => {
                let b = if rng.chance(1, 12) {
                    let n = *rng.pick(&[1000usize, 65535, 65536, 200000]);
                    rng.bytes(n)
                } else {
                    jsonref::gen_bytes(rng, true)
                };
                c.key(&b, !b.is_empty());
                c.count("binary_payloads");
                c.add("bytes", b.len() as u64);
                let m = if rng.chance(1, 2) {
                    engine::encode_binary(&b)
                } else {
                    let mut v = vec![engine::BINARY_HEADER];
                    v.extend_from_slice(&b);
                    engine::package_binary(v)
                };
                match dec.decode(m.clone()) {
                    Ok(EPacket::Message(EMsg::Binary(x))) if *x == *b => {}
                    other => fail!("bytes {:.200?} encoded as {:.200?}, decoded as {:.200?}", b, m, other),
                }
            }
            4 => match dec.decode(engine::encode_ping()) {
                Ok(EPacket::Ping) => c.count("pings"),
                other => fail!("encoded ping decodes as {:?}", other),
            },
            _ => match dec.decode(engine::encode_pong()) {
                Ok(EPacket::Pong) => c.count("pongs"),
                other => fail!("encoded pong decodes as {:?}", other),
            },
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C10

macro_rules! slice_case {
    ($c:expr, $rng:expr, $own:ty, $data:expr, $cuts:expr, $elems:expr) => {{
        let data: $own = $data;
        let cuts: Vec<usize> = $cuts; // legal positions, ascending, from 0 to len
        let full = data.clone();
        let (mut s, mut e) = (0usize, full.len());
        let pick = |rng: &mut Rng, lo: usize, hi: usize| -> usize {
            let v: Vec<usize> = cuts.iter().copied().filter(|x| *x >= lo && *x <= hi).collect();
            *rng.pick(&v)
        };
        let mut own: OwnedSubslice<$own> = if $rng.chance(1, 3) {
            data.into()
        } else {
            s = pick($rng, 0, full.len());
            e = pick($rng, s, full.len());
            OwnedSubslice::new(data, s..e)
        };
        let mut log = vec![format!("{}..{} of {}", s, e, full.len())];
        let steps = $rng.below(6);
        for k in 0..=steps {
            if k > 0 {
                let a = pick($rng, s, e);
                let b = if $rng.chance(1, 3) {
                    // an end past the window
                    e + *$rng.pick(&[0usize, 1, 2, 5, 1000, usize::MAX / 4])
                } else {
                    pick($rng, a, e)
                };
                own = own.subslice(a - s..b - s);
                s = a;
                e = b.min(e);
                log.push(format!("-> {}..{} = {}..{}", a, b, s, e));
                $c.count("restrictions");
                if b > e {
                    $c.count("past_window");
                }
            }
            let want = &full[s..e];
            if &*own != want {
                fail!("window {:?} shows {:?} instead of {:?}", log, &*own, want);
            }
            if format!("{:?}", own) != format!("{:?}", want) {
                fail!("window {:?} prints {:?}", log, own);
            }
            if own.len() != want.len() {
                fail!("window {:?} has length {}", log, own.len());
            }
            // equality depends on the visible contents only
            let again: OwnedSubslice<$own> = OwnedSubslice::new(full.clone(), s..e);
            let bare: OwnedSubslice<$own> = <$own>::from(want.to_owned()).into();
            if own != again || own != bare || bare != own || !(own == want) || !(want == own) {
                fail!("window {:?} is not equal to its contents", log);
            }
            let s2 = pick($rng, 0, full.len());
            let e2 = pick($rng, s2, full.len());
            let other: OwnedSubslice<$own> = OwnedSubslice::new(full.clone(), s2..e2);
            if (own == other) != (full[s..e] == full[s2..e2]) || (own == &full[s2..e2]) != (full[s..e] == full[s2..e2]) {
                fail!("window {:?} compared to {}..{}: wrong", log, s2, e2);
            }
            let cl = own.clone();
            if cl != own {
                fail!("clone differs");
            }
        }
        $c.trace(|| format!("{:?}", log));
        $c.key(&(format!("{:?}", full), &log), e > s && (s > 0 || e < full.len()));
        $c.sample(|| format!("{:?}", log));
        (own, full, s, e, log)
    }};
}

pub fn c10(c: &mut Case, rng: &mut Rng) -> Verdict {
    match rng.below(3) {
        0 => {
            let n = rng.range(0, 4);
            let t: String = (0..n).map(|_| jsonref::gen_string(rng)).collect();
            let cuts: Vec<usize> = (0..=t.len()).filter(|i| t.is_char_boundary(*i)).collect();
            let (mut own, full, s, e, log) = slice_case!(c, rng, String, t, cuts, "str");
            if format!("{}", own) != full[s..e] {
                fail!("window {:?} displays {:?}", log, own.to_string());
            }
            // mutate through the window
            own.make_ascii_uppercase();
            if *own != full[s..e].to_ascii_uppercase() {
                fail!("mutated window {:?} shows {:?}", log, &*own);
            }
        }
        1 => {
            let n = rng.below(24);
            let t = rng.bytes(n);
            let cuts: Vec<usize> = (0..=t.len()).collect();
            let (mut own, full, s, e, log) = slice_case!(c, rng, Vec<u8>, t, cuts, "u8");
            for b in own.iter_mut() {
                *b ^= 0x5a;
            }
            let want: Vec<u8> = full[s..e].iter().map(|b| b ^ 0x5a).collect();
            if *own != *want {
                fail!("mutated window {:?} shows {:?}", log, &*own);
            }
            if !own.is_empty() {
                let i = rng.below(own.len());
                own[i] = 77;
                if own[i] != 77 || own.len() != e - s {
                    fail!("mutation through the window {:?} lost", log);
                }
                // narrowing after mutation shows the mutated elements
                let narrowed = own.subslice(i..i + 1);
                if *narrowed != [77] {
                    fail!("narrowed window {:?} shows {:?}", log, &*narrowed);
                }
            }
        }
        _ => {
            let n = rng.below(12);
            let t: Vec<u32> = (0..n).map(|_| rng.below(3) as u32).collect();
            let cuts: Vec<usize> = (0..=t.len()).collect();
            let (mut own, full, s, e, log) = slice_case!(c, rng, Vec<u32>, t, cuts, "u32");
            own.reverse();
            let mut want = full[s..e].to_vec();
            want.reverse();
            if *own != *want {
                fail!("reversed window {:?} shows {:?}", log, &*own);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C26

/// `views` of one decoded packet against each other and, if given, against the expected arguments.
fn check_views(c: &mut Case, p: &Packet, text: &str, rng: &mut Rng) -> Verdict {
    let (_, args) = match args_of(p) {
        Some(x) => x,
        None => {
            let _ = p.to_string();
            return Ok(());
        }
    };
    let n = args.len();
    c.add("arguments", n as u64);
    if args.is_empty() != (n == 0) {
        fail!("is_empty() is {} for {} arguments", args.is_empty(), n);
    }
    for i in [n, n + 1, n + 7, usize::MAX] {
        if args.get(i).is_some() {
            fail!("index {} of {} yields something: {:?}", i, n, text);
        }
    }
    // the debug form repeats all attachments for every argument
    let small = n * format!("{:?}", p).len() < 20_000;
    let show = |a: &socket::Arg| -> (String, Option<Value>, String) {
        (if small { format!("{:?}", a) } else { String::new() }, a.to_json_value().ok(), a.to_string())
    };
    let indexed: Vec<_> = match (0..n).map(|i| args.get(i).map(|a| show(&a))).collect::<Option<Vec<_>>>() {
        Some(v) => v,
        None => fail!("indexed access fails inside the list: {:?}", text),
    };
    let mut it = args.iter();
    let mut iterated = Vec::new();
    while let Some(a) = it.next() {
        iterated.push(show(&a));
        if iterated.len() > n + 5 {
            fail!("iteration does not end: {:?}", text);
        }
    }
    for _ in 0..3 {
        if it.next().is_some() {
            fail!("iteration continues after its end: {:?}", text);
        }
    }
    if iterated != indexed {
        fail!("iteration yields {:?}, indexing {:?}: {:?}", iterated, indexed, text);
    }
    if args.iter().count() != n {
        fail!("iterator counts {} of {}", args.iter().count(), n);
    }
    // every way of moving the iterator agrees with stepping
    for _ in 0..2 {
        let mut it = args.iter();
        let mut at = 0usize;
        for _ in 0..rng.range(1, 6) {
            let (lo, hi) = it.size_hint();
            let left = n.saturating_sub(at);
            if lo > left || hi.map(|h| h < left).unwrap_or(false) {
                fail!("size hint {:?} with {} of {} arguments left: {:?}", (lo, hi), left, n, text);
            }
            let k = rng.below(4);
            let got = it.nth(k).map(|a| show(&a));
            if got.as_ref() != indexed.get(at + k) {
                fail!("nth({}) after {} of {} arguments yields {:?}: {:?}", k, at, n, got, text);
            }
            at = (at + k + 1).min(n);
            c.count("iterator_moves");
        }
        let rest: Vec<_> = match rng.below(4) {
            3 => {
                let left = it.count();
                if left != n.saturating_sub(at) {
                    fail!("count() after {} of {} arguments yields {}: {:?}", at, n, left, text);
                }
                indexed[at.min(n)..].to_vec()
            }
            0 => it.map(|a| show(&a)).collect(),
            1 => it.fold(Vec::new(), |mut v, a| {
                v.push(show(&a));
                v
            }),
            _ => {
                let last = it.last().map(|a| show(&a));
                if last.as_ref() != indexed.get(at..).and_then(|x| x.last()) {
                    fail!("last() after {} of {} arguments yields {:?}: {:?}", at, n, last, text);
                }
                indexed[at.min(n)..].to_vec()
            }
        };
        if rest != indexed[at.min(n)..] {
            fail!("after {} of {} arguments, {:?} are left: {:?}", at, n, rest, text);
        }
    }
    // the printed form of an argument is its JSON value
    for (i, (_, v, s)) in indexed.iter().enumerate() {
        match v {
            Some(v) => match jsonref::parse(s) {
                Ok((j, _)) if jsonref::same(&j, v) && *s == v.to_string() => c.count("printed_values"),
                other => fail!("argument {} prints as {:?}, its value is {:?} ({:?}): {:?}", i, s, v, other, text),
            },
            None => {
                c.count("printed_raw");
                if s.is_empty() || !text.contains(s.as_str()) {
                    fail!("argument {} without a JSON value prints as {:.200?}: {:.300?}", i, s, text);
                }
            }
        }
    }
    // the printed list
    let s = args.to_string();
    let inner = match s.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        Some(x) => x,
        None => fail!("list prints as {:?}", s),
    };
    let mut rest = inner;
    for (i, (_, _, a)) in indexed.iter().enumerate() {
        if i > 0 {
            rest = match rest.trim_start().strip_prefix(',') {
                Some(r) => r.trim_start(),
                None => fail!("no separator before argument {} in {:?}", i, s),
            };
        }
        rest = match rest.strip_prefix(a.as_str()) {
            Some(r) => r,
            None => fail!("argument {} printed as {:?} is not at its place in {:?}", i, a, s),
        };
    }
    if !rest.is_empty() {
        fail!("printed list {:?} has extra {:?}", s, rest);
    }
    // printing the packet shows the list
    if !p.to_string().contains(&s) || !p.data().to_string().contains(&s) {
        fail!("printed packet {:?} does not show {:?}", p.to_string(), s);
    }
    // a clone is the same list
    let cl = args.clone();
    if cl.len() != n || cl.to_string() != s {
        fail!("cloned list differs");
    }
    Ok(())
}

pub fn c26(c: &mut Case, rng: &mut Rng) -> Verdict {
    let (text, atts, expect) = if rng.chance(1, 4) {
        (hostile_text(rng), None, None)
    } else {
        let mut p = proto::gen_pkt(rng);
        if rng.chance(1, 1500) && matches!(p.kind, Kind::Event | Kind::Ack) {
            // no matter how long
            let n = *rng.pick(&[5_000, 66_000, 140_000]);
            p.args.push(match rng.below(3) {
                0 => J::S("äb".repeat(n / 3)),
                1 => J::A((0..n / 2).map(|i| J::U(i as u64 % 10)).collect()),
                _ => J::B(vec![7; n], true),
            });
            p.binary |= p.args.iter().any(|a| a.has_bytes());
        }
        let st = style(rng);
        let (t, a) = proto::encode(&p, rng, st);
        (t, Some(a), Some(p))
    };
    c.trace(|| format!("{:.500?}", text));
    c.key(&(&text, &atts), expect.as_ref().map(|p| p.args.len() > 1).unwrap_or(true));
    c.sample(|| format!("{:.200?}", text));
    if let Decoded::Packet(p, _) = decode(&text, atts.as_deref(), rng)? {
        c.count("packets");
        check_views(c, &p, &text, rng)?;
        if let (Some(e), Some((_, args))) = (expect, args_of(&p)) {
            if args.len() != e.args.len() {
                fail!("{} arguments reported, {} sent: {:?}", args.len(), e.args.len(), text);
            }
            for (a, j) in args.iter().zip(&e.args) {
                match a.to_json_value() {
                    Ok(v) if jsonref::same(j, &v) => {}
                    other => fail!("iterated argument is {:?}, sent {:?}: {:?}", other, j, text),
                }
            }
        }
    }
    Ok(())
}
