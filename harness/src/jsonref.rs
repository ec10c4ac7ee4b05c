//! Reference JSON values: generation, textual writing with variation, and an independent strict
//! parser (RFC 8259).  Nothing in here uses the code under test; serde_json is only used as a data
//! type (`Value`) to compare against.

use crate::rng::Rng;
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Serialize, Serializer};
use serde_json::Value;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    U(u64),
    I(i64), // negative
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
    /// bytes; the flag chooses serialize_bytes (true) or a u8 sequence (false) when encoding
    B(Vec<u8>, bool),
}

impl J {
    pub fn value(&self) -> Value {
        match self {
            J::Null => Value::Null,
            J::Bool(b) => Value::Bool(*b),
            J::U(u) => Value::from(*u),
            J::I(i) => Value::from(*i),
            J::F(f) => Value::from(*f),
            J::S(s) => Value::String(s.clone()),
            J::A(v) => Value::Array(v.iter().map(J::value).collect()),
            J::O(m) => {
                let mut o = serde_json::Map::new();
                for (k, v) in m {
                    o.insert(k.clone(), v.value());
                }
                Value::Object(o)
            }
            J::B(b, _) => Value::Array(b.iter().map(|x| Value::from(*x)).collect()),
        }
    }

    pub fn has_bytes(&self) -> bool {
        match self {
            J::B(..) => true,
            J::A(v) => v.iter().any(J::has_bytes),
            J::O(m) => m.iter().any(|(_, v)| v.has_bytes()),
            _ => false,
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            J::A(v) => 1 + v.iter().map(J::depth).max().unwrap_or(0),
            J::O(m) => 1 + m.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
}

/// How much textual freedom the writer takes.
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub ws: bool,
    pub esc: bool,
}

pub const PLAIN: Style = Style { ws: false, esc: false };

fn ws(out: &mut String, rng: &mut Rng, st: Style) {
    if st.ws && rng.chance(1, 3) {
        for _ in 0..rng.range(1, 3) {
            out.push(*rng.pick(&[' ', '\t', '\n', '\r']));
        }
    }
}

pub fn write_str(s: &str, out: &mut String, rng: &mut Rng, st: Style) {
    out.push('"');
    for c in s.chars() {
        let must = c == '"' || c == '\\' || (c as u32) < 0x20;
        if must || (st.esc && rng.chance(1, 6)) {
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            match short {
                Some(x) if !st.esc || rng.chance(2, 3) => {
                    out.push('\\');
                    out.push(x);
                }
                _ => {
                    let mut buf = [0u16; 2];
                    for u in c.encode_utf16(&mut buf) {
                        if rng.chance(1, 2) {
                            out.push_str(&format!("\\u{:04x}", u));
                        } else {
                            out.push_str(&format!("\\u{:04X}", u));
                        }
                    }
                }
            }
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

/// Write `j`; bytes become placeholders appended to `att` when given, else arrays of numbers.
pub fn write(j: &J, out: &mut String, rng: &mut Rng, st: Style, att: &mut Option<Vec<Vec<u8>>>) {
    match j {
        J::Null => out.push_str("null"),
        J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        J::U(u) => out.push_str(&u.to_string()),
        J::I(i) => out.push_str(&i.to_string()),
        J::F(f) => out.push_str(&format!("{:?}", f)),
        J::S(s) => write_str(s, out, rng, st),
        J::A(v) => {
            out.push('[');
            ws(out, rng, st);
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    ws(out, rng, st);
                }
                write(x, out, rng, st, att);
                ws(out, rng, st);
            }
            out.push(']');
        }
        J::O(m) => {
            out.push('{');
            ws(out, rng, st);
            for (i, (k, x)) in m.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    ws(out, rng, st);
                }
                // keys that may be read as numbers or booleans must be spelt out for serde_json
                let spelt = k == "true" || k == "false" || k.bytes().all(|b| b"-.e0123456789".contains(&b));
                write_str(k, out, rng, Style { esc: st.esc && !spelt, ..st });
                ws(out, rng, st);
                out.push(':');
                ws(out, rng, st);
                write(x, out, rng, st, att);
                ws(out, rng, st);
            }
            out.push('}');
        }
        J::B(b, _) => match att {
            Some(a) => {
                // most equal byte strings share an attachment
                let n = match a.iter().position(|x| x == b) {
                    Some(i) if b.len() % 4 != 3 => i,
                    _ => {
                        a.push(b.clone());
                        a.len() - 1
                    }
                };
                write_placeholder(n as u64, out, rng, st);
            }
            None => {
                out.push('[');
                for (i, x) in b.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    out.push_str(&x.to_string());
                }
                out.push(']');
            }
        },
    }
}

pub fn write_placeholder(n: u64, out: &mut String, rng: &mut Rng, st: Style) {
    out.push('{');
    ws(out, rng, st);
    write_str("_placeholder", out, rng, st);
    ws(out, rng, st);
    out.push(':');
    ws(out, rng, st);
    out.push_str("true");
    ws(out, rng, st);
    out.push(',');
    ws(out, rng, st);
    write_str("num", out, rng, st);
    ws(out, rng, st);
    out.push(':');
    ws(out, rng, st);
    out.push_str(&n.to_string());
    ws(out, rng, st);
    out.push('}');
}

pub fn text(j: &J) -> String {
    let mut s = String::new();
    write(j, &mut s, &mut Rng::new(0), PLAIN, &mut None);
    s
}

// ---------------------------------------------------------------- generation

const STRINGS: &[&str] = &[
    "", "a", "test", "hello world", "\"", "\\", "a\"b\\c", ",", "[", "]", "],[", "[1,2]", "{", "}", "/nsp,", "42[\"x\"]",
    "\n", "\t\r\u{8}\u{c}", "\u{0}", "\u{1f}", "\u{7f}", "é", "日本語", "😀", "\u{2028}\u{2029}", "\u{feff}", "_placeholder",
    "num", "0", "-", "1-", "null", "\u{10ffff}", "\u{ffff}", "\\u0041", "a,b", "5-/x,1[", "ß\"",
];

/// A long string around a power of two (in bytes or characters), of any kind of character.
pub fn gen_long_string(rng: &mut Rng) -> String {
    long_string(rng, 8)
}

pub fn long_string(rng: &mut Rng, doublings: usize) -> String {
    let n = (32usize << rng.below(doublings)) + rng.below(9) - 4;
    let base = *rng.pick(&['a', 'z', ' ', '\\', '"', '\n', 'é', '日', '😀', '\u{7f}', '\u{2028}']);
    let bytes = rng.chance(1, 2);
    let mut s = String::new();
    let mut i = 0;
    while if bytes { s.len() < n } else { i < n } {
        s.push(if rng.chance(1, 40) { *rng.pick(&['b', 'ß', '本', '😁', '/', '0', '[']) } else { base });
        i += 1;
    }
    s
}

pub fn gen_string(rng: &mut Rng) -> String {
    if rng.chance(1, 250) {
        return gen_long_string(rng);
    }
    match rng.below(10) {
        0..=4 => rng.pick(STRINGS).to_string(),
        5..=7 => {
            let n = rng.size(24);
            (0..n).map(|_| (b' ' + rng.below(95) as u8) as char).collect()
        }
        8 => {
            let n = rng.size(10);
            (0..n)
                .map(|_| loop {
                    let c = match rng.below(4) {
                        0 => rng.below(0x80) as u32,
                        1 => rng.below(0x800) as u32,
                        2 => rng.below(0x10000) as u32,
                        _ => rng.below(0x110000) as u32,
                    };
                    if let Some(c) = char::from_u32(c) {
                        break c;
                    }
                })
                .collect()
        }
        _ => {
            let a = rng.pick(STRINGS).to_string();
            let b = rng.pick(STRINGS);
            a + b
        }
    }
}

pub fn gen_u64(rng: &mut Rng) -> u64 {
    match rng.below(10) {
        0 => 0,
        1..=3 => rng.below(10) as u64,
        4 => rng.below(300) as u64,
        5 => *rng.pick(&[
            9, 10, 99, 100, 127, 128, 255, 256, 999, 1000, 65535, 65536, 4294967295, 4294967296, 9007199254740991,
            9007199254740992, 9007199254740993, 9223372036854775807, 9223372036854775808, u64::MAX - 1, u64::MAX,
        ]),
        6 => rng.next() >> 33,
        7 => 10u64.pow(rng.below(20) as u32).wrapping_sub(rng.below(2) as u64),
        _ => rng.next(),
    }
}

/// Sizes for byte strings, with the WebSocket frame-length boundaries now and then.
pub fn gen_bytes(rng: &mut Rng, big: bool) -> Vec<u8> {
    let n = if big && rng.chance(1, 40) {
        *rng.pick(&[123, 124, 125, 126, 127, 255, 256, 4095, 65534, 65535, 65536, 70000])
    } else {
        rng.size(20)
    };
    match rng.below(4) {
        0 => vec![4; n],
        1 => (0..n).map(|i| i as u8).collect(),
        _ => rng.bytes(n),
    }
}

pub fn gen(rng: &mut Rng, depth: usize, bytes: bool) -> J {
    let leaf = depth == 0 || rng.chance(1, 2);
    if leaf {
        match rng.below(if bytes { 9 } else { 7 }) {
            0 => J::Null,
            1 => J::Bool(rng.chance(1, 2)),
            2 => J::U(gen_u64(rng)),
            3 => J::I(-((rng.next() >> (1 + rng.below(62))) as i64).max(1)),
            4 => {
                let k = rng.below(1 << 20) as f64 / 8.0;
                J::F(if rng.chance(1, 2) { k } else { -k - 0.125 })
            }
            5 | 6 => J::S(gen_string(rng)),
            _ => {
                let via = rng.chance(1, 2);
                J::B(gen_bytes(rng, true), via)
            }
        }
    } else if rng.chance(1, 2) {
        let n = rng.size(6);
        J::A((0..n).map(|_| gen(rng, depth - 1, bytes)).collect())
    } else {
        let n = rng.size(5);
        let mut m: Vec<(String, J)> = Vec::new();
        for _ in 0..n {
            let k = if rng.chance(1, 12) {
                rng.below(50).to_string()
            } else {
                gen_string(rng)
            };
            // a first key "_placeholder" would make it a placeholder; keep real data distinct
            if k != "_placeholder" && !m.iter().any(|(x, _)| *x == k) {
                m.push((k, gen(rng, depth - 1, bytes)));
            }
        }
        J::O(m)
    }
}

// ---------------------------------------------------------------- independent parser

#[derive(Debug, Clone, Default)]
pub struct Notes {
    /// a number outside f64 range or a lone surrogate: valid JSON text without a JSON value
    pub unrepresentable: bool,
    pub depth: usize,
}

pub struct Parser<'a> {
    s: &'a [u8],
    pub i: usize,
    pub notes: Notes,
}

type R<T> = Result<T, String>;

impl<'a> Parser<'a> {
    pub fn new(s: &'a str) -> Self {
        Parser { s: s.as_bytes(), i: 0, notes: Notes::default() }
    }
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).copied()
    }
    pub fn skip_ws(&mut self) {
        while matches!(self.peek(), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn expect(&mut self, lit: &str) -> R<()> {
        if self.s[self.i..].starts_with(lit.as_bytes()) {
            self.i += lit.len();
            Ok(())
        } else {
            Err(format!("expected {} at {}", lit, self.i))
        }
    }
    pub fn value(&mut self, depth: usize) -> R<J> {
        self.notes.depth = self.notes.depth.max(depth);
        if depth > 5000 {
            return Err("too deep for the reference parser".into());
        }
        self.skip_ws();
        match self.peek() {
            None => Err("eof".into()),
            Some(b'n') => self.expect("null").map(|_| J::Null),
            Some(b't') => self.expect("true").map(|_| J::Bool(true)),
            Some(b'f') => self.expect("false").map(|_| J::Bool(false)),
            Some(b'"') => self.string().map(J::S),
            Some(b'[') => {
                self.i += 1;
                let mut v = Vec::new();
                self.skip_ws();
                if self.peek() == Some(b']') {
                    self.i += 1;
                    return Ok(J::A(v));
                }
                loop {
                    v.push(self.value(depth + 1)?);
                    self.skip_ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b']') => {
                            self.i += 1;
                            return Ok(J::A(v));
                        }
                        _ => return Err(format!("array at {}", self.i)),
                    }
                }
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = Vec::new();
                self.skip_ws();
                if self.peek() == Some(b'}') {
                    self.i += 1;
                    return Ok(J::O(v));
                }
                loop {
                    self.skip_ws();
                    let k = self.string()?;
                    self.skip_ws();
                    self.expect(":")?;
                    let x = self.value(depth + 1)?;
                    v.push((k, x));
                    self.skip_ws();
                    match self.peek() {
                        Some(b',') => self.i += 1,
                        Some(b'}') => {
                            self.i += 1;
                            return Ok(J::O(v));
                        }
                        _ => return Err(format!("object at {}", self.i)),
                    }
                }
            }
            Some(b'-' | b'0'..=b'9') => self.number(),
            _ => Err(format!("value at {}", self.i)),
        }
    }
    fn number(&mut self) -> R<J> {
        let st = self.i;
        let neg = self.peek() == Some(b'-');
        if neg {
            self.i += 1;
        }
        match self.peek() {
            Some(b'0') => self.i += 1,
            Some(b'1'..=b'9') => {
                while matches!(self.peek(), Some(b'0'..=b'9')) {
                    self.i += 1;
                }
            }
            _ => return Err("number".into()),
        }
        let mut int = true;
        if self.peek() == Some(b'.') {
            int = false;
            self.i += 1;
            let a = self.i;
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.i += 1;
            }
            if a == self.i {
                return Err("fraction".into());
            }
        }
        if matches!(self.peek(), Some(b'e' | b'E')) {
            int = false;
            self.i += 1;
            if matches!(self.peek(), Some(b'+' | b'-')) {
                self.i += 1;
            }
            let a = self.i;
            while matches!(self.peek(), Some(b'0'..=b'9')) {
                self.i += 1;
            }
            if a == self.i {
                return Err("exponent".into());
            }
        }
        let t = std::str::from_utf8(&self.s[st..self.i]).unwrap();
        if int {
            if !neg {
                if let Ok(u) = t.parse() {
                    return Ok(J::U(u));
                }
            } else if let Ok(i) = t.parse::<i64>() {
                if i != 0 {
                    return Ok(J::I(i));
                }
            }
        }
        let f: f64 = t.parse().map_err(|_| "float".to_string())?;
        if !f.is_finite() {
            self.notes.unrepresentable = true;
        }
        Ok(J::F(f))
    }
    fn hex4(&mut self) -> R<u32> {
        if self.i + 4 > self.s.len() {
            return Err("hex".into());
        }
        let mut x = 0;
        for _ in 0..4 {
            let d = (self.s[self.i] as char).to_digit(16).ok_or("hex digit")?;
            x = x * 16 + d;
            self.i += 1;
        }
        Ok(x)
    }
    fn string(&mut self) -> R<String> {
        if self.peek() != Some(b'"') {
            return Err(format!("string at {}", self.i));
        }
        self.i += 1;
        let mut out: Vec<u8> = Vec::new();
        loop {
            match self.peek() {
                None => return Err("eof in string".into()),
                Some(b'"') => {
                    self.i += 1;
                    return Ok(String::from_utf8(out).expect("input is str"));
                }
                Some(0..=0x1f) => return Err("control char".into()),
                Some(b'\\') => {
                    self.i += 1;
                    let c = self.peek().ok_or("eof")?;
                    self.i += 1;
                    let ch = match c {
                        b'"' => '"',
                        b'\\' => '\\',
                        b'/' => '/',
                        b'b' => '\u{8}',
                        b'f' => '\u{c}',
                        b'n' => '\n',
                        b'r' => '\r',
                        b't' => '\t',
                        b'u' => {
                            let h = self.hex4()?;
                            if (0xd800..0xdc00).contains(&h) {
                                let save = self.i;
                                if self.s[self.i..].starts_with(b"\\u") {
                                    self.i += 2;
                                    let l = self.hex4()?;
                                    if (0xdc00..0xe000).contains(&l) {
                                        char::from_u32(0x10000 + ((h - 0xd800) << 10) + (l - 0xdc00)).unwrap()
                                    } else {
                                        self.i = save;
                                        self.notes.unrepresentable = true;
                                        '\u{fffd}'
                                    }
                                } else {
                                    self.notes.unrepresentable = true;
                                    '\u{fffd}'
                                }
                            } else if (0xdc00..0xe000).contains(&h) {
                                self.notes.unrepresentable = true;
                                '\u{fffd}'
                            } else {
                                char::from_u32(h).unwrap()
                            }
                        }
                        _ => return Err("escape".into()),
                    };
                    let mut b = [0; 4];
                    out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                }
                Some(b) => {
                    out.push(b);
                    self.i += 1;
                }
            }
        }
    }
}

/// Parse a complete JSON text (surrounding whitespace allowed).
pub fn parse(s: &str) -> R<(J, Notes)> {
    let mut p = Parser::new(s);
    let v = p.value(0)?;
    p.skip_ws();
    if p.i != s.len() {
        return Err(format!("trailing at {}", p.i));
    }
    Ok((v, p.notes))
}

/// Replace canonical placeholder objects by the attachment bytes.
pub fn fill(j: &J, att: &[Vec<u8>]) -> Result<J, String> {
    Ok(match j {
        J::A(v) => J::A(v.iter().map(|x| fill(x, att)).collect::<Result<_, _>>()?),
        J::O(m) => {
            if m.iter().any(|(k, _)| k == "_placeholder") {
                match m.iter().find(|(k, _)| k == "num") {
                    Some((_, J::U(n))) if (*n as usize) < att.len() => J::B(att[*n as usize].clone(), true),
                    other => return Err(format!("bad placeholder {:?}", other)),
                }
            } else {
                J::O(m.iter()
                    .map(|(k, v)| Ok((k.clone(), fill(v, att)?)))
                    .collect::<Result<_, String>>()?)
            }
        }
        x => x.clone(),
    })
}

/// Serialize adaptor used to hand a `J` to the library as an argument.
pub struct Ser<'a>(pub &'a J);

impl<'a> Serialize for Ser<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            J::Null => s.serialize_unit(),
            J::Bool(b) => s.serialize_bool(*b),
            J::U(u) => s.serialize_u64(*u),
            J::I(i) => s.serialize_i64(*i),
            J::F(f) => s.serialize_f64(*f),
            J::S(x) => s.serialize_str(x),
            J::A(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for x in v {
                    q.serialize_element(&Ser(x))?;
                }
                q.end()
            }
            J::O(m) => {
                let mut q = s.serialize_map(Some(m.len()))?;
                for (k, x) in m {
                    q.serialize_entry(k, &Ser(x))?;
                }
                q.end()
            }
            J::B(b, true) => s.serialize_bytes(b),
            J::B(b, false) => b.serialize(s),
        }
    }
}

/// Equality of a J against a serde_json Value, numbers compared exactly.
/// Whether `v` is the value of `j`.  serde_json reads long decimal fractions to within one unit in
/// the last place only, so fractions are compared with that tolerance.
pub fn same(j: &J, v: &Value) -> bool {
    match (j, v) {
        (J::F(f), Value::Number(n)) => match n.as_f64() {
            Some(g) => *f == g || (n.is_f64() && f.is_finite() && (f - g).abs() <= f.abs() * 4e-16 + 1e-322),
            None => false,
        },
        (J::F(_), _) => j.value() == *v,
        (J::A(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (J::O(a), Value::Object(b)) => {
            // the last of equal keys counts
            let mut last = std::collections::HashMap::new();
            for (k, x) in a {
                last.insert(k.as_str(), x);
            }
            last.len() == b.len() && last.iter().all(|(k, x)| b.get(*k).map_or(false, |y| same(x, y)))
        }
        (J::O(_), _) | (J::A(_), _) => false,
        _ => j.value() == *v,
    }
}
