//! Dynamic serde shapes (every method of `Serializer`) for the encoding monitors, and a family of
//! typed values for the round-trip and attachment-transparency monitors.

use crate::jsonref::{self, J};
use crate::rng::Rng;
use serde::de::{self, Visitor};
use serde::ser::{
    Error as _, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant,
};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt;

#[derive(Clone, Debug)]
pub enum Key {
    S(String),
    I(i64),
    U(u64),
    Ch(char),
    Unit(usize),
    Newtype(String),
    Bool(bool),
}

#[derive(Clone, Debug)]
pub enum Sh {
    Unit,
    UnitStruct,
    Bool(bool),
    Int(u8, i64),
    Uint(u8, u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    CollectStr(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Sh>),
    UnitVariant(usize),
    NewtypeStruct(Box<Sh>),
    NewtypeVariant(usize, Box<Sh>),
    Seq(Vec<Sh>, bool),
    Tuple(Vec<Sh>),
    TupleStruct(Vec<Sh>),
    TupleVariant(usize, Vec<Sh>),
    Map(Vec<(Key, Sh)>, bool),
    Struct(Vec<Sh>),
    StructVariant(usize, Vec<Sh>),
    /// JSON text passed through as it is
    Raw(String),
    Fail,
    FailKey(Vec<Sh>),
}

pub const NAMES: [&str; 10] = ["a", "b", "c", "num", "e", "data", "0", "x y", "é", "\"q\""];
struct Disp<'a>(&'a str);
impl fmt::Display for Disp<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in self.0.chars() {
            write!(f, "{}", c)?;
        }
        Ok(())
    }
}

impl Serialize for Key {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Key::S(x) => s.serialize_str(x),
            Key::I(x) => s.serialize_i64(*x),
            Key::U(x) => s.serialize_u64(*x),
            Key::Ch(x) => s.serialize_char(*x),
            Key::Unit(i) => s.serialize_unit_variant("K", *i as u32, NAMES[*i]),
            Key::Newtype(x) => s.serialize_newtype_struct("N", x),
            Key::Bool(b) => s.serialize_bool(*b),
        }
    }
}

impl Key {
    pub fn text(&self) -> String {
        match self {
            Key::S(x) | Key::Newtype(x) => x.clone(),
            Key::I(x) => x.to_string(),
            Key::U(x) => x.to_string(),
            Key::Ch(x) => x.to_string(),
            Key::Unit(i) => NAMES[*i].to_string(),
            Key::Bool(b) => b.to_string(),
        }
    }
}

impl Serialize for Sh {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            Sh::Unit => s.serialize_unit(),
            Sh::UnitStruct => s.serialize_unit_struct("U"),
            Sh::Bool(b) => s.serialize_bool(*b),
            Sh::Int(w, x) => match w {
                0 => s.serialize_i8(*x as i8),
                1 => s.serialize_i16(*x as i16),
                2 => s.serialize_i32(*x as i32),
                3 => s.serialize_i128(*x as i128),
                _ => s.serialize_i64(*x),
            },
            Sh::Uint(w, x) => match w {
                0 => s.serialize_u8(*x as u8),
                1 => s.serialize_u16(*x as u16),
                2 => s.serialize_u32(*x as u32),
                3 => s.serialize_u128(*x as u128),
                _ => s.serialize_u64(*x),
            },
            Sh::F32(f) => s.serialize_f32(*f),
            Sh::F64(f) => s.serialize_f64(*f),
            Sh::Char(c) => s.serialize_char(*c),
            Sh::Str(x) => s.serialize_str(x),
            Sh::CollectStr(x) => s.collect_str(&Disp(x)),
            Sh::Bytes(b) => s.serialize_bytes(b),
            Sh::None => s.serialize_none(),
            Sh::Some(x) => s.serialize_some(&**x),
            Sh::UnitVariant(i) => s.serialize_unit_variant("E", *i as u32, NAMES[*i]),
            Sh::NewtypeStruct(x) => s.serialize_newtype_struct("N", &**x),
            Sh::NewtypeVariant(i, x) => s.serialize_newtype_variant("E", *i as u32, NAMES[*i], &**x),
            Sh::Seq(v, len) => {
                let mut q = s.serialize_seq(if *len { Some(v.len()) } else { None })?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Sh::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for x in v {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Sh::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("T", v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Sh::TupleVariant(i, v) => {
                let mut q = s.serialize_tuple_variant("E", *i as u32, NAMES[*i], v.len())?;
                for x in v {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Sh::Map(v, entry) => {
                let mut q = s.serialize_map(if *entry { Some(v.len()) } else { None })?;
                for (k, x) in v {
                    if *entry {
                        q.serialize_entry(k, x)?;
                    } else {
                        q.serialize_key(k)?;
                        q.serialize_value(x)?;
                    }
                }
                q.end()
            }
            Sh::Struct(v) => {
                let mut q = s.serialize_struct("S", v.len())?;
                for (i, x) in v.iter().enumerate() {
                    if i == 2 {
                        q.skip_field("skipped")?;
                    }
                    q.serialize_field(NAMES[i], x)?;
                }
                q.end()
            }
            Sh::StructVariant(i, v) => {
                let mut q = s.serialize_struct_variant("E", *i as u32, NAMES[*i], v.len())?;
                for (i, x) in v.iter().enumerate() {
                    q.serialize_field(NAMES[i], x)?;
                }
                q.end()
            }
            Sh::Raw(t) => serde_json::value::RawValue::from_string(t.clone()).map_err(S::Error::custom)?.serialize(s),
            Sh::Fail => Err(S::Error::custom("deliberate failure")),
            Sh::FailKey(v) => {
                // a non-string key: serializes some entries, then a key JSON cannot take
                let mut q = s.serialize_map(None)?;
                for (i, x) in v.iter().enumerate() {
                    q.serialize_entry(NAMES[i % 10], x)?;
                }
                q.serialize_entry(&vec![1u16, 2], &0)?;
                q.end()
            }
        }
    }
}

impl Sh {
    pub fn j(&self) -> J {
        match self {
            Sh::Unit | Sh::UnitStruct | Sh::None => J::Null,
            Sh::Bool(b) => J::Bool(*b),
            Sh::Int(w, x) => {
                let x = match w {
                    0 => *x as i8 as i64,
                    1 => *x as i16 as i64,
                    2 => *x as i32 as i64,
                    _ => *x,
                };
                if x < 0 {
                    J::I(x)
                } else {
                    J::U(x as u64)
                }
            }
            Sh::Uint(w, x) => J::U(match w {
                0 => *x as u8 as u64,
                1 => *x as u16 as u64,
                2 => *x as u32 as u64,
                _ => *x,
            }),
            Sh::F32(f) => J::F(*f as f64),
            Sh::F64(f) => J::F(*f),
            Sh::Char(c) => J::S(c.to_string()),
            Sh::Str(x) | Sh::CollectStr(x) => J::S(x.clone()),
            Sh::Bytes(b) => J::B(b.clone(), true),
            Sh::Some(x) | Sh::NewtypeStruct(x) => x.j(),
            Sh::UnitVariant(i) => J::S(NAMES[*i].into()),
            Sh::NewtypeVariant(i, x) => J::O(vec![(NAMES[*i].into(), x.j())]),
            Sh::Seq(v, _) => {
                if !v.is_empty() && v.iter().all(|x| matches!(x, Sh::Uint(0, _))) {
                    J::B(
                        v.iter()
                            .map(|x| match x {
                                Sh::Uint(_, b) => *b as u8,
                                _ => 0,
                            })
                            .collect(),
                        false,
                    )
                } else {
                    J::A(v.iter().map(Sh::j).collect())
                }
            }
            Sh::Tuple(v) | Sh::TupleStruct(v) => J::A(v.iter().map(Sh::j).collect()),
            Sh::TupleVariant(i, v) => J::O(vec![(NAMES[*i].into(), J::A(v.iter().map(Sh::j).collect()))]),
            Sh::Map(v, _) => J::O(v.iter().map(|(k, x)| (k.text(), x.j())).collect()),
            Sh::Struct(v) => J::O(v.iter().enumerate().map(|(i, x)| (NAMES[i].to_string(), x.j())).collect()),
            Sh::StructVariant(i, v) => J::O(vec![(
                NAMES[*i].into(),
                J::O(v.iter().enumerate().map(|(i, x)| (NAMES[i].to_string(), x.j())).collect()),
            )]),
            Sh::Raw(t) => jsonref::parse(t).expect("generated JSON").0,
            Sh::Fail | Sh::FailKey(_) => J::Null,
        }
    }

    /// number of attachments in binary mode
    pub fn attachments(&self) -> usize {
        fn count(j: &J) -> usize {
            match j {
                J::B(..) => 1,
                J::A(v) => v.iter().map(count).sum(),
                J::O(m) => m.iter().map(|(_, v)| count(v)).sum(),
                _ => 0,
            }
        }
        count(&self.j())
    }

    /// Every node with children, for picking a place to fail.
    fn children(&mut self) -> Vec<&mut Sh> {
        match self {
            Sh::Some(x) | Sh::NewtypeStruct(x) | Sh::NewtypeVariant(_, x) => vec![&mut **x],
            Sh::Seq(v, _) | Sh::Tuple(v) | Sh::TupleStruct(v) | Sh::TupleVariant(_, v) | Sh::Struct(v)
            | Sh::StructVariant(_, v) => v.iter_mut().collect(),
            Sh::Map(v, _) => v.iter_mut().map(|(_, x)| x).collect(),
            _ => vec![],
        }
    }

    /// Turn some node into a failing one.
    pub fn poison(&mut self, rng: &mut Rng) {
        if !rng.chance(1, 4) {
            let n = self.children().len();
            if n > 0 {
                // later children more often, so that more output precedes the failure
                let i = rng.below(n).max(rng.below(n));
                self.children().remove(i).poison(rng);
                return;
            }
        }
        *self = match rng.below(5) {
            0 => Sh::FailKey((0..rng.below(4)).map(|_| gen(rng, 1)).collect()),
            1 => {
                let k = rng.below(6);
                let mut v: Vec<Sh> = (0..k).map(|_| Sh::Uint(0, rng.below(256) as u64)).collect();
                v.push(Sh::Fail);
                Sh::Seq(v, rng.chance(1, 2))
            }
            2 => Sh::Tuple(vec![Sh::Bytes(jsonref::gen_bytes(rng, false)), Sh::Fail]),
            _ => Sh::Fail,
        }
    }
}

fn gen_key(rng: &mut Rng) -> Key {
    match rng.below(9) {
        0 => Key::I(rng.next() as i64 >> rng.below(60)),
        1 => Key::U(jsonref::gen_u64(rng)),
        2 => Key::Ch(*rng.pick(&['a', '"', 'é', '\n', '5'])),
        3 => Key::Unit(rng.below(10)),
        4 => Key::Newtype(jsonref::gen_string(rng)),
        5 => Key::Bool(rng.chance(1, 2)),
        _ => Key::S(jsonref::gen_string(rng)),
    }
}

pub fn gen(rng: &mut Rng, depth: usize) -> Sh {
    if depth == 0 || rng.chance(1, 3) {
        return match rng.below(17) {
            16 => Sh::Raw(jsonref::gen(rng, depth.min(2), false).value().to_string()),
            0 => Sh::Unit,
            1 => Sh::UnitStruct,
            2 => Sh::Bool(rng.chance(1, 2)),
            3 => Sh::Int(rng.below(5) as u8, rng.next() as i64 >> rng.below(63)),
            4 | 5 => Sh::Uint(rng.below(5) as u8, jsonref::gen_u64(rng)),
            6 => Sh::F32(rng.below(1 << 12) as f32 / 8.0 - 100.0),
            7 => Sh::F64(rng.below(1 << 30) as f64 / 64.0 - 1000.0),
            8 => Sh::Char(*rng.pick(&['a', '"', '\\', '\u{0}', 'é', '😀', '\u{10ffff}'])),
            9 | 10 => Sh::Str(jsonref::gen_string(rng)),
            11 => Sh::CollectStr(jsonref::gen_string(rng)),
            12 | 13 => Sh::Bytes(jsonref::gen_bytes(rng, true)),
            14 => Sh::None,
            _ => Sh::UnitVariant(rng.below(10)),
        };
    }
    let kids = |rng: &mut Rng, max: usize| -> Vec<Sh> {
        let n = rng.size(max);
        (0..n).map(|_| gen(rng, depth - 1)).collect()
    };
    match rng.below(15) {
        14 => {
            // elements that are almost bytes, all of one kind
            let k = rng.below(9);
            let n = rng.range(1, 6);
            let v = (0..n)
                .map(|_| {
                    let x = rng.below(256) as u64;
                    let byte = Box::new(Sh::Uint(0, x));
                    match k {
                        0 => Sh::Some(byte),
                        1 => Sh::NewtypeStruct(byte),
                        2 => Sh::NewtypeVariant(3, byte),
                        3 => Sh::Uint(rng.below(5) as u8, x),
                        4 => Sh::Int(0, x as i64),
                        5 => Sh::Tuple(vec![*byte]),
                        6 => Sh::Seq(vec![*byte], true),
                        7 => Sh::Bool(x > 127),
                        _ => Sh::Char(x as u8 as char),
                    }
                })
                .collect();
            Sh::Seq(v, rng.chance(1, 2))
        }
        0 => Sh::Some(Box::new(gen(rng, depth - 1))),
        1 => Sh::NewtypeStruct(Box::new(gen(rng, depth - 1))),
        2 => Sh::NewtypeVariant(rng.below(10), Box::new(gen(rng, depth - 1))),
        3 => Sh::Tuple(kids(rng, 6)),
        4 => Sh::TupleStruct(kids(rng, 6)),
        5 => Sh::TupleVariant(rng.below(10), kids(rng, 5)),
        6 => Sh::Struct(kids(rng, 9)),
        7 => Sh::StructVariant(rng.below(10), kids(rng, 6)),
        8 | 9 => {
            let mut v: Vec<(Key, Sh)> = Vec::new();
            for _ in 0..rng.size(5) {
                let k = gen_key(rng);
                if k.text() != "_placeholder" && !v.iter().any(|(x, _)| x.text() == k.text()) {
                    v.push((k, gen(rng, depth - 1)));
                }
            }
            Sh::Map(v, rng.chance(1, 2))
        }
        10 => {
            // a byte sequence
            let n = rng.size(20);
            Sh::Seq((0..n).map(|_| Sh::Uint(0, rng.below(256) as u64)).collect(), rng.chance(1, 2))
        }
        11 => {
            // begins with bytes, then something else (maybe bytes again, maybe nested bytes)
            let n = if rng.chance(1, 40) { rng.range(250, 1100) } else { rng.size(6) };
            let mut v: Vec<Sh> = (0..n).map(|_| Sh::Uint(0, rng.below(256) as u64)).collect();
            for _ in 0..rng.range(1, 3) {
                v.push(if rng.chance(1, 3) { Sh::Uint(0, 4) } else { gen(rng, depth - 1) });
            }
            Sh::Seq(v, rng.chance(1, 2))
        }
        _ => Sh::Seq(kids(rng, 6), rng.chance(1, 2)),
    }
}

// ---------------------------------------------------------------- typed values

/// Bytes through `serialize_bytes` / `deserialize_byte_buf`.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Bb(pub Vec<u8>);
impl Serialize for Bb {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
struct BbVisitor;
impl<'de> Visitor<'de> for BbVisitor {
    type Value = Bb;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("bytes")
    }
    fn visit_bytes<E: de::Error>(self, v: &[u8]) -> Result<Bb, E> {
        Ok(Bb(v.to_vec()))
    }
    fn visit_byte_buf<E: de::Error>(self, v: Vec<u8>) -> Result<Bb, E> {
        Ok(Bb(v))
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Bb, A::Error> {
        let mut v = Vec::new();
        while let Some(b) = a.next_element()? {
            v.push(b);
        }
        Ok(Bb(v))
    }
}
impl<'de> Deserialize<'de> for Bb {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Bb, D::Error> {
        d.deserialize_byte_buf(BbVisitor)
    }
}

pub trait Gen: Sized {
    fn g(r: &mut Rng, d: usize) -> Self;
    /// as the key of a map
    fn g_key(r: &mut Rng, d: usize) -> Self {
        Self::g(r, d)
    }
}
impl Gen for String {
    fn g(r: &mut Rng, _: usize) -> Self {
        jsonref::gen_string(r)
    }
    fn g_key(r: &mut Rng, _: usize) -> Self {
        // this key is how the protocol marks attachments
        Some(jsonref::gen_string(r)).filter(|s| s != "_placeholder").unwrap_or_default()
    }
}
macro_rules! gen_prim { ($($t:ty => $e:expr;)*) => { $(impl Gen for $t { fn g(r: &mut Rng, d: usize) -> Self { let f: fn(&mut Rng, usize) -> $t = $e; f(r, d) } })* } }
gen_prim! {
    bool => |r, _| r.chance(1, 2);
    u8 => |r, _| r.next() as u8;
    u16 => |r, _| r.next() as u16;
    u32 => |r, _| jsonref::gen_u64(r) as u32;
    u64 => |r, _| jsonref::gen_u64(r);
    i8 => |r, _| r.next() as i8;
    i16 => |r, _| r.next() as i16;
    i32 => |r, _| r.next() as i32 >> r.below(31);
    i64 => |r, _| r.next() as i64 >> r.below(63);
    i128 => |r, _| ((r.next() as i128) << 64 | r.next() as i128) >> r.below(127);
    u128 => |r, _| ((r.next() as u128) << 64 | r.next() as u128) >> r.below(127);
    f32 => |r, _| r.below(1 << 16) as f32 / 16.0 - 1000.0;
    f64 => |r, _| if r.chance(3, 4) { r.below(1 << 28) as f64 / 16.0 - 1e6 } else { *r.pick(&[0.1, -0.0, 1e21, 1.5e-7, 1e22, -123456.789, 0.3, 1e15, 9007199254740993.0]) };
    char => |r, _| *r.pick(&['x', '"', '\\', '\u{1}', 'é', '😀']);
    Bb => |r, _| Bb(jsonref::gen_bytes(r, true));
    () => |_, _| ();
}
impl<T: Gen> Gen for Option<T> {
    fn g(r: &mut Rng, d: usize) -> Self {
        if r.chance(1, 3) {
            None
        } else {
            Some(T::g(r, d))
        }
    }
}
impl<T: Gen> Gen for Box<T> {
    fn g(r: &mut Rng, d: usize) -> Self {
        Box::new(T::g(r, d))
    }
}
impl<T: Gen> Gen for Vec<T> {
    fn g(r: &mut Rng, d: usize) -> Self {
        let n = r.size(if d == 0 { 2 } else { 9 });
        (0..n).map(|_| T::g(r, d.saturating_sub(1))).collect()
    }
}
impl<T: Gen + Ord> Gen for BTreeSet<T> {
    fn g(r: &mut Rng, d: usize) -> Self {
        Vec::g(r, d).into_iter().collect()
    }
}
impl<T: Gen> Gen for VecDeque<T> {
    fn g(r: &mut Rng, d: usize) -> Self {
        Vec::g(r, d).into_iter().collect()
    }
}
impl<A: Gen, B: Gen> Gen for Result<A, B> {
    fn g(r: &mut Rng, d: usize) -> Self {
        if r.chance(1, 4) {
            Err(B::g(r, d))
        } else {
            Ok(A::g(r, d))
        }
    }
}
impl Gen for std::time::Duration {
    fn g(r: &mut Rng, _: usize) -> Self {
        std::time::Duration::new(jsonref::gen_u64(r) >> 1, r.below(1_000_000_000) as u32)
    }
}
/// A byte in a newtype.
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct NtU8(pub u8);
impl Gen for NtU8 {
    fn g(r: &mut Rng, _: usize) -> Self {
        NtU8(r.next() as u8)
    }
}
/// An enum of almost-bytes.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Ev {
    B(u8),
    T(u8, u8),
    S { b: u8 },
    O(Option<u8>),
}
impl Gen for Ev {
    fn g(r: &mut Rng, _: usize) -> Self {
        let b = r.next() as u8;
        match r.below(7) {
            0 => Ev::T(b, 1),
            1 => Ev::S { b },
            2 => Ev::O(if b > 100 { Some(b) } else { None }),
            _ => Ev::B(b),
        }
    }
}
impl<T: Gen + Copy + Default, const N: usize> Gen for [T; N] {
    fn g(r: &mut Rng, d: usize) -> Self {
        let mut a = [T::default(); N];
        for x in a.iter_mut() {
            *x = T::g(r, d);
        }
        a
    }
}
impl<K: Gen + Ord, V: Gen> Gen for BTreeMap<K, V> {
    fn g(r: &mut Rng, d: usize) -> Self {
        let n = r.size(if d == 0 { 2 } else { 6 });
        (0..n).map(|_| (K::g_key(r, d.saturating_sub(1)), V::g(r, d.saturating_sub(1)))).collect()
    }
}
impl<K: Gen + Eq + std::hash::Hash, V: Gen> Gen for HashMap<K, V> {
    fn g(r: &mut Rng, d: usize) -> Self {
        let n = r.size(if d == 0 { 2 } else { 6 });
        (0..n).map(|_| (K::g_key(r, d.saturating_sub(1)), V::g(r, d.saturating_sub(1)))).collect()
    }
}
impl<A: Gen, B: Gen> Gen for (A, B) {
    fn g(r: &mut Rng, d: usize) -> Self {
        (A::g(r, d), B::g(r, d))
    }
}
impl<A: Gen, B: Gen, C: Gen> Gen for (A, B, C) {
    fn g(r: &mut Rng, d: usize) -> Self {
        (A::g(r, d), B::g(r, d), C::g(r, d))
    }
}

macro_rules! gstruct {
    ($(#[$m:meta])* $name:ident { $($(#[$fm:meta])* $f:ident : $t:ty),* $(,)? }) => {
        #[derive(Clone, Debug, PartialEq, Serialize, Deserialize)] $(#[$m])*
        pub struct $name { $($(#[$fm])* pub $f: $t),* }
        impl Gen for $name { fn g(r: &mut Rng, d: usize) -> Self { let d = d.saturating_sub(1); $name { $($f: <$t>::g(r, d)),* } } }
    };
}

gstruct!(Plain { a: i32, b: String, c: Option<u8>, d: Vec<u8>, e: (i64, bool, String), f: BTreeMap<String, Vec<u16>> });
gstruct!(WithBytes { first: Vec<u8>, raw: Bb, opt: Option<Bb>, opt_seq: Option<Vec<u8>>, many: Vec<Vec<u8>>, fixed: [u8; 4], tail: String });
gstruct!(Inner { data: Vec<u8>, tag: u16 });
gstruct!(Nested { inner: Vec<Inner>, map: BTreeMap<String, Inner>, opt: Option<Inner>, pair: (Inner, Bb) });
gstruct!(#[serde(rename_all = "camelCase")] Renamed { first_field: u8, #[serde(default)] second_field: Option<Vec<u8>>, #[serde(rename = "esc\"aped\n")] third: String });
gstruct!(Flat { id: u32, #[serde(flatten)] inner: Inner, #[serde(flatten)] rest: BTreeMap<String, serde_json::Value> });
gstruct!(Nums { a: u8, b: u16, c: u32, d: u64, e: i8, f: i16, g: i32, h: i64, i: f64, j: f32, k: char, l: bool });
gstruct!(Sparse { b: Vec<u8>, #[serde(skip_serializing_if = "Option::is_none")] data: Option<Bb>, #[serde(default)] e: u8, #[serde(alias = "a")] x: Option<String> });
gstruct!(Nums2 { a: Vec<u32>, b: Vec<i64>, c: Vec<u128>, d: Vec<f64>, e: Vec<i16>, f: [u8; 3], g: (u8, u8, u8), h: Option<Option<u8>> });
gstruct!(Big { a: u128, b: i128, c: Vec<u8> });
gstruct!(IntMaps { a: BTreeMap<u32, Vec<u8>>, b: BTreeMap<i64, String>, c: HashMap<u8, Bb>, d: BTreeMap<char, u8>, e: BTreeMap<Col, Vec<u8>> });

impl Gen for serde_json::Value {
    fn g(r: &mut Rng, d: usize) -> Self {
        jsonref::gen(r, d.min(3), false).value()
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Col {
    Red,
    Green,
    #[serde(rename = "a \"b\"")]
    Odd,
}
impl Gen for Col {
    fn g(r: &mut Rng, _: usize) -> Self {
        *r.pick(&[Col::Red, Col::Green, Col::Odd])
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Nt(pub Vec<u8>);
impl Gen for Nt {
    fn g(r: &mut Rng, d: usize) -> Self {
        Nt(Vec::g(r, d))
    }
}
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct NtKey(pub String);
impl Gen for NtKey {
    fn g(r: &mut Rng, d: usize) -> Self {
        NtKey(String::g(r, d))
    }
    fn g_key(r: &mut Rng, d: usize) -> Self {
        NtKey(String::g_key(r, d))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Ts(pub u8, pub Vec<u8>, pub String);
impl Gen for Ts {
    fn g(r: &mut Rng, d: usize) -> Self {
        Ts(Gen::g(r, d), Gen::g(r, d), Gen::g(r, d))
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Us;
impl Gen for Us {
    fn g(_: &mut Rng, _: usize) -> Self {
        Us
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum En {
    Unit,
    New(Vec<u8>),
    Nest(Box<En>),
    Tup(u8, String, Vec<u8>, Bb),
    Str { x: Option<Box<En>>, y: f64, z: Vec<u8>, w: u64 },
    #[serde(rename = "quo\"te")]
    Ren(Bb),
}
impl Gen for En {
    fn g(r: &mut Rng, d: usize) -> Self {
        let e = d.saturating_sub(1);
        match r.below(6) {
            0 => En::Unit,
            1 => En::New(Gen::g(r, e)),
            2 if d > 0 => En::Nest(Gen::g(r, e)),
            3 => En::Tup(Gen::g(r, e), Gen::g(r, e), Gen::g(r, e), Gen::g(r, e)),
            4 => En::Str {
                x: if d > 0 { Gen::g(r, e) } else { None },
                y: r.below(1000) as f64 / 8.0,
                z: Gen::g(r, e),
                w: Gen::g(r, e),
            },
            _ => En::Ren(Gen::g(r, e)),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t")]
pub enum IntTag {
    A { v: Vec<u8>, n: i32 },
    B(Inner),
    C,
}
impl Gen for IntTag {
    fn g(r: &mut Rng, d: usize) -> Self {
        match r.below(3) {
            0 => IntTag::A { v: Gen::g(r, d), n: Gen::g(r, d) },
            1 => IntTag::B(Gen::g(r, d)),
            _ => IntTag::C,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "t", content = "c")]
pub enum AdjTag {
    A(Vec<u8>),
    B { x: Bb, y: String },
    C(u8, Vec<u8>),
    D,
}
impl Gen for AdjTag {
    fn g(r: &mut Rng, d: usize) -> Self {
        match r.below(4) {
            0 => AdjTag::A(Gen::g(r, d)),
            1 => AdjTag::B { x: Gen::g(r, d), y: Gen::g(r, d) },
            2 => AdjTag::C(Gen::g(r, d), Gen::g(r, d)),
            _ => AdjTag::D,
        }
    }
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
#[serde(untagged)]
pub enum Unt {
    N(i64),
    S(String),
    V(Vec<u8>),
    M(Inner),
    W(Vec<Inner>),
    O(BTreeMap<String, Unt>),
}
impl Gen for Unt {
    fn g(r: &mut Rng, d: usize) -> Self {
        let e = d.saturating_sub(1);
        match r.below(6) {
            0 => Unt::N(Gen::g(r, e)),
            1 => Unt::S(Gen::g(r, e)),
            2 => Unt::V(Gen::g(r, e)),
            3 => Unt::M(Gen::g(r, e)),
            4 => Unt::W(Gen::g(r, e)),
            _ if d > 0 => Unt::O(Gen::g(r, e)),
            _ => Unt::N(1),
        }
    }
}

/// Looks different to formats that are not for humans.
#[derive(Clone, Debug, PartialEq)]
pub struct Human(pub u16);
impl Serialize for Human {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if s.is_human_readable() {
            s.serialize_str(&format!("#{}", self.0))
        } else {
            s.serialize_bytes(&self.0.to_le_bytes())
        }
    }
}
impl<'de> Deserialize<'de> for Human {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Human, D::Error> {
        if d.is_human_readable() {
            let s = String::deserialize(d)?;
            s.strip_prefix('#').and_then(|s| s.parse().ok()).map(Human).ok_or_else(|| de::Error::custom("not a number"))
        } else {
            let b = Bb::deserialize(d)?;
            if b.0.len() != 2 {
                return Err(de::Error::custom("not two bytes"));
            }
            Ok(Human(u16::from_le_bytes([b.0[0], b.0[1]])))
        }
    }
}
impl Gen for Human {
    fn g(r: &mut Rng, _: usize) -> Self {
        Human(r.next() as u16)
    }
}
impl Gen for std::net::IpAddr {
    fn g(r: &mut Rng, _: usize) -> Self {
        if r.chance(1, 2) {
            std::net::IpAddr::V4((r.next() as u32).into())
        } else {
            std::net::IpAddr::V6((r.next() as u128).into())
        }
    }
}
impl Gen for std::num::NonZeroU8 {
    fn g(r: &mut Rng, _: usize) -> Self {
        std::num::NonZeroU8::new(r.range(1, 255) as u8).unwrap()
    }
}
impl Gen for std::num::Wrapping<u8> {
    fn g(r: &mut Rng, _: usize) -> Self {
        std::num::Wrapping(r.next() as u8)
    }
}
impl Gen for Box<[u8]> {
    fn g(r: &mut Rng, d: usize) -> Self {
        Vec::g(r, d).into_boxed_slice()
    }
}
impl Gen for std::ops::Range<u8> {
    fn g(r: &mut Rng, _: usize) -> Self {
        r.next() as u8..r.next() as u8
    }
}
impl Gen for std::path::PathBuf {
    fn g(r: &mut Rng, d: usize) -> Self {
        String::g(r, d).into()
    }
}
gstruct!(#[serde(deny_unknown_fields)] Strict { b: Vec<u8>, c: Option<Bb> });
gstruct!(#[serde(transparent)] Transp { b: Vec<u8> });
gstruct!(#[serde(default)] Defaulted { b: Vec<u8>, e: Option<Vec<u8>>, data: BTreeMap<String, Bb> });
impl Default for Defaulted {
    fn default() -> Self {
        Defaulted { b: vec![9], e: None, data: BTreeMap::new() }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[serde(rename_all = "kebab-case")]
pub enum Other {
    FirstOne,
    Second,
    #[serde(other)]
    Unknown,
}
impl Gen for Other {
    fn g(r: &mut Rng, _: usize) -> Self {
        *r.pick(&[Other::FirstOne, Other::Second, Other::Unknown])
    }
}

/// All owned typed values; calls `$m!(name, Type, stringy)` for each.
#[macro_export]
macro_rules! for_types {
    ($m:ident) => {
        $m! { 0, Plain, true }
        $m! { 1, WithBytes, true }
        $m! { 2, Nested, false }
        $m! { 3, Renamed, true }
        $m! { 4, Flat, false }
        $m! { 5, Nums, false }
        $m! { 6, Big, false }
        $m! { 7, IntMaps, true }
        $m! { 8, Nt, false }
        $m! { 9, Ts, true }
        $m! { 10, En, true }
        $m! { 11, IntTag, true }
        $m! { 12, AdjTag, true }
        $m! { 13, Unt, true }
        $m! { 14, Vec<En>, true }
        $m! { 15, BTreeMap<String, En>, true }
        $m! { 16, Vec<Option<Vec<u8>>>, false }
        $m! { 17, Option<WithBytes>, true }
        $m! { 18, (Vec<u8>, Bb, Vec<Vec<u8>>), false }
        $m! { 19, BTreeMap<NtKey, Nt>, false }
        $m! { 20, Vec<u8>, false }
        $m! { 21, Bb, true }
        $m! { 22, [u8; 4], false }
        $m! { 23, (u8, u8), false }
        $m! { 24, HashMap<u64, Vec<IntTag>>, true }
        $m! { 25, BTreeMap<i8, f64>, false }
        $m! { 26, Vec<u16>, false }
        $m! { 27, String, true }
        $m! { 28, f64, false }
        $m! { 29, Option<u8>, false }
        $m! { 30, Vec<Unt>, true }
        $m! { 31, BTreeMap<Col, AdjTag>, true }
        $m! { 32, Vec<f32>, false }
        $m! { 33, Us, false }
        $m! { 34, (u128, i128, bool), false }
        $m! { 35, serde_json::Value, false }
        $m! { 36, BTreeMap<Option<u16>, u8>, false }
        $m! { 37, Box<Inner>, false }
        $m! { 38, char, false }
        $m! { 39, Vec<Option<u8>>, false }
        $m! { 40, Vec<NtU8>, false }
        $m! { 41, Vec<i8>, false }
        $m! { 42, Vec<bool>, false }
        $m! { 43, Vec<char>, true }
        $m! { 44, Vec<Col>, true }
        $m! { 45, Vec<u64>, false }
        $m! { 46, Vec<[u8; 1]>, false }
        $m! { 47, std::collections::BTreeSet<u8>, false }
        $m! { 48, std::collections::VecDeque<u8>, false }
        $m! { 49, Vec<Result<u8, String>>, true }
        $m! { 50, Vec<()>, false }
        $m! { 51, Vec<Vec<Vec<u8>>>, false }
        $m! { 52, Vec<Vec<Option<u8>>>, false }
        $m! { 53, Vec<Box<u8>>, false }
        $m! { 54, Vec<Ev>, true }
        $m! { 55, Vec<(u8, Vec<u8>)>, false }
        $m! { 56, Option<Box<Option<Bb>>>, true }
        $m! { 57, BTreeMap<u8, BTreeMap<String, Vec<u8>>>, false }
        $m! { 58, Result<Bb, Vec<u8>>, true }
        $m! { 59, std::time::Duration, false }
        $m! { 60, (Bb, Option<Bb>, u8), true }
        $m! { 61, Vec<BTreeMap<String, Bb>>, true }
        $m! { 62, Nums2, false }
        $m! { 63, Sparse, true }
        $m! { 64, Vec<Sparse>, true }
        $m! { 65, Human, true }
        $m! { 66, std::net::IpAddr, true }
        $m! { 67, Vec<std::num::NonZeroU8>, true }
        $m! { 68, Vec<std::num::Wrapping<u8>>, true }
        $m! { 69, Box<[u8]>, true }
        $m! { 70, std::ops::Range<u8>, true }
        $m! { 71, std::path::PathBuf, true }
        $m! { 72, Strict, true }
        $m! { 73, Transp, true }
        $m! { 74, Defaulted, true }
        $m! { 75, Vec<Other>, true }
        $m! { 76, BTreeMap<String, Human>, true }
        $m! { 77, Vec<std::net::IpAddr>, true }
    };
}
pub const NTYPES: usize = 78;
