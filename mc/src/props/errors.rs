//! C25: whose error it is that a caller gets.
use super::unsupported::*;
use super::*;
use crate::explore::Check;
use crate::gen::*;
use dlhn::{DeserializeHeader, Header};
use serde::de::{self, DeserializeSeed, Error as _, Unexpected, Visitor};
use serde::ser::{Error as _, *};
use std::fmt;
use std::io::{self, ErrorKind, Read, Write};

// ---------------------------------------------------------------- what a type's own code may say

/// a refusal made by whatever error type it is asked of
pub const SAYINGS: usize = 16;
pub fn say<E: de::Error>(k: usize) -> E {
    match k {
        0 => E::custom("refused"),
        1 => E::custom(""),
        2 => E::custom("{} \"quoted\" \0 \u{1F600}\n"),
        3 => E::custom("x".repeat(70_000)),
        4 => E::custom(format_args!("{}-{}", 1, "two")),
        5 => E::invalid_type(Unexpected::Signed(-5), &"a hope"),
        6 => E::invalid_value(Unexpected::Str("s"), &"another"),
        7 => E::invalid_length(3, &"four"),
        8 => E::unknown_variant("v", &["a", "b"]),
        9 => E::unknown_field("f", &[]),
        10 => E::missing_field("f"),
        11 => E::duplicate_field("g"),
        12 => E::custom("write error"),
        13 => E::custom("Read error"),
        14 => E::custom("unsupported key type"),
        _ => E::custom(" The size of the char is more than 32bit "),
    }
}
/// what it says, by an error type of serde's own
pub fn said(k: usize) -> String { say::<de::value::Error>(k).to_string() }

// ---------------------------------------------------------------- writing

/// refuses, at once or after some of it is written
struct Refuse(usize, usize);
pub const WAYS: [&str; 7] = ["at once", "after an element", "within a map's value", "within a map's key", "within a map's second key", "at the end of a struct", "twice, caught once"];
impl Serialize for Refuse {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let now = || Refuse(self.0, 0);
        match self.1 {
            0 => Err(Z::Error::custom(said(self.0))),
            1 => { let mut q = z.serialize_seq(Some(3))?; q.serialize_element(&300u16)?; q.serialize_element(&now())?; q.serialize_element(&7u8)?; q.end() }
            2 => { let mut q = z.serialize_map(Some(2))?; q.serialize_entry("k", &now())?; q.serialize_entry("l", &1u8)?; q.end() }
            3 => { let mut q = z.serialize_map(Some(2))?; q.serialize_entry(&now(), &1u8)?; q.serialize_entry("l", &1u8)?; q.end() }
            4 => { let mut q = z.serialize_map(Some(2))?; q.serialize_entry("k", &1u8)?; q.serialize_key(&now())?; q.serialize_value(&1u8)?; q.end() }
            5 => { let mut q = z.serialize_struct("S", 2)?; q.serialize_field("a", "text")?; let _ = q; Err(Z::Error::custom(said(self.0))) }
            _ => { let mut q = z.serialize_tuple(2)?; q.serialize_element(&9u8)?; let a = q.serialize_element(&Refuse((self.0 + 1) % SAYINGS, 0)); q.serialize_element(&now())?; a?; q.end() }
        }
    }
}
fn written(way: usize) -> Vec<u8> {
    match way { 1 => { let mut o = vec![3]; enc_uint(16, 300, &mut o); o } 2 => vec![2, 1, b'k'], 3 => vec![2], 4 => vec![2, 1, b'k', 1], 5 => vec![4, b't', b'e', b'x', b't'], 6 => vec![9], _ => vec![] }
}
fn writing(c: &Ctx, d: usize) -> Check {
    let p = path(c, d);
    let (k, way) = (c.choose(SAYINGS), c.choose(WAYS.len()));
    c.label(|| format!("refusal {} {} {}", k, WAYS[way], at(&p)));
    c.state_of_choices();
    // whatever comes before the refusing value, and what it wrote itself
    let (a, b) = (embed(&p, &[0xAA; 3]), embed(&p, &[0x55; 3]));
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let want = [&a[..n], &written(way)].concat();
    let mut o = vec![];
    let r = At(&p, &Refuse(k, way)).serialize(&mut dlhn::Serializer::new(&mut o));
    c.validated(1);
    if !want.starts_with(&o) { return Err(format!("refusing {} {}: {} written, no beginning of {}", WAYS[way], at(&p), short(&o), short(&want))) }
    match r {
        Err(dlhn::ser::Error::Message(m)) if m == said(k) => Ok(()),
        r => Err(format!("a value that refuses {} {} with {:.60?} is reported as {:.100?}", WAYS[way], at(&p), said(k), r)),
    }
}

// ---------------------------------------------------------------- reading

pub const ASKED: [&str; 22] = ["at once", "after a number", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "char", "text", "binary", "option", "newtype struct", "sequence", "map", "enum", "tuple"];
/// called by `Ask` of C19 at its place
pub fn ask<'de, D: de::Deserializer<'de>>(k: usize, d: D) -> Result<(), D::Error> {
    let (way, say_) = (k / SAYINGS, k % SAYINGS);
    let v = No(say_);
    match way {
        0 => Err(say(say_)),
        1 => { <u16 as serde::Deserialize>::deserialize(d)?; Err(say(say_)) }
        2 => d.deserialize_bool(v), 3 => d.deserialize_u8(v), 4 => d.deserialize_u16(v), 5 => d.deserialize_u32(v), 6 => d.deserialize_u64(v),
        7 => d.deserialize_i8(v), 8 => d.deserialize_i16(v), 9 => d.deserialize_i32(v), 10 => d.deserialize_i64(v), 11 => d.deserialize_f32(v), 12 => d.deserialize_f64(v),
        13 => d.deserialize_char(v), 14 => d.deserialize_str(v), 15 => d.deserialize_bytes(v), 16 => d.deserialize_option(v), 17 => d.deserialize_newtype_struct("N", v),
        18 => d.deserialize_seq(v), 19 => d.deserialize_map(v), 20 => d.deserialize_enum("E", &["a", "b"], v), _ => d.deserialize_tuple(2, v),
    }
}
/// refuses whatever it is given
struct No(usize);
impl<'de> Visitor<'de> for No {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("nothing") }
    fn visit_bool<E: de::Error>(self, _: bool) -> Result<(), E> { Err(say(self.0)) }
    fn visit_i8<E: de::Error>(self, _: i8) -> Result<(), E> { Err(say(self.0)) }
    fn visit_i16<E: de::Error>(self, _: i16) -> Result<(), E> { Err(say(self.0)) }
    fn visit_i32<E: de::Error>(self, _: i32) -> Result<(), E> { Err(say(self.0)) }
    fn visit_i64<E: de::Error>(self, _: i64) -> Result<(), E> { Err(say(self.0)) }
    fn visit_u8<E: de::Error>(self, _: u8) -> Result<(), E> { Err(say(self.0)) }
    fn visit_u16<E: de::Error>(self, _: u16) -> Result<(), E> { Err(say(self.0)) }
    fn visit_u32<E: de::Error>(self, _: u32) -> Result<(), E> { Err(say(self.0)) }
    fn visit_u64<E: de::Error>(self, _: u64) -> Result<(), E> { Err(say(self.0)) }
    fn visit_f32<E: de::Error>(self, _: f32) -> Result<(), E> { Err(say(self.0)) }
    fn visit_f64<E: de::Error>(self, _: f64) -> Result<(), E> { Err(say(self.0)) }
    fn visit_char<E: de::Error>(self, _: char) -> Result<(), E> { Err(say(self.0)) }
    fn visit_str<E: de::Error>(self, _: &str) -> Result<(), E> { Err(say(self.0)) }
    fn visit_bytes<E: de::Error>(self, _: &[u8]) -> Result<(), E> { Err(say(self.0)) }
    fn visit_none<E: de::Error>(self) -> Result<(), E> { Err(say(self.0)) }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> { Err(say(self.0)) }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { d.deserialize_u8(self) }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { d.deserialize_u8(self) }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> { a.next_element::<u8>()?; Err(say(self.0)) }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> { a.next_key::<String>()?; Err(say(self.0)) }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> { a.variant::<u32>()?; Err(say(self.0)) }
}
fn reading(c: &Ctx, d: usize) -> Check {
    let n = c.choose(d + 1);
    let p: Vec<usize> = (0..n).map(|_| c.choose(WHERE.len())).collect();
    let (k, way) = (c.choose(SAYINGS), c.choose(ASKED.len()));
    let place = || if p.is_empty() { "at the top".to_string() } else { p.iter().map(|i| WHERE[*i]).collect::<Vec<_>>().join(" / ") };
    c.label(|| format!("refusal {} of a {} {}", k, ASKED[way], place()));
    c.state_of_choices();
    c.validated(1);
    // ones are a beginning of every one of them
    let input = [&lead(&p)[..], &[1; 16]].concat();
    let mut r = &input[..];
    match Ask::new(&p, 1000 + way * SAYINGS + k).deserialize(&mut dlhn::Deserializer::new(&mut r)) {
        Err(dlhn::de::Error::Message(m)) if m == said(k) => Ok(()),
        x => Err(format!("a type that refuses {} ({}) with {:.60?} is reported as {:.100?}", ASKED[way], place(), said(k), x)),
    }
}

// ---------------------------------------------------------------- readers and writers

const KINDS: [ErrorKind; 12] = [ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionReset, ErrorKind::ConnectionAborted, ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut, ErrorKind::WriteZero, ErrorKind::UnexpectedEof, ErrorKind::Other];
#[derive(Debug)]
struct Mine(u32);
impl fmt::Display for Mine { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "mine {}", self.0) } }
impl std::error::Error for Mine {}
/// gives or takes `left` bytes, then fails for ever
struct Fails<'a> { data: &'a [u8], left: usize, kind: Option<ErrorKind> }
impl Fails<'_> { fn fail(&self) -> io::Result<usize> { match self.kind { Some(k) => Err(io::Error::new(k, Mine(77))), None => Ok(0) } } }
impl Read for Fails<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = b.len().min(self.left).min(self.data.len());
        if n == 0 && !b.is_empty() { return self.fail() }
        b[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.left -= n;
        Ok(n)
    }
}
impl Write for Fails<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.left);
        if n == 0 && !b.is_empty() { return self.fail() }
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn kind(c: &Ctx) -> Option<ErrorKind> { let k = c.choose(KINDS.len() + 1); KINDS.get(k).copied() }
fn cases() -> Vec<(Ty, Val)> {
    let mut l = vec![];
    for t in { let mut l = atoms(); l.extend(depth1_over(&[Ty::U16, Ty::Str])); l } {
        let v = default_value(&t);
        l.push((t.clone(), v));
        if depth_of(&t) == 0 { for v in atom_vals(&t, 1) { if encoded(&t, &v).len() <= 40 { l.push((t.clone(), v)) } } }
    }
    l.retain(|(t, v)| { let n = encoded(t, v).len(); n > 0 && n <= 300 });
    l
}
fn depth_of(t: &Ty) -> usize { super::cases::depth(t) }
fn faults(c: &Ctx, l: &[(Ty, Val)]) -> Check {
    let (t, v) = c.pick(l);
    let e = encoded(t, v);
    let n = c.choose(e.len());
    let (k, out) = (kind(c), c.flag());
    c.label(|| format!("{:?} = {} {} {} bytes, then {:?}", t, sv(v), if out { "to a writer that takes" } else { "from a reader that gives" }, n, k));
    c.state_of_choices();
    c.validated(1);
    let mut f = Fails { data: &e, left: n, kind: k };
    if out {
        match real::ser_to(t, v, &mut f) { Err(dlhn::ser::Error::Write) => Ok(()), x => Err(format!("{:?} = {}: a writer that fails after {} bytes with {:?} is reported as {:?}", t, sv(v), n, k, x)) }
    } else {
        match real::de_from(t, &mut f) { Err(dlhn::de::Error::Read) => Ok(()), x => Err(format!("{:?} = {}: a reader that fails after {} of {} bytes with {:?} is reported as {:?}", t, sv(v), n, e.len(), k, x.map(|v| sv(&v)))) }
    }
}
fn header_faults(c: &Ctx, l: &[Header]) -> Check {
    let h = c.pick(l);
    let mut e = vec![];
    real::enc_header(h, &mut e).ok_or("harness: header")?;
    let n = c.choose(e.len());
    let (k, out) = (kind(c), c.flag());
    c.label(|| format!("{:?} {} {} bytes, then {:?}", h, if out { "to a writer that takes" } else { "from a reader that gives" }, n, k));
    c.state_of_choices();
    c.validated(1);
    let mut f = Fails { data: &e, left: n, kind: k };
    let r = if out { h.serialize(&mut f) } else { (&mut f).deserialize_header().map(|_| ()) };
    let what = format!("header {:?}: a {} that fails after {} of {} bytes with {:?}", h, if out { "writer" } else { "reader" }, n, e.len(), k);
    let Err(x) = r else { return Err(format!("{}: no error", what)) };
    match k {
        Some(k) if x.kind() == k && x.get_ref().and_then(|m| m.downcast_ref::<Mine>()).map(|m| m.0) == Some(77) => { c.outcome("the same error"); Ok(()) }
        None if x.kind() == if out { ErrorKind::WriteZero } else { ErrorKind::UnexpectedEof } => { c.outcome("the end"); Ok(()) }
        _ => Err(format!("{}: reported as {:?}", what, x)),
    }
}

pub fn c25(th: bool) -> Vec<Space> {
    let (dw, dr) = if th { (3, 3) } else { (2, 2) };
    let l = cases();
    let hs = { let mut h = leaf_headers(); h.extend(headers1(&leaf_headers())); h.extend(headers2(&[Header::UInt16, Header::String])); h };
    vec![
        Space::new("own errors, writing", &format!("{} refusals (messages, and every constructor serde has for errors) made {} ways at {} kinds of position to depth {}", SAYINGS, WAYS.len(), POS.len(), dw), move |c| writing(c, dw)),
        Space::new("own errors, reading", &format!("{} refusals of {} kinds of value at {} kinds of position to depth {}", SAYINGS, ASKED.len(), WHERE.len(), dr), move |c| reading(c, dr)),
        Space::new("readers and writers", &format!("{} values of every scalar and library type and one constructor; a reader or writer that ends or fails for good after each number of bytes, with {} kinds of error", l.len(), KINDS.len()), move |c| faults(c, &l)),
        Space::new("readers and writers of headers", &format!("{} headers of depth up to 3; a reader or writer that ends or fails for good after each number of bytes, with {} kinds of error", hs.len(), KINDS.len()), move |c| header_faults(c, &hs)),
        Space::new("keys", &format!("{} kinds of key the format cannot carry, at {} kinds of position to depth {}", KEYS.len(), POS.len(), dw), move |c| {
            let p = path(c, dw);
            let k = c.choose(KEYS.len());
            let (i, entry) = (c.choose(2), c.flag());
            c.label(|| format!("key {} {}", KEYS[k], at(&p)));
            c.state_of_choices();
            c.validated(1);
            match real::ser_any(&At(&p, &Keyed::new(&Key::new(k), i, 2, entry))) {
                Err(dlhn::ser::Error::UnsupportedKeyType) => Ok(()),
                // integers of 128 bits are refused as keys and as anything else
                Err(_) if k == 5 || k == 10 => Ok(()),
                x => Err(format!("a map {} with a key that is {}: {:?}", at(&p), KEYS[k], x)),
            }
        }),
        Space::new("messages", "messages with every character of Unicode first, last, alone, doubled and within others; of every length to 1,000 and around powers of two to 2^20 (thorough: 2^24), of one- and of four-byte characters; errors of both kinds, as they are and out of a value's own code", move |c| {
            struct Own<'a>(&'a str);
            impl Serialize for Own<'_> { fn serialize<Z: Serializer>(&self, _: Z) -> Result<Z::Ok, Z::Error> { Err(Z::Error::custom(self.0)) } }
            struct Asks<'a>(&'a str);
            impl<'de> DeserializeSeed<'de> for Asks<'_> { type Value = (); fn deserialize<D: de::Deserializer<'de>>(self, _: D) -> Result<(), D::Error> { Err(D::Error::custom(self.0)) } }
            fn told(m: &str, own: bool) -> Check {
                let bad = |who: &str, x: String| Err(format!("the message {:.60?} of {} bytes is said by {} as {:.60?} of {} bytes", m, m.len(), who, x, x.len()));
                let (a, b) = (<dlhn::ser::Error as serde::ser::Error>::custom(m), <dlhn::de::Error as de::Error>::custom(m));
                if a.to_string() != m { return bad("the writer's error", a.to_string()) }
                if b.to_string() != m { return bad("the reader's error", b.to_string()) }
                if own {
                    match Some(Own(m)).serialize(&mut dlhn::Serializer::new(io::sink())) { Err(e) if e.to_string() == m && e == a => {} x => return bad("the writing of it", format!("{:?}", x)) }
                    match Asks(m).deserialize(&mut dlhn::Deserializer::new(&mut &b""[..])) { Err(e) if e.to_string() == m && e == b => {} x => return bad("the reading of it", format!("{:?}", x)) }
                }
                Ok(())
            }
            let lens: Vec<usize> = (0..=1000).chain((10..=if th { 24 } else { 20 }).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1])).collect();
            let k = c.choose(0x1100 + lens.len());
            let mut n = 0;
            if k < 0x1100 {
                c.label(|| format!("messages of characters from U+{:04X}", k * 256));
                for u in k as u32 * 256..(k as u32 + 1) * 256 {
                    let Some(ch) = char::from_u32(u) else { continue };
                    for m in [format!("{}", ch), format!("{0}{0}", ch), format!("{}a", ch), format!("a{}", ch), format!("a{}b", ch), format!("a: {}{}, b", ch, ch)] { told(&m, u < 0x3000)?; n += 1 }
                }
            } else {
                let l = lens[k - 0x1100];
                c.label(|| format!("messages of {} characters", l));
                for m in ["m".repeat(l), "\u{1F600}".repeat(l), format!("{}{}", "\u{e9}".repeat(l.saturating_sub(1)), "!")] { told(&m, true)?; n += 1 }
            }
            c.beat();
            c.state_of_choices();
            c.bulk(n);
            c.validated(n);
            Ok(())
        }),
        Space::new("errors as values", "every error of both kinds: it equals itself and its copy and no other, it says something, a message is said word for word, and it comes back out of a Box<dyn Error>", |c| {
            use std::error::Error as E;
            let k = c.choose(SAYINGS);
            c.state_of_choices();
            c.validated(1);
            fn all<T: E + Clone + PartialEq + fmt::Debug + Send + Sync + 'static>(l: &[T], m: &T, text: &str) -> Check {
                if m.to_string() != text { return Err(format!("{:?} says {:?}", m, m.to_string())) }
                for (i, a) in l.iter().enumerate() {
                    if a.to_string().is_empty() && a != m { return Err(format!("{:?} says nothing", a)) }
                    for (j, b) in l.iter().enumerate() { if (a == b) != (i == j) || (a.clone() == b.clone()) != (i == j) { return Err(format!("{:?} equals {:?}: {}", a, b, a == b)) } }
                    let x: Box<dyn E + Send + Sync> = Box::new(a.clone());
                    match x.downcast::<T>() { Ok(y) if *y == *a => {} _ => return Err(format!("{:?} does not come back", a)) }
                }
                Ok(())
            }
            use dlhn::{de::Error as De, ser::Error as Ser};
            let t = said(k);
            all(&[Ser::Write, Ser::UnsupportedKeyType, Ser::Message(t.clone())], &<Ser as serde::ser::Error>::custom(&t), &t)?;
            all(&[De::Read, De::CharSize, De::UnsupportedKeyType, De::Message(t.clone())], &De::custom(&t), &t)
        }),
    ]
}
