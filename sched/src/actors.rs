//! Small programs that use the library, each with its own readers and writers.
//! What one does is a text; it must be the same whatever else goes on.
use crate::run::{harness, io_point, mishap, Mishap};
use dlhn::{Body, DeserializeHeader, Deserializer, Header, SerializeHeader, Serializer};
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

pub struct Actor { pub name: &'static str, pub run: Box<dyn Fn() -> String + Send + Sync> }

/// what the reader or writer does at its n-th call
#[derive(Clone, Copy, PartialEq)]
enum Trick { No, Fail(usize), Panic(usize), Short }

struct Out { got: Vec<u8>, calls: usize, t: Trick }
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        io_point();
        harness(|| {
            self.calls += 1;
            match mishap(self.calls) {
                Some(Mishap::Panics) => panic!("writer"),
                Some(Mishap::Fails) => return Err(io::Error::new(io::ErrorKind::BrokenPipe, "gone")),
                Some(Mishap::IsInterrupted) => return Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
                Some(Mishap::Ends) => return Ok(0),
                None => {}
            }
            match self.t {
                Trick::Fail(n) if self.calls >= n => return Err(io::Error::new(io::ErrorKind::Other, "full")),
                Trick::Panic(n) if self.calls >= n => panic!("writer"),
                _ => {}
            }
            let n = if self.t == Trick::Short { b.len().div_ceil(2) } else { b.len() };
            self.got.extend_from_slice(&b[..n]);
            Ok(n)
        })
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
struct In<'a> { data: &'a [u8], calls: usize, t: Trick }
impl<'a> Read for In<'a> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        io_point();
        harness(|| {
            self.calls += 1;
            match mishap(self.calls) {
                Some(Mishap::Panics) => panic!("reader"),
                Some(Mishap::Fails) => return Err(io::Error::new(io::ErrorKind::TimedOut, "late")),
                Some(Mishap::IsInterrupted) => return Err(io::Error::new(io::ErrorKind::Interrupted, "again")),
                Some(Mishap::Ends) => return Ok(0),
                None => {}
            }
            match self.t {
                Trick::Fail(n) if self.calls >= n => return Err(io::Error::new(io::ErrorKind::Other, "gone")),
                Trick::Panic(n) if self.calls >= n => panic!("reader"),
                _ => {}
            }
            let mut n = b.len().min(self.data.len());
            if self.t == Trick::Short { n = n.div_ceil(2) }
            b[..n].copy_from_slice(&self.data[..n]);
            self.data = &self.data[n..];
            Ok(n)
        })
    }
}

fn text(f: impl FnOnce() -> String) -> String {
    match catch_unwind(AssertUnwindSafe(f)) { Ok(s) => s, Err(p) => format!("panic {:?}", p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned())) }
}
fn writes(t: Trick, f: &dyn Fn(&mut Out) -> String) -> String {
    let mut o = Out { got: vec![], calls: 0, t };
    let r = text(|| f(&mut o));
    harness(|| format!("{} wrote {:02x?}", r, o.got))
}
fn reads(t: Trick, data: &[u8], f: &dyn Fn(&mut In) -> String) -> String {
    let mut i = In { data, calls: 0, t };
    let r = text(|| f(&mut i));
    harness(|| format!("{}, {} left", r, i.data.len()))
}
fn enc<T: Serialize>(t: Trick, v: &T) -> String { writes(t, &|o| { let r = v.serialize(&mut Serializer::new(o)); harness(|| format!("{:?}", r)) }) }
fn dec<T: for<'d> Deserialize<'d> + std::fmt::Debug>(t: Trick, b: &[u8]) -> String { reads(t, b, &|i| { let r = T::deserialize(&mut Deserializer::new(i)); harness(|| format!("{:?}", r)) }) }
fn bytes<T: Serialize>(v: &T) -> Vec<u8> { input(|| { let mut o = vec![]; v.serialize(&mut Serializer::new(&mut o)).expect("encode"); o }) }

/// What another process has found out already, so that this one need not use the library for it:
/// the programs' inputs, what each program gives alone, and how many calls it makes.
pub struct Known { pub inputs: Vec<Vec<u8>>, pub alone: Vec<String>, pub calls: Vec<usize> }
pub static KNOWN: OnceLock<Known> = OnceLock::new();
static INPUTS: std::sync::Mutex<Vec<Vec<u8>>> = std::sync::Mutex::new(Vec::new());
fn input(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    let mut l = INPUTS.lock().unwrap();
    let b = match KNOWN.get() { Some(k) => k.inputs[l.len()].clone(), None => f() };
    l.push(b.clone());
    b
}
impl Known {
    pub fn bytes(alone: &[String], calls: &[usize]) -> Vec<u8> {
        let mut o = Vec::new();
        let mut put = |b: &[u8]| { o.extend((b.len() as u32).to_le_bytes()); o.extend(b) };
        let l = INPUTS.lock().unwrap();
        put(&(l.len() as u32).to_le_bytes());
        for b in l.iter() { put(b) }
        for (a, c) in alone.iter().zip(calls) { put(a.as_bytes()); put(&(*c as u32).to_le_bytes()) }
        o
    }
    pub fn from_bytes(mut b: &[u8]) -> Known {
        fn get<'a>(b: &mut &'a [u8]) -> &'a [u8] {
            let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
            let r = &b[4..4 + n];
            *b = &b[4 + n..];
            r
        }
        fn num(b: &mut &[u8]) -> usize { u32::from_le_bytes(get(b).try_into().unwrap()) as usize }
        let mut k = Known { inputs: vec![], alone: vec![], calls: vec![] };
        for _ in 0..num(&mut b) { k.inputs.push(get(&mut b).to_vec()) }
        while !b.is_empty() { k.alone.push(String::from_utf8(get(&mut b).to_vec()).unwrap()); k.calls.push(num(&mut b)) }
        k
    }
}

#[derive(Serialize, Deserialize, Debug)]
struct Small { a: u16, b: i32, c: String }
#[derive(Serialize, Deserialize, Debug)]
enum Choice { A, B(u64), C { x: f64, y: char } }
#[derive(Serialize, Deserialize, Debug)]
struct Stamp(#[serde(with = "dlhn::format::date")] time::Date, #[serde(with = "dlhn::format::date_time")] time::OffsetDateTime);
#[derive(Serialize, Deserialize, Debug)]
struct Num(#[serde(with = "dlhn::format::big_uint")] num_bigint::BigUint, #[serde(with = "dlhn::format::big_decimal")] bigdecimal::BigDecimal);

/// every scalar once
type Ints = (u16, i16, u32, i32, u64, i64);

pub fn actors() -> &'static [Actor] {
    static A: OnceLock<Vec<Actor>> = OnceLock::new();
    A.get_or_init(|| {
        let mut l: Vec<Actor> = Vec::new();
        let mut add = |name: &'static str, run: Box<dyn Fn() -> String + Send + Sync>| l.push(Actor { name, run });
        let small = || Small { a: 300, b: -70000, c: "one".into() };
        let map = || BTreeMap::from([("k".to_string(), Choice::C { x: 1.5, y: '\u{e9}' }), ("l".to_string(), Choice::B(1 << 40))]);
        let ints: Ints = (65535, -300, 1 << 28, i32::MIN, u64::MAX, -(1 << 50));
        let header = || Header::Tuple(vec![Header::Map(Box::new(Header::Optional(Box::new(Header::UInt32)))), Header::Enum(vec![Header::Unit, Header::String])]);
        let body = || Body::Tuple(vec![Body::Map(BTreeMap::from([("k".to_string(), Body::Optional(Some(Box::new(Body::UInt32(70000)))))])), Body::Enum(1, Box::new(Body::String("two".into())))]);
        let stamp = || Stamp(time::Date::from_ordinal_date(1999, 365).unwrap(), time::OffsetDateTime::from_unix_timestamp_nanos(-1).unwrap());
        let num = || Num(num_bigint::BigUint::from(1u64 << 60), bigdecimal::BigDecimal::new(num_bigint::BigInt::from(-1500), 7));

        add("encode a struct", Box::new(move || enc(Trick::No, &small())));
        let b = bytes(&small());
        add("decode a struct", Box::new(move || dec::<Small>(Trick::No, &b)));
        let b = bytes(&map());
        add("encode a map of enums", Box::new(move || enc(Trick::No, &map())));
        add("decode a map of enums", Box::new(move || dec::<BTreeMap<String, Choice>>(Trick::No, &b)));
        add("encode integers", Box::new(move || enc(Trick::No, &ints)));
        let b = bytes(&ints);
        add("decode integers", Box::new(move || dec::<Ints>(Trick::No, &b)));
        add("write a header", Box::new(move || writes(Trick::No, &|o| { let r = header().serialize(o); harness(|| format!("{:?}", r.is_ok())) })));
        let hb = input(|| { let mut hb = vec![]; header().serialize(&mut hb).expect("header"); hb });
        let hb2 = hb.clone();
        add("read a header", Box::new(move || reads(Trick::No, &hb2, &|i| { let r = (&mut *i).deserialize_header(); harness(|| format!("{:?}", r.map_err(|e| e.kind()))) })));
        add("encode a body", Box::new(move || { let ok = body().validate(&header()); format!("{} {}", ok, enc(Trick::No, &body())) }));
        let b = bytes(&body());
        add("decode a body", Box::new(move || reads(Trick::No, &b, &|i| { let r = Body::deserialize(&header(), &mut Deserializer::new(i)); harness(|| format!("{:?}", r)) })));
        add("write a type's header", Box::new(|| writes(Trick::No, &|o| { let r = <Vec<(u8, BTreeMap<String, Option<bool>>)>>::serialize_header(o); harness(|| format!("{:?}", r.is_ok())) })));
        let b = bytes(&stamp());
        add("encode a date and a date-time", Box::new(move || enc(Trick::No, &stamp())));
        add("decode a date and a date-time", Box::new(move || dec::<Stamp>(Trick::No, &b)));
        let b = bytes(&num());
        add("encode big numbers", Box::new(move || enc(Trick::No, &num())));
        add("decode big numbers", Box::new(move || dec::<Num>(Trick::No, &b)));
        let long = "x".repeat(200);
        let b = bytes(&(&long, serde_bytes::Bytes::new(&[7; 5000])));
        add("decode long text and bytes", Box::new(move || dec::<(String, serde_bytes::ByteBuf)>(Trick::No, &b)));
        let shorts = (serde_bytes::ByteBuf::from(vec![1, 2, 3]), [1u8, 2, 3], vec![Some(serde_bytes::ByteBuf::from(vec![9; 300])), None], 'z', true, 1.5f32, -2.5f64, i8::MIN);
        let b = bytes(&shorts);
        add("decode short binaries", Box::new(move || dec::<(serde_bytes::ByteBuf, [u8; 3], Vec<Option<serde_bytes::ByteBuf>>, char, bool, f32, f64, i8)>(Trick::No, &b)));
        add("encode short binaries", Box::new(move || enc(Trick::No, &shorts)));
        add("encode to a writer that fails", Box::new(move || enc(Trick::Fail(3), &small())));
        add("encode to a writer that panics", Box::new(move || enc(Trick::Panic(3), &small())));
        add("encode to a slow writer", Box::new(move || enc(Trick::Short, &(1u32 << 20, "text"))));
        let (b1, b2, b3) = (bytes(&ints), bytes(&ints), bytes(&(1u32 << 20, "text")));
        add("decode from a reader that fails", Box::new(move || dec::<Ints>(Trick::Fail(3), &b1)));
        add("decode from a reader that panics", Box::new(move || dec::<Ints>(Trick::Panic(4), &b2)));
        add("decode from a slow reader", Box::new(move || dec::<(u32, String)>(Trick::Short, &b3)));
        add("decode malformed text", Box::new(|| dec::<(u8, String)>(Trick::No, &[1, 2, 0xFF, 0xFE])));
        add("decode a bad option", Box::new(|| dec::<(u16, Option<u8>)>(Trick::No, &[5, 2, 1])));
        add("read a bad header", Box::new(|| reads(Trick::No, &[21, 2, 20, 1, 99, 0], &|i| { let r = (&mut *i).deserialize_header(); harness(|| format!("{:?}", r.map_err(|e| e.kind()))) })));
        add("read a header cut short", Box::new(|| reads(Trick::No, &[24, 3, 23, 1, 3], &|i| { let r = (&mut *i).deserialize_header(); harness(|| format!("{:?}", r.map_err(|e| e.kind()))) })));
        add("decode a body cut short", Box::new(move || reads(Trick::No, &[2, 1, 0x61, 1], &|i| { let r = Body::deserialize(&Header::Map(Box::new(Header::Array(Box::new(Header::String)))), &mut Deserializer::new(i)); harness(|| format!("{:?}", r)) })));
        add("refuse an unknown length", Box::new(|| writes(Trick::No, &|o| { let r = serde::Serializer::collect_seq(&mut Serializer::new(o), (0..300u16).filter(|x| x % 2 == 0)); harness(|| format!("{:?}", r)) })));
        add("write a header to a full writer", Box::new(move || writes(Trick::Fail(4), &|o| { let r = header().serialize(o); harness(|| format!("{:?}", r.map_err(|e| e.kind()))) })));
        add("refuse a map key", Box::new(|| enc(Trick::No, &BTreeMap::from([(1u8, 1u8)]))));
        l
    })
}
