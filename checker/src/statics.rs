//! Real Rust types: standard library, library and derived ones. What they are
//! encoded as is written out by hand from the format.
use mc::alloc;
use mc::env::*;
use mc::explore::{Check, Ctx, Space, Tier};
use mc::model::*;
use mc::props::*;
use mc::real;
use dlhn::{BigDecimal, BigInt, BigUint, Date, DateTime, Header, SerializeHeader};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_bytes::{ByteArray, ByteBuf, Bytes};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, LinkedList, VecDeque};
use std::ffi::{CString, OsString};
use std::fmt::Debug;
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::num::*;
use std::ops::{Bound, Range, RangeFrom, RangeInclusive, RangeTo};
use std::path::PathBuf;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---------------------------------------------------------------- expected bytes, piece by piece

fn w(width: u32, x: u64) -> Vec<u8> { let mut o = vec![]; enc_uint(width, x, &mut o); o }
fn n(x: u64) -> Vec<u8> { w(64, x) }
fn z(width: u32, x: i64) -> Vec<u8> { w(width, zigzag(x)) }
fn s(x: &str) -> Vec<u8> { cat(&[n(x.len() as u64), x.as_bytes().to_vec()]) }
fn by(x: &[u8]) -> Vec<u8> { cat(&[n(x.len() as u64), x.to_vec()]) }
fn cat(l: &[Vec<u8>]) -> Vec<u8> { l.concat() }
fn o(x: u8) -> Vec<u8> { vec![x] }
fn nil() -> Vec<u8> { vec![] }

// ---------------------------------------------------------------- entries

type Cases = Vec<(String, Option<Vec<u8>>)>;
pub struct Entry {
    pub name: &'static str,
    /// whether an element of some sequence occupies no bytes
    pub void: bool,
    pub cases: Cases,
    pub ser: Box<dyn Fn(usize, &mut dyn Write) -> Result<(), real::SerErr> + Send + Sync>,
    /// decode; does it equal sample i?
    pub de: Box<dyn Fn(usize, &mut dyn Read) -> Result<bool, real::DeErr> + Send + Sync>,
    /// decode anything and encode it again
    pub again: Box<dyn Fn(&mut dyn Read) -> Result<Result<Vec<u8>, real::SerErr>, real::DeErr> + Send + Sync>,
}

fn entry<T: Serialize + DeserializeOwned + PartialEq + Debug + 'static>(name: &'static str, make: impl Fn() -> Vec<(T, Option<Vec<u8>>)> + Send + Sync + Clone + 'static) -> Entry {
    let (m1, m2) = (make.clone(), make.clone());
    Entry {
        name,
        void: false,
        cases: make().into_iter().map(|(v, b)| (format!("{:.200?}", v), b)).collect(),
        ser: Box::new(move |i, mut w| m1()[i].0.serialize(&mut dlhn::Serializer::new(&mut w))),
        de: Box::new(move |i, mut r| Ok(T::deserialize(&mut dlhn::Deserializer::new(&mut r))? == m2()[i].0)),
        again: Box::new(|mut r| {
            let v = T::deserialize(&mut dlhn::Deserializer::new(&mut r))?;
            let mut o = Vec::new();
            Ok(v.serialize(&mut dlhn::Serializer::new(&mut o)).map(|_| o))
        }),
    }
}

impl Entry {
    fn bytes(&self, i: usize) -> Result<Vec<u8>, String> {
        let mut o = Vec::new();
        (self.ser)(i, &mut o).map_err(|e| format!("{}: serializing {} failed: {:?}", self.name, self.cases[i].0, e))?;
        Ok(o)
    }
}

// ---------------------------------------------------------------- derived types

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Unit;
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Empty {}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct EmptyTuple();
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct New(u32);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Pair(i16, String);
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Plain { a: bool, b: u8, c: String, d: Option<u16>, e: Vec<i32>, f: f32, g: BTreeMap<String, u8>, h: (u8, i64), i: Unit, j: New }
fn plain() -> (Plain, Vec<u8>) {
    (Plain { a: true, b: 9, c: "xyz".into(), d: Some(200), e: vec![-1, 70000], f: 1.5, g: [("k".to_string(), 1u8)].into(), h: (3, -5), i: Unit, j: New(128) },
     cat(&[o(1), o(9), s("xyz"), o(1), w(16, 200), n(2), z(32, -1), z(32, 70000), 1.5f32.to_bits().to_le_bytes().to_vec(), n(1), s("k"), o(1), o(3), z(64, -5), w(32, 128)]))
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum Shapes { A, B(u16), C(u8, String), D { x: i32, y: Option<bool> }, E(), F {}, G(Box<Shapes>), H(Vec<Shapes>) }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Generic<T, U> { t: T, u: Vec<U> }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct List { v: u8, next: Option<Box<List>> }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum Tree { Leaf(String), Node(Vec<Tree>), Pair(Box<Tree>, Box<Tree>) }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Skips { a: u8, #[serde(skip)] b: u32, c: String, #[serde(skip_deserializing, default)] #[serde(skip_serializing)] d: Vec<u8>, #[serde(default)] e: i16, #[serde(rename = "zz")] f: char }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Formats {
    #[serde(with = "dlhn::format::date")] d: time::Date,
    #[serde(with = "dlhn::format::date_time")] t: time::OffsetDateTime,
    #[serde(with = "dlhn::format::big_uint")] u: num_bigint::BigUint,
    #[serde(with = "dlhn::format::big_int")] i: num_bigint::BigInt,
    #[serde(with = "dlhn::format::big_decimal")] x: bigdecimal::BigDecimal,
    tail: u16,
}
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Wraps { u: BigUint, i: BigInt, x: BigDecimal, d: Date, t: DateTime, b: ByteBuf, #[serde(with = "serde_bytes")] v: Vec<u8>, tail: u16 }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
pub enum Adjacent { B(u16), D(u8, u8), E(Vec<String>) } // (unit and struct variants need a self-describing format)
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(transparent)]
pub struct Clear { v: String }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
pub enum Renamed { FirstOne, SecondOne { some_field: u32 }, #[serde(rename = "x")] Third(i8) }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(from = "u16", into = "u16")]
pub struct Via(u16);
impl From<u16> for Via { fn from(x: u16) -> Via { Via(x) } }
impl From<Via> for u16 { fn from(x: Via) -> u16 { x.0 } }
#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(default)]
pub struct Defaults { a: u8, b: String }
impl Default for Defaults { fn default() -> Self { Defaults { a: 77, b: "dflt".into() } } }
macro_rules! enum300 { ($($v:ident)*) => { #[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Copy)] #[allow(non_camel_case_types)] pub enum Many { $($v),* } const MANY: &[Many] = &[$(Many::$v),*]; } }
enum300!(v0 v1 v2 v3 v4 v5 v6 v7 v8 v9 v10 v11 v12 v13 v14 v15 v16 v17 v18 v19 v20 v21 v22 v23 v24 v25 v26 v27 v28 v29 v30 v31 v32 v33 v34 v35 v36 v37 v38 v39
  v40 v41 v42 v43 v44 v45 v46 v47 v48 v49 v50 v51 v52 v53 v54 v55 v56 v57 v58 v59 v60 v61 v62 v63 v64 v65 v66 v67 v68 v69 v70 v71 v72 v73 v74 v75 v76 v77 v78 v79
  v80 v81 v82 v83 v84 v85 v86 v87 v88 v89 v90 v91 v92 v93 v94 v95 v96 v97 v98 v99 v100 v101 v102 v103 v104 v105 v106 v107 v108 v109 v110 v111 v112 v113 v114
  v115 v116 v117 v118 v119 v120 v121 v122 v123 v124 v125 v126 v127 v128 v129 v130 v131 v132 v133 v134 v135 v136 v137 v138 v139 v140);

fn list(k: u8) -> List { let mut l = List { v: 0, next: None }; for i in 1..=k { l = List { v: i, next: Some(Box::new(l)) } } l }
fn list_bytes(k: u8) -> Vec<u8> { (0..=k).rev().flat_map(|i| [i, (i > 0) as u8]).collect() }

pub fn entries() -> &'static [Entry] {
    static E: OnceLock<Vec<Entry>> = OnceLock::new();
    E.get_or_init(|| {
        let mut l: Vec<Entry> = Vec::new();
        macro_rules! e { ($name:expr, $t:ty: $($v:expr => $b:expr),* $(,)?) => { l.push(entry::<$t>($name, || vec![$(($v, Some($b))),*])) } }
        macro_rules! any { ($name:expr, $t:ty: $($v:expr),* $(,)?) => { l.push(entry::<$t>($name, || vec![$(($v, None)),*])) } }
        e!("bool", bool: true => o(1), false => o(0));
        e!("u8", u8: 0 => o(0), 255 => o(255));
        e!("i8", i8: -128 => o(128), -1 => o(255), 127 => o(127));
        e!("u16", u16: 0 => o(0), 127 => w(16, 127), 128 => w(16, 128), 16383 => w(16, 16383), 16384 => w(16, 16384), 65535 => w(16, 65535));
        e!("i16", i16: -1 => z(16, -1), i16::MIN => z(16, i16::MIN as i64), i16::MAX => z(16, i16::MAX as i64));
        e!("u32", u32: 1 << 14 => w(32, 1 << 14), 1 << 21 => w(32, 1 << 21), 1 << 28 => w(32, 1 << 28), u32::MAX => w(32, u32::MAX as u64));
        e!("i32", i32: -1 => z(32, -1), i32::MIN => z(32, i32::MIN as i64), i32::MAX => z(32, i32::MAX as i64));
        e!("u64", u64: 1 << 35 => n(1 << 35), 1 << 42 => n(1 << 42), 1 << 49 => n(1 << 49), 1 << 56 => n(1 << 56), u64::MAX => n(u64::MAX));
        e!("i64", i64: -1 => z(64, -1), i64::MIN => z(64, i64::MIN), i64::MAX => z(64, i64::MAX));
        e!("usize", usize: 300 => n(300));
        e!("isize", isize: -300 => z(64, -300));
        e!("f32", f32: 1.0 => vec![0, 0, 0x80, 0x3F], f32::INFINITY => vec![0, 0, 0x80, 0x7F], -0.0 => vec![0, 0, 0, 0x80]);
        e!("f64", f64: 1.0 => vec![0, 0, 0, 0, 0, 0, 0xF0, 0x3F], f64::NEG_INFINITY => vec![0, 0, 0, 0, 0, 0, 0xF0, 0xFF]);
        e!("char", char: 'a' => s("a"), '\u{10FFFF}' => s("\u{10FFFF}"), '\0' => s("\0"));
        e!("()", (): () => nil());
        e!("String", String: String::new() => o(0), "h\u{e9}".into() => s("h\u{e9}"), "q".repeat(130) => s(&"q".repeat(130)));
        e!("Box<str>", Box<str>: "abc".into() => s("abc"));
        e!("Rc<str>", Rc<str>: "abc".into() => s("abc"));
        e!("Cow<str>", Cow<'static, str>: Cow::Borrowed("abc") => s("abc"));
        e!("PathBuf", PathBuf: PathBuf::from("/a/b") => s("/a/b"));
        e!("CString", CString: CString::new("abc").unwrap() => by(b"abc"));
        #[cfg(unix)]
        any!("OsString", OsString: OsString::from("abc"));
        e!("ByteBuf", ByteBuf: ByteBuf::from(vec![1, 2, 255]) => by(&[1, 2, 255]), ByteBuf::new() => o(0));
        e!("ByteArray<3>", ByteArray<3>: ByteArray::new([1, 2, 255]) => by(&[1, 2, 255]));
        e!("ByteArray<0>", ByteArray<0>: ByteArray::new([]) => o(0));
        e!("Option<u16>", Option<u16>: None => o(0), Some(300) => cat(&[o(1), w(16, 300)]));
        e!("Option<()>", Option<()>: None => o(0), Some(()) => o(1));
        e!("Option<Option<bool>>", Option<Option<bool>>: None => o(0), Some(None) => vec![1, 0], Some(Some(false)) => vec![1, 1, 0], Some(Some(true)) => vec![1, 1, 1]);
        e!("Option<Option<Option<String>>>", Option<Option<Option<String>>>: Some(Some(None)) => vec![1, 1, 0], Some(Some(Some("a".into()))) => vec![1, 1, 1, 1, b'a']);
        e!("Vec<u8>", Vec<u8>: vec![] => o(0), vec![1, 255] => by(&[1, 255]));
        e!("Vec<u16>", Vec<u16>: vec![1, 65535, 200] => cat(&[n(3), o(1), w(16, 65535), w(16, 200)]));
        e!("Vec<String>", Vec<String>: vec!["".into(), "ab".into()] => cat(&[n(2), o(0), s("ab")]));
        e!("Vec<Vec<Option<i16>>>", Vec<Vec<Option<i16>>>: vec![vec![], vec![None, Some(-2)]] => cat(&[n(2), n(0), n(2), o(0), o(1), z(16, -2)]));
        e!("Vec<f64>", Vec<f64>: vec![1.0] => cat(&[n(1), vec![0, 0, 0, 0, 0, 0, 0xF0, 0x3F]]));
        e!("VecDeque<u32>", VecDeque<u32>: VecDeque::from(vec![5, 1 << 30]) => cat(&[n(2), o(5), w(32, 1 << 30)]));
        e!("LinkedList<i8>", LinkedList<i8>: LinkedList::from([-1, 4]) => cat(&[n(2), o(255), o(4)]));
        e!("Box<[u16]>", Box<[u16]>: vec![9, 900].into_boxed_slice() => cat(&[n(2), o(9), w(16, 900)]));
        e!("Arc<[u8]>", Arc<[u8]>: Arc::from(vec![9, 8]) => by(&[9, 8]));
        e!("Cow<[u16]>", Cow<'static, [u16]>: Cow::Owned(vec![9, 900]) => cat(&[n(2), o(9), w(16, 900)]));
        e!("BTreeSet<String>", BTreeSet<String>: BTreeSet::from(["b".to_string(), "a".to_string()]) => cat(&[n(2), s("a"), s("b")]));
        e!("HashSet<u16>", HashSet<u16>: HashSet::from([500]) => cat(&[n(1), w(16, 500)]), HashSet::new() => o(0));
        any!("HashSet<u64> of many", HashSet<u64>: (0..300).collect());
        e!("[u8; 0]", [u8; 0]: [] => nil());
        e!("[u16; 3]", [u16; 3]: [1, 300, 65535] => cat(&[o(1), w(16, 300), w(16, 65535)]));
        e!("[[i8; 2]; 2]", [[i8; 2]; 2]: [[1, -1], [2, -2]] => vec![1, 255, 2, 254]);
        e!("[String; 32]", [String; 32]: std::array::from_fn(|i| i.to_string()) => (0..32).flat_map(|i: i32| s(&i.to_string())).collect());
        e!("(u8,)", (u8,): (7,) => o(7));
        e!("(u8, String, i64)", (u8, String, i64): (7, "x".into(), -3) => cat(&[o(7), s("x"), z(64, -3)]));
        e!("12-tuple", (u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, bool, (char, String, Vec<u8>, Option<u8>, ())):
            (1, 2, 3, 4, -1, -2, -3, -4, 1.0, 1.0, true, ('c', "s".into(), vec![1], Some(2), ())) =>
            cat(&[vec![1, 2, 3, 4, 255, 3, 5, 7, 0, 0, 0x80, 0x3F, 0, 0, 0, 0, 0, 0, 0xF0, 0x3F, 1, 1, b'c', 1, b's', 1, 1, 1, 2]]));
        e!("BTreeMap<String, u16>", BTreeMap<String, u16>: BTreeMap::new() => o(0), [("b".to_string(), 1u16), ("".to_string(), 300)].into() => cat(&[n(2), o(0), w(16, 300), s("b"), o(1)]));
        e!("BTreeMap<Box<str>, Vec<bool>>", BTreeMap<Box<str>, Vec<bool>>: [("k".into(), vec![true, false])].into() => cat(&[n(1), s("k"), n(2), o(1), o(0)]));
        e!("BTreeMap<Cow<str>, ()>", BTreeMap<Cow<'static, str>, ()>: [(Cow::Borrowed("k"), ())].into() => cat(&[n(1), s("k")]));
        e!("BTreeMap<PathBuf, u8>", BTreeMap<PathBuf, u8>: [(PathBuf::from("/k"), 3)].into() => cat(&[n(1), s("/k"), o(3)]));
        e!("BTreeMap<String, BTreeMap<String, Option<u8>>>", BTreeMap<String, BTreeMap<String, Option<u8>>>: [("a".to_string(), BTreeMap::new()), ("b".to_string(), [("c".to_string(), None), ("d".to_string(), Some(1))].into())].into() => cat(&[n(2), s("a"), n(0), s("b"), n(2), s("c"), o(0), s("d"), o(1), o(1)]));
        e!("HashMap<String, i32>", HashMap<String, i32>: HashMap::new() => o(0), [("k".to_string(), -70000)].into() => cat(&[n(1), s("k"), z(32, -70000)]));
        any!("HashMap<String, String> of many", HashMap<String, String>: (0..200).map(|i| (i.to_string(), (i * 7).to_string())).collect());
        e!("Box<u32>", Box<u32>: Box::new(128) => w(32, 128));
        e!("Rc<Vec<u8>>", Rc<Vec<u8>>: Rc::new(vec![3]) => by(&[3]));
        e!("std::cell::Cell<u16>", std::cell::Cell<u16>: std::cell::Cell::new(128) => w(16, 128));
        e!("std::cell::RefCell<String>", std::cell::RefCell<String>: std::cell::RefCell::new("r".into()) => s("r"));
        e!("Wrapping<u16>", Wrapping<u16>: Wrapping(128) => w(16, 128));
        e!("std::cmp::Reverse<u16>", std::cmp::Reverse<u16>: std::cmp::Reverse(128) => w(16, 128));
        e!("NonZeroU8", NonZeroU8: NonZeroU8::new(255).unwrap() => o(255));
        e!("NonZeroU16", NonZeroU16: NonZeroU16::new(128).unwrap() => w(16, 128));
        e!("NonZeroI32", NonZeroI32: NonZeroI32::new(-1).unwrap() => z(32, -1));
        e!("NonZeroU64", NonZeroU64: NonZeroU64::MAX => n(u64::MAX));
        e!("NonZeroI64", NonZeroI64: NonZeroI64::MIN => z(64, i64::MIN));
        e!("Option<NonZeroU32>", Option<NonZeroU32>: NonZeroU32::new(1 << 20) => cat(&[o(1), w(32, 1 << 20)]), None => o(0));
        e!("Duration", Duration: Duration::new(u64::MAX, 999_999_999) => cat(&[n(u64::MAX), w(32, 999_999_999)]), Duration::ZERO => vec![0, 0]);
        e!("SystemTime", SystemTime: UNIX_EPOCH + Duration::new(1 << 33, 5) => cat(&[n(1 << 33), w(32, 5)]));
        e!("Ipv4Addr", Ipv4Addr: Ipv4Addr::new(127, 0, 0, 255) => vec![127, 0, 0, 255]);
        e!("Ipv6Addr", Ipv6Addr: Ipv6Addr::from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 255]) => vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 255]);
        e!("IpAddr", IpAddr: IpAddr::V4(Ipv4Addr::new(1, 2, 3, 255)) => vec![0, 1, 2, 3, 255], IpAddr::V6(Ipv6Addr::from([9; 16])) => cat(&[o(1), vec![9; 16]]));
        e!("SocketAddrV4", SocketAddrV4: SocketAddrV4::new(Ipv4Addr::new(1, 2, 3, 4), 8080) => cat(&[vec![1, 2, 3, 4], w(16, 8080)]));
        any!("SocketAddrV6", SocketAddrV6: SocketAddrV6::new(Ipv6Addr::from([9; 16]), 80, 0, 0));
        e!("SocketAddr", SocketAddr: SocketAddr::V4(SocketAddrV4::new(Ipv4Addr::new(1, 2, 3, 4), 80)) => cat(&[o(0), vec![1, 2, 3, 4], o(80)]));
        e!("Range<u16>", Range<u16>: 3..300 => cat(&[o(3), w(16, 300)]));
        e!("RangeInclusive<i32>", RangeInclusive<i32>: -1..=300 => cat(&[z(32, -1), z(32, 300)]));
        e!("RangeFrom<u8>", RangeFrom<u8>: 3.. => o(3));
        e!("RangeTo<u8>", RangeTo<u8>: ..3 => o(3));
        e!("Bound<u16>", Bound<u16>: Bound::Unbounded => o(0), Bound::Included(300) => cat(&[o(1), w(16, 300)]), Bound::Excluded(1) => vec![2, 1]);
        e!("Result<u16, String>", Result<u16, String>: Ok(300) => cat(&[o(0), w(16, 300)]), Err("e".into()) => cat(&[o(1), s("e")]));
        e!("Option<Result<(), Vec<u8>>>", Option<Result<(), Vec<u8>>>: Some(Ok(())) => vec![1, 0], Some(Err(vec![4])) => vec![1, 1, 1, 4], None => o(0));
        e!("PhantomData", std::marker::PhantomData<u32>: std::marker::PhantomData => nil());
        e!("Unit", Unit: Unit => nil());
        e!("Empty", Empty: Empty {} => nil());
        e!("EmptyTuple", EmptyTuple: EmptyTuple() => nil());
        e!("New", New: New(128) => w(32, 128));
        e!("Pair", Pair: Pair(-1, "p".into()) => cat(&[z(16, -1), s("p")]));
        e!("Plain", Plain: plain().0 => plain().1);
        e!("Shapes", Shapes: Shapes::A => o(0), Shapes::B(300) => cat(&[o(1), w(16, 300)]), Shapes::C(1, "c".into()) => vec![2, 1, 1, b'c'],
            Shapes::D { x: -1, y: Some(true) } => vec![3, 1, 1, 1], Shapes::E() => o(4), Shapes::F {} => o(5), Shapes::G(Box::new(Shapes::B(2))) => vec![6, 1, 2],
            Shapes::H(vec![Shapes::A, Shapes::H(vec![]), Shapes::E()]) => vec![7, 3, 0, 7, 0, 4]);
        e!("Generic<Option<Pair>, Shapes>", Generic<Option<Pair>, Shapes>: Generic { t: Some(Pair(1, "".into())), u: vec![Shapes::A, Shapes::B(1)] } => vec![1, 2, 0, 2, 0, 1, 1]);
        e!("List", List: list(0) => list_bytes(0), list(1) => list_bytes(1), list(40) => list_bytes(40));
        e!("Tree", Tree: Tree::Pair(Box::new(Tree::Leaf("l".into())), Box::new(Tree::Node(vec![Tree::Leaf("".into())]))) => vec![2, 0, 1, b'l', 1, 1, 0, 0]);
        e!("Skips", Skips: Skips { a: 1, b: 0, c: "c".into(), d: vec![], e: -1, f: 'f' } => vec![1, 1, b'c', 1, 1, b'f']);
        e!("Formats", Formats: Formats {
                d: time::Date::from_ordinal_date(1999, 365).unwrap(), t: time::OffsetDateTime::from_unix_timestamp_nanos(-1).unwrap(),
                u: 300u32.into(), i: (-300).into(), x: bigdecimal::BigDecimal::new((-30).into(), 2), tail: 300 } =>
            cat(&[z(32, -1), w(16, 364), z(64, -1), w(32, 999_999_999), by(&[0x2C, 1]), by(&[0xD4, 0xFE]), by(&[0xFD]), z(64, 1), w(16, 300)]),
            Formats { d: time::Date::from_ordinal_date(2000, 1).unwrap(), t: time::OffsetDateTime::UNIX_EPOCH, u: 0u32.into(), i: 0.into(), x: 0.into(), tail: 7 } =>
            vec![0, 0, 0, 0, 0, 0, 0, 7]);
        e!("Wraps", Wraps: Wraps {
                u: num_bigint::BigUint::from(300u32).into(), i: num_bigint::BigInt::from(-300).into(), x: bigdecimal::BigDecimal::new((-30).into(), 2).into(),
                d: time::Date::from_ordinal_date(1999, 365).unwrap().into(), t: time::OffsetDateTime::from_unix_timestamp_nanos(-1).unwrap().into(),
                b: ByteBuf::from(vec![5]), v: vec![6, 7], tail: 300 } =>
            cat(&[by(&[0x2C, 1]), by(&[0xD4, 0xFE]), by(&[0xFD]), z(64, 1), z(32, -1), w(16, 364), z(64, -1), w(32, 999_999_999), by(&[5]), by(&[6, 7]), w(16, 300)]));
        e!("Adjacent", Adjacent: Adjacent::B(300) => cat(&[o(0), w(16, 300)]), Adjacent::D(8, 9) => vec![1, 8, 9], Adjacent::E(vec!["y".into()]) => vec![2, 1, 1, b'y']);
        e!("Clear", Clear: Clear { v: "v".into() } => s("v"));
        e!("Renamed", Renamed: Renamed::FirstOne => o(0), Renamed::SecondOne { some_field: 128 } => cat(&[o(1), w(32, 128)]), Renamed::Third(-1) => vec![2, 255]);
        e!("Via", Via: Via(300) => w(16, 300));
        e!("Defaults", Defaults: Defaults { a: 1, b: "x".into() } => vec![1, 1, b'x']);
        l.push(entry::<Many>("Many", || MANY.iter().enumerate().map(|(i, v)| (*v, Some(w(32, i as u64)))).collect()));
        l.push(entry::<Vec<Many>>("Vec<Many>", || vec![(MANY.to_vec(), Some(cat(&[n(141), (0..141).flat_map(|i| w(32, i)).collect()])))]));
        for k in ["Vec<()>", "Vec<Unit>"] {
            let mut x = match k { "Vec<()>" => entry::<Vec<()>>(k, || vec![(vec![(); 3], Some(o(3)))]), _ => entry::<Vec<Unit>>(k, || vec![(vec![Unit, Unit], Some(o(2)))]) };
            x.void = true;
            l.push(x);
        }
        l
    })
}

fn pick_case(c: &Ctx) -> (&'static Entry, usize) {
    let e = c.pick(entries());
    let i = c.choose(e.cases.len());
    c.state(&(e.name, i));
    (e, i)
}
fn what() -> String { format!("{} real Rust types (integers to IP addresses, collections, derived structs and enums, recursive and attributed ones)", entries().len()) }

pub fn c01_std(_th: bool) -> Vec<Space> {
    vec![Space::new("real types", &format!("{}: serialize, deserialize, compare; alone, and with other bytes following", what()), |c| {
        let (e, i) = pick_case(c);
        c.label(|| format!("{}: {}", e.name, e.cases[i].0));
        let b = e.bytes(i)?;
        for tail in [&[][..], &[0, 1, 0xFF][..]] {
            let mut x = b.clone();
            x.extend_from_slice(tail);
            let mut r = &x[..];
            match (e.de)(i, &mut r) {
                Ok(true) if r.len() == tail.len() => {}
                Ok(true) => return Err(format!("{}: {} written as {} leaves {} of {} bytes unread", e.name, e.cases[i].0, short(&b), r.len(), tail.len())),
                Ok(false) => return Err(format!("{}: {} written as {} comes back as another value", e.name, e.cases[i].0, short(&b))),
                Err(x) => return Err(format!("{}: {} written as {} does not deserialize: {:?}", e.name, e.cases[i].0, short(&b), x)),
            }
            c.validated(1);
        }
        Ok(())
    })]
}
pub fn c02_std(_th: bool) -> Vec<Space> {
    vec![Space::new("real types", &format!("{}: their bytes against bytes written out from the format", what()), |c| {
        let (e, i) = pick_case(c);
        c.label(|| format!("{}: {}", e.name, e.cases[i].0));
        let b = e.bytes(i)?;
        if let Some(x) = &e.cases[i].1 {
            if *x != b { return Err(format!("{}: {} is written as {}, the format says {}", e.name, e.cases[i].0, short(&b), short(x))) }
            c.validated(1);
        }
        Ok(())
    })]
}
/// no panic; what is accepted can be written, and reads back to bytes that mean the same
fn robust(c: &Ctx, e: &Entry, b: &[u8]) -> Check {
    let mut r = b;
    c.validated(1);
    match (e.again)(&mut r) {
        Err(_) => { c.outcome("refused"); Ok(()) }
        Ok(Err(x)) => Err(format!("{} from {}: accepted, but the value cannot be written: {:?}", e.name, short(b), x)),
        Ok(Ok(x)) => {
            c.outcome("accepted");
            let mut r2 = &x[..];
            match (e.again)(&mut r2) {
                Ok(Ok(y)) if y.len() == x.len() && r2.is_empty() => Ok(()),
                y => Err(format!("{} from {}: accepted and written as {}, which reads back as {:?} with {} bytes left", e.name, short(b), short(&x), y, r2.len())),
            }
        }
    }
}
pub fn c04_std(th: bool) -> Vec<Space> {
    let max = if th { 5 } else { 4 };
    vec![
        Space::new("real types, bytes", &format!("{}: every byte string of up to {} bytes over 10 byte values", what(), max), move |c| {
            let e = c.pick(entries());
            if e.void { return Ok(()) }
            const A: [u8; 10] = [0, 1, 2, 3, 0x61, 0x7F, 0x80, 0xC3, 0xE2, 0xFF];
            let len = c.choose(max + 1);
            let mut b = vec![0; len];
            let head = len.min(2);
            for x in b.iter_mut().take(head) { *x = A[c.choose(10)] }
            let tail = (len - head) as u32;
            for k in 0..10usize.pow(tail) {
                let mut k = k;
                for x in b[head..].iter_mut() { *x = A[k % 10]; k /= 10 }
                robust(c, e, &b)?;
            }
            c.count(10u64.pow(tail));
            c.label(|| format!("{} from {}", e.name, short(&b)));
            Ok(())
        }),
        Space::new("real types, mutations", "encodings of all samples with each byte replaced by each of 256 values, with each byte removed, and with each byte doubled", |c| {
            let (e, i) = pick_case(c);
            if e.void { return Ok(()) }
            let b = e.bytes(i)?;
            if b.is_empty() { return Ok(()) }
            let p = c.choose(b.len().min(600));
            c.label(|| format!("{}: {} mutated at {}", e.name, e.cases[i].0, p));
            for x in 0..=255u8 { let mut m = b.clone(); m[p] = x; robust(c, e, &m)?; }
            let mut m = b.clone();
            m.remove(p);
            robust(c, e, &m)?;
            let mut m = b.clone();
            m.insert(p, b[p]);
            robust(c, e, &m)?;
            c.count(258);
            Ok(())
        }),
    ]
}
pub fn c05_std() -> Vec<Space> {
    vec![Space::new("real types, claimed lengths", "samples of all real types cut at each of their first 40 positions, continued with a claim of 2^k or 2^k-1 for every k from 7 to 64, then 0, 2 or 200 bytes", |c| {
        let (e, i) = pick_case(c);
        if e.void { return Ok(()) }
        let b = e.bytes(i)?;
        let p = c.choose(b.len().min(40) + 1);
        c.label(|| format!("{}: {} with claims at {}", e.name, e.cases[i].0, p));
        for k in 7..=64u32 {
            for claim in [((1u128 << k) - 1) as u64, (1u128 << k.min(63)) as u64] {
                for follow in [0usize, 2, 200] {
                    let mut m = b[..p].to_vec();
                    enc_uint(64, claim, &mut m);
                    m.resize(m.len() + follow, 1);
                    let mut r = &m[..];
                    let (_, peak) = alloc::peak(|| (e.again)(&mut r).is_ok());
                    if peak > hostile::BASE + hostile::FACTOR * m.len() { return Err(format!("{} on {} ({} bytes, claiming {}): {} bytes of memory at once", e.name, short(&m), m.len(), claim, peak)) }
                }
            }
        }
        c.count(58 * 6);
        c.validated(58 * 6);
        Ok(())
    }),
    Space::new("recursive types, claims at every level", "a type that contains a Vec, a map, a set or a pair of Vecs of itself, 1..=200 levels, each claiming 2^k or 2^k-1 members for 16 k", |c| {
        let d = c.choose(200) + 1;
        let kind = c.choose(4);
        c.label(|| format!("kind {} {} deep", kind, d));
        for p in [7u32, 8, 10, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 40, 50, 63] {
            for claim in [1u64 << p, (1u64 << p) - 1] {
                let mut m = Vec::new();
                for _ in 0..d { enc_uint(64, claim, &mut m); if kind == 1 { m.push(0) } }
                let mut r = &m[..];
                let (ok, peak) = alloc::peak(|| match kind {
                    0 => Vecs::deserialize(&mut dlhn::Deserializer::new(&mut r)).is_ok(),
                    1 => Maps::deserialize(&mut dlhn::Deserializer::new(&mut r)).is_ok(),
                    2 => Sets::deserialize(&mut dlhn::Deserializer::new(&mut r)).is_ok(),
                    _ => Pairs::deserialize(&mut dlhn::Deserializer::new(&mut r)).is_ok(),
                });
                if ok { return Err(format!("a recursive type: {} ends in a value", short(&m))) }
                if peak > hostile::BASE + hostile::FACTOR * m.len() { return Err(format!("a recursive type on {} ({} bytes, {} levels claiming {} each): {} bytes of memory at once", short(&m), m.len(), d, claim, peak)) }
            }
        }
        c.count(32);
        c.validated(32);
        Ok(())
    })]
}
#[derive(serde::Deserialize)]
struct Vecs { #[allow(dead_code)] l: Vec<Vecs> }
#[derive(serde::Deserialize)]
struct Maps { #[allow(dead_code)] l: std::collections::HashMap<String, Maps> }
#[derive(serde::Deserialize, PartialEq, Eq, PartialOrd, Ord)]
struct Sets { l: std::collections::BTreeSet<Sets>, q: std::collections::VecDeque<Sets> }
#[derive(serde::Deserialize)]
struct Pairs { #[allow(dead_code)] a: Vec<(Pairs, String)>, #[allow(dead_code)] b: Vec<u8> }

pub fn c06_std() -> Vec<Space> {
    vec![Space::new("real types", &format!("{}: every proper prefix of every sample's encoding", what()), |c| {
        let (e, i) = pick_case(c);
        c.label(|| format!("{}: {}", e.name, e.cases[i].0));
        let b = e.bytes(i)?;
        for k in 0..b.len() {
            let mut r = &b[..k];
            if (e.again)(&mut r).is_ok() { return Err(format!("{}: {} is {}; cut to {} bytes it is accepted", e.name, e.cases[i].0, short(&b), k)) }
            c.transitions(1);
            c.validated(1);
        }
        Ok(())
    })]
}
pub fn c07_std(th: bool) -> Vec<Space> {
    let d = if th { 2 } else { 1 };
    vec![Space::new("real types", &format!("{}: every placement of at most {} departures of the reader", what(), d), move |c| {
        let (e, i) = pick_case(c);
        if e.cases[i].1.is_none() { return Ok(()) }
        let b = e.bytes(i)?;
        let mut data = b.clone();
        data.extend_from_slice(&[1, 0, 0xFF]);
        c.set_budget(d);
        let mut r = ChoiceReader::new(c, &data, b.len(), true);
        let x = (e.de)(i, &mut r);
        let (failed, over, pos) = (r.failed, r.over, r.pos);
        c.label(|| format!("{}: {}", e.name, e.cases[i].0));
        c.state_of_choices();
        c.validated(1);
        if over > 0 { return Err(format!("{}: {}: {} bytes asked for beyond the value", e.name, e.cases[i].0, over)) }
        match (failed, x) {
            (true, Err(_)) => { c.outcome("fault reported"); Ok(()) }
            (false, Ok(true)) if pos == b.len() => { c.outcome("value"); Ok(()) }
            (f, x) => Err(format!("{}: {}: reader failed: {}; result {:?}; {} of {} bytes read", e.name, e.cases[i].0, f, x, pos, b.len())),
        }
    })]
}
pub fn c08_std(th: bool) -> Vec<Space> {
    let d = if th { 2 } else { 1 };
    vec![Space::new("real types", &format!("{}: every placement of at most {} departures of the writer", what(), d), move |c| {
        let (e, i) = pick_case(c);
        let Some(b) = &e.cases[i].1 else { return Ok(()) };
        c.set_budget(d);
        let mut wr = ChoiceWriter::new(c);
        let x = (e.ser)(i, &mut wr);
        c.label(|| format!("{}: {}", e.name, e.cases[i].0));
        c.state_of_choices();
        c.validated(1);
        if wr.after_failure > 0 { return Err(format!("{}: {}: written to after the failure", e.name, e.cases[i].0)) }
        if !b.starts_with(&wr.got) { return Err(format!("{}: {}: {} written, no prefix of {}", e.name, e.cases[i].0, short(&wr.got), short(b))) }
        match (wr.failed, x) {
            (true, Err(_)) => { c.outcome("fault reported"); Ok(()) }
            (false, Ok(())) if wr.got == *b => { c.outcome("complete"); Ok(()) }
            (f, x) => Err(format!("{}: {}: writer failed: {}; result {:?}; {} of {} bytes written", e.name, e.cases[i].0, f, x, wr.got.len(), b.len())),
        }
    })]
}

// ---------------------------------------------------------------- C11 built-in headers

/// a built-in type, what its header must be, and values of it
trait Built: Serialize + SerializeHeader {
    fn head() -> Header;
    fn some() -> Vec<Self> where Self: Sized;
    fn name() -> String { std::any::type_name::<Self>().to_string() }
}
macro_rules! built { ($($t:ty, $h:ident, [$($v:expr),* $(,)?];)*) => { $(impl Built for $t { fn head() -> Header { Header::$h } fn some() -> Vec<Self> { vec![$($v),*] } })* } }
built! {
    (), Unit, [()];
    bool, Boolean, [true, false];
    u8, UInt8, [0, 127, 128, 255];
    u16, UInt16, [0, 127, 128, 16383, 16384, 65535];
    u32, UInt32, [0, 1 << 7, 1 << 14, 1 << 21, 1 << 28, u32::MAX];
    u64, UInt64, [0, 1 << 7, 1 << 14, 1 << 21, 1 << 28, 1 << 35, 1 << 42, 1 << 49, 1 << 56, u64::MAX];
    i8, Int8, [0, -1, 127, -128];
    i16, Int16, [0, -1, 64, -8193, i16::MAX, i16::MIN];
    i32, Int32, [0, -1, 64, -8193, i32::MAX, i32::MIN];
    i64, Int64, [0, -1, 64, 1 << 40, i64::MAX, i64::MIN];
    f32, Float32, [0.0, -0.0, 1.5, f32::MIN_POSITIVE, f32::INFINITY];
    f64, Float64, [0.0, -0.0, 1.5, f64::MIN_POSITIVE, f64::NEG_INFINITY];
    BigUint, BigUInt, [num_bigint::BigUint::from(0u8).into(), num_bigint::BigUint::from(255u8).into(), (num_bigint::BigUint::from(1u8) << 1200u32).into()];
    BigInt, BigInt, [num_bigint::BigInt::from(0).into(), num_bigint::BigInt::from(-128).into(), num_bigint::BigInt::from(128).into(), (num_bigint::BigInt::from(-1) << 1200u32).into()];
    BigDecimal, BigDecimal, [bigdecimal::BigDecimal::from(0).into(), bigdecimal::BigDecimal::new((-15).into(), 3).into(), bigdecimal::BigDecimal::new(7.into(), -300).into(), bigdecimal::BigDecimal::new(1000.into(), 0).into()];
    &'static str, String, ["", "abc", "h\u{e9}\u{20ac}\u{1F600}"];
    String, String, [String::new(), "x".repeat(127), "x".repeat(128), "h\u{e9}".into()];
    ByteBuf, Binary, [ByteBuf::new(), ByteBuf::from(vec![0x80; 127]), ByteBuf::from(vec![1; 4097])];
    Date, Date, [time::Date::from_ordinal_date(2000, 1).unwrap().into(), time::Date::MIN.into(), time::Date::MAX.into(), time::Date::from_ordinal_date(1904, 366).unwrap().into()];
    DateTime, DateTime, [time::OffsetDateTime::UNIX_EPOCH.into(), time::OffsetDateTime::from_unix_timestamp_nanos(-1).unwrap().into(), time::OffsetDateTime::from_unix_timestamp(253402300799).unwrap().into()];
}
impl<T: Built> Built for Option<T> { fn head() -> Header { Header::Optional(Box::new(T::head())) } fn some() -> Vec<Self> { let mut l: Vec<Self> = T::some().into_iter().map(Some).collect(); l.push(None); l } }
impl<T: Built> Built for Vec<T> { fn head() -> Header { Header::Array(Box::new(T::head())) } fn some() -> Vec<Self> { vec![vec![], T::some(), T::some().into_iter().rev().take(1).collect(), (0..130).flat_map(|_| T::some().into_iter().take(1)).collect()] } }
impl<T: Built> Built for BTreeMap<String, T> { fn head() -> Header { Header::Map(Box::new(T::head())) } fn some() -> Vec<Self> { vec![Self::new(), T::some().into_iter().enumerate().map(|(i, v)| (format!("{}\u{e9}", i), v)).collect()] } }
impl<T: Built> Built for BTreeMap<&'static str, T> { fn head() -> Header { Header::Map(Box::new(T::head())) } fn some() -> Vec<Self> { vec![Self::new(), T::some().into_iter().zip(["", "a", "ab"]).map(|(v, k)| (k, v)).collect()] } }
impl<T: Built> Built for HashMap<String, T> { fn head() -> Header { Header::Map(Box::new(T::head())) } fn some() -> Vec<Self> { vec![Self::new(), T::some().into_iter().enumerate().map(|(i, v)| (format!("k{}", i), v)).collect()] } }
macro_rules! tuples { ($(($($n:ident)+))*) => { $(impl<$($n: Built),+> Built for ($($n,)+) {
    fn head() -> Header { Header::Tuple(vec![$($n::head()),+]) }
    fn some() -> Vec<Self> { vec![($($n::some().swap_remove(0),)+), ($($n::some().pop().unwrap(),)+)] }
})* } }
tuples! { (A) (A B) (A B C) (A B C D) (A B C D E) (A B C D E F) (A B C D E F G) (A B C D E F G H) (A B C D E F G H I) (A B C D E F G H I J) (A B C D E F G H I J K)
  (A B C D E F G H I J K L) (A B C D E F G H I J K L M) (A B C D E F G H I J K L M N) (A B C D E F G H I J K L M N O) (A B C D E F G H I J K L M N O P) }

struct Info { name: String, expect: Header, header: fn() -> std::io::Result<Vec<u8>>, values: fn() -> Vec<Result<Vec<u8>, String>> }
fn info<T: Built>() -> Info {
    Info {
        name: T::name(),
        expect: T::head(),
        header: || { let mut o = vec![]; T::serialize_header(&mut o)?; Ok(o) },
        values: || T::some().iter().map(|v| real::ser_any(v).map_err(|e| format!("{:?}", e))).collect(),
    }
}
fn lv0<T: Built>(l: &mut Vec<Info>) { l.push(info::<T>()) }
fn lv1<T: Built>(l: &mut Vec<Info>) {
    lv0::<Option<T>>(l); lv0::<Vec<T>>(l); lv0::<BTreeMap<String, T>>(l); lv0::<BTreeMap<&'static str, T>>(l); lv0::<HashMap<String, T>>(l);
    lv0::<(T,)>(l); lv0::<(u16, T)>(l); lv0::<(T, String, T)>(l); lv0::<(u8, T, (), T)>(l);
}
fn lv2<T: Built>(l: &mut Vec<Info>) { lv1::<Option<T>>(l); lv1::<Vec<T>>(l); lv1::<BTreeMap<String, T>>(l); lv1::<(T, u32)>(l) }
fn native<T: SerializeHeader + ?Sized>(name: &str, expect: Header, values: fn() -> Vec<Result<Vec<u8>, String>>) -> Info {
    Info { name: name.into(), expect, header: || { let mut o = vec![]; T::serialize_header(&mut o)?; Ok(o) }, values }
}
macro_rules! with { ($m:path, $($v:expr),*) => { vec![$({ let mut o = vec![]; let r = $m(&$v, &mut dlhn::Serializer::new(&mut o)); r.map(|_| o).map_err(|e| format!("{:?}", e)) }),*] } }

fn infos() -> Vec<Info> {
    let mut l = Vec::new();
    macro_rules! all { ($f:ident: $($t:ty),*) => { $($f::<$t>(&mut l);)* } }
    all!(lv0: (), bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, BigUint, BigInt, BigDecimal, &'static str, String, ByteBuf, Date, DateTime);
    all!(lv1: (), bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, BigUint, BigInt, BigDecimal, &'static str, String, ByteBuf, Date, DateTime);
    all!(lv2: (), bool, u16, i64, f64, BigDecimal, String, ByteBuf, Date);
    // each arity, with a different type in every place
    all!(lv0: (u8,), (u8, i8), (u8, i8, u16), (u8, i8, u16, i16), (u8, i8, u16, i16, u32), (u8, i8, u16, i16, u32, i32), (u8, i8, u16, i16, u32, i32, u64),
        (u8, i8, u16, i16, u32, i32, u64, i64), (u8, i8, u16, i16, u32, i32, u64, i64, f32), (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64),
        (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool), (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String),
        (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String, ByteBuf), (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String, ByteBuf, Date),
        (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String, ByteBuf, Date, DateTime), (u8, i8, u16, i16, u32, i32, u64, i64, f32, f64, bool, String, ByteBuf, Date, DateTime, BigDecimal));
    l.push(native::<Bytes>("serde_bytes::Bytes", Header::Binary, || [&[][..], &[1, 2, 255], &[7; 300]].iter().map(|b| real::ser_any(Bytes::new(b)).map_err(|e| format!("{:?}", e))).collect()));
    l.push(native::<num_bigint::BigUint>("num_bigint::BigUint", Header::BigUInt, || with!(dlhn::format::big_uint::serialize, num_bigint::BigUint::from(0u8), num_bigint::BigUint::from(300u32))));
    l.push(native::<num_bigint::BigInt>("num_bigint::BigInt", Header::BigInt, || with!(dlhn::format::big_int::serialize, num_bigint::BigInt::from(0), num_bigint::BigInt::from(-300))));
    l.push(native::<bigdecimal::BigDecimal>("bigdecimal::BigDecimal", Header::BigDecimal, || with!(dlhn::format::big_decimal::serialize, bigdecimal::BigDecimal::from(0), bigdecimal::BigDecimal::new((-300).into(), 7))));
    l.push(native::<time::Date>("time::Date", Header::Date, || with!(dlhn::format::date::serialize, time::Date::MIN, time::Date::MAX)));
    l.push(native::<time::OffsetDateTime>("time::OffsetDateTime", Header::DateTime, || with!(dlhn::format::date_time::serialize, time::OffsetDateTime::UNIX_EPOCH, time::OffsetDateTime::from_unix_timestamp_nanos(-1).unwrap())));
    l
}

pub fn c11(_th: bool) -> Vec<Space> {
    let l: Vec<Info> = infos();
    let names = format!("{} built-in types: all leaf types, alone, under 9 wrappings, representative ones under 36 double wrappings, tuples of each arity 1..=16, and the third-party types; each with all its sample values", l.len());
    vec![Space::new("built-in types", &names, move |c| {
        let i = c.pick(&l);
        c.label(|| i.name.clone());
        c.state(i.name.as_str());
        let hb = (i.header)().map_err(|e| format!("{}: header fails: {}", i.name, e))?;
        let mut eb = vec![];
        real::enc_header(&i.expect, &mut eb).ok_or("model")?;
        if hb != eb { return Err(format!("{}: header written as {}, the format says {} ({:?})", i.name, short(&hb), short(&eb), i.expect)) }
        let h = match real::header_de(&hb) { (Ok(h), k) if k == hb.len() => h, x => return Err(format!("{}: header {} decodes as {:?}", i.name, short(&hb), x)) };
        if h != i.expect { return Err(format!("{}: header decodes to {:?}", i.name, h)) }
        c.validated(1);
        for b in (i.values)() {
            let b = b.map_err(|e| format!("{}: a value does not serialize: {}", i.name, e))?;
            let (r, k) = real::body_de(&h, &b);
            let body = r.map_err(|e| format!("{}: {} is refused under its header: {:?}", i.name, short(&b), e))?;
            if k != b.len() { return Err(format!("{}: {} of {} bytes of {} consumed under its header", i.name, k, b.len(), short(&b))) }
            if !body.validate(&h) { return Err(format!("{}: the body decoded from {} does not validate", i.name, short(&b))) }
            // the content, by the model
            let t = real::ty_of(&h);
            let mut d = Dec::new(&b);
            let m = d.dec(&t).map_err(|e| format!("{}: {} is no encoding of {:?}: {:?}", i.name, short(&b), h, e))?;
            if d.pos != b.len() { return Err(format!("{}: {} has {} bytes too many for {:?}", i.name, short(&b), b.len() - d.pos, h)) }
            let m = normal(&m);
            if real::val_of(&body)? != m { return Err(format!("{}: {} under its header is {:.300}, the bytes say {}", i.name, short(&b), format!("{:?}", body), sv(&m))) }
            let again = real::ser_any(&body).map_err(|e| format!("{:?}", e))?;
            let canon = encoded(&t, &m);
            if again != canon { return Err(format!("{}: {} re-encodes to {}", i.name, short(&canon), short(&again))) }
            if !i.name.contains("HashMap") && again != b { return Err(format!("{}: {} re-encodes to {}", i.name, short(&b), short(&again))) }
            c.count(1);
            c.validated(1);
        }
        c.outcome("described");
        Ok(())
    })]
}

pub fn spaces(prop: &str, tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    match prop {
        "C01" => c01_std(th),
        "C02" => c02_std(th),
        "C04" => c04_std(th),
        "C05" => c05_std(),
        "C06" => c06_std(),
        "C07" => c07_std(th),
        "C08" => c08_std(th),
        "C11" => c11(th),
        _ => vec![],
    }
}
