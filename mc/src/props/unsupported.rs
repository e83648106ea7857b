//! C19: what the format cannot carry, at every position of a value.
use super::*;
use serde::de::{self, DeserializeSeed, Deserializer as _, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::fmt;

// ---------------------------------------------------------------- positions

/// how a value is embedded in another
pub const POS: [&str; 13] = ["optional", "newtype struct", "sequence element", "tuple element", "tuple struct field", "struct field", "map value", "newtype variant", "tuple variant field", "struct variant field", "last map value", "only sequence element", "boxed"];

pub struct At<'a, T>(pub &'a [usize], pub &'a T);
impl<'a, T: Serialize> Serialize for At<'a, T> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let Some((p, rest)) = self.0.split_first() else { return self.1.serialize(z) };
        let x = At(rest, self.1);
        match p {
            0 => z.serialize_some(&x),
            1 => z.serialize_newtype_struct("N", &x),
            2 => { let mut q = z.serialize_seq(Some(3))?; q.serialize_element(&At(rest, &Good))?; q.serialize_element(&x)?; q.serialize_element(&At(rest, &Good))?; q.end() }
            3 => { let mut q = z.serialize_tuple(3)?; q.serialize_element(&7u8)?; q.serialize_element(&x)?; q.serialize_element(&300u16)?; q.end() }
            4 => { let mut q = z.serialize_tuple_struct("T", 2)?; q.serialize_field(&7u8)?; q.serialize_field(&x)?; q.end() }
            5 => { let mut q = z.serialize_struct("S", 2)?; q.serialize_field("a", &x)?; q.serialize_field("b", "tail")?; q.end() }
            6 => { let mut q = z.serialize_map(Some(2))?; q.serialize_entry("a", &x)?; q.serialize_entry("b", &At(rest, &Good))?; q.end() }
            7 => z.serialize_newtype_variant("E", 3, "v", &x),
            8 => { let mut q = z.serialize_tuple_variant("E", 300, "v", 2)?; q.serialize_field(&true)?; q.serialize_field(&x)?; q.end() }
            9 => { let mut q = z.serialize_struct_variant("E", 0, "v", 2)?; q.serialize_field("a", &x)?; q.serialize_field("b", &-1i64)?; q.end() }
            10 => { let mut q = z.serialize_map(Some(2))?; q.serialize_key("a")?; q.serialize_value(&At(rest, &Good))?; q.serialize_key("b")?; q.serialize_value(&x)?; q.end() }
            11 => { let mut q = z.serialize_seq(Some(1))?; q.serialize_element(&x)?; q.end() }
            _ => Box::new(x).serialize(z),
        }
    }
}
/// the bytes of a value embedded like that
pub fn embed(path: &[usize], leaf: &[u8]) -> Vec<u8> {
    let Some((p, rest)) = path.split_first() else { return leaf.to_vec() };
    let x = embed(rest, leaf);
    let g = || embed(rest, &[]);
    match p {
        0 => [&[1][..], &x].concat(),
        2 => [&[3][..], &g(), &x, &g()].concat(),
        3 => { let mut t = vec![]; enc_uint(16, 300, &mut t); [&[7][..], &x, &t].concat() }
        4 => [&[7][..], &x].concat(),
        5 => [&x[..], &[4], b"tail"].concat(),
        6 => [&[2, 1, b'a'][..], &x, &[1, b'b'], &g()].concat(),
        7 => [&[3][..], &x].concat(),
        8 => { let mut i = vec![]; enc_uint(32, 300, &mut i); [&i[..], &[1], &x].concat() }
        9 => [&[0][..], &x, &[1]].concat(),
        10 => [&[2, 1, b'a'][..], &g(), &[1, b'b'], &x].concat(),
        11 => [&[1][..], &x].concat(),
        _ => x,
    }
}
/// occupies nothing
pub struct Good;
impl Serialize for Good { fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_unit() } }

pub fn path(c: &Ctx, max: usize) -> Vec<usize> { let n = c.choose(max + 1); (0..n).map(|_| c.choose(POS.len())).collect() }
pub fn at(p: &[usize]) -> String { if p.is_empty() { "at the top".into() } else { format!("in {}", p.iter().map(|i| POS[*i]).collect::<Vec<_>>().join(" of ")) } }

// ---------------------------------------------------------------- keys

pub const KEYS: [&str; 47] = [
    "bool", "i8", "i16", "i32", "i64", "i128", "u8", "u16", "u32", "u64", "u128", "f32", "f64", "char", "bytes", "none", "some text", "some integer", "unit", "unit struct",
    "unit variant", "newtype of integer", "newtype of text", "newtype of newtype of bytes", "newtype variant of text", "empty sequence", "sequence", "sequence of unknown length", "empty tuple", "tuple of text", "tuple struct",
    "tuple variant", "empty map", "map", "struct", "empty struct", "struct variant", "big integer", "big decimal", "date", "IPv4 address", "IPv6 address", "socket address", "unit variant of an enum", "duration", "false", "array",
];
/// a value of a library type, whatever the crate is configured to convert from
fn lib<T: for<'d> serde::Deserialize<'d>>(b: &[u8]) -> T { T::deserialize(&mut dlhn::Deserializer::new(&mut &b[..])).expect("a value of the library") }
#[derive(Serialize)]
enum Colour { Red }
pub struct Key(usize);
impl Key { pub fn new(k: usize) -> Self { Key(k) } }
impl Serialize for Key {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self.0 {
            0 => z.serialize_bool(true), 1 => z.serialize_i8(1), 2 => z.serialize_i16(1), 3 => z.serialize_i32(1), 4 => z.serialize_i64(1), 5 => z.serialize_i128(1),
            6 => z.serialize_u8(1), 7 => z.serialize_u16(1), 8 => z.serialize_u32(1), 9 => z.serialize_u64(1), 10 => z.serialize_u128(1), 11 => z.serialize_f32(1.0), 12 => z.serialize_f64(1.0),
            13 => z.serialize_char('k'), 14 => z.serialize_bytes(b"k"), 15 => z.serialize_none(), 16 => z.serialize_some("k"), 17 => z.serialize_some(&1u8), 18 => z.serialize_unit(), 19 => z.serialize_unit_struct("U"),
            20 => z.serialize_unit_variant("E", 0, "v"), 21 => z.serialize_newtype_struct("N", &1u8), 22 => z.serialize_newtype_struct("N", "k"), 23 => z.serialize_newtype_struct("N", &At(&[1], &Key(14))),
            24 => z.serialize_newtype_variant("E", 0, "v", "k"), 25 => z.serialize_seq(Some(0))?.end(), 26 => { let mut q = z.serialize_seq(Some(1))?; q.serialize_element("k")?; q.end() }
            27 => z.serialize_seq(None)?.end(), 28 => z.serialize_tuple(0)?.end(), 29 => { let mut q = z.serialize_tuple(1)?; q.serialize_element("k")?; q.end() }
            30 => { let mut q = z.serialize_tuple_struct("T", 1)?; q.serialize_field("k")?; q.end() }
            31 => { let mut q = z.serialize_tuple_variant("E", 0, "v", 1)?; q.serialize_field("k")?; q.end() }
            32 => z.serialize_map(Some(0))?.end(), 33 => { let mut q = z.serialize_map(Some(1))?; q.serialize_entry("k", "v")?; q.end() }
            34 => { let mut q = z.serialize_struct("S", 1)?; q.serialize_field("a", "k")?; q.end() } 35 => z.serialize_struct("S", 0)?.end(),
            36 => { let mut q = z.serialize_struct_variant("E", 0, "v", 1)?; q.serialize_field("a", "k")?; q.end() }
            37 => lib::<dlhn::BigUint>(&[1, 7]).serialize(z), 38 => lib::<dlhn::BigDecimal>(&[1, 7, 0]).serialize(z),
            39 => lib::<dlhn::Date>(&[0, 0]).serialize(z), 40 => std::net::Ipv4Addr::LOCALHOST.serialize(z), 41 => std::net::Ipv6Addr::LOCALHOST.serialize(z),
            42 => std::net::SocketAddr::from(([1, 2, 3, 4], 5)).serialize(z), 43 => Colour::Red.serialize(z), 44 => std::time::Duration::from_secs(1).serialize(z), 45 => z.serialize_bool(false),
            _ => [1u8, 2].serialize(z),
        }
    }
}
/// texts given as keys, and how
pub fn texts() -> Vec<String> {
    let mut l: Vec<String> = ["", "k", "\0", "\u{e9}", "\u{1F600}\u{10FFFF}", "1", "true"].iter().map(|s| s.to_string()).collect();
    for n in [2, 3, 9, 63, 64, 126, 127, 128, 129, 300, 4096, 16384] { l.push("x".repeat(n)) }
    l
}
enum Text<'a> { Str(&'a str), Collected(&'a str), Own(&'a str), Shared(&'a str) }
impl<'a> Serialize for Text<'a> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self { Text::Str(s) => z.serialize_str(s), Text::Collected(s) => z.collect_str(s), Text::Own(s) => s.to_string().serialize(z), Text::Shared(s) => std::borrow::Cow::Borrowed(*s).serialize(z) }
    }
}
/// a map of three entries, one of which has the key under test
pub struct Keyed<'a, K> { k: &'a K, at: usize, of: usize, entry: bool }
impl<'a, K> Keyed<'a, K> { pub fn new(k: &'a K, at: usize, of: usize, entry: bool) -> Self { Keyed { k, at, of, entry } } }
impl<'a, K: Serialize> Serialize for Keyed<'a, K> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut q = z.serialize_map(Some(self.of))?;
        for i in 0..self.of {
            match (i == self.at, self.entry) {
                (true, true) => q.serialize_entry(self.k, &5u8)?,
                (true, false) => { q.serialize_key(self.k)?; q.serialize_value(&5u8)? }
                (false, _) => q.serialize_entry("g", &6u8)?,
            }
        }
        q.end()
    }
}

// ---------------------------------------------------------------- values the format has no form for

pub const LEAVES: [&str; 14] = ["i128 0", "i128 -1", "i128 MIN", "u128 0", "u128 MAX", "u128 1", "sequence of unknown length, empty", "sequence of unknown length, one", "sequence of unknown length, 200",
    "map of unknown length, empty", "map of unknown length, two", "flattened struct", "flattened map", "lazy iterator"];
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Inner { b: u8, c: String }
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct Flat { a: u8, #[serde(flatten)] inner: Inner }
#[derive(Serialize, Deserialize, Debug, PartialEq)]
pub struct FlatMap { a: u8, #[serde(flatten)] rest: BTreeMap<String, u8> }
pub struct Leaf(usize);
impl Serialize for Leaf {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match self.0 {
            0 => z.serialize_i128(0), 1 => z.serialize_i128(-1), 2 => z.serialize_i128(i128::MIN), 3 => z.serialize_u128(0), 4 => z.serialize_u128(u128::MAX), 5 => 1u128.serialize(z),
            6 | 7 | 8 => { let mut q = z.serialize_seq(None)?; for _ in 0..[0, 1, 200][self.0 - 6] { q.serialize_element(&1u8)? } q.end() }
            9 | 10 => { let mut q = z.serialize_map(None)?; if self.0 == 10 { q.serialize_entry("a", &1u8)?; q.serialize_key("b")?; q.serialize_value(&2u8)? } q.end() }
            11 => Flat { a: 1, inner: Inner { b: 2, c: "x".into() } }.serialize(z),
            12 => FlatMap { a: 1, rest: [("k".to_string(), 2u8)].into() }.serialize(z),
            _ => z.collect_seq((0..40u8).filter(|x| x % 2 == 0)),
        }
    }
}

// ---------------------------------------------------------------- questions the format has no answer to

pub const ASKS: [&str; 14] = ["any", "ignored", "i128", "u128", "borrowed text", "borrowed bytes", "untagged enum", "internally tagged enum", "untagged option", "IgnoredAny", "internally tagged units", "i128 taking anything", "u128 taking anything", "borrowed path"];
#[derive(Deserialize, Debug)] #[serde(untagged)] #[allow(dead_code)] enum Untagged { A(u8), B(String), C { x: u8 }, D }
#[derive(Deserialize, Debug)] #[serde(tag = "t")] #[allow(dead_code)] enum Tagged { A { x: u8 }, B(Inner), C }
#[derive(Deserialize, Debug)] #[serde(tag = "t")] #[allow(dead_code)] enum TaggedUnits { A, B }
#[derive(Deserialize, Debug)] #[serde(untagged)] #[allow(dead_code)] enum UntaggedOpt { A(Option<u8>), B(()) }
pub struct Anything;
impl<'de> Visitor<'de> for Anything {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("anything") }
    fn visit_bool<E>(self, _: bool) -> Result<(), E> { Ok(()) }
    fn visit_i64<E>(self, _: i64) -> Result<(), E> { Ok(()) }
    fn visit_u64<E>(self, _: u64) -> Result<(), E> { Ok(()) }
    fn visit_i128<E>(self, _: i128) -> Result<(), E> { Ok(()) }
    fn visit_u128<E>(self, _: u128) -> Result<(), E> { Ok(()) }
    fn visit_f64<E>(self, _: f64) -> Result<(), E> { Ok(()) }
    fn visit_str<E>(self, _: &str) -> Result<(), E> { Ok(()) }
    fn visit_bytes<E>(self, _: &[u8]) -> Result<(), E> { Ok(()) }
    fn visit_none<E>(self) -> Result<(), E> { Ok(()) }
    fn visit_unit<E>(self) -> Result<(), E> { Ok(()) }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { IgnoredAny::deserialize(d).map(|_| ()) }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { IgnoredAny::deserialize(d).map(|_| ()) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> { while a.next_element::<IgnoredAny>()?.is_some() {} Ok(()) }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> { while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {} Ok(()) }
}

pub const WHERE: [&str; 11] = ["optional", "newtype struct", "sequence element", "second tuple element", "second tuple struct field", "struct field", "map value", "newtype variant", "second tuple variant field", "struct variant field", "map key"];
#[derive(Clone, Copy)]
pub struct Ask<'a>(&'a [usize], usize);
impl<'a> Ask<'a> { pub fn new(p: &'a [usize], k: usize) -> Self { Ask(p, k) } fn next(self) -> Ask<'a> { Ask(&self.0[1..], self.1) } }
impl<'de, 'a> DeserializeSeed<'de> for Ask<'a> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let Some(p) = self.0.first() else {
            return match self.1 {
                k @ 1000.. => super::errors::ask(k - 1000, d),
                0 => d.deserialize_any(Anything), 1 => d.deserialize_ignored_any(Anything), 2 => i128::deserialize(d).map(drop), 3 => u128::deserialize(d).map(drop),
                4 => <&str>::deserialize(d).map(drop), 5 => <&[u8]>::deserialize(d).map(drop), 6 => Untagged::deserialize(d).map(drop), 7 => Tagged::deserialize(d).map(drop),
                8 => UntaggedOpt::deserialize(d).map(drop), 9 => IgnoredAny::deserialize(d).map(drop), 10 => TaggedUnits::deserialize(d).map(drop),
                11 => d.deserialize_i128(Anything), 12 => d.deserialize_u128(Anything), _ => <&std::path::Path>::deserialize(d).map(drop),
            };
        };
        match p {
            0 => d.deserialize_option(self), 1 => d.deserialize_newtype_struct("N", self), 2 => d.deserialize_seq(self), 3 => d.deserialize_tuple(3, self), 4 => d.deserialize_tuple_struct("T", 2, self),
            5 => d.deserialize_struct("S", &["a", "b"], self), 6 | 10 => d.deserialize_map(self), _ => d.deserialize_enum("E", &["v"], self),
        }
    }
}
impl<'de, 'a> Visitor<'de> for Ask<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0.first().map_or("?", |p| WHERE[*p])) }
    fn visit_none<E>(self) -> Result<(), E> { Ok(()) }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { self.next().deserialize(d) }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> { self.next().deserialize(d) }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if self.0[0] != 2 { a.next_element::<u8>()?; }
        while a.next_element_seed(self.next())?.is_some() {}
        Ok(())
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        if self.0[0] == 10 { a.next_key_seed(self.next())?; return Ok(()) }
        while a.next_key::<String>()?.is_some() { a.next_value_seed(self.next())? }
        Ok(())
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        let (_, v) = a.variant::<u32>()?;
        match self.0[0] { 7 => v.newtype_variant_seed(self.next()), 8 => v.tuple_variant(2, self), _ => v.struct_variant(&["a", "b"], self) }
    }
}
pub fn lead(p: &[usize]) -> Vec<u8> {
    p.iter().flat_map(|p| match p { 0 => vec![1], 2 => vec![3], 3 | 4 => vec![7], 6 => vec![2, 1, b'a'], 7 | 9 => vec![0], 8 => vec![0, 7], 10 => vec![2], _ => vec![] }).collect()
}

// ---------------------------------------------------------------- whole types

pub type Refused = (&'static str, fn() -> Result<Vec<u8>, real::SerErr>);
pub fn refused() -> Vec<Refused> {
    macro_rules! r { ($($n:expr => $v:expr),* $(,)?) => { vec![$(($n, (|| real::ser_any(&$v)) as fn() -> Result<Vec<u8>, real::SerErr>)),*] } }
    let _ = (Colour::Red,);
    r! {
        "BTreeMap<u8, u8>" => BTreeMap::from([(1u8, 1u8)]), "BTreeMap<i64, ()>" => BTreeMap::from([(1i64, ())]), "BTreeMap<u128, ()>" => BTreeMap::from([(1u128, ())]), "BTreeMap<char, u8>" => BTreeMap::from([('k', 1u8)]), "BTreeMap<bool, u8>" => BTreeMap::from([(true, 1u8)]),
        "HashMap<usize, String>" => HashMap::from([(1usize, "x".to_string())]), "HashMap<(), u8>" => HashMap::from([((), 1u8)]), "BTreeMap<(String, u8), u8>" => BTreeMap::from([(("k".to_string(), 1u8), 1u8)]),
        "BTreeMap<Option<String>, u8>" => BTreeMap::from([(Some("k".to_string()), 1u8)]), "BTreeMap<Option<String>, u8> none" => BTreeMap::from([(None::<String>, 1u8)]), "BTreeMap<Vec<u8>, u8>" => BTreeMap::from([(vec![1u8], 1u8)]),
        "BTreeMap<Vec<String>, u8>" => BTreeMap::from([(vec!["k".to_string()], 1u8)]), "BTreeMap<[u8; 2], u8>" => BTreeMap::from([([1u8, 2], 1u8)]), "BTreeMap<ByteBuf, u8>" => BTreeMap::from([(serde_bytes::ByteBuf::from(vec![1]), 1u8)]),
        "BTreeMap<BTreeMap<String, u8>, u8>" => BTreeMap::from([(BTreeMap::from([("k".to_string(), 1u8)]), 1u8)]), "BTreeMap<Ipv4Addr, u8>" => BTreeMap::from([(std::net::Ipv4Addr::LOCALHOST, 1u8)]), "BTreeMap<IpAddr, u8>" => BTreeMap::from([(std::net::IpAddr::from([1, 2, 3, 4]), 1u8)]),
        "BTreeMap<SocketAddr, u8>" => BTreeMap::from([(std::net::SocketAddr::from(([1, 2, 3, 4], 5)), 1u8)]), "BTreeMap<Date, u8>" => BTreeMap::from([(lib::<dlhn::Date>(&[0, 0]), 1u8)]),
        "BTreeMap<BigUint, u8>" => BTreeMap::from([(lib::<dlhn::BigUint>(&[1, 7]), 1u8)]), "BTreeMap<Duration, u8>" => BTreeMap::from([(std::time::Duration::from_secs(1), 1u8)]), "BTreeMap<CString, u8>" => BTreeMap::from([(std::ffi::CString::new("k").unwrap(), 1u8)]),
        "Vec of a map with integer keys" => vec![BTreeMap::new(), BTreeMap::from([(1u8, 1u8)])], "map of maps with integer keys" => BTreeMap::from([("a", BTreeMap::new()), ("b", BTreeMap::from([(1u8, 1u8)]))]), "Option of a map with unit keys" => Some(BTreeMap::from([((), 1u8)])),
        "i128" => 5i128, "u128" => 5u128, "Option<u128>" => Some(5u128), "Vec<i128>" => vec![5i128], "(u8, i128)" => (1u8, 5i128), "NonZeroU128" => std::num::NonZeroU128::new(5).unwrap(),
        "flattened struct" => Flat { a: 1, inner: Inner { b: 2, c: "x".into() } }, "flattened map" => FlatMap { a: 1, rest: BTreeMap::new() },
    }
}

/// the same questions, fewer places: for the probes
pub fn no_form(c: &Ctx, d: usize) -> crate::explore::Check {
    match c.choose(4) {
        0 => { let p = path(c, d); let k = c.choose(KEYS.len()); c.label(|| format!("key {} {}", KEYS[k], at(&p))); match real::ser_any(&At(&p, &Keyed { k: &Key(k), at: 1, of: 2, entry: c.flag() })) { Err(_) => Ok(()), Ok(b) => Err(format!("a map {} with a key that is {} is written as {}", at(&p), KEYS[k], short(&b))) } }
        1 => { let p = path(c, d); let k = c.choose(LEAVES.len()); c.label(|| format!("{} {}", LEAVES[k], at(&p))); let _ = real::ser_any(&At(&p, &Leaf(k))); Ok(()) }
        2 => {
            let n = c.choose(d + 1);
            let p: Vec<usize> = (0..n).map(|_| c.choose(WHERE.len())).collect();
            let k = c.choose(ASKS.len());
            c.label(|| format!("{} asked of {:?}", ASKS[k], p));
            for t in [&[][..], &[0; 40], &[1; 40], &[255; 40], &[1, b'A'], &[0x80; 20]] {
                let input = [&lead(&p)[..], t].concat();
                let mut r = &input[..];
                let x = Ask(&p, k).deserialize(&mut dlhn::Deserializer::new(&mut r));
                crate::rec::de_blind(&x, input.len() - r.len());
                if x.is_ok() { return Err(format!("{} asked of {} is answered", ASKS[k], short(&input))) }
            }
            Ok(())
        }
        _ => { let l = refused(); let (n, f) = c.pick(&l); c.label(|| n.to_string()); match f() { Err(_) => Ok(()), Ok(b) => Err(format!("{} is written as {}", n, short(&b))) } }
    }
}

pub fn c19(th: bool) -> Vec<Space> {
    let (d, dk, da) = if th { (3, 3, 4) } else { (2, 2, 3) };
    vec![
        Space::new("keys that are no text", &format!("{} kinds of key at each place of maps of 1..=3 entries, written whole or key then value, the map itself at {} kinds of position to depth {}", KEYS.len(), POS.len(), d), move |c| {
            let p = path(c, d);
            let k = c.choose(KEYS.len());
            let of = 1 + c.choose(3);
            let i = c.choose(of);
            let entry = c.flag();
            c.label(|| format!("key {} at {} of {} in a map {}", KEYS[k], i, of, at(&p)));
            c.state_of_choices();
            match real::ser_any(&At(&p, &Keyed { k: &Key(k), at: i, of, entry })) {
                Err(_) => { c.validated(1); Ok(()) }
                Ok(b) => Err(format!("a map {} with a key that is {} is written as {}", at(&p), KEYS[k], short(&b))),
            }
        }),
        Space::new("text keys", &format!("19 texts, written 4 ways, at each place of maps of 1..=3 entries, the map itself at {} kinds of position to depth {}", POS.len(), dk), move |c| {
            let p = path(c, dk);
            let l = texts();
            let t = c.pick(&l);
            let k = match c.choose(4) { 0 => Text::Str(t), 1 => Text::Collected(t), 2 => Text::Own(t), _ => Text::Shared(t) };
            let of = 1 + c.choose(3);
            let i = c.choose(of);
            let entry = c.flag();
            c.label(|| format!("key of {} bytes at {} of {} in a map {}", t.len(), i, of, at(&p)));
            c.state_of_choices();
            let mut leaf = vec![of as u8];
            for j in 0..of { let (k, v) = if j == i { (t.as_str(), 5) } else { ("g", 6) }; enc_len(k.len(), &mut leaf); leaf.extend_from_slice(k.as_bytes()); leaf.push(v) }
            let want = embed(&p, &leaf);
            match real::ser_any(&At(&p, &Keyed { k: &k, at: i, of, entry })) {
                Ok(b) if b == want => { c.validated(1); Ok(()) }
                b => Err(format!("a map {} with the key {:.60?} is written as {:.200}, the format says {}", at(&p), t, format!("{:02x?}", b), short(&want))),
            }
        }),
        Space::new("values without a form", &format!("128-bit integers, sequences and maps of unknown length, flattened structs at {} kinds of position to depth {}", POS.len(), d + 1), move |c| {
            let p = path(c, d + 1);
            let k = c.choose(LEAVES.len());
            c.label(|| format!("{} {}", LEAVES[k], at(&p)));
            c.state_of_choices();
            c.validated(1);
            let one: &[u8] = &[1, 1];
            // a sequence of unknown length may be refused, or written so that it reads back
            let fair: Option<Vec<u8>> = match k { 6 | 9 => Some(vec![0]), 7 => Some(one.to_vec()), 8 => { let mut b = vec![]; enc_len(200, &mut b); b.extend(vec![1; 200]); Some(b) } 10 => Some(vec![2, 1, b'a', 1, 1, b'b', 2]), 13 => { let mut b = vec![]; enc_len(20, &mut b); b.extend((0..40).filter(|x| x % 2 == 0)); Some(b) } _ => None };
            match real::ser_any(&At(&p, &Leaf(k))) {
                Err(_) => { c.outcome("refused"); Ok(()) }
                Ok(b) if fair.map(|f| embed(&p, &f)).as_ref() == Some(&b) => { c.outcome("written with its length"); Ok(()) }
                Ok(b) => Err(format!("{} {} is written as {}", LEAVES[k], at(&p), short(&b))),
            }
        }),
        Space::new("questions without an answer", &format!("{} requests at {} kinds of position to depth {}, each on every single byte and on 13 longer inputs", ASKS.len(), WHERE.len(), da), move |c| {
            let n = c.choose(da + 1);
            let p: Vec<usize> = (0..n).map(|_| c.choose(WHERE.len())).collect();
            let k = c.choose(ASKS.len());
            let place = || if p.is_empty() { "at the top".to_string() } else { p.iter().map(|i| WHERE[*i]).collect::<Vec<_>>().join(" / ") };
            c.label(|| format!("{} asked {}", ASKS[k], place()));
            c.state_of_choices();
            let head = lead(&p);
            let mut tails: Vec<Vec<u8>> = (0..=255u8).map(|b| vec![b]).collect();
            tails.extend([vec![], vec![0; 40], vec![1; 40], vec![255; 40], vec![1, b'A'], vec![3, b'a', b'b', b'c', 0, 0, 0], vec![2, 1, b't', 1, b'A', 1, b'x', 5], vec![1, 1, b'x', 9], vec![0, 5], vec![2, 0xFF, 0xFE, 0, 0], vec![0x80; 20], vec![b'1'; 50], vec![4, 0xF0, 0x9F, 0x98, 0x80, 0, 0, 0]]);
            for t in &tails {
                let input = [&head[..], t].concat();
                let mut r = &input[..];
                let x = Ask(&p, k).deserialize(&mut dlhn::Deserializer::new(&mut r));
                if x.is_ok() { return Err(format!("{} asked {} of {} is answered", ASKS[k], place(), short(&input))) }
            }
            c.transitions(tails.len() as u64);
            c.validated(tails.len() as u64);
            Ok(())
        }),
        Space::new("whole types", "maps with 22 kinds of library key type, 128-bit integers and flattened structs as ordinary Rust types, alone and nested", |c| {
            let l = refused();
            let (n, f) = c.pick(&l);
            c.label(|| n.to_string());
            c.state(n);
            c.validated(1);
            match f() { Err(_) => Ok(()), Ok(b) => Err(format!("{} is written as {}", n, short(&b))) }
        }),
        Space::new("readable form", "whether the serializer, its map keys and the deserializer declare the compact form, at every kind of position to depth 2", |c| {
            struct Probe<'a>(&'a std::cell::Cell<u32>);
            impl<'a> Serialize for Probe<'a> { fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { self.0.set(self.0.get() + if z.is_human_readable() { 1 << 16 } else { 1 }); "k".serialize(z) } }
            let p = path(c, 2);
            let key = c.flag();
            c.state_of_choices();
            let seen = std::cell::Cell::new(0);
            let r = if key { real::ser_any(&At(&p, &Keyed { k: &Probe(&seen), at: 0, of: 1, entry: true })) } else { real::ser_any(&At(&p, &Probe(&seen))) };
            if r.is_err() || seen.get() != 1 { return Err(format!("{} {}: serializer asked {} times whether it is human readable, yes {} times, result {:?}", if key { "a map key" } else { "a value" }, at(&p), seen.get() & 0xFFFF, seen.get() >> 16, r)) }
            let mut r = &[0u8][..];
            if (&mut dlhn::Deserializer::new(&mut r)).is_human_readable() { return Err("the deserializer says it is human readable".into()) }
            c.validated(1);
            Ok(())
        }),
    ]
}
