//! Drives the real serializer and deserializer with model types and values:
//! one `Serialize` and one `DeserializeSeed` that make, for a model type, the
//! calls a hand-written or derived implementation of that shape makes.
use crate::model::*;
use crate::rec;
use serde::de::{self, DeserializeSeed, EnumAccess, IgnoredAny, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct, SerializeTupleVariant};
use serde::{Deserialize, Serialize};
use std::fmt;
use std::io::{Read, Write};
use std::sync::OnceLock;

pub type SerErr = dlhn::ser::Error;
pub type DeErr = dlhn::de::Error;

/// Field names "f0", "f1", ... with static lifetime, as derived code has them.
pub fn fields(n: usize) -> &'static [&'static str] {
    // in steps, because making them is slow where it is interpreted
    const UP_TO: [usize; 4] = [16, 136, 320, 2048];
    static NAMES: [OnceLock<Vec<&'static str>>; 4] = [const { OnceLock::new() }; 4];
    let k = UP_TO.iter().position(|x| n <= *x).unwrap();
    &NAMES[k].get_or_init(|| (0..UP_TO[k]).map(|i| &*Box::leak(format!("f{}", i).into_boxed_str())).collect())[..n]
}

pub struct S<'a>(pub &'a Ty, pub &'a Val);

fn lib_value<T: for<'d> Deserialize<'d>, E: ser::Error>(t: &Ty, v: &Val) -> Result<T, E> {
    let b = encoded(t, v);
    let mut r = b.as_slice();
    let mut d = dlhn::Deserializer::new(&mut r);
    T::deserialize(&mut d).map_err(|e| ser::Error::custom(format!("cannot build library value: {}", e)))
}

impl<'a> Serialize for S<'a> {
    fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        match (self.0, self.1) {
            (Ty::Bool, Val::Bool(x)) => z.serialize_bool(*x),
            (Ty::U8, Val::U8(x)) => z.serialize_u8(*x),
            (Ty::I8, Val::I8(x)) => z.serialize_i8(*x),
            (Ty::U16, Val::U16(x)) => z.serialize_u16(*x),
            (Ty::I16, Val::I16(x)) => z.serialize_i16(*x),
            (Ty::U32, Val::U32(x)) => z.serialize_u32(*x),
            (Ty::I32, Val::I32(x)) => z.serialize_i32(*x),
            (Ty::U64, Val::U64(x)) => z.serialize_u64(*x),
            (Ty::I64, Val::I64(x)) => z.serialize_i64(*x),
            (Ty::F32, Val::F32(x)) => z.serialize_f32(f32::from_bits(*x)),
            (Ty::F64, Val::F64(x)) => z.serialize_f64(f64::from_bits(*x)),
            (Ty::Char, Val::Char(x)) => z.serialize_char(*x),
            (Ty::Str | Ty::StrVia, Val::Str(x)) => z.serialize_str(x),
            (Ty::Bytes | Ty::BytesVia, Val::Bytes(x)) => z.serialize_bytes(x),
            (Ty::Unit, Val::Unit) => z.serialize_unit(),
            (Ty::UnitStruct, Val::Unit) => z.serialize_unit_struct("U"),
            (Ty::Opt(_), Val::Opt(None)) => z.serialize_none(),
            (Ty::Opt(t), Val::Opt(Some(v))) => z.serialize_some(&S(t, v)),
            (Ty::Newtype(t), Val::List(l)) => z.serialize_newtype_struct("N", &S(t, &l[0])),
            (Ty::Seq(t), Val::List(l)) => {
                let mut q = z.serialize_seq(Some(l.len()))?;
                for v in l { q.serialize_element(&S(t, v))? }
                q.end()
            }
            (Ty::Tuple(ts), Val::List(l)) => {
                let mut q = z.serialize_tuple(l.len())?;
                for (t, v) in ts.iter().zip(l) { q.serialize_element(&S(t, v))? }
                q.end()
            }
            (Ty::TupleStruct(ts), Val::List(l)) => {
                let mut q = z.serialize_tuple_struct("T", l.len())?;
                for (t, v) in ts.iter().zip(l) { q.serialize_field(&S(t, v))? }
                q.end()
            }
            (Ty::Struct(ts), Val::List(l)) => {
                let mut q = z.serialize_struct("S", l.len())?;
                for (i, (t, v)) in ts.iter().zip(l).enumerate() { q.serialize_field(fields(2048)[i], &S(t, v))? }
                q.end()
            }
            (Ty::Map(t), Val::Map(m)) => {
                let mut q = z.serialize_map(Some(m.len()))?;
                for (i, (k, v)) in m.iter().enumerate() {
                    // both ways of writing an entry
                    if i % 2 == 0 { q.serialize_entry(k.as_str(), &S(t, v))? } else { q.serialize_key(k)?; q.serialize_value(&S(t, v))? }
                }
                q.end()
            }
            (Ty::Enum(vs), Val::Enum(i, l)) => match &vs[*i as usize] {
                Var::Unit => z.serialize_unit_variant("E", *i, "v"),
                Var::New(t) => z.serialize_newtype_variant("E", *i, "v", &S(t, &l[0])),
                Var::Tuple(ts) => {
                    let mut q = z.serialize_tuple_variant("E", *i, "v", l.len())?;
                    for (t, v) in ts.iter().zip(l) { q.serialize_field(&S(t, v))? }
                    q.end()
                }
                Var::Struct(ts) => {
                    let mut q = z.serialize_struct_variant("E", *i, "v", l.len())?;
                    for (k, (t, v)) in ts.iter().zip(l).enumerate() { q.serialize_field(fields(2048)[k], &S(t, v))? }
                    q.end()
                }
            },
            (t @ Ty::BigUint, v) => lib_value::<dlhn::BigUint, Z::Error>(t, v)?.serialize(z),
            (t @ Ty::BigInt, v) => lib_value::<dlhn::BigInt, Z::Error>(t, v)?.serialize(z),
            (t @ Ty::BigDecimal, v) => lib_value::<dlhn::BigDecimal, Z::Error>(t, v)?.serialize(z),
            (t @ Ty::Date, v) => lib_value::<dlhn::Date, Z::Error>(t, v)?.serialize(z),
            (t @ Ty::DateTime, v) => lib_value::<dlhn::DateTime, Z::Error>(t, v)?.serialize(z),
            (t, v) => panic!("harness: {:?} / {:?}", t, v),
        }
    }
}

pub struct D<'a>(pub &'a Ty);

struct V<'a>(&'a Ty);

// like the standard integer types, take any integer that fits
macro_rules! prim {
    ($($f:ident $t:ty),*) => { $(fn $f<E: de::Error>(self, x: $t) -> Result<Val, E> { int(self.0, x as i128) })* };
}
fn int<E: de::Error>(t: &Ty, x: i128) -> Result<Val, E> {
    let v = match t {
        Ty::U8 => x.try_into().ok().map(Val::U8),
        Ty::I8 => x.try_into().ok().map(Val::I8),
        Ty::U16 => x.try_into().ok().map(Val::U16),
        Ty::I16 => x.try_into().ok().map(Val::I16),
        Ty::U32 => x.try_into().ok().map(Val::U32),
        Ty::I32 => x.try_into().ok().map(Val::I32),
        Ty::U64 => x.try_into().ok().map(Val::U64),
        Ty::I64 => x.try_into().ok().map(Val::I64),
        _ => None,
    };
    v.ok_or_else(|| de::Error::custom("unexpected integer"))
}

impl<'de, 'a> Visitor<'de> for V<'a> {
    type Value = Val;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) }
    prim!(visit_u8 u8, visit_i8 i8, visit_u16 u16, visit_i16 i16, visit_u32 u32, visit_i32 i32, visit_u64 u64, visit_i64 i64);
    fn visit_bool<E: de::Error>(self, x: bool) -> Result<Val, E> {
        if *self.0 == Ty::Bool { Ok(Val::Bool(x)) } else { Err(de::Error::custom("unexpected bool")) }
    }
    fn visit_f32<E: de::Error>(self, x: f32) -> Result<Val, E> {
        if *self.0 == Ty::F32 { Ok(Val::F32(x.to_bits())) } else { Err(de::Error::custom("unexpected f32")) }
    }
    fn visit_f64<E: de::Error>(self, x: f64) -> Result<Val, E> {
        if *self.0 == Ty::F64 { Ok(Val::F64(x.to_bits())) } else { Err(de::Error::custom("unexpected f64")) }
    }
    fn visit_char<E: de::Error>(self, x: char) -> Result<Val, E> {
        if *self.0 == Ty::Char { Ok(Val::Char(x)) } else { Err(de::Error::custom("unexpected char")) }
    }
    fn visit_str<E: de::Error>(self, x: &str) -> Result<Val, E> {
        if matches!(self.0, Ty::Str | Ty::StrVia) { Ok(Val::Str(x.to_string())) } else { Err(de::Error::custom("unexpected str")) }
    }
    fn visit_string<E: de::Error>(self, x: String) -> Result<Val, E> {
        if matches!(self.0, Ty::Str | Ty::StrVia) { Ok(Val::Str(x)) } else { Err(de::Error::custom("unexpected string")) }
    }
    fn visit_bytes<E: de::Error>(self, x: &[u8]) -> Result<Val, E> {
        if matches!(self.0, Ty::Bytes | Ty::BytesVia) { Ok(Val::Bytes(x.to_vec())) } else { Err(de::Error::custom("unexpected bytes")) }
    }
    fn visit_byte_buf<E: de::Error>(self, x: Vec<u8>) -> Result<Val, E> {
        if matches!(self.0, Ty::Bytes | Ty::BytesVia) { Ok(Val::Bytes(x)) } else { Err(de::Error::custom("unexpected byte buf")) }
    }
    fn visit_unit<E: de::Error>(self) -> Result<Val, E> {
        if matches!(self.0, Ty::Unit | Ty::UnitStruct) { Ok(Val::Unit) } else { Err(de::Error::custom("unexpected unit")) }
    }
    fn visit_none<E: de::Error>(self) -> Result<Val, E> {
        if matches!(self.0, Ty::Opt(_)) { Ok(Val::Opt(None)) } else { Err(de::Error::custom("unexpected none")) }
    }
    fn visit_some<Z: serde::Deserializer<'de>>(self, z: Z) -> Result<Val, Z::Error> {
        match self.0 {
            Ty::Opt(t) => Ok(Val::Opt(Some(Box::new(D(t).deserialize(z)?)))),
            _ => Err(de::Error::custom("unexpected some")),
        }
    }
    fn visit_newtype_struct<Z: serde::Deserializer<'de>>(self, z: Z) -> Result<Val, Z::Error> {
        match self.0 {
            Ty::Newtype(t) => Ok(Val::List(vec![D(t).deserialize(z)?])),
            _ => Err(de::Error::custom("unexpected newtype")),
        }
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Seq(t) => {
                let mut l = Vec::new();
                while let Some(v) = a.next_element_seed(D(t))? { l.push(v) }
                Ok(Val::List(l))
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Ok(Val::List(seq_all(ts, a)?)),
            _ => Err(de::Error::custom("unexpected seq")),
        }
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Val, A::Error> {
        match self.0 {
            Ty::Map(t) => {
                let mut m = Vec::new();
                while let Some(k) = a.next_key::<String>()? { m.push((k, a.next_value_seed(D(t))?)) }
                Ok(Val::Map(m))
            }
            Ty::Struct(ts) => Ok(Val::List(map_all(ts, a)?)),
            _ => Err(de::Error::custom("unexpected map")),
        }
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Val, A::Error> {
        let Ty::Enum(vs) = self.0 else { return Err(de::Error::custom("unexpected enum")) };
        let (i, acc) = a.variant::<Ident>()?;
        let Some(var) = vs.get(i.0 as usize) else {
            return Err(de::Error::invalid_value(de::Unexpected::Unsigned(i.0), &"variant index"));
        };
        let l = match var {
            Var::Unit => { acc.unit_variant()?; vec![] }
            Var::New(t) => vec![acc.newtype_variant_seed(D(t))?],
            Var::Tuple(ts) => acc.tuple_variant(ts.len(), VL(ts))?,
            Var::Struct(ts) => acc.struct_variant(fields(ts.len()), VL(ts))?,
        };
        Ok(Val::Enum(i.0 as u32, l))
    }
}

fn seq_all<'de, A: SeqAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Vec<Val>, A::Error> {
    let mut l = Vec::new();
    for (i, t) in ts.iter().enumerate() {
        match a.next_element_seed(D(t))? {
            Some(v) => l.push(v),
            None => return Err(de::Error::invalid_length(i, &"more elements")),
        }
    }
    Ok(l)
}
/// as derived code does: look at the key, fill that field, complain about missing and duplicate ones
fn map_all<'de, A: MapAccess<'de>>(ts: &[Ty], mut a: A) -> Result<Vec<Val>, A::Error> {
    let mut l: Vec<Option<Val>> = vec![None; ts.len()];
    while let Some(i) = a.next_key::<Ident>()? {
        let i = i.0 as usize;
        if i >= ts.len() { let _: IgnoredAny = a.next_value()?; continue }
        if l[i].is_some() { return Err(de::Error::duplicate_field(fields(2048)[i])) }
        l[i] = Some(a.next_value_seed(D(&ts[i]))?);
    }
    let mut o = Vec::new();
    for (i, x) in l.into_iter().enumerate() {
        o.push(x.ok_or_else(|| de::Error::missing_field(fields(2048)[i]))?)
    }
    Ok(o)
}

/// payload of a tuple or struct variant
struct VL<'a>(&'a [Ty]);
impl<'de, 'a> Visitor<'de> for VL<'a> {
    type Value = Vec<Val>;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "variant payload") }
    fn visit_seq<A: SeqAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> { seq_all(self.0, a) }
    fn visit_map<A: MapAccess<'de>>(self, a: A) -> Result<Vec<Val>, A::Error> { map_all(self.0, a) }
}

/// field or variant identifier: by index or by name
struct Ident(u64);
impl<'de> Deserialize<'de> for Ident {
    fn deserialize<Z: serde::Deserializer<'de>>(z: Z) -> Result<Self, Z::Error> {
        struct IV;
        impl<'de> Visitor<'de> for IV {
            type Value = Ident;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "identifier") }
            fn visit_u64<E: de::Error>(self, x: u64) -> Result<Ident, E> { Ok(Ident(x)) }
            fn visit_str<E: de::Error>(self, x: &str) -> Result<Ident, E> {
                x.strip_prefix('f').and_then(|x| x.parse().ok()).map(Ident).ok_or_else(|| de::Error::custom("unknown name"))
            }
            fn visit_bytes<E: de::Error>(self, x: &[u8]) -> Result<Ident, E> {
                self.visit_str(std::str::from_utf8(x).unwrap_or(""))
            }
        }
        z.deserialize_identifier(IV)
    }
}

fn lib_model<T: Serialize, E: de::Error>(t: &Ty, v: T) -> Result<Val, E> {
    let mut o = Vec::new();
    v.serialize(&mut dlhn::Serializer::new(&mut o)).map_err(|e| de::Error::custom(format!("library value does not serialize: {}", e)))?;
    let mut d = Dec::new(&o);
    match d.dec(t) {
        Ok(v) if d.pos == o.len() => Ok(v),
        r => Err(de::Error::custom(format!("library value serializes to {:?}: {:?}", o, r))),
    }
}

impl<'de, 'a> DeserializeSeed<'de> for D<'a> {
    type Value = Val;
    fn deserialize<Z: serde::Deserializer<'de>>(self, z: Z) -> Result<Val, Z::Error> {
        let v = V(self.0);
        match self.0 {
            Ty::Bool => z.deserialize_bool(v),
            Ty::U8 => z.deserialize_u8(v),
            Ty::I8 => z.deserialize_i8(v),
            Ty::U16 => z.deserialize_u16(v),
            Ty::I16 => z.deserialize_i16(v),
            Ty::U32 => z.deserialize_u32(v),
            Ty::I32 => z.deserialize_i32(v),
            Ty::U64 => z.deserialize_u64(v),
            Ty::I64 => z.deserialize_i64(v),
            Ty::F32 => z.deserialize_f32(v),
            Ty::F64 => z.deserialize_f64(v),
            Ty::Char => z.deserialize_char(v),
            Ty::Str => z.deserialize_string(v),
            Ty::StrVia => z.deserialize_str(v),
            Ty::Bytes => z.deserialize_byte_buf(v),
            Ty::BytesVia => z.deserialize_bytes(v),
            Ty::Unit => z.deserialize_unit(v),
            Ty::UnitStruct => z.deserialize_unit_struct("U", v),
            Ty::Opt(_) => z.deserialize_option(v),
            Ty::Newtype(_) => z.deserialize_newtype_struct("N", v),
            Ty::Seq(_) => z.deserialize_seq(v),
            Ty::Tuple(ts) => z.deserialize_tuple(ts.len(), v),
            Ty::TupleStruct(ts) => z.deserialize_tuple_struct("T", ts.len(), v),
            Ty::Map(_) => z.deserialize_map(v),
            Ty::Struct(ts) => z.deserialize_struct("S", fields(ts.len()), v),
            Ty::Enum(vs) => z.deserialize_enum("E", fields(vs.len().min(2048)), v),
            Ty::BigUint => lib_model(self.0, dlhn::BigUint::deserialize(z)?),
            Ty::BigInt => lib_model(self.0, dlhn::BigInt::deserialize(z)?),
            Ty::BigDecimal => lib_model(self.0, dlhn::BigDecimal::deserialize(z)?),
            Ty::Date => lib_model(self.0, dlhn::Date::deserialize(z)?),
            Ty::DateTime => lib_model(self.0, dlhn::DateTime::deserialize(z)?),
        }
    }
}

// ---------------------------------------------------------------- entry points

pub fn ser_to<W: Write>(t: &Ty, v: &Val, w: W) -> Result<(), SerErr> {
    let mut s = dlhn::Serializer::new(w);
    S(t, v).serialize(&mut s)
}
pub fn ser(t: &Ty, v: &Val) -> Result<Vec<u8>, SerErr> {
    let mut o = Vec::new();
    let r = ser_to(t, v, &mut o);
    rec::ser(&r, &o);
    r?;
    Ok(o)
}
pub fn de_from<R: Read>(t: &Ty, r: &mut R) -> Result<Val, DeErr> {
    let mut d = dlhn::Deserializer::new(r);
    D(t).deserialize(&mut d)
}
/// result and number of bytes consumed
pub fn de(t: &Ty, b: &[u8]) -> (Result<Val, DeErr>, usize) {
    let mut r = b;
    let v = de_from(t, &mut r);
    rec::de_hash(&v, b.len() - r.len());
    (v, b.len() - r.len())
}
pub fn ser_any<T: Serialize + ?Sized>(v: &T) -> Result<Vec<u8>, SerErr> {
    let mut o = Vec::new();
    let r = v.serialize(&mut dlhn::Serializer::new(&mut o));
    rec::ser(&r, &o);
    r?;
    Ok(o)
}
pub fn de_any<T: for<'d> Deserialize<'d>>(b: &[u8]) -> (Result<T, DeErr>, usize) {
    let mut r = b;
    let v = T::deserialize(&mut dlhn::Deserializer::new(&mut r));
    rec::de_blind(&v, b.len() - r.len());
    (v, b.len() - r.len())
}

// ---------------------------------------------------------------- dynamic bodies and headers

use dlhn::{Body, Header};

/// the static type a header stands for
pub fn ty_of(h: &Header) -> Ty {
    match h {
        Header::Unit => Ty::Unit,
        Header::Optional(h) => Ty::Opt(Box::new(ty_of(h))),
        Header::Boolean => Ty::Bool,
        Header::UInt8 => Ty::U8,
        Header::UInt16 => Ty::U16,
        Header::UInt32 => Ty::U32,
        Header::UInt64 => Ty::U64,
        Header::Int8 => Ty::I8,
        Header::Int16 => Ty::I16,
        Header::Int32 => Ty::I32,
        Header::Int64 => Ty::I64,
        Header::Float32 => Ty::F32,
        Header::Float64 => Ty::F64,
        Header::BigUInt => Ty::BigUint,
        Header::BigInt => Ty::BigInt,
        Header::BigDecimal => Ty::BigDecimal,
        Header::String => Ty::Str,
        Header::Binary => Ty::Bytes,
        Header::Array(h) => Ty::Seq(Box::new(ty_of(h))),
        Header::Tuple(v) => Ty::Tuple(v.iter().map(ty_of).collect()),
        Header::Map(h) => Ty::Map(Box::new(ty_of(h))),
        Header::Enum(v) => Ty::Enum(v.iter().map(|h| Var::New(ty_of(h))).collect()),
        Header::Date => Ty::Date,
        Header::DateTime => Ty::DateTime,
    }
}

/// the header of a static type (None: the format has no header for it)
pub fn header_of(t: &Ty) -> Option<Header> {
    let all = |ts: &[Ty]| ts.iter().map(header_of).collect::<Option<Vec<_>>>();
    Some(match t {
        Ty::Unit | Ty::UnitStruct => Header::Unit,
        Ty::Opt(t) => Header::Optional(Box::new(header_of(t)?)),
        Ty::Bool => Header::Boolean,
        Ty::U8 => Header::UInt8,
        Ty::U16 => Header::UInt16,
        Ty::U32 => Header::UInt32,
        Ty::U64 => Header::UInt64,
        Ty::I8 => Header::Int8,
        Ty::I16 => Header::Int16,
        Ty::I32 => Header::Int32,
        Ty::I64 => Header::Int64,
        Ty::F32 => Header::Float32,
        Ty::F64 => Header::Float64,
        Ty::Str | Ty::StrVia => Header::String,
        Ty::Char => Header::String,
        Ty::Bytes | Ty::BytesVia => Header::Binary,
        Ty::Newtype(t) => header_of(t)?,
        Ty::Seq(t) => Header::Array(Box::new(header_of(t)?)),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Header::Tuple(all(ts)?),
        Ty::Map(t) => Header::Map(Box::new(header_of(t)?)),
        Ty::Enum(vs) => Header::Enum(vs.iter().map(|v| match v {
            Var::Unit => Some(Header::Unit),
            Var::New(t) => header_of(t),
            Var::Tuple(ts) | Var::Struct(ts) => Some(Header::Tuple(all(ts)?)),
        }).collect::<Option<Vec<_>>>()?),
        Ty::BigUint => Header::BigUInt,
        Ty::BigInt => Header::BigInt,
        Ty::BigDecimal => Header::BigDecimal,
        Ty::Date => Header::Date,
        Ty::DateTime => Header::DateTime,
    })
}

/// reference header bytes; None when a member count does not fit
pub fn enc_header(h: &Header, o: &mut Vec<u8>) -> Option<()> {
    let list = |code: u8, v: &Vec<Header>, o: &mut Vec<u8>| -> Option<()> {
        if v.len() > 65535 { return None }
        o.push(code);
        enc_uint(16, v.len() as u64, o);
        for h in v { enc_header(h, o)? }
        Some(())
    };
    match h {
        Header::Unit => o.push(0),
        Header::Optional(h) => { o.push(1); enc_header(h, o)? }
        Header::Boolean => o.push(2),
        Header::UInt8 => o.push(3),
        Header::UInt16 => o.push(4),
        Header::UInt32 => o.push(5),
        Header::UInt64 => o.push(6),
        Header::Int8 => o.push(8),
        Header::Int16 => o.push(9),
        Header::Int32 => o.push(10),
        Header::Int64 => o.push(11),
        Header::Float32 => o.push(13),
        Header::Float64 => o.push(14),
        Header::BigUInt => o.push(15),
        Header::BigInt => o.push(16),
        Header::BigDecimal => o.push(17),
        Header::String => o.push(18),
        Header::Binary => o.push(19),
        Header::Array(h) => { o.push(20); enc_header(h, o)? }
        Header::Tuple(v) => list(21, v, o)?,
        Header::Map(h) => { o.push(23); enc_header(h, o)? }
        Header::Enum(v) => list(24, v, o)?,
        Header::Date => o.push(25),
        Header::DateTime => o.push(26),
    }
    Some(())
}

/// reference header decoder: Ok(header), NeedMore or Bad; sets `slack` for over-long counts
pub fn dec_header(d: &mut Dec) -> Result<Header, Stop> {
    if d.pos >= d.b.len() { return Err(Stop::NeedMore) }
    let c = d.b[d.pos];
    d.pos += 1;
    let list = |d: &mut Dec| -> Result<Vec<Header>, Stop> {
        let n = d.uint(16)?;
        let mut v = Vec::new();
        for _ in 0..n { v.push(dec_header(d)?) }
        Ok(v)
    };
    Ok(match c {
        0 => Header::Unit,
        1 => Header::Optional(Box::new(dec_header(d)?)),
        2 => Header::Boolean,
        3 => Header::UInt8,
        4 => Header::UInt16,
        5 => Header::UInt32,
        6 => Header::UInt64,
        8 => Header::Int8,
        9 => Header::Int16,
        10 => Header::Int32,
        11 => Header::Int64,
        13 => Header::Float32,
        14 => Header::Float64,
        15 => Header::BigUInt,
        16 => Header::BigInt,
        17 => Header::BigDecimal,
        18 => Header::String,
        19 => Header::Binary,
        20 => Header::Array(Box::new(dec_header(d)?)),
        21 => Header::Tuple(list(d)?),
        23 => Header::Map(Box::new(dec_header(d)?)),
        24 => Header::Enum(list(d)?),
        25 => Header::Date,
        26 => Header::DateTime,
        _ => return Err(Stop::Bad("header code")),
    })
}

fn lib_body<T: for<'d> Deserialize<'d>>(t: &Ty, v: &Val) -> Result<T, String> {
    lib_value::<T, SerErr>(t, v).map_err(|e| e.to_string())
}

/// the dynamic body holding value `v` of type `ty_of(h)`
pub fn body_of(h: &Header, v: &Val) -> Result<Body, String> {
    let t = ty_of(h);
    Ok(match (h, v) {
        (Header::Unit, Val::Unit) => Body::Unit,
        (Header::Optional(_), Val::Opt(None)) => Body::Optional(None),
        (Header::Optional(h), Val::Opt(Some(v))) => Body::Optional(Some(Box::new(body_of(h, v)?))),
        (Header::Boolean, Val::Bool(x)) => Body::Boolean(*x),
        (Header::UInt8, Val::U8(x)) => Body::UInt8(*x),
        (Header::UInt16, Val::U16(x)) => Body::UInt16(*x),
        (Header::UInt32, Val::U32(x)) => Body::UInt32(*x),
        (Header::UInt64, Val::U64(x)) => Body::UInt64(*x),
        (Header::Int8, Val::I8(x)) => Body::Int8(*x),
        (Header::Int16, Val::I16(x)) => Body::Int16(*x),
        (Header::Int32, Val::I32(x)) => Body::Int32(*x),
        (Header::Int64, Val::I64(x)) => Body::Int64(*x),
        (Header::Float32, Val::F32(x)) => Body::Float32(f32::from_bits(*x)),
        (Header::Float64, Val::F64(x)) => Body::Float64(f64::from_bits(*x)),
        (Header::BigUInt, v) => Body::BigUInt(lib_body(&t, v)?),
        (Header::BigInt, v) => Body::BigInt(lib_body(&t, v)?),
        (Header::BigDecimal, v) => Body::BigDecimal(lib_body(&t, v)?),
        (Header::String, Val::Str(s)) => Body::String(s.clone()),
        (Header::Binary, Val::Bytes(s)) => Body::Binary(serde_bytes::ByteBuf::from(s.clone())),
        (Header::Array(h), Val::List(l)) => Body::Array(l.iter().map(|v| body_of(h, v)).collect::<Result<_, _>>()?),
        (Header::Tuple(hs), Val::List(l)) => Body::Tuple(hs.iter().zip(l).map(|(h, v)| body_of(h, v)).collect::<Result<_, _>>()?),
        (Header::Map(h), Val::Map(m)) => Body::Map(m.iter().map(|(k, v)| Ok((k.clone(), body_of(h, v)?))).collect::<Result<_, String>>()?),
        (Header::Enum(hs), Val::Enum(i, l)) => Body::Enum(*i, Box::new(body_of(&hs[*i as usize], &l[0])?)),
        (Header::Date, v) => Body::Date(lib_body(&t, v)?),
        (Header::DateTime, v) => Body::DateTime(lib_body(&t, v)?),
        _ => panic!("harness: {:?} / {:?}", h, v),
    })
}

/// model value of a body (shape read off the body itself)
pub fn val_of(b: &Body) -> Result<Val, String> {
    fn lib<T: Serialize + Clone>(t: Ty, v: &T) -> Result<Val, String> {
        lib_model::<T, DeErr>(&t, v.clone()).map_err(|e| e.to_string())
    }
    Ok(match b {
        Body::Unit => Val::Unit,
        Body::Optional(None) => Val::Opt(None),
        Body::Optional(Some(b)) => Val::Opt(Some(Box::new(val_of(b)?))),
        Body::Boolean(x) => Val::Bool(*x),
        Body::UInt8(x) => Val::U8(*x),
        Body::UInt16(x) => Val::U16(*x),
        Body::UInt32(x) => Val::U32(*x),
        Body::UInt64(x) => Val::U64(*x),
        Body::Int8(x) => Val::I8(*x),
        Body::Int16(x) => Val::I16(*x),
        Body::Int32(x) => Val::I32(*x),
        Body::Int64(x) => Val::I64(*x),
        Body::Float32(x) => Val::F32(x.to_bits()),
        Body::Float64(x) => Val::F64(x.to_bits()),
        Body::BigUInt(x) => lib(Ty::BigUint, x)?,
        Body::BigInt(x) => lib(Ty::BigInt, x)?,
        Body::BigDecimal(x) => lib(Ty::BigDecimal, x)?,
        Body::String(s) => Val::Str(s.clone()),
        Body::Binary(s) => Val::Bytes(s.to_vec()),
        Body::Array(l) | Body::Tuple(l) => Val::List(l.iter().map(val_of).collect::<Result<_, _>>()?),
        Body::Map(m) => Val::Map(m.iter().map(|(k, b)| Ok((k.clone(), val_of(b)?))).collect::<Result<_, String>>()?),
        Body::Enum(i, b) => Val::Enum(*i, vec![val_of(b)?]),
        Body::Date(x) => lib(Ty::Date, x)?,
        Body::DateTime(x) => lib(Ty::DateTime, x)?,
    })
}

pub fn body_de_from<R: Read>(h: &Header, r: &mut R) -> Result<Body, DeErr> {
    Body::deserialize(h, &mut dlhn::Deserializer::new(r))
}
pub fn body_de(h: &Header, b: &[u8]) -> (Result<Body, DeErr>, usize) {
    let mut r = b;
    let v = body_de_from(h, &mut r);
    rec::de(&v, b.len() - r.len());
    (v, b.len() - r.len())
}
pub fn header_de(b: &[u8]) -> (std::io::Result<Header>, usize) {
    use dlhn::DeserializeHeader;
    let mut r = b;
    let v = r.deserialize_header();
    rec::de(&v, b.len() - r.len());
    (v, b.len() - r.len())
}
pub fn header_ser(h: &Header) -> std::io::Result<Vec<u8>> {
    let mut o = Vec::new();
    let r = h.serialize(&mut o);
    rec::ser(&r, &o);
    r?;
    Ok(o)
}

/// reference typing relation between headers and bodies
pub fn fits(h: &Header, b: &Body) -> bool {
    match (h, b) {
        (Header::Unit, Body::Unit) => true,
        (Header::Optional(_), Body::Optional(None)) => true,
        (Header::Optional(h), Body::Optional(Some(b))) => fits(h, b),
        (Header::Boolean, Body::Boolean(_)) => true,
        (Header::UInt8, Body::UInt8(_)) => true,
        (Header::UInt16, Body::UInt16(_)) => true,
        (Header::UInt32, Body::UInt32(_)) => true,
        (Header::UInt64, Body::UInt64(_)) => true,
        (Header::Int8, Body::Int8(_)) => true,
        (Header::Int16, Body::Int16(_)) => true,
        (Header::Int32, Body::Int32(_)) => true,
        (Header::Int64, Body::Int64(_)) => true,
        (Header::Float32, Body::Float32(_)) => true,
        (Header::Float64, Body::Float64(_)) => true,
        (Header::BigUInt, Body::BigUInt(_)) => true,
        (Header::BigInt, Body::BigInt(_)) => true,
        (Header::BigDecimal, Body::BigDecimal(_)) => true,
        (Header::String, Body::String(_)) => true,
        (Header::Binary, Body::Binary(_)) => true,
        (Header::Array(h), Body::Array(l)) => { for b in l { if !fits(h, b) { return false } } true }
        (Header::Tuple(hs), Body::Tuple(l)) => {
            if hs.len() != l.len() { return false }
            for i in 0..l.len() { if !fits(&hs[i], &l[i]) { return false } }
            true
        }
        (Header::Map(h), Body::Map(m)) => { for b in m.values() { if !fits(h, b) { return false } } true }
        (Header::Enum(hs), Body::Enum(i, b)) => (*i as usize) < hs.len() && fits(&hs[*i as usize], b),
        (Header::Date, Body::Date(_)) => true,
        (Header::DateTime, Body::DateTime(_)) => true,
        _ => false,
    }
}
