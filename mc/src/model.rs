//! Reference model of the DLHN format: types, values, an encoder and a decoder.
//! Deliberately boring and independent of the implementation: everything is
//! written as arithmetic on numbers, from the format description.

/// A type of the data model (a serde shape or one of the library's own types).
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Bool, U8, I8, U16, I16, U32, I32, U64, I64, F32, F64, Char,
    Str,
    /// text asked for with the "borrowed" request (deserialize_str)
    StrVia,
    Bytes,
    /// binary asked for with the "borrowed" request (deserialize_bytes)
    BytesVia,
    Unit, UnitStruct,
    Opt(Box<Ty>),
    Newtype(Box<Ty>),
    Seq(Box<Ty>),
    Tuple(Vec<Ty>),
    TupleStruct(Vec<Ty>),
    Map(Box<Ty>),
    Struct(Vec<Ty>),
    Enum(Vec<Var>),
    BigUint, BigInt, BigDecimal, Date, DateTime,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Var {
    Unit,
    New(Ty),
    Tuple(Vec<Ty>),
    Struct(Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Val {
    Bool(bool), U8(u8), I8(i8), U16(u16), I16(i16), U32(u32), I32(i32), U64(u64), I64(i64),
    F32(u32), F64(u64), Char(char), Str(String), Bytes(Vec<u8>), Unit,
    Opt(Option<Box<Val>>),
    /// newtype, seq, tuple, tuple struct, struct
    List(Vec<Val>),
    Map(Vec<(String, Val)>),
    Enum(u32, Vec<Val>),
    Big(Vec<u8>),
    Dec(Vec<u8>, i64),
    Date(i32, u16),
    DateTime(i64, u32),
}

pub const YEAR_BASE: i32 = 2000;

// ---------------------------------------------------------------- integers

fn max_len(width: u32) -> u32 {
    match width { 16 => 3, 32 => 5, 64 => 9, _ => unreachable!() }
}

/// Shortest prefix-varint of `v` in a `width`-bit integer.
pub fn enc_uint(width: u32, v: u64, out: &mut Vec<u8>) {
    let maxn = max_len(width);
    for n in 1..maxn {
        if v >> (7 * n).min(63) == 0 && (7 * n < 64) {
            // n bytes: n-1 one bits, a zero bit, then 7n value bits, low bits first
            let ones = n - 1;
            let low_bits = 8 - n;
            let marker: u32 = if ones == 0 { 0 } else { (0xFFu32 << (8 - ones)) & 0xFF };
            let low = (v & ((1u64 << low_bits) - 1)) as u32;
            out.push((marker | low) as u8);
            let mut rest = v >> low_bits;
            for _ in 0..ones {
                out.push((rest & 0xFF) as u8);
                rest >>= 8;
            }
            return;
        }
    }
    let ones = maxn - 1;
    out.push(((0xFFu32 << (8 - ones.min(8))) & 0xFF) as u8);
    let mut rest = v;
    for _ in 0..width / 8 {
        out.push((rest & 0xFF) as u8);
        rest >>= 8;
    }
}

pub fn uint_len(width: u32, v: u64) -> usize {
    let mut n = 1;
    while n < max_len(width) && v >= 1u64 << (7 * n) { n += 1 }
    n as usize
}

/// Number of bytes an integer occupies, from its first byte.
pub fn uint_len_from_first(width: u32, first: u8) -> usize {
    let mut ones = 0;
    while ones < 8 && first & (0x80 >> ones) != 0 { ones += 1 }
    ((ones + 1) as usize).min(max_len(width) as usize)
}

pub fn zigzag(v: i64) -> u64 {
    if v >= 0 { (v as u64) * 2 } else { ((-(v + 1)) as u64) * 2 + 1 }
}
pub fn unzigzag(v: u64) -> i64 {
    if v % 2 == 0 { (v / 2) as i64 } else { -((v / 2) as i64) - 1 }
}

pub fn enc_len(n: usize, out: &mut Vec<u8>) { enc_uint(64, n as u64, out) }

// ---------------------------------------------------------------- encoder

pub fn enc(t: &Ty, v: &Val, o: &mut Vec<u8>) {
    match (t, v) {
        (Ty::Bool, Val::Bool(b)) => o.push(if *b { 1 } else { 0 }),
        (Ty::U8, Val::U8(x)) => o.push(*x),
        (Ty::I8, Val::I8(x)) => o.push(if *x < 0 { (*x as i32 + 256) as u8 } else { *x as u8 }),
        (Ty::U16, Val::U16(x)) => enc_uint(16, *x as u64, o),
        (Ty::U32, Val::U32(x)) => enc_uint(32, *x as u64, o),
        (Ty::U64, Val::U64(x)) => enc_uint(64, *x, o),
        (Ty::I16, Val::I16(x)) => enc_uint(16, zigzag(*x as i64), o),
        (Ty::I32, Val::I32(x)) => enc_uint(32, zigzag(*x as i64), o),
        (Ty::I64, Val::I64(x)) => enc_uint(64, zigzag(*x), o),
        (Ty::F32, Val::F32(b)) => for i in 0..4 { o.push((b >> (8 * i)) as u8) },
        (Ty::F64, Val::F64(b)) => for i in 0..8 { o.push((b >> (8 * i)) as u8) },
        (Ty::Char, Val::Char(c)) => {
            let mut b = [0; 4];
            let s = c.encode_utf8(&mut b);
            enc_len(s.len(), o);
            o.extend_from_slice(s.as_bytes());
        }
        (Ty::Str | Ty::StrVia, Val::Str(s)) => { enc_len(s.len(), o); o.extend_from_slice(s.as_bytes()) }
        (Ty::Bytes | Ty::BytesVia, Val::Bytes(s)) => { enc_len(s.len(), o); o.extend_from_slice(s) }
        (Ty::Unit | Ty::UnitStruct, Val::Unit) => {}
        (Ty::Opt(_), Val::Opt(None)) => o.push(0),
        (Ty::Opt(t), Val::Opt(Some(v))) => { o.push(1); enc(t, v, o) }
        (Ty::Newtype(t), Val::List(l)) => enc(t, &l[0], o),
        (Ty::Seq(t), Val::List(l)) => { enc_len(l.len(), o); for x in l { enc(t, x, o) } }
        (Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts), Val::List(l)) => enc_all(ts, l, o),
        (Ty::Map(t), Val::Map(m)) => {
            enc_len(m.len(), o);
            for (k, x) in m { enc_len(k.len(), o); o.extend_from_slice(k.as_bytes()); enc(t, x, o) }
        }
        (Ty::Enum(vs), Val::Enum(i, l)) => {
            enc_uint(32, *i as u64, o);
            match &vs[*i as usize] {
                Var::Unit => {}
                Var::New(t) => enc(t, &l[0], o),
                Var::Tuple(ts) | Var::Struct(ts) => enc_all(ts, l, o),
            }
        }
        (Ty::BigUint | Ty::BigInt, Val::Big(b)) => { enc_len(b.len(), o); o.extend_from_slice(b) }
        (Ty::BigDecimal, Val::Dec(b, s)) => {
            enc_len(b.len(), o);
            o.extend_from_slice(b);
            if !b.is_empty() { enc_uint(64, zigzag(*s), o) }
        }
        (Ty::Date, Val::Date(y, d)) => {
            enc_uint(32, zigzag((*y as i64 - YEAR_BASE as i64) as i32 as i64), o);
            enc_uint(16, (*d - 1) as u64, o);
        }
        (Ty::DateTime, Val::DateTime(s, n)) => {
            enc_uint(64, zigzag(*s), o);
            enc_uint(32, *n as u64, o);
        }
        _ => panic!("model: value {:?} does not fit type {:?}", v, t),
    }
}
fn enc_all(ts: &[Ty], l: &[Val], o: &mut Vec<u8>) {
    assert_eq!(ts.len(), l.len(), "model: arity");
    for (t, v) in ts.iter().zip(l) { enc(t, v, o) }
}
pub fn encoded(t: &Ty, v: &Val) -> Vec<u8> {
    let mut o = Vec::new();
    enc(t, v, &mut o);
    o
}

// ---------------------------------------------------------------- decoder

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stop {
    /// the bytes are a proper prefix of something longer
    NeedMore,
    /// no continuation can be a valid encoding
    Bad(&'static str),
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    /// set when an accepted integer used ignored bits or more bytes than needed
    pub slack: bool,
    /// bound on element counts of elements that occupy no bytes
    pub zero_cap: u64,
    pub hit_zero_cap: bool,
}

pub fn zero_size(t: &Ty) -> bool {
    match t {
        Ty::Unit | Ty::UnitStruct => true,
        Ty::Newtype(t) => zero_size(t),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => ts.iter().all(zero_size),
        _ => false,
    }
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self { Dec { b, pos: 0, slack: false, zero_cap: 5000, hit_zero_cap: false } }
    fn take(&mut self, n: u64) -> Result<&'a [u8], Stop> {
        if n > (self.b.len() - self.pos) as u64 { return Err(Stop::NeedMore) }
        let s = &self.b[self.pos..self.pos + n as usize];
        self.pos += n as usize;
        Ok(s)
    }
    fn byte(&mut self) -> Result<u8, Stop> { Ok(self.take(1)?[0]) }
    pub fn uint(&mut self, width: u32) -> Result<u64, Stop> {
        let start = self.pos;
        let first = self.byte()?;
        let n = uint_len_from_first(width, first);
        let rest = self.take(n as u64 - 1)?;
        let mut r: u64 = 0;
        for (i, b) in rest.iter().enumerate() { r |= (*b as u64) << (8 * i) }
        let v = if n == max_len(width) as usize {
            r
        } else {
            let low_bits = 8 - n as u32;
            (r << low_bits) | (first as u64 & ((1 << low_bits) - 1))
        };
        let mut canon = Vec::new();
        enc_uint(width, v, &mut canon);
        if canon != self.b[start..self.pos] { self.slack = true }
        Ok(v)
    }
    fn sint(&mut self, width: u32) -> Result<i64, Stop> { Ok(unzigzag(self.uint(width)?)) }
    fn string(&mut self) -> Result<String, Stop> {
        let n = self.uint(64)?;
        let s = self.take(n)?;
        if !utf8_ok(s) { return Err(Stop::Bad("utf8")) }
        Ok(String::from_utf8(s.to_vec()).expect("model utf8"))
    }
    pub fn dec(&mut self, t: &Ty) -> Result<Val, Stop> {
        Ok(match t {
            Ty::Bool => match self.byte()? { 0 => Val::Bool(false), 1 => Val::Bool(true), _ => return Err(Stop::Bad("bool")) },
            Ty::U8 => Val::U8(self.byte()?),
            Ty::I8 => { let b = self.byte()? as i32; Val::I8(if b > 127 { (b - 256) as i8 } else { b as i8 }) }
            Ty::U16 => Val::U16(self.uint(16)? as u16),
            Ty::U32 => Val::U32(self.uint(32)? as u32),
            Ty::U64 => Val::U64(self.uint(64)?),
            Ty::I16 => Val::I16(self.sint(16)? as i16),
            Ty::I32 => Val::I32(self.sint(32)? as i32),
            Ty::I64 => Val::I64(self.sint(64)?),
            Ty::F32 => { let s = self.take(4)?; Val::F32((0..4).fold(0, |a, i| a | (s[i] as u32) << (8 * i))) }
            Ty::F64 => { let s = self.take(8)?; Val::F64((0..8).fold(0, |a, i| a | (s[i] as u64) << (8 * i))) }
            Ty::Char => {
                let s = self.string()?;
                let mut it = s.chars();
                match (it.next(), it.next()) { (Some(c), None) => Val::Char(c), _ => return Err(Stop::Bad("char")) }
            }
            Ty::Str | Ty::StrVia => Val::Str(self.string()?),
            Ty::Bytes | Ty::BytesVia => { let n = self.uint(64)?; Val::Bytes(self.take(n)?.to_vec()) }
            Ty::Unit | Ty::UnitStruct => Val::Unit,
            Ty::Opt(t) => match self.byte()? {
                0 => Val::Opt(None),
                1 => Val::Opt(Some(Box::new(self.dec(t)?))),
                _ => return Err(Stop::Bad("option")),
            },
            Ty::Newtype(t) => Val::List(vec![self.dec(t)?]),
            Ty::Seq(t) => {
                let n = self.uint(64)?;
                if zero_size(t) && n > self.zero_cap { self.hit_zero_cap = true; return Err(Stop::Bad("cap")) }
                let mut l = Vec::new();
                for _ in 0..n { l.push(self.dec(t)?) }
                Val::List(l)
            }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Val::List(self.all(ts)?),
            Ty::Map(t) => {
                let n = self.uint(64)?;
                let mut m = Vec::new();
                for _ in 0..n { let k = self.string()?; let v = self.dec(t)?; m.push((k, v)) }
                Val::Map(m)
            }
            Ty::Enum(vs) => {
                let i = self.uint(32)?;
                if i >= vs.len() as u64 { return Err(Stop::Bad("variant")) }
                let l = match &vs[i as usize] {
                    Var::Unit => vec![],
                    Var::New(t) => vec![self.dec(t)?],
                    Var::Tuple(ts) | Var::Struct(ts) => self.all(ts)?,
                };
                Val::Enum(i as u32, l)
            }
            Ty::BigUint | Ty::BigInt => { let n = self.uint(64)?; Val::Big(self.take(n)?.to_vec()) }
            Ty::BigDecimal => {
                let n = self.uint(64)?;
                let b = self.take(n)?.to_vec();
                let s = if b.is_empty() { 0 } else { self.sint(64)? };
                Val::Dec(b, s)
            }
            Ty::Date => {
                let y = self.sint(32)? + YEAR_BASE as i64;
                if y > i32::MAX as i64 { return Err(Stop::Bad("year")) }
                let d = self.uint(16)? + 1;
                if d > u16::MAX as u64 { return Err(Stop::Bad("ordinal")) }
                Val::Date(y as i32, d as u16)
            }
            Ty::DateTime => { let s = self.sint(64)?; Val::DateTime(s, self.uint(32)? as u32) }
        })
    }
    fn all(&mut self, ts: &[Ty]) -> Result<Vec<Val>, Stop> {
        let mut l = Vec::new();
        for t in ts { l.push(self.dec(t)?) }
        Ok(l)
    }
}

/// Well-formed UTF-8 (Unicode 15, table 3-7), written out.
pub fn utf8_ok(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let b = s[i];
        let (n, lo, hi) = match b {
            0x00..=0x7F => (0, 0, 0),
            0xC2..=0xDF => (1, 0x80, 0xBF),
            0xE0 => (2, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE..=0xEF => (2, 0x80, 0xBF),
            0xED => (2, 0x80, 0x9F),
            0xF0 => (3, 0x90, 0xBF),
            0xF1..=0xF3 => (3, 0x80, 0xBF),
            0xF4 => (3, 0x80, 0x8F),
            _ => return false,
        };
        for k in 1..=n {
            let Some(&c) = s.get(i + k) else { return false };
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if c < l || c > h { return false }
        }
        i += n + 1;
    }
    true
}

/// Same content as a map would hold it: later duplicates win, keys sorted.
pub fn normal(v: &Val) -> Val {
    match v {
        Val::Opt(Some(x)) => Val::Opt(Some(Box::new(normal(x)))),
        Val::List(l) => Val::List(l.iter().map(normal).collect()),
        Val::Enum(i, l) => Val::Enum(*i, l.iter().map(normal).collect()),
        Val::Map(m) => {
            let mut b = std::collections::BTreeMap::new();
            for (k, v) in m { b.insert(k.clone(), normal(v)); }
            Val::Map(b.into_iter().collect())
        }
        x => x.clone(),
    }
}
