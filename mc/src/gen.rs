//! Bounded enumeration of types and values.
use crate::explore::Ctx;
use crate::model::*;
use dlhn::Header;

pub fn bx(t: Ty) -> Box<Ty> { Box::new(t) }

/// every scalar and library type
pub fn atoms() -> Vec<Ty> {
    vec![
        Ty::Unit, Ty::Bool, Ty::U8, Ty::I8, Ty::U16, Ty::I16, Ty::U32, Ty::I32, Ty::U64, Ty::I64, Ty::F32, Ty::F64,
        Ty::Char, Ty::Str, Ty::StrVia, Ty::Bytes, Ty::BytesVia, Ty::UnitStruct,
        Ty::BigUint, Ty::BigInt, Ty::BigDecimal, Ty::Date, Ty::DateTime,
    ]
}
/// one atom per distinct framing
pub fn rep_atoms() -> Vec<Ty> {
    vec![Ty::Unit, Ty::Bool, Ty::U8, Ty::U16, Ty::I32, Ty::U64, Ty::F32, Ty::Char, Ty::Str, Ty::Bytes, Ty::BigDecimal, Ty::Date]
}

/// all constructors applied to `t` (with `u` as the other member)
pub fn wrap(t: &Ty, u: &Ty) -> Vec<Ty> {
    let (t, u) = (t.clone(), u.clone());
    vec![
        Ty::Opt(bx(t.clone())),
        Ty::Newtype(bx(t.clone())),
        Ty::Seq(bx(t.clone())),
        Ty::Map(bx(t.clone())),
        Ty::Tuple(vec![t.clone()]),
        Ty::Tuple(vec![t.clone(), u.clone()]),
        Ty::Tuple(vec![u.clone(), t.clone(), u.clone()]),
        Ty::TupleStruct(vec![u.clone(), t.clone()]),
        Ty::Struct(vec![t.clone()]),
        Ty::Struct(vec![t.clone(), u.clone(), t.clone()]),
        Ty::Enum(vec![Var::Unit, Var::New(t.clone())]),
        Ty::Enum(vec![Var::Tuple(vec![t.clone(), u.clone()]), Var::Unit, Var::Struct(vec![u.clone(), t.clone()])]),
    ]
}
pub fn empties() -> Vec<Ty> {
    vec![
        Ty::Tuple(vec![]), Ty::TupleStruct(vec![]), Ty::Struct(vec![]),
        Ty::Enum(vec![Var::Unit]), Ty::Enum(vec![Var::Tuple(vec![]), Var::Struct(vec![])]),
        Ty::Enum(vec![Var::New(Ty::Unit), Var::New(Ty::UnitStruct)]),
    ]
}
pub fn depth1() -> Vec<Ty> {
    let mut l = empties();
    for t in atoms() { l.extend(wrap(&t, &Ty::U16)) }
    l
}
/// depth-1 types over the given atoms
pub fn depth1_over(a: &[Ty]) -> Vec<Ty> {
    let mut l = empties();
    for t in a { l.extend(wrap(t, &Ty::U8)) }
    l
}
pub fn depth2(a: &[Ty]) -> Vec<Ty> {
    let mut l = Vec::new();
    for t in depth1_over(a) { l.extend(wrap(&t, &Ty::Str)) }
    l
}

fn bits(w: u32, full: bool) -> Vec<u64> {
    let max = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    let mut v = vec![0, 1, 0x7F, 0x80];
    for k in 1..=9 {
        let e = 7 * k;
        if e < w { v.extend([(1u64 << e) - 1, 1u64 << e]); }
    }
    v.extend([max >> 1, (max >> 1) + 1, max - 1, max, 0x5A5A_5A5A_5A5A_5A5A & max, 0x0123_4567_89AB_CDEF & max]);
    v.sort();
    v.dedup();
    if !full { v = vec![v[1], 0x80, max] }
    v
}

/// values of an atom, simplest first. rich 0: 1, rich 1: 2-3, rich 2: boundaries
pub fn atom_vals(t: &Ty, rich: u8) -> Vec<Val> {
    let s = |x: &str| Val::Str(x.to_string());
    let v: Vec<Val> = match t {
        Ty::Unit | Ty::UnitStruct => vec![Val::Unit],
        Ty::Bool => vec![Val::Bool(true), Val::Bool(false)],
        Ty::U8 => (if rich == 2 { vec![1, 0, 2, 127, 128, 255] } else { vec![1, 255] }).into_iter().map(Val::U8).collect(),
        Ty::I8 => (if rich == 2 { vec![-1, 0, 1, 127, -128] } else { vec![-1, 127] }).into_iter().map(Val::I8).collect(),
        Ty::U16 => bits(16, rich == 2).into_iter().map(|x| Val::U16(x as u16)).collect(),
        Ty::U32 => bits(32, rich == 2).into_iter().map(|x| Val::U32(x as u32)).collect(),
        Ty::U64 => bits(64, rich == 2).into_iter().map(Val::U64).collect(),
        Ty::I16 => bits(16, rich == 2).into_iter().map(|x| Val::I16(unzigzag(x) as i16)).collect(),
        Ty::I32 => bits(32, rich == 2).into_iter().map(|x| Val::I32(unzigzag(x) as i32)).collect(),
        Ty::I64 => bits(64, rich == 2).into_iter().map(|x| Val::I64(unzigzag(x))).collect(),
        Ty::F32 => (if rich == 2 {
            vec![0x3F80_0000, 0, 0x8000_0000, 0x7F80_0000, 0xFF80_0000, 0x7FC0_0000, 0x7FC1_2345, 0xFFC0_0001, 0x7F80_0001, 1, 0x0080_0000, 0x7F7F_FFFF, 0x0102_0304]
        } else { vec![0x0102_0304, 0x7FC1_2345] }).into_iter().map(Val::F32).collect(),
        Ty::F64 => (if rich == 2 {
            vec![0x3FF0_0000_0000_0000, 0, 1 << 63, 0x7FF0_0000_0000_0000, 0xFFF0_0000_0000_0000, 0x7FF8_0000_0000_0000, 0x7FF8_1234_5678_9ABC,
                 0x7FF0_0000_0000_0001, 1, 0x0010_0000_0000_0000, 0x7FEF_FFFF_FFFF_FFFF, 0x0102_0304_0506_0708]
        } else { vec![0x0102_0304_0506_0708, 0x7FF8_1234_5678_9ABC] }).into_iter().map(Val::F64).collect(),
        Ty::Char => (if rich == 2 { vec!['a', '\0', '\u{7F}', '\u{80}', '\u{7FF}', '\u{800}', '\u{D7FF}', '\u{E000}', '\u{FFFD}', '\u{FFFF}', '\u{10000}', '\u{10FFFF}'] }
                     else { vec!['a', '\u{10FFFF}'] }).into_iter().map(Val::Char).collect(),
        Ty::Str | Ty::StrVia => {
            let mut l = vec![s("a"), s("")];
            if rich >= 1 { l.push(s("k\u{e9}\u{20ac}")) }
            if rich == 2 {
                l.extend([s("\0"), s("\u{1F600}\u{10FFFF}"), s("\u{FEFF}x")]);
                l.extend([127, 128, 129].map(|n| s(&"x".repeat(n))));
                l.extend([126, 127, 128].map(|n| s(&("y".repeat(n - 1) + "\u{20ac}"))));
            }
            l
        }
        Ty::Bytes | Ty::BytesVia => {
            let mut l = vec![Val::Bytes(vec![7]), Val::Bytes(vec![])];
            if rich >= 1 { l.push(Val::Bytes(vec![0xFF, 0x80, 0])) }
            if rich == 2 { l.extend([127, 128, 4095, 4096, 4097].map(|n| Val::Bytes((0..n).map(|i| (i % 251) as u8).collect()))) }
            l
        }
        Ty::BigUint => (if rich == 2 { vec![vec![1], vec![], vec![255], vec![0, 1], vec![0xFF; 127], vec![1; 128], vec![2; 200]] }
                        else { vec![vec![1], vec![], vec![0, 1]] }).into_iter().map(Val::Big).collect(),
        Ty::BigInt => (if rich == 2 { vec![vec![1], vec![], vec![255], vec![127], vec![128], vec![128, 0], vec![127, 255], vec![3; 127], vec![0x85; 128]] }
                       else { vec![vec![1], vec![], vec![127, 255]] }).into_iter().map(Val::Big).collect(),
        Ty::BigDecimal => (if rich == 2 {
            vec![(vec![1], 0), (vec![], 0), (vec![1], 1), (vec![255], -1), (vec![15], 1000), (vec![255, 127], -70), (vec![9; 130], 5), (vec![1], i64::MAX), (vec![1], i64::MIN)]
        } else { vec![(vec![1], 1), (vec![], 0), (vec![15, 128], -70)] }).into_iter().map(|(b, s)| Val::Dec(b, s)).collect(),
        Ty::Date => (if rich == 2 {
            vec![(2000, 1), (1999, 365), (2000, 366), (2031, 200), (2032, 64), (2064, 129), (-9999, 1), (9999, 365), (1970, 65), (0, 60)]
        } else { vec![(2000, 1), (1904, 366)] }).into_iter().map(|(y, d)| Val::Date(y, d)).collect(),
        Ty::DateTime => (if rich == 2 {
            vec![(0, 0), (1, 1), (-1, 999_999_999), (63, 127), (64, 128), (i32::MAX as i64, 1 << 14), (-62_135_596_800, 1 << 21), (253_402_300_799, 999_999_999), (-377_705_116_800, 0)]
        } else { vec![(1, 0), (-1, 999_999_999)] }).into_iter().map(|(s, n)| Val::DateTime(s, n)).collect(),
        _ => panic!("harness: not an atom {:?}", t),
    };
    match rich { 0 => v[..1].to_vec(), 1 => v[..v.len().min(3)].to_vec(), _ => v }
}
pub fn is_atom(t: &Ty) -> bool { atoms().contains(t) }

/// choose a value of `t`; lists have up to `maxlen` elements
pub fn value(c: &Ctx, t: &Ty, rich: u8, maxlen: usize) -> Val {
    match t {
        Ty::Opt(t) => if c.choose(2) == 0 { Val::Opt(Some(Box::new(value(c, t, rich, maxlen)))) } else { Val::Opt(None) },
        Ty::Newtype(t) => Val::List(vec![value(c, t, rich, maxlen)]),
        Ty::Seq(t) => {
            let n = [1, 0, 2, 3][c.choose(maxlen + 1)];
            let n = n.min(maxlen);
            Val::List((0..n).map(|i| value(c, t, if i == 0 { rich } else { rich.min(1) }, maxlen)).collect())
        }
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Val::List(ts.iter().map(|t| value(c, t, rich, maxlen)).collect()),
        Ty::Map(t) => {
            let n = [1, 0, 2, 3][c.choose(maxlen + 1)].min(maxlen);
            let keys = ["k", "", "\u{e9}\u{20ac}"];
            Val::Map((0..n).map(|i| (keys[i].to_string(), value(c, t, if i == 0 { rich } else { rich.min(1) }, maxlen))).collect())
        }
        Ty::Enum(vs) => {
            let i = c.choose(vs.len());
            let l = match &vs[i] {
                Var::Unit => vec![],
                Var::New(t) => vec![value(c, t, rich, maxlen)],
                Var::Tuple(ts) | Var::Struct(ts) => ts.iter().map(|t| value(c, t, rich, maxlen)).collect(),
            };
            Val::Enum(i as u32, l)
        }
        t => c.pick(&atom_vals(t, rich)).clone(),
    }
}

/// a fixed small value of `t`
pub fn default_value(t: &Ty) -> Val {
    match t {
        Ty::Opt(t) => Val::Opt(Some(Box::new(default_value(t)))),
        Ty::Newtype(t) => Val::List(vec![default_value(t)]),
        Ty::Seq(t) => Val::List(vec![default_value(t), default_value(t)]),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => Val::List(ts.iter().map(default_value).collect()),
        Ty::Map(t) => Val::Map(vec![("k".into(), default_value(t))]),
        Ty::Enum(vs) => {
            let i = vs.len() - 1;
            let l = match &vs[i] {
                Var::Unit => vec![],
                Var::New(t) => vec![default_value(t)],
                Var::Tuple(ts) | Var::Struct(ts) => ts.iter().map(default_value).collect(),
            };
            Val::Enum(i as u32, l)
        }
        t => atom_vals(t, 1).last().unwrap().clone(),
    }
}

// ---------------------------------------------------------------- headers

pub fn leaf_headers() -> Vec<Header> {
    use Header::*;
    vec![Unit, Boolean, UInt8, UInt16, UInt32, UInt64, Int8, Int16, Int32, Int64, Float32, Float64, BigUInt, BigInt, BigDecimal,
         String, Binary, Date, DateTime]
}
pub fn wrap_header(h: &Header, u: &Header) -> Vec<Header> {
    use Header::*;
    let b = || Box::new(h.clone());
    vec![
        Optional(b()), Array(b()), Map(b()), Tuple(vec![h.clone()]), Tuple(vec![h.clone(), u.clone()]),
        Enum(vec![h.clone()]), Enum(vec![u.clone(), h.clone()]), Tuple(vec![u.clone(), u.clone(), h.clone()]), Enum(vec![h.clone(), h.clone(), u.clone()]),
    ]
}
pub fn headers1(leaves: &[Header]) -> Vec<Header> {
    let mut l = vec![Header::Tuple(vec![])];
    for h in leaves { l.extend(wrap_header(h, &Header::UInt16)) }
    l
}
pub fn headers2(leaves: &[Header]) -> Vec<Header> {
    let mut l = Vec::new();
    for h in headers1(leaves) { l.extend(wrap_header(&h, &Header::String)) }
    l
}

/// deterministic filler text of exactly `n` bytes ending in a multi-byte character when it fits
pub fn text(n: usize) -> String {
    let mut s = String::with_capacity(n);
    while s.len() + 3 < n { s.push((b'a' + (s.len() % 26) as u8) as char) }
    match n - s.len() { 3 => s.push('\u{20ac}'), 2 => s.push('\u{e9}'), 1 => s.push('z'), _ => {} }
    debug_assert_eq!(s.len(), n);
    s
}
pub fn bytes(n: usize) -> Vec<u8> { (0..n).map(|i| (i as u32 * 37 % 253) as u8).collect() }

/// lengths worth trying beyond the exhaustive small ones
pub fn long_lengths(thorough: bool) -> Vec<usize> {
    let mut v = vec![];
    for c in [4096usize, 8192, 12288, 16384, 32768, 65535, 65536, 1 << 17, 1 << 20, 1 << 21] {
        for d in -2i64..=2 { v.push((c as i64 + d) as usize) }
    }
    if thorough { for c in [1usize << 22, 1 << 24, 1 << 28] { for d in -1i64..=1 { v.push((c as i64 + d) as usize) } } }
    v.sort();
    v.dedup();
    v
}

// ---------------------------------------------------------------- every tree of a size

/// every list of trees of `n` nodes altogether
fn forest<T>(c: &Ctx, n: usize, tree: &dyn Fn(&Ctx, usize) -> T) -> Vec<T> {
    let mut l = Vec::new();
    let mut left = n;
    while left > 0 {
        let k = left - c.choose(left);
        l.push(tree(c, k));
        left -= k;
    }
    l
}
/// every header of exactly `n` nodes over these leaves
pub fn header_tree(c: &Ctx, n: usize, leaves: &[Header]) -> Header {
    if n == 1 {
        let k = c.choose(leaves.len() + 2);
        return if k < leaves.len() { leaves[k].clone() } else if k == leaves.len() { Header::Tuple(vec![]) } else { Header::Enum(vec![]) };
    }
    let one = |c: &Ctx, n: usize| header_tree(c, n, leaves);
    match c.choose(5) {
        0 => Header::Optional(Box::new(one(c, n - 1))),
        1 => Header::Array(Box::new(one(c, n - 1))),
        2 => Header::Map(Box::new(one(c, n - 1))),
        3 => Header::Tuple(forest(c, n - 1, &one)),
        _ => Header::Enum(forest(c, n - 1, &one)),
    }
}
/// every body of exactly `n` nodes over these leaves (map keys follow the position)
pub fn body_tree(c: &Ctx, n: usize, leaves: &[dlhn::Body]) -> dlhn::Body {
    use dlhn::Body as B;
    if n == 1 {
        let k = c.choose(leaves.len() + 4);
        return if k < leaves.len() { leaves[k].clone() } else { [B::Tuple(vec![]), B::Optional(None), B::Array(vec![]), B::Map(Default::default())][k - leaves.len()].clone() };
    }
    let one = |c: &Ctx, n: usize| body_tree(c, n, leaves);
    match c.choose(5) {
        0 => B::Optional(Some(Box::new(one(c, n - 1)))),
        1 => B::Array(forest(c, n - 1, &one)),
        2 => B::Map(forest(c, n - 1, &one).into_iter().enumerate().map(|(i, b)| (format!("k{}", i), b)).collect()),
        3 => B::Tuple(forest(c, n - 1, &one)),
        _ => { let i = c.choose(3) as u32; B::Enum(i, Box::new(one(c, n - 1))) }
    }
}
/// every type of exactly `n` nodes over these leaves; an enum's variants are nodes
pub fn type_tree(c: &Ctx, n: usize, leaves: &[Ty]) -> Ty {
    if n == 1 {
        let k = c.choose(leaves.len() + 3);
        return if k < leaves.len() { leaves[k].clone() } else { [Ty::Tuple(vec![]), Ty::TupleStruct(vec![]), Ty::Struct(vec![])][k - leaves.len()].clone() };
    }
    let one = |c: &Ctx, n: usize| type_tree(c, n, leaves);
    match c.choose(8) {
        0 => Ty::Opt(bx(one(c, n - 1))),
        1 => Ty::Newtype(bx(one(c, n - 1))),
        2 => Ty::Seq(bx(one(c, n - 1))),
        3 => Ty::Map(bx(one(c, n - 1))),
        4 => Ty::Tuple(forest(c, n - 1, &one)),
        5 => Ty::TupleStruct(forest(c, n - 1, &one)),
        6 => Ty::Struct(forest(c, n - 1, &one)),
        _ => Ty::Enum(forest(c, n - 1, &|c: &Ctx, n: usize| {
            if n == 1 { return [Var::Unit, Var::Tuple(vec![]), Var::Struct(vec![])][c.choose(3)].clone() }
            match c.choose(3) {
                0 => Var::New(one(c, n - 1)),
                1 => Var::Tuple(forest(c, n - 1, &one)),
                _ => Var::Struct(forest(c, n - 1, &one)),
            }
        })),
    }
}
