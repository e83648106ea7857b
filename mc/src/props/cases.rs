//! Families of (type, value) cases shared by several properties.
use crate::explore::Ctx;
use crate::gen::*;
use crate::model::*;
use std::sync::OnceLock;

/// shapes: all scalars with boundary values, all constructors over all scalars, two levels over representatives
pub fn shapes(th: bool) -> Vec<(Ty, u8)> {
    let mut l: Vec<(Ty, u8)> = Vec::new();
    for t in atoms() { l.push((t, 2)) }
    for t in depth1() { l.push((t, 2)) }
    let reps: Vec<Ty> = if th { atoms() } else { vec![Ty::Unit, Ty::U16, Ty::Str, Ty::I64, Ty::BigDecimal] };
    for t in depth2(&reps) { l.push((t, 1)) }
    if th {
        for t in depth2(&[Ty::U8, Ty::Str]) {
            for w in wrap(&t, &Ty::Bool) { l.push((w, 0)) }
        }
    }
    l
}
pub fn shape_case(c: &Ctx, l: &[(Ty, u8)]) -> (Ty, Val) {
    let (t, rich) = c.pick(l);
    let rich = if depth(t) >= 1 && *rich == 2 && fan(t) > 2 { 1 } else { *rich };
    let v = value(c, t, rich, if depth(t) >= 3 { 1 } else { 2 });
    (t.clone(), v)
}
pub fn depth(t: &Ty) -> usize {
    match t {
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Seq(t) | Ty::Map(t) => 1 + depth(t),
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => 1 + ts.iter().map(depth).max().unwrap_or(0),
        Ty::Enum(vs) => 1 + vs.iter().map(|v| match v { Var::Unit => 0, Var::New(t) => depth(t), Var::Tuple(ts) | Var::Struct(ts) => ts.iter().map(depth).max().unwrap_or(0) }).max().unwrap_or(0),
        _ => 0,
    }
}
/// most members a value holds side by side
fn fan(t: &Ty) -> usize {
    match t {
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => ts.len(),
        Ty::Enum(vs) => vs.iter().map(|v| match v { Var::Tuple(ts) | Var::Struct(ts) => ts.len(), _ => 1 }).max().unwrap_or(0),
        _ => 1,
    }
}

/// where a string or binary of interesting length sits
pub fn text_case(c: &Ctx, n: usize, kinds: usize) -> (Ty, Val) {
    let s = Val::Str(text(n));
    let b = Val::Bytes(bytes(n));
    match c.choose(kinds) {
        0 => (Ty::Str, s),
        1 => (Ty::Bytes, b),
        2 => (Ty::StrVia, s),
        3 => (Ty::BytesVia, b),
        4 => (Ty::Tuple(vec![Ty::Str, Ty::U16, Ty::Bytes, Ty::U16]), Val::List(vec![s, Val::U16(0x1234), b, Val::U16(0xFFFE)])),
        5 => (Ty::Map(bx(Ty::U16)), Val::Map(vec![(text(n), Val::U16(300)), ("q".into(), Val::U16(2))])),
        6 => (Ty::Seq(bx(Ty::Str)), Val::List(vec![s, Val::Str("tail".into())])),
        7 => (Ty::Big_(n), Val::Big(bytes(n))),
        _ => unreachable!(),
    }
}
impl Ty {
    #[allow(non_snake_case)]
    fn Big_(n: usize) -> Ty { if n % 2 == 0 { Ty::BigUint } else { Ty::BigInt } }
}

pub fn big_enum(kind: usize) -> &'static Ty {
    static E: OnceLock<Vec<Ty>> = OnceLock::new();
    &E.get_or_init(|| {
        let n = 70001;
        vec![
            Ty::Enum(vec![Var::Unit; n]),
            Ty::Enum(vec![Var::New(Ty::U16); n]),
            Ty::Enum(vec![Var::Tuple(vec![Ty::U8, Ty::Str]); n]),
            Ty::Enum(vec![Var::Struct(vec![Ty::Str, Ty::U8]); n]),
        ]
    })[kind]
}
pub fn variant_case(i: u32, kind: usize) -> (&'static Ty, Val) {
    let s = || Val::Str("p".into());
    let l = match kind { 0 => vec![], 1 => vec![Val::U16(777)], 2 => vec![Val::U8(9), s()], _ => vec![s(), Val::U8(9)] };
    (big_enum(kind), Val::Enum(i, l))
}

pub fn wide_case(c: &Ctx, n: usize) -> (Ty, Val) {
    let ts: Vec<Ty> = (0..n).map(|i| match i % 4 { 0 => Ty::U8, 1 => Ty::Str, 2 => Ty::Opt(bx(Ty::U16)), _ => Ty::Unit }).collect();
    let vs: Vec<Val> = (0..n).map(|i| match i % 4 {
        0 => Val::U8(i as u8),
        1 => Val::Str(format!("s{}", i)),
        2 => if i % 8 == 2 { Val::Opt(None) } else { Val::Opt(Some(Box::new(Val::U16(i as u16 * 3)))) },
        _ => Val::Unit,
    }).collect();
    match c.choose(5) {
        0 => (Ty::Struct(ts), Val::List(vs)),
        1 => (Ty::Tuple(ts), Val::List(vs)),
        2 => (Ty::TupleStruct(ts), Val::List(vs)),
        3 => (Ty::Enum(vec![Var::Unit, Var::Struct(ts)]), Val::Enum(1, vs)),
        _ => (Ty::Enum(vec![Var::Tuple(ts)]), Val::Enum(0, vs)),
    }
}

pub fn count_case(c: &Ctx, n: usize) -> (Ty, Val) {
    match c.choose(4) {
        0 => (Ty::Seq(bx(Ty::U8)), Val::List((0..n).map(|i| Val::U8(i as u8)).collect())),
        1 => (Ty::Seq(bx(Ty::Str)), Val::List((0..n).map(|i| Val::Str(if i % 2 == 0 { String::new() } else { "x".into() })).collect())),
        2 => (Ty::Map(bx(Ty::U16)), Val::Map((0..n).map(|i| (format!("{}", i), Val::U16(i as u16))).collect())),
        _ => (Ty::Seq(bx(Ty::Unit)), Val::List(vec![Val::Unit; n])),
    }
}
pub fn counts(th: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=300).collect();
    for c in [512usize, 1024, 4096, 8192, 16384, 65536] { v.extend([c - 1, c, c + 1]) }
    if th { for c in [1usize << 20, 1 << 21] { v.extend([c - 1, c, c + 1]) } }
    v
}

pub const MANY: &str = "arrays of and maps to every scalar and library type and every constructor over units and integers, of 300, 16,385 and 65,537 elements (thorough: also 131,073 and 2^20+1) of up to four values in turn";
pub fn many_types() -> &'static [Ty] {
    static L: OnceLock<Vec<Ty>> = OnceLock::new();
    L.get_or_init(|| { let mut l = atoms(); l.extend(depth1_over(&[Ty::Unit, Ty::U16]).into_iter().filter(|t| !super::core::is_void(t))); l })
}
pub fn many_case(c: &Ctx, th: bool) -> (Ty, Val) {
    let t = c.pick(many_types());
    let mut ns = vec![300usize, 16_385, 65_537];
    if th { ns.extend([131_073, (1 << 20) + 1]) }
    let n = *c.pick(&ns);
    let mut vs: Vec<Val> = vec![default_value(t)];
    if depth(t) == 0 { vs.extend(atom_vals(t, 1).into_iter().filter(|v| super::encoded(t, v).len() < 24).take(3)) }
    if let Ty::Opt(_) = t { vs.push(Val::Opt(None)) }
    if c.flag() { (Ty::Map(bx(t.clone())), Val::Map((0..n).map(|i| (format!("{:07}", i), vs[i % vs.len()].clone())).collect())) } else { (Ty::Seq(bx(t.clone())), Val::List((0..n).map(|i| vs[i % vs.len()].clone()).collect())) }
}

pub fn nested_case(c: &Ctx, d: usize) -> (Ty, Val) {
    let kind = c.choose(6);
    let mut t = Ty::U16;
    let mut v = Val::U16(0xBEEF);
    for i in 0..d {
        (t, v) = match kind {
            0 => (Ty::Opt(bx(t)), Val::Opt(Some(Box::new(v)))),
            1 => (Ty::Seq(bx(t)), Val::List(vec![v])),
            2 => (Ty::Map(bx(t)), Val::Map(vec![(format!("{}", i), v)])),
            3 => (Ty::Struct(vec![Ty::U8, t]), Val::List(vec![Val::U8(i as u8), v])),
            4 => (Ty::Enum(vec![Var::Unit, Var::New(t)]), Val::Enum(1, vec![v])),
            _ => (Ty::Newtype(bx(Ty::Tuple(vec![t, Ty::Bool]))), Val::List(vec![Val::List(vec![v, Val::Bool(i % 2 == 0)])])),
        };
    }
    (t, v)
}

/// keys that differ in length, order, encoding and looks
pub fn keys() -> Vec<String> {
    let mut l: Vec<String> = ["", "\0", "a", "b", "aa", "ab", "A", "0", "9", "10", " ", "\u{7F}", "\u{80}", "\u{e9}", "e\u{301}", "\u{FFFF}", "\u{10000}", "__x", "self", "None"].iter().map(|s| s.to_string()).collect();
    l.extend([127, 128].map(|n| "k".repeat(n)));
    l
}
/// What the members of a value hold, next to each other: every pair of boundary values of an atom (equal ones too) in each
/// container, every two atoms side by side, every two and three keys, every run of a few small values.
pub fn content_case(c: &Ctx) -> (Ty, Val) {
    let a: Vec<Ty> = atoms();
    match c.choose(6) {
        0 => {
            let t = c.pick(&a).clone();
            let l = atom_vals(&t, 2);
            let (x, y) = (c.pick(&l).clone(), c.pick(&l).clone());
            let some = |v: Val| Val::Opt(Some(Box::new(v)));
            match c.choose(7) {
                0 => (Ty::Seq(bx(t)), Val::List(vec![x, y])),
                1 => (Ty::Map(bx(t)), Val::Map(vec![("k".into(), x), ("l".into(), y)])),
                2 => (Ty::Tuple(vec![t.clone(), t]), Val::List(vec![x, y])),
                3 => (Ty::Struct(vec![t.clone(), t]), Val::List(vec![x, y])),
                4 => (Ty::Tuple(vec![Ty::Opt(bx(t.clone())), Ty::Opt(bx(t))]), Val::List(vec![some(x), some(y)])),
                5 => (Ty::Seq(bx(Ty::Opt(bx(t)))), Val::List(vec![some(x), Val::Opt(None), some(y)])),
                _ => (Ty::Seq(bx(Ty::Seq(bx(t)))), Val::List(vec![Val::List(vec![x.clone(), y.clone()]), Val::List(vec![]), Val::List(vec![y, x])])),
            }
        }
        1 => {
            let (t, u) = (c.pick(&a).clone(), c.pick(&a).clone());
            let (x, y) = (c.pick(&atom_vals(&t, 2)).clone(), c.pick(&atom_vals(&u, 2)).clone());
            (Ty::Tuple(vec![t, u]), Val::List(vec![x, y]))
        }
        2 => {
            let k = keys();
            let n = c.choose(2) + 2;
            let mut l: Vec<String> = vec![];
            for i in 0..n { let j = c.choose(k.len() - i); let left: Vec<&String> = k.iter().filter(|x| !l.contains(x)).collect(); let s = left[j].clone(); l.push(s) }
            match c.choose(3) {
                0 => (Ty::Map(bx(Ty::U16)), Val::Map(l.into_iter().enumerate().map(|(i, s)| (s, Val::U16(i as u16 * 200))).collect())),
                1 => (Ty::Map(bx(Ty::Str)), Val::Map(l.iter().rev().cloned().zip(l.iter().map(|s| Val::Str(s.clone()))).collect())),
                _ => (Ty::Map(bx(Ty::Map(bx(Ty::Unit)))), Val::Map(l.iter().cloned().map(|s| (s.clone(), Val::Map(vec![(s, Val::Unit)]))).collect())),
            }
        }
        3 => {
            let some = |v: Val| Val::Opt(Some(Box::new(v)));
            let (t, l): (Ty, Vec<Val>) = [
                (Ty::Bool, vec![Val::Bool(false), Val::Bool(true)]),
                (Ty::U8, vec![Val::U8(0), Val::U8(1), Val::U8(255)]),
                (Ty::U32, vec![Val::U32(0), Val::U32(127), Val::U32(128)]),
                (Ty::I64, vec![Val::I64(0), Val::I64(-1), Val::I64(i64::MIN)]),
                (Ty::Str, vec![Val::Str("".into()), Val::Str("a".into()), Val::Str("\u{e9}".into())]),
                (Ty::Opt(bx(Ty::Bool)), vec![Val::Opt(None), some(Val::Bool(false)), some(Val::Bool(true))]),
                (Ty::Opt(bx(Ty::Unit)), vec![Val::Opt(None), some(Val::Unit)]),
                (Ty::F64, vec![Val::F64(0), Val::F64(1 << 63), Val::F64(0x7FF8_0000_0000_0000)]),
                (Ty::Enum(vec![Var::Unit, Var::New(Ty::Bool)]), vec![Val::Enum(0, vec![]), Val::Enum(1, vec![Val::Bool(false)]), Val::Enum(1, vec![Val::Bool(true)])]),
            ][c.choose(9)].clone();
            let n = c.choose(7);
            (Ty::Seq(bx(t)), Val::List((0..n).map(|_| c.pick(&l).clone()).collect()))
        }
        4 => {
            let i = c.choose(128 * 128 + 128);
            let s: String = if i < 128 { [i as u8 as char].iter().collect() } else { [((i - 128) / 128) as u8 as char, ((i - 128) % 128) as u8 as char].iter().collect() };
            (Ty::Tuple(vec![Ty::Str, Ty::Map(bx(Ty::Str))]), Val::List(vec![Val::Str(s.clone()), Val::Map(vec![(s.clone(), Val::Str(s))])]))
        }
        _ => {
            let i = c.choose(65536 + 256);
            let b = if i < 256 { vec![i as u8] } else { vec![((i - 256) / 256) as u8, (i % 256) as u8] };
            (Ty::Tuple(vec![Ty::Bytes, Ty::Seq(bx(Ty::U8))]), Val::List(vec![Val::Bytes(b.clone()), Val::List(b.into_iter().map(Val::U8).collect())]))
        }
    }
}
pub const CONTENTS: &str = "every pair of boundary values of each scalar and library type in seven containers, every two such types side by side, every two and three of 22 keys (empty, long, not in order, beyond the BMP), every run of up to 6 small values of nine types, every text of up to 2 ASCII characters as value and key, every binary of up to 2 bytes";
