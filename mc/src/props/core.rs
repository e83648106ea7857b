//! C01 round trip, C02 wire format, C03 integers, C06 truncation, C09 streams, C20 text.
use super::cases::*;
use super::*;
use crate::env::*;
use crate::explore::Check;
use crate::gen::*;
use dlhn::{Deserializer, Serializer};
use serde::de::DeserializeSeed;
use serde::Serialize;
use std::cell::{Cell, RefCell};
use std::io::Write;

type Oracle = fn(&Ctx, &Ty, &Val) -> Check;

/// the value families, each checked by `f`
fn families(th: bool, f: Oracle) -> Vec<Space> {
    let sh = shapes(th);
    let what = format!("{} types: all scalars and library types, all constructors over them, {} over representatives; values: boundary alphabets, up to 2 elements", sh.len(), if th { "three levels" } else { "two levels" });
    let go = move |c: &Ctx, t: &Ty, v: &Val| -> Check {
        c.label(|| format!("{} = {}", st(t), sv(v)));
        c.state(&(t, v));
        c.outcome(kind(t));
        f(c, t, v)
    };
    let max = if th { 20000 } else { 5000 };
    let mut l = vec![
        Space::new("shapes", &what, move |c| { let (t, v) = shape_case(c, &sh); go(c, &t, &v) }),
        Space::new("lengths", &format!("strings, binaries, map keys and big integers of every length 0..={}", max), move |c| {
            let n = c.choose(max + 1);
            let (t, v) = text_case(c, n, 8);
            go(c, &t, &v)
        }),
        Space::new("long lengths", "strings and binaries around powers of two and multiples of 4096 up to 2 MiB (thorough: 256 MiB)", move |c| {
            let l = long_lengths(th);
            let n = *c.pick(&l);
            let (t, v) = text_case(c, n, if n > 1 << 22 { 2 } else { 8 });
            go(c, &t, &v)
        }),
        Space::new("counts", "arrays and maps of 0..=300 elements and around powers of two", move |c| {
            let l = counts(th);
            let n = *c.pick(&l);
            let (t, v) = count_case(c, n);
            go(c, &t, &v)
        }),
        Space::new("many of each", MANY, move |c| { let (t, v) = many_case(c, th); go(c, &t, &v) }),
        Space::new("variants", "every enum variant index 0..=70000, unit, newtype, tuple and struct payloads", move |c| {
            let n = 70001 / 50 + 1;
            let kind = c.choose(4);
            let k = c.choose(n);
            for i in k * 50..((k + 1) * 50).min(70001) {
                if !th && i > 20000 && i % 50 > 3 && i < 65500 { continue }
                let (t, v) = variant_case(i as u32, kind);
                // the enum type has 70001 variants: do not format it
                c.count(1);
                f(c, t, &v).map_err(|e| format!("variant {} of payload kind {}: {}", i, kind, e))?;
            }
            c.label(|| format!("variants {}..{} with payload kind {}", k * 50, k * 50 + 50, kind));
            Ok(())
        }),
        Space::new("widths", "structs, tuples and enum payloads with 0..=300 members and around 1024", move |c| {
            let k = c.choose(if th { 1100 } else { 310 });
            let n = if k <= 300 || th { k } else { [511, 512, 513, 1000, 1023, 1024, 1025, 1999, 2000][k - 301] };
            let (t, v) = wide_case(c, n);
            go(c, &t, &v)
        }),
        Space::new("nesting", "chains of each constructor nested 1..=80 deep, and around 100, 2^7, 2^8, 2^9 and 1,000 deep", move |c| {
            let k = c.choose(80 + 12) + 1;
            let d = if k <= 80 { k } else { [100, 127, 128, 129, 255, 256, 257, 400, 511, 513, 1000, 1025][k - 81] };
            let (t, v) = nested_case(c, d);
            go(c, &t, &v)
        }),
        Space::new("contents", CONTENTS, move |c| { let (t, v) = content_case(c); go(c, &t, &v) }),
        Space::new("every tree of a size", &format!("every type of up to {} nodes over unit, an integer and text (a variant is a node), with every value of up to 2 elements (1 beyond 4 nodes)", if th { 6 } else { 5 }), move |c| {
            let n = c.choose(if th { 6 } else { 5 }) + 1;
            let t = type_tree(c, n, &[Ty::Unit, Ty::U16, Ty::Str]);
            let v = value(c, &t, 0, if n > 4 { 1 } else { 2 });
            go(c, &t, &v)
        }),
        Space::new("chars", "every char", move |c| {
            let chunk = c.choose(0x1100);
            for u in chunk as u32 * 256..(chunk as u32 + 1) * 256 {
                if let Some(ch) = char::from_u32(u) {
                    c.count(1);
                    f(c, &Ty::Char, &Val::Char(ch))?;
                }
            }
            c.label(|| format!("chars U+{:04X}..", chunk * 256));
            Ok(())
        }),
        Space::new("small integers", "every u8, i8, u16, i16, bool; all bytes of f32 and f64 varied one and two at a time", move |c| {
            match c.choose(5) {
                0 => for x in 0..=255u8 { c.count(2); f(c, &Ty::U8, &Val::U8(x))?; f(c, &Ty::I8, &Val::I8(x as i8))?; },
                1 => { let h = c.choose(256); for x in 0..256 { let x = (h * 256 + x) as u16; c.count(2); f(c, &Ty::U16, &Val::U16(x))?; f(c, &Ty::I16, &Val::I16(x as i16))?; } }
                2 => { for b in [true, false] { f(c, &Ty::Bool, &Val::Bool(b))?; } c.count(2); }
                3 => { let h = c.choose(256) as u32; for x in 0..256u32 { for (i, j) in [(0, 8), (8, 16), (16, 24), (0, 24)] { c.count(1); f(c, &Ty::F32, &Val::F32(h << i | x << j))?; } } }
                _ => { let h = c.choose(256) as u64; for x in 0..256u64 { for (i, j) in [(0, 8), (24, 32), (48, 56), (0, 56)] { c.count(1); f(c, &Ty::F64, &Val::F64(h << i | x << j))?; } } }
            }
            c.label(|| "all values of a small type".into());
            Ok(())
        }),
    ];
    if th {
        l.push(Space::new("all f32", "every bit pattern of f32 and every u32 and i32", move |c| {
            let h = c.choose(65536) as u32;
            for x in 0..65536u32 {
                let x = h << 16 | x;
                f(c, &Ty::F32, &Val::F32(x))?;
            }
            c.count(65536);
            Ok(())
        }));
    }
    l
}
fn kind(t: &Ty) -> &'static str {
    match t {
        Ty::Opt(_) => "optional", Ty::Newtype(_) => "newtype", Ty::Seq(_) => "array", Ty::Tuple(_) => "tuple", Ty::TupleStruct(_) => "tuple struct",
        Ty::Map(_) => "map", Ty::Struct(_) => "struct", Ty::Enum(_) => "enum",
        Ty::Str | Ty::StrVia | Ty::Char => "text", Ty::Bytes | Ty::BytesVia => "binary",
        Ty::BigUint | Ty::BigInt | Ty::BigDecimal => "big number", Ty::Date | Ty::DateTime => "date", Ty::Unit | Ty::UnitStruct => "unit",
        _ => "scalar",
    }
}

// ---------------------------------------------------------------- C01

pub fn c01(th: bool) -> Vec<Space> {
    let mut l = families(th, |c, t, v| roundtrip(c, t, v).map(|_| ()));
    #[cfg(feature = "full")]
    l.extend([huge::written(th), huge::read(th)]);
    l
}

// ---------------------------------------------------------------- C02

fn wire(c: &Ctx, t: &Ty, v: &Val) -> Check {
    let want = encoded(t, v);
    let got = ser_ok(t, v)?;
    if got != want { return Err(format!("{} of type {} is written as {}, the format says {}", sv(v), st(t), short(&got), short(&want))) }
    let again = ser_ok(t, v)?;
    if again != got { return Err(format!("{} of type {} written twice gives {} and {}", sv(v), st(t), short(&got), short(&again))) }
    c.validated(1);
    Ok(())
}

/// the same value to every kind of writer
fn writers(c: &Ctx, t: &Ty, v: &Val) -> Check {
    let want = encoded(t, v);
    let e = |x: dlhn::ser::Error| format!("{:?}", x);
    let got: Vec<u8> = match c.choose(8) {
        0 => { let mut o = vec![1, 2, 3]; real::ser_to(t, v, &mut o).map_err(e)?; if o[..3] != [1, 2, 3] { return Err("existing output changed".into()) } o[3..].to_vec() }
        1 => { let mut o = std::io::Cursor::new(Vec::new()); real::ser_to(t, v, &mut o).map_err(e)?; o.into_inner() }
        2 => { let mut o = vec![0u8; want.len()]; { let mut s = &mut o[..]; real::ser_to(t, v, &mut s).map_err(e)?; if !s.is_empty() { return Err(format!("{} bytes of a fixed buffer of the exact size left", s.len())) } } o }
        3 => { let mut o = std::io::BufWriter::with_capacity(3, Vec::new()); real::ser_to(t, v, &mut o).map_err(e)?; o.into_inner().map_err(|e| e.to_string())? }
        4 => { let mut o = std::io::LineWriter::new(Vec::new()); real::ser_to(t, v, &mut o).map_err(e)?; o.into_inner().map_err(|e| e.to_string())? }
        5 => { let (o, n) = (RefCell::new(vec![]), Cell::new(0)); { let b: Box<dyn Write + '_> = Box::new(Shared(&o, &n)); real::ser_to(t, v, b).map_err(e)?; } o.into_inner() }
        6 => { let mut o = Vec::new(); { let mut s = Serializer::new(&mut o); real::S(t, v).serialize(&mut s).map_err(e)?; } o }
        _ => { let mut o = std::collections::VecDeque::new(); real::ser_to(t, v, &mut o).map_err(e)?; o.into_iter().collect() }
    };
    if got != want { return Err(format!("{} of type {} to this writer gives {}, the format says {}", sv(v), st(t), short(&got), short(&want))) }
    c.validated(1);
    Ok(())
}

pub fn c02(th: bool) -> Vec<Space> {
    let mut l = families(th, wire);
    let sh: Vec<Ty> = depth1();
    l.push(Space::new("writers", "a value of every depth-1 type to eight kinds of writer", move |c| {
        let t = c.pick(&sh);
        let v = value(c, t, 0, 1);
        c.label(|| format!("{} = {}", st(t), sv(&v)));
        c.state(&(t, &v));
        writers(c, t, &v)
    }));
    #[cfg(feature = "full")]
    l.push(huge::written(th));
    l
}

// ---------------------------------------------------------------- C03

fn int_ok(t: &Ty, w: u32, v: &Val, wire: u64) -> Check {
    let b = real::ser(t, v).map_err(|e| format!("{:?} does not serialize: {:?}", v, e))?;
    if b.len() != uint_len(w, wire) { return Err(format!("{:?} written in {} bytes ({}), the shortest is {}", v, b.len(), short(&b), uint_len(w, wire))) }
    if uint_len_from_first(w, b[0]) != b.len() { return Err(format!("{:?} written as {}: first byte announces {} bytes", v, short(&b), uint_len_from_first(w, b[0]))) }
    let mut input = [0xEEu8; 12];
    input[..b.len()].copy_from_slice(&b);
    let (r, n) = real::de(t, &input[..b.len() + 2]);
    match r {
        Ok(x) if x == *v && n == b.len() => Ok(()),
        r => Err(format!("{:?} written as {} is read as {:?} using {} bytes", v, short(&b), r, n)),
    }
}
fn int_both(w: u32, u: u64) -> Check {
    match w {
        16 => { int_ok(&Ty::U16, 16, &Val::U16(u as u16), u)?; let s = u as u16 as i16; int_ok(&Ty::I16, 16, &Val::I16(s), zigzag(s as i64)) }
        32 => { int_ok(&Ty::U32, 32, &Val::U32(u as u32), u)?; let s = u as u32 as i32; int_ok(&Ty::I32, 32, &Val::I32(s), zigzag(s as i64)) }
        _ => { int_ok(&Ty::U64, 64, &Val::U64(u), u)?; let s = u as i64; int_ok(&Ty::I64, 64, &Val::I64(s), zigzag(s)) }
    }
}
/// any bytes at all: how many are consumed is fixed by the first
fn int_dec(w: u32, t: &Ty, b: &[u8]) -> Check {
    let need = uint_len_from_first(w, b[0]);
    let (r, n) = real::de(t, b);
    match (r, need <= b.len()) {
        (Ok(v), true) => {
            if n != need { return Err(format!("{} read as {:?} consumed {} bytes, the first byte announces {}", short(b), v, n, need)) }
            let mut d = Dec::new(b);
            let x = d.dec(t).map_err(|e| format!("model: {:?}", e))?;
            if x != v { return Err(format!("{} read as {:?}, should be {:?}", short(b), v, x)) }
            Ok(())
        }
        (Err(e), true) => {
            // only an encoding that is not the shortest may be refused
            let mut d = Dec::new(b);
            let _ = d.dec(t);
            if d.slack { Ok(()) } else { Err(format!("{} is a shortest encoding but is refused: {:?}", short(b), e)) }
        }
        (Ok(v), false) => Err(format!("{} is cut short but is read as {:?}", short(b), v)),
        (Err(_), false) => Ok(()),
    }
}

pub fn c03(th: bool) -> Vec<Space> {
    let mut l = vec![
        Space::new("16 bit, all", "every u16 and i16: shortest form, announced length, decodes back", |c| {
            let h = c.choose(256) as u64;
            for x in 0..256 { int_both(16, h << 8 | x)? }
            c.bulk(512);
            c.outcome("encoded");
            c.label(|| format!("u16/i16 {}..", h << 8));
            Ok(())
        }),
        Space::new("32 bit", if th { "every u32 and i32" } else { "u32 and i32: every value whose upper half is a boundary (0, 2^k, 2^k-1, max-2^k) or whose lower half is, the other half from a 256-value alphabet" }, move |c| {
            let h = c.choose(65536) as u64;
            c.label(|| format!("u32/i32 {:#x}....", h));
            let edge = |x: u64| { let y = x & 0xFFFF; y & y.wrapping_sub(1) == 0 || y & (y + 1) == 0 || (!y & 0xFFFF) & (!y & 0xFFFF).wrapping_sub(1) == 0 };
            if th {
                for x in 0..65536 { if x % 8192 == 0 { c.beat() } int_both(32, h << 16 | x)? }
                c.bulk(2 * 65536);
            } else if edge(h) {
                for x in 0..65536 { int_both(32, h << 16 | x)? }
                c.bulk(2 * 65536);
            } else {
                let mut n = 0;
                for k in 0..=16u64 { for d in [0u64, 1, 2, 0xFFFF, 0x5555] { n += 2; int_both(32, h << 16 | (((1u64 << k) + d) & 0xFFFF))? } }
                c.bulk(n);
            }
            c.outcome("encoded");
            Ok(())
        }),
        Space::new("64 bit", "u64 and i64: sums and differences of two powers of two and a low byte, and every pattern of 8 bytes from {00,01,7f,80,ff}", move |c| {
            let mut n = 0;
            if c.choose(2) == 0 {
                let i = c.choose(65);
                for j in 0..65u32 { for d in 0..if th { 65536u64 } else { 256 } {
                    let p = |k: u32| if k == 64 { 0 } else { 1u64 << k };
                    let a = p(i as u32).wrapping_add(p(j));
                    let b = p(i as u32).wrapping_sub(p(j));
                    for x in [a.wrapping_add(d), a.wrapping_sub(d), b.wrapping_add(d), b.wrapping_sub(d)] { n += 2; int_both(64, x)? }
                } c.beat() }
                c.label(|| format!("u64/i64 2^{} +- 2^j +- d", i));
            } else {
                let alpha = [0u64, 1, 0x7F, 0x80, 0xFF];
                let hi: u64 = (0..4).fold(0, |a, _| a << 8 | *c.pick(&alpha)) << 32;
                for k in 0..625 { let lo = (0..4).fold((0u64, k), |(a, k), _| (a << 8 | alpha[k % 5], k / 5)).0; n += 2; int_both(64, hi | lo)? }
                c.label(|| format!("u64/i64 bytes {:#x}|*", hi));
            }
            c.bulk(n);
            c.outcome("encoded");
            Ok(())
        }),
        Space::new("decode 16", "u16 and i16 from every byte string of 1 to 3 bytes", |c| {
            let a = c.choose(256) as u8;
            for t in [Ty::U16, Ty::I16] {
                int_dec(16, &t, &[a])?;
                for b in 0..=255u8 {
                    int_dec(16, &t, &[a, b])?;
                    for d in 0..=255u8 { int_dec(16, &t, &[a, b, d])? }
                    c.bulk(257);
                }
            }
            c.outcome("decoded");
            Ok(())
        }),
        Space::new("decode 32 and 64", "u32, i32, u64, i64 (also as array count and as text length) from every first byte with the rest from a boundary alphabet, every length", move |c| {
            let a = c.choose(256) as u8;
            let alpha: &[u8] = if th { &[0, 1, 0x3F, 0x40, 0x7F, 0x80, 0xFE, 0xFF] } else { &[0, 1, 0x80, 0xFF] };
            let len = c.choose(10);
            let mut n = 0;
            let k = (alpha.len() as u64).pow(len.min(if th { 6 } else { 8 }) as u32);
            for mut i in 0..k {
                let mut b = vec![a];
                for j in 0..len { if j < 8 { b.push(alpha[(i % alpha.len() as u64) as usize]); i /= alpha.len() as u64 } else { b.push(0x11) } }
                for (w, t) in [(32, Ty::U32), (32, Ty::I32), (64, Ty::U64), (64, Ty::I64)] { n += 1; int_dec(w, &t, &b)? }
                if i % 4096 == 0 { c.beat() }
            }
            c.bulk(n);
            c.outcome("decoded");
            c.label(|| format!("first byte {:#x}, {} more", a, len));
            Ok(())
        }),
    ];
    l.push(Space::new("bit walks", "for each width every value with at most three bits set or cleared", |c| {
        let w = *c.pick(&[16u32, 32, 64]);
        let i = c.choose(w as usize) as u32;
        let mut n = 0;
        for j in 0..w { for k in 0..w {
            let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
            let x = 1u64 << i | 1 << j | 1 << k;
            int_both(w, x)?;
            int_both(w, !x & m)?;
            n += 4;
        } }
        c.bulk(n);
        c.outcome("encoded");
        Ok(())
    }));
    l
}

// ---------------------------------------------------------------- C06

/// cuts to try of an encoding of length n
pub fn cuts(n: usize) -> Vec<usize> {
    if n <= 300 { return (0..n).collect() }
    let mut v: Vec<usize> = (0..40).chain(n - 40..n).collect();
    for b in [126usize, 127, 128, 129, 130, 131, 255, 256, 257, 4095, 4096, 4097, 4098, 4099, 4100, 8191, 8192, 8193, 8195, 8196, 12287, 12288, 12291, 16384, 32768, 65536] { if b < n { v.push(b) } }
    for k in 1..16 { v.push(n / 16 * k) }
    v.sort();
    v.dedup();
    v
}
fn truncated(c: &Ctx, t: &Ty, v: &Val) -> Check {
    let b = encoded(t, v);
    let l = cuts(b.len());
    c.transitions(l.len() as u64);
    for k in l {
        let (r, _) = real::de(t, &b[..k]);
        if let Ok(x) = r { return Err(format!("{} of type {} is {}; cut to {} of {} bytes it is still accepted, as {}", sv(v), st(t), short(&b), k, b.len(), sv(&x))) }
        c.validated(1);
    }
    // the same through a reader that delivers little at a time
    for k in cuts(b.len()).into_iter().take(64) {
        if let Ok(x) = real::de_from(t, &mut Dribble { data: &b[..k], step: 1 + k % 3 }) { return Err(format!("{} of type {} cut to {} bytes and delivered slowly is accepted, as {}", sv(v), st(t), k, sv(&x))) }
    }
    Ok(())
}
pub fn c06(th: bool) -> Vec<Space> {
    let mut l = families(th, truncated);
    l.retain(|s| !["all f32", "chars", "small integers", "many of each"].contains(&s.name.as_str()));
    let heads = { let mut h = leaf_headers(); h.extend(headers1(&leaf_headers())); h.extend(headers2(if th { leaf_headers() } else { vec![dlhn::Header::UInt16, dlhn::Header::String] }.as_slice())); h };
    let heads2 = heads.clone();
    l.push(Space::new("headers", "every proper prefix of every header of depth up to 3 (two levels of constructors), and of wide ones", move |c| {
        let k = c.choose(heads.len() + 6);
        let h = if k < heads.len() { heads[k].clone() } else {
            let n = [128, 300, 16383, 16384, 20000, 65535][k - heads.len()];
            if c.flag() { dlhn::Header::Tuple(vec![dlhn::Header::UInt8; n]) } else { dlhn::Header::Enum(vec![dlhn::Header::String; n]) }
        };
        let mut b = Vec::new();
        real::enc_header(&h, &mut b).ok_or("model")?;
        c.label(|| format!("header {}", short(&b)));
        c.state(&b);
        for k in cuts(b.len()) {
            if let (Ok(x), _) = real::header_de(&b[..k]) { return Err(format!("header {} cut to {} bytes is accepted as {:.200}", short(&b), k, format!("{:?}", x))) }
            c.transitions(1);
            c.validated(1);
        }
        Ok(())
    }));
    l.push(Space::new("bodies", "every proper prefix of the encodings of dynamic bodies under the same headers", move |c| {
        let h = c.pick(&heads2);
        let t = real::ty_of(h);
        if is_void(&t) { return Ok(()) }
        let v = value(c, &t, 1, 1);
        let b = encoded(&t, &v);
        c.label(|| format!("{:?}: {}", h, sv(&v)));
        c.state(&(&t, &v));
        for k in cuts(b.len()) {
            if let (Ok(x), _) = real::body_de(h, &b[..k]) { return Err(format!("{} under {:?} is {}; cut to {} bytes it is accepted as {:?}", sv(&v), h, short(&b), k, x)) }
            c.transitions(1);
            c.validated(1);
        }
        Ok(())
    }));
    l.push(Space::new("long bodies", "dynamic text, binary, array and map bodies of long lengths, cut at chunk boundaries", move |c| {
        use dlhn::Header as H;
        let n = *c.pick(&[127usize, 128, 129, 255, 300, 4095, 4096, 4097, 8192, 8193, 12288, 20000]);
        let (h, t, v) = match c.choose(4) {
            0 => (H::String, Ty::Str, Val::Str(text(n))),
            1 => (H::Binary, Ty::Bytes, Val::Bytes(bytes(n))),
            2 => (H::Array(Box::new(H::UInt16)), Ty::Seq(bx(Ty::U16)), Val::List((0..n).map(|i| Val::U16(i as u16)).collect())),
            _ => (H::Map(Box::new(H::UInt8)), Ty::Map(bx(Ty::U8)), Val::Map((0..n).map(|i| (i.to_string(), Val::U8(i as u8))).collect())),
        };
        let b = encoded(&t, &v);
        c.state(&(n, &t));
        c.label(|| format!("{:?} of length {}", h, n));
        for k in cuts(b.len()) {
            if let (Ok(_), _) = real::body_de(&h, &b[..k]) { return Err(format!("{:?} body of {} bytes cut to {} is accepted", h, b.len(), k)) }
            c.transitions(1);
            c.validated(1);
        }
        Ok(())
    }));
    l
}
pub fn is_void(t: &Ty) -> bool {
    match t {
        Ty::Enum(vs) => vs.is_empty(),
        _ => false,
    }
}

// ---------------------------------------------------------------- C09

#[derive(Clone)]
enum Op { Val(Ty, Val), Lib, FailSer, FailDe, Header(dlhn::Header), Body(dlhn::Header, Val) }

fn ops() -> Vec<Op> {
    use dlhn::Header as H;
    let u = |t: Ty| { let v = default_value(&t); Op::Val(t, v) };
    vec![
        u(Ty::U16), u(Ty::Str),
        Op::Val(Ty::Bytes, Val::Bytes(bytes(5000))),
        Op::Val(Ty::Str, Val::Str(text(200))),
        u(Ty::Opt(bx(Ty::I64))), u(Ty::Seq(bx(Ty::U8))), u(Ty::Map(bx(Ty::Str))),
        u(Ty::Enum(vec![Var::Unit, Var::Struct(vec![Ty::U8, Ty::Str])])),
        u(Ty::BigDecimal), u(Ty::DateTime), u(Ty::Char), u(Ty::Unit),
        Op::FailSer, Op::FailDe,
        Op::Body(H::Array(Box::new(H::String)), Val::List(vec![Val::Str("ab".into())])),
        Op::Header(H::Tuple(vec![H::UInt8, H::Optional(Box::new(H::String))])),
        Op::Lib,
    ]
}

/// a failing serialization to another output, and a failing deserialization of other input
fn disturb_ser(k: usize) -> Check {
    let mut m = std::collections::BTreeMap::new();
    m.insert(5u8, "x".to_string());
    let mut junk = Vec::new();
    if m.serialize(&mut Serializer::new(&mut junk)).is_ok() { return Err("a map with number keys was serialized".into()) }
    let mut small = [0u8; 3];
    let mut w = &mut small[..];
    if text(200 + k).serialize(&mut Serializer::new(&mut w)).is_ok() { return Err("a string fitted a buffer that is too small".into()) }
    Ok(())
}
fn disturb_de(_: usize) -> Check {
    for (t, b) in [(Ty::Str, vec![0x81u8, 0x03, b'a', b'b']), (Ty::Str, vec![2, 0xC3, 0x28]), (Ty::Bytes, vec![0xE0, 0xFF, 0xFF, 1, 2]), (Ty::Bool, vec![7]), (Ty::Seq(bx(Ty::U8)), vec![9, 1])] {
        if real::de(&t, &b).0.is_ok() { return Err(format!("{:?} accepted as {:?}", b, t)) }
    }
    Ok(())
}

fn stream(c: &Ctx, ops: &[Op], depth: usize) -> Check {
    // 0 Op per step; also how the encoders and decoders are shared
    let mut seq: Vec<Op> = Vec::new();
    for _ in 0..depth {
        let k = c.choose(ops.len() + 1);
        if k == 0 { break }
        seq.push(ops[k - 1].clone());
    }
    let one_ser = c.flag();
    let one_de = c.flag();
    let step = *c.pick(&[0usize, 1, 7]);
    // what the stream must contain
    let mut want = Vec::new();
    for o in &seq {
        match o {
            Op::Val(t, v) => enc(t, v, &mut want),
            Op::Body(h, v) => enc(&real::ty_of(h), v, &mut want),
            Op::Header(h) => real::enc_header(h, &mut want).ok_or("model")?,
            Op::Lib => { enc(&Ty::Seq(bx(Ty::U32)), &Val::List(vec![Val::U32(1), Val::U32(70000)]), &mut want) }
            Op::FailSer | Op::FailDe => {}
        }
    }
    let describe = || seq.iter().map(|o| match o { Op::Val(t, v) => format!("{}={}", st(t), sv(v)), Op::Body(h, v) => format!("body {:?}={}", h, sv(v)), Op::Header(h) => format!("header {:?}", h), Op::Lib => "Vec<u32>".into(), Op::FailSer => "failing ser".into(), Op::FailDe => "failing de".into() }).collect::<Vec<_>>().join("; ");
    c.label(&describe);
    // write
    let mut out = Vec::new();
    {
        let e = |e: dlhn::ser::Error| format!("serializing failed: {:?}", e);
        if one_ser && !seq.iter().any(|o| matches!(o, Op::Header(_))) {
            let mut s = Serializer::new(&mut out);
            for (i, o) in seq.iter().enumerate() {
                match o {
                    Op::Val(t, v) => real::S(t, v).serialize(&mut s).map_err(e)?,
                    Op::Body(h, v) => real::body_of(h, v)?.serialize(&mut s).map_err(e)?,
                    Op::Lib => vec![1u32, 70000].serialize(&mut s).map_err(e)?,
                    Op::FailSer => disturb_ser(i)?,
                    Op::FailDe => disturb_de(i)?,
                    Op::Header(_) => unreachable!(),
                }
            }
        } else {
            for (i, o) in seq.iter().enumerate() {
                match o {
                    Op::Val(t, v) => real::ser_to(t, v, &mut out).map_err(e)?,
                    Op::Body(h, v) => real::body_of(h, v)?.serialize(&mut Serializer::new(&mut out)).map_err(e)?,
                    Op::Lib => vec![1u32, 70000].serialize(&mut Serializer::new(&mut out)).map_err(e)?,
                    Op::Header(h) => h.serialize(&mut out).map_err(|e| e.to_string())?,
                    Op::FailSer => disturb_ser(i)?,
                    Op::FailDe => disturb_de(i)?,
                }
            }
        }
    }
    c.state(&(&out, one_ser));
    if out != want { return Err(format!("[{}] written one after another gives {}, should be {}", describe(), short(&out), short(&want))) }
    // read back
    let full = out.clone();
    fn read_all<R: std::io::Read>(r: &mut R, seq: &[Op], one_de: bool) -> Check {
        let want_of = |o: &Op| match o { Op::Val(t, v) => (t.clone(), v.clone()), Op::Lib => (Ty::Seq(bx(Ty::U32)), Val::List(vec![Val::U32(1), Val::U32(70000)])), _ => unreachable!() };
        let mut i = 0;
        while i < seq.len() {
            match &seq[i] {
                Op::Header(h) => {
                    use dlhn::DeserializeHeader;
                    let x = r.deserialize_header().map_err(|e| format!("value {}: header: {}", i, e))?;
                    if x != *h { return Err(format!("value {}: header came back as {:?}", i, x)) }
                    i += 1;
                }
                _ => {
                    // one `Deserializer` for a run of values, or one per value
                    let run = if one_de { seq[i..].iter().take_while(|o| !matches!(o, Op::Header(_))).count() } else { 1 };
                    let mut d = Deserializer::new(&mut *r);
                    for o in &seq[i..i + run] {
                        match o {
                            Op::Body(h, v) => {
                                let b = dlhn::Body::deserialize(h, &mut d).map_err(|e| format!("value {}: body: {:?}", i, e))?;
                                if real::val_of(&b)? != *v { return Err(format!("value {}: body came back as {:?}", i, b)) }
                            }
                            Op::FailSer => disturb_ser(i)?,
                            Op::FailDe => disturb_de(i)?,
                            o => {
                                let (t, v) = want_of(o);
                                let x = real::D(&t).deserialize(&mut d).map_err(|e| format!("value {} of {}: {:?}", i, st(&t), e))?;
                                if x != v { return Err(format!("value {} of {} came back as {}", i, st(&t), sv(&x))) }
                            }
                        }
                        i += 1;
                    }
                }
            }
        }
        Ok(())
    }
    let end = |r: Result<Val, dlhn::de::Error>, t: &Ty| match r {
        Err(dlhn::de::Error::Read) => Ok(()),
        r => Err(format!("reading {:?} at the end of the stream gives {:?}, not a read error", t, r)),
    };
    let ends = [Ty::U8, Ty::Bool, Ty::U64, Ty::F64, Ty::Str, Ty::Bytes, Ty::Opt(bx(Ty::Unit)), Ty::Seq(bx(Ty::U8)), Ty::Map(bx(Ty::U8)), Ty::Enum(vec![Var::Unit]), Ty::Char, Ty::Tuple(vec![Ty::U8]), Ty::Struct(vec![Ty::I16]), Ty::Date, Ty::BigInt];
    let r = if step == 0 {
        let mut r = &full[..];
        read_all(&mut r, &seq, one_de).and_then(|_| {
            if !r.is_empty() { return Err(format!("{} bytes left over", r.len())) }
            for t in &ends { end(real::de_from(t, &mut r), t)?; end(real::de_from(t, &mut r), t)? }
            Ok(())
        })
    } else {
        let mut r = Dribble { data: &full, step };
        read_all(&mut r, &seq, one_de).and_then(|_| {
            if !r.data.is_empty() { return Err(format!("{} bytes left over", r.data.len())) }
            for t in &ends { end(real::de_from(t, &mut r), t)? }
            Ok(())
        })
    };
    c.validated(1);
    c.transitions(2 * seq.len() as u64);
    c.outcome(&format!("{} values", seq.len()));
    r.map_err(|e| format!("[{}] read back (one decoder {}, step {}): {}", describe(), one_de, step, e))
}

pub fn c09(th: bool) -> Vec<Space> {
    let mut l = vec![
        Space::new("sequences", "every sequence of up to 3 (thorough: 4) operations from 17 (values of each framing, a header, a body, a failing serialization or deserialization elsewhere), one or several encoders and decoders, three delivery sizes", move |c| {
            stream(c, &ops(), if th { 4 } else { 3 })
        }),
        Space::new("repetition", "each operation repeated 1..=40 times, alone and alternating with each other one", |c| {
            let o = ops();
            let a = c.choose(o.len());
            let b = c.choose(o.len());
            let n = *c.pick(&[1usize, 2, 7, 40]);
            let mut seq = Vec::new();
            for _ in 0..n { seq.push(o[a].clone()); if a != b { seq.push(o[b].clone()) } }
            // fixed sequence: drive `stream` through a one-operation alphabet
            fixed(c, seq)
        }),
        Space::new("end of stream", "nothing left: every type that occupies bytes reports a read error, repeatedly, after any prior value", |c| {
            let l: Vec<Ty> = depth1().into_iter().chain(atoms()).filter(|t| !zero_size(t) && !encoded(t, &shortest(t)).is_empty()).collect();
            let t = c.pick(&l);
            c.state(t);
            c.label(|| st(t));
            for pre in [Ty::Unit, Ty::U16, Ty::Str] {
                let b = encoded(&pre, &default_value(&pre));
                let mut r = &b[..];
                real::de_from(&pre, &mut r).map_err(|e| format!("{:?}", e))?;
                for _ in 0..3 {
                    match real::de_from(t, &mut r) {
                        Err(dlhn::de::Error::Read) => {}
                        x => return Err(format!("reading {} at the end of the stream gives {:?}, not a read error", st(t), x)),
                    }
                }
                c.validated(1);
            }
            Ok(())
        }),
    ];
    l.push(Space::new("failures on the same reader", "after a failed value, a later value that begins at the reader's position reads correctly", |c| {
        // (bytes, type that fails on them, bytes it must have consumed)
        let bad: Vec<(Vec<u8>, Ty)> = vec![(vec![2], Ty::Bool), (vec![9], Ty::Opt(bx(Ty::U8))), (vec![2, 0xC3, 0x28], Ty::Str), (vec![200, 3], Ty::Enum(vec![Var::Unit]))];
        let (b, t) = c.pick(&bad);
        let after = c.pick(&ops()).clone();
        let Op::Val(t2, v2) = after else { return Ok(()) };
        c.state(&(b, &t2));
        c.label(|| format!("{:?} as {} then {}", b, st(t), st(&t2)));
        let mut input = b.clone();
        let m = encoded(&t2, &v2);
        input.extend_from_slice(&m);
        let mut r = &input[..];
        if let Ok(x) = real::de_from(t, &mut r) { return Err(format!("{:?} accepted as {} = {:?}", b, st(t), x)) }
        let mut r = &input[b.len()..];
        let x = real::de_from(&t2, &mut r).map_err(|e| format!("after a failed {}, {} fails: {:?}", st(t), st(&t2), e))?;
        if x != v2 || !r.is_empty() { return Err(format!("after a failed {}, {} came back as {}", st(t), sv(&v2), sv(&x))) }
        c.validated(1);
        Ok(())
    }));
    l.push(Space::new("alike after alike", "two values of 10 kinds each that carry the same octets but for one, at every position, of lengths 0..=140, 255..=257, 300, 4095..=4097 (quick: two different kinds only up to 34), taking turns three times through one encoder and one decoder; also one longer by an octet", move |c| {
        let lens: Vec<usize> = (0..=140).chain([255, 256, 257, 300, 4095, 4096, 4097]).collect();
        let n = *c.pick(&lens);
        let (k1, k2) = (c.choose(KINDS), c.choose(KINDS));
        if k1 != k2 && n > 34 && !th { return Ok(()) }
        let base: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        c.state(&(n, k1, k2));
        c.label(|| format!("kinds {} and {} of length {}", k1, k2, n));
        let mut count = 0;
        for p in 0..=n {
            if n > 300 && p > 40 && p + 40 < n && p % 64 > 1 { continue }
            for with in [b'A', base.get(p).map_or(b'a', |b| b ^ 1)] {
                let mut other = base.clone();
                if p == n { other.push(with) } else { other[p] = with }
                let (a, b) = (carrying(k1, &base), carrying(k2, &other));
                one_stream(&[&a, &b, &a, &b, &b, &a]).map_err(|e| format!("{} and {} alternating: {}", sv(&a.1), sv(&b.1), e))?;
                count += 1;
            }
        }
        c.bulk(count);
        Ok(())
    }));
    l.push(Space::new("numbers alike", "numbers and times of every fixed kind whose bits differ in one place, at every place, one after another through one encoder and one decoder", |c| {
        let base = *c.pick(&[0u64, 1, 0x7F, 0x80, 0x3FFF, 0x1234_5678_9ABC_DEF0, 0x3FF8_0000_0000_0000, u64::MAX, 1 << 63, 0x5555_5555_5555_5555]);
        let k = c.choose(14);
        let bit = c.choose(64);
        let make = |x: u64| -> (Ty, Val) { match k {
            0 => (Ty::U8, Val::U8(x as u8)), 1 => (Ty::I8, Val::I8(x as i8)), 2 => (Ty::U16, Val::U16(x as u16)), 3 => (Ty::I16, Val::I16(x as i16)),
            4 => (Ty::U32, Val::U32(x as u32)), 5 => (Ty::I32, Val::I32(x as i32)), 6 => (Ty::U64, Val::U64(x)), 7 => (Ty::I64, Val::I64(x as i64)),
            8 => (Ty::F32, Val::F32(x as u32)), 9 => (Ty::F64, Val::F64(x)),
            10 => (Ty::Bool, Val::Bool(x & 1 == 1)),
            11 => (Ty::Char, Val::Char(char::from_u32((x % 0xD800) as u32).unwrap())),
            12 => (Ty::Date, Val::Date((x >> 9) as i32 % 8000, 1 + (x as u16 & 0x1FF) % 365)),
            _ => (Ty::DateTime, Val::DateTime((x >> 24) as i64 % 100_000_000_000, (x as u32 & 0x1FFF_FFFF) % 1_000_000_000)),
        } };
        let (a, b) = (make(base), make(base ^ 1 << bit));
        c.state(&(base, k, bit));
        c.label(|| format!("{} and {}", sv(&a.1), sv(&b.1)));
        one_stream(&[&a, &b, &a, &b, &b, &a]).map_err(|e| format!("{} and {} alternating: {}", sv(&a.1), sv(&b.1), e))?;
        c.validated(1);
        Ok(())
    }));
    l.extend(histories(th));
    l
}
const KINDS: usize = 10;
/// a value that carries these octets (ASCII letters)
fn carrying(k: usize, b: &[u8]) -> (Ty, Val) {
    let s = || String::from_utf8(b.to_vec()).unwrap();
    match k {
        0 => (Ty::Str, Val::Str(s())),
        1 => (Ty::StrVia, Val::Str(s())),
        2 => (Ty::Bytes, Val::Bytes(b.to_vec())),
        3 => (Ty::BytesVia, Val::Bytes(b.to_vec())),
        4 => (Ty::Map(bx(Ty::U8)), Val::Map(vec![(s(), Val::U8(1))])),
        5 => (Ty::Seq(bx(Ty::U8)), Val::List(b.iter().map(|x| Val::U8(*x)).collect())),
        6 => (Ty::Tuple(vec![Ty::Str, Ty::Str]), Val::List(vec![Val::Str(s()), Val::Str(s())])),
        7 => (Ty::BigUint, Val::Big(b.to_vec())),
        8 => (Ty::Enum(vec![Var::Unit, Var::New(Ty::Str)]), Val::Enum(1, vec![Val::Str(s())])),
        _ => (Ty::Opt(bx(Ty::Str)), Val::Opt(Some(Box::new(Val::Str(s()))))),
    }
}
/// the values through one encoder, and back through one decoder
fn one_stream(l: &[&(Ty, Val)]) -> Check {
    let (mut out, mut want) = (Vec::new(), Vec::new());
    {
        let mut s = Serializer::new(&mut out);
        for (t, v) in l { enc(t, v, &mut want); real::S(t, v).serialize(&mut s).map_err(|e| format!("serializing failed: {:?}", e))? }
    }
    if out != want { return Err(format!("written one after another they give {}, should be {}", short(&out), short(&want))) }
    let mut r = &out[..];
    {
        let mut d = Deserializer::new(&mut r);
        for (i, (t, v)) in l.iter().enumerate() {
            let x = real::D(t).deserialize(&mut d).map_err(|e| format!("reading number {}: {:?}", i, e))?;
            if x != *v { return Err(format!("number {} came back as {}", i, sv(&x))) }
        }
    }
    if !r.is_empty() { return Err(format!("{} bytes left over", r.len())) }
    Ok(())
}
/// what every kind of operation looks like, for histories far longer than any counter the code may keep
fn history_cases() -> Vec<(Ty, Val)> {
    let mut l: Vec<(Ty, Val)> = Vec::new();
    for t in atoms().into_iter().chain(depth1_over(&[Ty::U16, Ty::Str])) {
        let v = default_value(&t);
        if let Ty::Enum(vs) = &t { for i in 1..vs.len() as u32 { let (t, v) = (t.clone(), match &vs[i as usize] { Var::Unit => Val::Enum(i, vec![]), Var::New(u) => Val::Enum(i, vec![default_value(u)]), Var::Tuple(us) | Var::Struct(us) => Val::Enum(i, us.iter().map(default_value).collect()) }); l.push((t, v)) } }
        if let Ty::Opt(_) = &t { l.push((t.clone(), Val::Opt(None))) }
        l.push((t, v));
    }
    l.push((Ty::Opt(bx(Ty::Opt(bx(Ty::Seq(bx(Ty::Map(bx(Ty::U8)))))))), Val::Opt(Some(Box::new(Val::Opt(Some(Box::new(Val::List(vec![Val::Map(vec![("k".into(), Val::U8(4))]); 2])))))))));
    l.push((Ty::Str, Val::Str(text(300))));
    l.push((Ty::Bytes, Val::Bytes(bytes(9000))));
    l
}
/// Reader whose contents the history replaces between values.
struct Feed<'a>(&'a std::cell::RefCell<Vec<u8>>, &'a std::cell::Cell<usize>);
impl<'a> std::io::Read for Feed<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let d = self.0.borrow();
        let p = self.1.get();
        let n = b.len().min(d.len() - p);
        b[..n].copy_from_slice(&d[p..p + n]);
        self.1.set(p + n);
        Ok(n)
    }
}
/// Writer that takes so many bytes and then fails, until it is opened again.
struct Gate<'a>(&'a std::cell::RefCell<Vec<u8>>, &'a std::cell::Cell<usize>);
impl<'a> std::io::Write for Gate<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1.get());
        if n == 0 && !b.is_empty() { return Err(std::io::Error::new(std::io::ErrorKind::Other, "gate")) }
        self.1.set(self.1.get() - n);
        self.0.borrow_mut().extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// values the wire form does not have, each refused
fn refused<W: std::io::Write>(k: usize, s: &mut Serializer<W>) -> Result<(), dlhn::ser::Error> {
    struct Bad;
    impl Serialize for Bad { fn serialize<Z: serde::Serializer>(&self, _: Z) -> Result<Z::Ok, Z::Error> { Err(serde::ser::Error::custom("no")) } }
    struct Unsized;
    impl Serialize for Unsized { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { use serde::ser::SerializeSeq; z.serialize_seq(None)?.end() } }
    #[derive(Serialize)]
    enum E<T> { N(T), T(u8, T), S { a: u8, b: T } }
    #[derive(Serialize)]
    struct St<T> { a: u8, b: T }
    match k {
        0 => Some(Bad).serialize(s),
        1 => vec![Bad].serialize(s),
        2 => std::collections::BTreeMap::from([("a", Bad)]).serialize(s),
        3 => E::N(Bad).serialize(s),
        4 => E::T(1, Bad).serialize(s),
        5 => E::S { a: 1, b: Bad }.serialize(s),
        6 => St { a: 1, b: Bad }.serialize(s),
        7 => (1u8, Bad).serialize(s),
        8 => Unsized.serialize(s),
        9 => Some(Some(Unsized)).serialize(s),
        10 => std::collections::BTreeMap::from([(5u8, 1u8)]).serialize(s),
        11 => E::N(1i128).serialize(s),
        _ => vec![Some(std::collections::BTreeMap::from([(Some(5u8), 1u8)]))].serialize(s),
    }
}
const REFUSED: usize = 13;
/// decodings that end in an error of the visitor's, not of the reader's
fn misread<'d, R: std::io::Read>(k: usize, d: &mut Deserializer<'d, R>) -> bool {
    use serde::Deserialize;
    use std::num::NonZeroU8;
    #[derive(Deserialize)]
    #[allow(dead_code)]
    enum E { N(NonZeroU8), T(u8, NonZeroU8), S { a: u8, b: NonZeroU8 } }
    match k {
        0 => NonZeroU8::deserialize(d).is_err(),
        1 => Option::<NonZeroU8>::deserialize(d).is_err(),
        2 => Vec::<NonZeroU8>::deserialize(d).is_err(),
        3 => std::collections::BTreeMap::<String, NonZeroU8>::deserialize(d).is_err(),
        4..=7 => E::deserialize(d).is_err(),
        8 => <(u8, NonZeroU8)>::deserialize(d).is_err(),
        9 => bool::deserialize(d).is_err(),
        10 => char::deserialize(d).is_err(),
        11 => Option::<()>::deserialize(d).is_err(),
        _ => String::deserialize(d).is_err(),
    }
}
fn misread_bytes(k: usize) -> Vec<u8> {
    match k { 0 => vec![0], 1 => vec![1, 0], 2 => vec![3, 1, 2, 0], 3 => vec![1, 1, b'a', 0], 4 => vec![0, 0], 5 => vec![1, 0, 0], 6 => vec![2, 9, 0], 7 => vec![3], 8 => vec![1, 0], 9 => vec![2], 10 => vec![2, b'a', b'b'], 11 => vec![2], _ => vec![1, 0xFF] }
}
const MISREAD: usize = 13;

fn histories(th: bool) -> Vec<Space> {
    let marks = |n: usize| n < 3 || n.is_power_of_two() || (n + 1).is_power_of_two() || n % 1000 == 0;
    let (few, long) = (1_100usize, 70_000usize);
    vec![
        Space::new("long histories, writing", "one Serializer: each of the kinds of value 70,000 times (the long ones 1,100), all kinds in turn 1,100 times over; every byte compared", move |c| {
            let l = history_cases();
            let k = c.choose(l.len() + 1);
            let out = std::cell::RefCell::new(Vec::new());
            let left = std::cell::Cell::new(usize::MAX);
            let mut s = Serializer::new(Gate(&out, &left));
            let pick: Vec<&(Ty, Val)> = if k == l.len() { l.iter().collect() } else { vec![&l[k]] };
            let want: Vec<Vec<u8>> = pick.iter().map(|(t, v)| encoded(t, v)).collect();
            let n = if pick.len() > 1 || want[0].len() > 100 { few } else { long };
            c.label(|| format!("{} {} times", if pick.len() > 1 { "all in turn".to_string() } else { st(&pick[0].0) }, n));
            c.state_of_choices();
            for i in 0..n {
                for (j, (t, v)) in pick.iter().enumerate() {
                    real::S(t, v).serialize(&mut s).map_err(|e| format!("{} = {}, for the {}th time on one serializer: {:?}", st(t), sv(v), i + 1, e))?;
                    if *out.borrow() != want[j] { return Err(format!("{} = {}, for the {}th time on one serializer: {} instead of {}", st(t), sv(v), i + 1, crate::props::short(&out.borrow()), crate::props::short(&want[j]))) }
                    out.borrow_mut().clear();
                }
                if i % 4096 == 0 { c.beat() }
            }
            c.validated(1);
            c.transitions((n * pick.len()) as u64);
            Ok(())
        }),
        Space::new("long histories, reading", "one Deserializer: likewise", move |c| {
            let l = history_cases();
            let k = c.choose(l.len() + 1);
            let (buf, pos) = (std::cell::RefCell::new(Vec::new()), std::cell::Cell::new(0));
            let mut feed = Feed(&buf, &pos);
            let mut d = Deserializer::new(&mut feed);
            let pick: Vec<&(Ty, Val)> = if k == l.len() { l.iter().collect() } else { vec![&l[k]] };
            let want: Vec<Vec<u8>> = pick.iter().map(|(t, v)| encoded(t, v)).collect();
            let n = if pick.len() > 1 || want[0].len() > 100 { few } else { long };
            c.label(|| format!("{} {} times", if pick.len() > 1 { "all in turn".to_string() } else { st(&pick[0].0) }, n));
            c.state_of_choices();
            for i in 0..n {
                for (j, (t, v)) in pick.iter().enumerate() {
                    buf.borrow_mut().clone_from(&want[j]);
                    pos.set(0);
                    let x = real::D(t).deserialize(&mut d).map_err(|e| format!("{} = {}, for the {}th time on one deserializer: {:?}", st(t), sv(v), i + 1, e))?;
                    if x != *v || pos.get() != want[j].len() { return Err(format!("{} = {}, for the {}th time on one deserializer, came back as {}, {} of {} bytes used", st(t), sv(v), i + 1, sv(&x), pos.get(), want[j].len())) }
                }
                if i % 4096 == 0 { c.beat() }
            }
            c.validated(1);
            c.transitions((n * pick.len()) as u64);
            Ok(())
        }),
        Space::new("long histories of failed writes", "one Serializer: each kind of value cut off by the writer at each of its first 12 bytes and its last, and each of 13 refused values, 1,100 times (70,000: a cut at the last byte, a refusal); after the 1st, 2nd, 3rd, around every power of two and every 1,000th each of 9 kinds of value is written correctly", move |c| {
            let l = history_cases();
            let k = c.choose(l.len() + REFUSED);
            let (bytes_of, cut) = if k < l.len() {
                let b = encoded(&l[k].0, &l[k].1);
                if b.is_empty() { return Ok(()) }
                let cuts: Vec<usize> = (0..b.len().min(12)).chain([b.len() - 1]).collect();
                let cut = *c.pick(&cuts);
                (b, cut)
            } else { (vec![], 0) };
            let n = if k >= l.len() || (cut + 1 == bytes_of.len() && cut < 100) { long } else { few };
            let after: Vec<(Ty, Val)> = [Ty::U64, Ty::Str, Ty::Opt(bx(Ty::U16)), Ty::Seq(bx(Ty::Str)), Ty::Map(bx(Ty::U16)), Ty::Struct(vec![Ty::U8, Ty::Str]), Ty::Enum(vec![Var::Unit, Var::New(Ty::U16)]), Ty::Bytes, Ty::DateTime].iter().map(|t| (t.clone(), default_value(t))).collect();
            let want: Vec<Vec<u8>> = after.iter().map(|(t, v)| encoded(t, v)).collect();
            let out = std::cell::RefCell::new(Vec::new());
            let left = std::cell::Cell::new(usize::MAX);
            let mut s = Serializer::new(Gate(&out, &left));
            let what = || if k < l.len() { format!("{} = {} cut at byte {}", st(&l[k].0), sv(&l[k].1), cut) } else { format!("refused value {}", k - l.len()) };
            c.label(|| format!("{}, {} times", what(), n));
            c.state_of_choices();
            for i in 1..=n {
                let r = if k < l.len() { left.set(cut); real::S(&l[k].0, &l[k].1).serialize(&mut s) } else { refused(k - l.len(), &mut s) };
                if r.is_ok() { return Err(format!("{}: success, the {}th time", what(), i)) }
                if k < l.len() && *out.borrow() != bytes_of[..cut] { return Err(format!("{}: {} were written, the {}th time", what(), crate::props::short(&out.borrow()), i)) }
                left.set(usize::MAX);
                out.borrow_mut().clear();
                if marks(i) {
                    c.beat();
                    for (j, (t, v)) in after.iter().enumerate() {
                        real::S(t, v).serialize(&mut s).map_err(|e| format!("{} after {} times {}: {:?}", st(t), i, what(), e))?;
                        if *out.borrow() != want[j] { return Err(format!("{} after {} times {}: {} instead of {}", st(t), i, what(), crate::props::short(&out.borrow()), crate::props::short(&want[j]))) }
                        out.borrow_mut().clear();
                    }
                }
            }
            c.validated(1);
            c.transitions(n as u64);
            Ok(())
        }),
        Space::new("long histories of failed reads", "one Deserializer: each kind of value ended early at each of its first 12 bytes and its last, and each of 13 values the visitor refuses, 1,100 times (70,000: the last byte missing, a refusal); values in between as above", move |c| {
            let l = history_cases();
            let k = c.choose(l.len() + MISREAD);
            let (b, n) = if k < l.len() {
                let b = encoded(&l[k].0, &l[k].1);
                if b.is_empty() { return Ok(()) }
                let cuts: Vec<usize> = (0..b.len().min(12)).chain([b.len() - 1]).collect();
                let cut = *c.pick(&cuts);
                let n = if cut + 1 == b.len() && cut < 100 { long } else { few };
                (b[..cut].to_vec(), n)
            } else { (misread_bytes(k - l.len()), long) };
            let after: Vec<(Ty, Val)> = [Ty::U64, Ty::Str, Ty::Opt(bx(Ty::U16)), Ty::Seq(bx(Ty::Str)), Ty::Map(bx(Ty::U16)), Ty::Struct(vec![Ty::U8, Ty::Str]), Ty::Enum(vec![Var::Unit, Var::New(Ty::U16)]), Ty::Bytes, Ty::DateTime].iter().map(|t| (t.clone(), default_value(t))).collect();
            let want: Vec<Vec<u8>> = after.iter().map(|(t, v)| encoded(t, v)).collect();
            let (buf, pos) = (std::cell::RefCell::new(Vec::new()), std::cell::Cell::new(0));
            let mut feed = Feed(&buf, &pos);
            let mut d = Deserializer::new(&mut feed);
            let what = || if k < l.len() { format!("{} from {:?} alone", st(&l[k].0), &b[..b.len().min(20)]) } else { format!("misread {}", k - l.len()) };
            c.label(|| format!("{}, {} times", what(), n));
            c.state_of_choices();
            for i in 1..=n {
                buf.borrow_mut().clone_from(&b);
                pos.set(0);
                let failed = if k < l.len() { real::D(&l[k].0).deserialize(&mut d).is_err() } else { misread(k - l.len(), &mut d) };
                if !failed { return Err(format!("{} was accepted, the {}th time", what(), i)) }
                if marks(i) {
                    c.beat();
                    for (j, (t, v)) in after.iter().enumerate() {
                        buf.borrow_mut().clone_from(&want[j]);
                        pos.set(0);
                        let x = real::D(t).deserialize(&mut d).map_err(|e| format!("{} after {} times {}: {:?}", st(t), i, what(), e))?;
                        if x != *v || pos.get() != want[j].len() { return Err(format!("{} after {} times {} came back as {}", st(t), i, what(), sv(&x))) }
                    }
                }
            }
            c.validated(1);
            c.transitions(n as u64);
            Ok(())
        }),
        Space::new("long histories of headers and bodies", "each leaf and depth-1 header over 2 leaves: its header and its body written and read 3,000 times, then the same with a failed header, a failed body read and a failed body write before each", move |c| {
            use dlhn::DeserializeHeader;
            let mut hs = leaf_headers();
            hs.extend(headers1(&[dlhn::Header::UInt16, dlhn::Header::String]));
            let h = c.pick(&hs);
            let fail = c.flag();
            let t = real::ty_of(h);
            let v = default_value(&t);
            let body = real::body_of(h, &v)?;
            let (mut wh, wb) = (Vec::new(), encoded(&t, &v));
            real::enc_header(h, &mut wh).ok_or("model")?;
            c.label(|| format!("{:?}, failures {}", h, fail));
            c.state_of_choices();
            let out = std::cell::RefCell::new(Vec::new());
            let left = std::cell::Cell::new(usize::MAX);
            let mut s = Serializer::new(Gate(&out, &left));
            let (buf, pos) = (std::cell::RefCell::new(Vec::new()), std::cell::Cell::new(0));
            let mut feed = Feed(&buf, &pos);
            let mut d = Deserializer::new(&mut feed);
            let n = if th { 70_000 } else { 3_000 };
            for i in 0..n {
                let at = |what: &str, e: String| format!("{} of {:?} the {}th time{}: {}", what, h, i + 1, if fail { ", failures in between" } else { "" }, e);
                if fail {
                    if wh.len() > 1 && (&mut &wh[..wh.len() - 1]).deserialize_header().is_ok() { return Err(at("a cut header", "accepted".into())) }
                    if (&mut &[0xEE_u8, 0xFF][..]).deserialize_header().is_ok() { return Err(at("an unknown header code", "accepted".into())) }
                    if !wb.is_empty() {
                        buf.borrow_mut().clone_from(&wb[..wb.len() - 1].to_vec());
                        pos.set(0);
                        if dlhn::Body::deserialize(h, &mut d).is_ok() { return Err(at("a cut body", "accepted".into())) }
                        left.set(wb.len() - 1);
                        if body.serialize(&mut s).is_ok() { return Err(at("a body", "written to a full writer".into())) }
                        left.set(usize::MAX);
                        out.borrow_mut().clear();
                    }
                }
                let mut o = Vec::new();
                h.serialize(&mut o).map_err(|e| at("the header", e.to_string()))?;
                if o != wh { return Err(at("the header", format!("written as {}", crate::props::short(&o)))) }
                let mut r = &wh[..];
                let x = (&mut r).deserialize_header().map_err(|e| at("the header", e.to_string()))?;
                if x != *h || !r.is_empty() { return Err(at("the header", format!("read as {:?}", x))) }
                body.serialize(&mut s).map_err(|e| at("the body", format!("{:?}", e)))?;
                if *out.borrow() != wb { return Err(at("the body", format!("written as {}", crate::props::short(&out.borrow())))) }
                out.borrow_mut().clear();
                buf.borrow_mut().clone_from(&wb);
                pos.set(0);
                let x = dlhn::Body::deserialize(h, &mut d).map_err(|e| at("the body", format!("{:?}", e)))?;
                if real::val_of(&x)? != v || pos.get() != wb.len() { return Err(at("the body", format!("read as {:?}", x))) }
                if i % 1000 == 0 { c.beat() }
            }
            c.validated(1);
            c.transitions(4 * n as u64);
            Ok(())
        }),
    ]
}
fn shortest(t: &Ty) -> Val { match t { Ty::Seq(_) => Val::List(vec![]), Ty::Map(_) => Val::Map(vec![]), Ty::Opt(_) => Val::Opt(None), t => default_value(t) } }

fn fixed(c: &Ctx, seq: Vec<Op>) -> Check {
    let mut want = Vec::new();
    let mut out = Vec::new();
    for (i, o) in seq.iter().enumerate() {
        let e = |e: dlhn::ser::Error| format!("operation {} failed: {:?}", i, e);
        match o {
            Op::Val(t, v) => { enc(t, v, &mut want); real::ser_to(t, v, &mut out).map_err(e)? }
            Op::Body(h, v) => { enc(&real::ty_of(h), v, &mut want); real::body_of(h, v)?.serialize(&mut Serializer::new(&mut out)).map_err(e)? }
            Op::Header(h) => { real::enc_header(h, &mut want).ok_or("model")?; h.serialize(&mut out).map_err(|e| e.to_string())? }
            Op::Lib => { enc(&Ty::Seq(bx(Ty::U32)), &Val::List(vec![Val::U32(1), Val::U32(70000)]), &mut want); vec![1u32, 70000].serialize(&mut Serializer::new(&mut out)).map_err(e)? }
            Op::FailSer => disturb_ser(i)?,
            Op::FailDe => disturb_de(i)?,
        }
        if out.len() != want.len() { return Err(format!("after operation {} the stream has {} bytes, should have {}", i, out.len(), want.len())) }
    }
    if out != want { return Err("the stream is not the concatenation".into()) }
    c.state(&out);
    c.label(|| format!("{} operations, {} bytes", seq.len(), out.len()));
    let mut r = &out[..];
    for (i, o) in seq.iter().enumerate() {
        match o {
            Op::Val(t, v) => { let x = real::de_from(t, &mut r).map_err(|e| format!("{}: {:?}", i, e))?; if x != *v { return Err(format!("value {} came back as {}", i, sv(&x))) } }
            Op::Body(h, v) => { let b = real::body_de_from(h, &mut r).map_err(|e| format!("{}: {:?}", i, e))?; if real::val_of(&b)? != *v { return Err(format!("body {} came back as {:?}", i, b)) } }
            Op::Header(h) => { use dlhn::DeserializeHeader; if r.deserialize_header().map_err(|e| e.to_string())? != *h { return Err(format!("header {} differs", i)) } }
            Op::Lib => { use serde::Deserialize; let x = Vec::<u32>::deserialize(&mut Deserializer::new(&mut r)).map_err(|e| format!("{:?}", e))?; if x != [1, 70000] { return Err(format!("value {} came back as {:?}", i, x)) } }
            Op::FailSer => disturb_ser(i)?,
            Op::FailDe => disturb_de(i)?,
        }
    }
    if !r.is_empty() { return Err(format!("{} bytes left over", r.len())) }
    c.validated(1);
    c.transitions(2 * seq.len() as u64);
    Ok(())
}

// ---------------------------------------------------------------- C20

/// every way this text can be asked for
fn text_via(b: &[u8]) -> Vec<(&'static str, Result<Vec<u8>, String>, usize)> {
    use std::collections::BTreeMap;
    let mut l = Vec::new();
    let e = |e: dlhn::de::Error| format!("{:?}", e);
    let (r, n) = real::de_any::<String>(b);
    l.push(("String", r.map(String::into_bytes).map_err(e), n));
    let (r, n) = real::de(&Ty::StrVia, b);
    l.push(("deserialize_str", r.map(|v| if let Val::Str(s) = v { s.into_bytes() } else { vec![] }).map_err(e), n));
    let (r, n) = real::body_de(&dlhn::Header::String, b);
    l.push(("body", r.map(|v| if let dlhn::Body::String(s) = v { s.into_bytes() } else { vec![] }).map_err(e), n));
    let mut m = vec![1];
    m.extend_from_slice(b);
    let (r, n) = real::de_any::<BTreeMap<String, ()>>(&m);
    l.push(("map key", r.map(|v| v.into_keys().next().unwrap_or_default().into_bytes()).map_err(e), n.saturating_sub(1)));
    let (r, n) = real::body_de(&dlhn::Header::Map(Box::new(dlhn::Header::Unit)), &m);
    l.push(("body map key", r.map(|v| if let dlhn::Body::Map(m) = v { m.into_keys().next().unwrap_or_default().into_bytes() } else { vec![] }).map_err(e), n.saturating_sub(1)));
    l
}
fn text_ok(s: &[u8]) -> Check {
    let mut b = Vec::new();
    enc_len(s.len(), &mut b);
    let head = b.len();
    b.extend_from_slice(s);
    let good = utf8_ok(s);
    for (via, r, n) in text_via(&b) {
        match r {
            Ok(x) if good => {
                if x != s { return Err(format!("{} read as {} via {}", short(s), short(&x), via)) }
                if n != head + s.len() { return Err(format!("{} via {} consumed {} of {} bytes", short(s), via, n, head + s.len())) }
            }
            Ok(x) => return Err(format!("ill-formed {} accepted via {} as {}", short(s), via, short(&x))),
            Err(e) if good => return Err(format!("well-formed text {} refused via {}: {}", short(s), via, e)),
            Err(_) => {}
        }
    }
    Ok(())
}
fn char_ok(s: &[u8]) -> Check {
    let mut b = Vec::new();
    enc_len(s.len(), &mut b);
    b.extend_from_slice(s);
    let want = if utf8_ok(s) { std::str::from_utf8(s).ok().and_then(|s| { let mut i = s.chars(); match (i.next(), i.next()) { (Some(c), None) => Some(c), _ => None } }) } else { None };
    match (real::de_any::<char>(&b).0, want) {
        (Ok(x), Some(w)) if x == w => Ok(()),
        (Err(_), None) => Ok(()),
        (r, w) => Err(format!("{} as a char gives {:?}, should be {:?}", short(s), r, w)),
    }
}

pub fn c20(th: bool) -> Vec<Space> {
    const EDGE: [u8; 33] = [0x00, 0x41, 0x7F, 0x80, 0x81, 0x8F, 0x90, 0x9F, 0xA0, 0xAF, 0xBF, 0xC0, 0xC1, 0xC2, 0xC3, 0xDF, 0xE0, 0xE1, 0xE9, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF];
    let mut l = vec![
        Space::new("short", "every byte string of up to 2 bytes as text, map key and char; of 3 and 4 bytes over the 33 bytes at UTF-8 range ends (thorough: 3 bytes all, 5 over the edges)", move |c| {
            let a = c.choose(256) as u8;
            if a == 0 { text_ok(b"")?; char_ok(b"")? }
            text_ok(&[a])?;
            char_ok(&[a])?;
            let mut n = 2;
            for b in 0..=255u8 {
                text_ok(&[a, b])?;
                char_ok(&[a, b])?;
                n += 2;
                if EDGE.contains(&a) && EDGE.contains(&b) || th {
                    for d in 0..=255u8 {
                        if !th && !EDGE.contains(&d) { continue }
                        text_ok(&[a, b, d])?;
                        char_ok(&[a, b, d])?;
                        n += 2;
                        if EDGE.contains(&a) && EDGE.contains(&b) && EDGE.contains(&d) {
                            for e in EDGE { text_ok(&[a, b, d, e])?; char_ok(&[a, b, d, e])?; n += 2 }
                        }
                    }
                }
                c.beat();
            }
            c.bulk(n);
            c.label(|| format!("byte strings beginning {:#x}", a));
            c.outcome("compared");
            Ok(())
        }),
        Space::new("every position", "13 well- and ill-formed sequences at every position of texts of every length 0..=300 (thorough 700) and near 4096", move |c| {
            let frag: &[&[u8]] = &[b"a", "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1F600}".as_bytes(), b"\0", &[0x80], &[0xC0, 0x80], &[0xE0, 0x80, 0x80], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xFF], &[0xC3], &[0xF0, 0x9F, 0x98]];
            let k = c.choose(if th { 701 } else { 301 } + 8);
            let max = if th { 701 } else { 301 };
            let n = if k < max { k } else { [1000, 2048, 4094, 4095, 4096, 4097, 8192, 16384][k - max] };
            let f = *c.pick(frag);
            if f.len() > n { return Ok(()) }
            let step = if n > 700 { 61 } else if n > 301 { 3 } else { 1 };
            let mut p = 0;
            let mut cnt = 0;
            loop {
                let mut s = vec![b'x'; n];
                s[p..p + f.len()].copy_from_slice(f);
                text_ok(&s)?;
                cnt += 1;
                if p == n - f.len() { break }
                p = (p + step).min(n - f.len());
            }
            c.bulk(cnt);
            c.label(|| format!("{} in text of {} bytes", short(f), n));
            c.outcome(if utf8_ok(f) { "well-formed" } else { "ill-formed" });
            Ok(())
        }),
        Space::new("all lengths", "well-formed text of every length 0..=20000 and around powers of two up to 2 MiB, ending in one- to four-byte characters, and the same text cut inside its last character", move |c| {
            let l: Vec<usize> = (0..=(if th { 60000 } else { 20000 })).chain(long_lengths(false)).collect();
            let n = *c.pick(&l);
            for last in ["z", "\u{e9}", "\u{20ac}", "\u{1F600}"] {
                if last.len() > n { continue }
                let mut s = vec![b'q'; n - last.len()];
                s.extend_from_slice(last.as_bytes());
                text_ok(&s)?;
                if last.len() > 1 {
                    s.pop();
                    text_ok(&s)?;
                }
            }
            c.bulk(7);
            c.label(|| format!("text of {} bytes", n));
            c.outcome("compared");
            Ok(())
        }),
        Space::new("every character", "every scalar value first, last, in the middle, twice in a row, and at both ends of texts of 8, 127, 128 and 200 bytes (every 16th, and all below U+0800 and U+2000..=U+2FFF and U+FE00..=U+FFFF, of 126, 129, 4,094, 4,098 and 9,000 too), read every way, and as one char", move |c| {
            let chunk = c.choose(0x1100) as u32;
            let mut cnt = 0;
            for u in chunk * 256..(chunk + 1) * 256 {
                let Some(ch) = char::from_u32(u) else { continue };
                let mut e = [0; 4];
                let f = ch.encode_utf8(&mut e).as_bytes();
                char_ok(f)?;
                let more = u % 16 == 0 || u < 0x800 || (0x2000..0x3000).contains(&u) || (0xFE00..0x10000).contains(&u);
                for n in [8usize, 127, 128, 200, 126, 129, 4094, 4098, 9000] {
                    if n == 126 && !more { break }
                    let mut l: Vec<Vec<usize>> = vec![vec![0], vec![n - f.len()], vec![0, n - f.len()]];
                    if n < 4000 { l.extend([vec![n / 2], vec![1, 1 + f.len()]]) }
                    for at in l {
                        let mut s = vec![b'x'; n];
                        for p in at { if p + f.len() <= n { s[p..p + f.len()].copy_from_slice(f) } }
                        if !utf8_ok(&s) { continue }
                        text_ok(&s)?;
                        cnt += 1;
                    }
                }
                if u % 32 == 0 { c.beat() }
            }
            c.bulk(cnt);
            c.label(|| format!("characters from U+{:04X}", chunk * 256));
            c.outcome("compared");
            Ok(())
        }),
        Space::new("characters in huge texts", "every run of 256 scalar values, at the front, in the middle and at the end of texts of 70,000 bytes; 60 characters at ends of ranges and with a meaning of their own, and 14 ill-formed sequences, each alone first, in the middle, last and across the 65,536th byte of texts of 65,535, 65,537, 131,073 and 1,048,577 bytes (thorough: runs in 140,000 bytes too, and 4,194,305 bytes)", move |c| {
            let runs = 0x1100u32;
            let alone: Vec<Vec<u8>> = {
                let mut l: Vec<Vec<u8>> = Vec::new();
                for u in [0u32, 1, 8, 9, 0xA, 0xB, 0xD, 0x1A, 0x1B, 0x1F, 0x20, 0x22, 0x27, 0x5C, 0x7E, 0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xAD, 0xFF, 0x130, 0x131, 0x300, 0x34F, 0x61C, 0x7FF, 0x800, 0xFFF, 0x1000, 0x180E, 0x200B, 0x200D, 0x200E, 0x2028, 0x2029, 0x202E, 0x2060, 0x3000, 0xAC00, 0xCFFF, 0xD000, 0xD7FF, 0xE000, 0xF8FF, 0xFDD0, 0xFE0F, 0xFEFF, 0xFFF9, 0xFFFC, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x3FFFF, 0x40000, 0xE0001, 0x10FFFF] {
                    if let Some(ch) = char::from_u32(u) { let mut e = [0; 4]; l.push(ch.encode_utf8(&mut e).as_bytes().to_vec()) }
                }
                let bad: [&[u8]; 14] = [&[0x80], &[0xBF], &[0xC0, 0x80], &[0xC1, 0xBF], &[0xC3], &[0xE0, 0x80, 0x80], &[0xE0, 0x9F, 0xBF], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xE2, 0x82], &[0xF0, 0x8F, 0xBF, 0xBF], &[0xF4, 0x90, 0x80, 0x80], &[0xF0, 0x9F, 0x98], &[0xFF]];
                l.extend(bad.iter().map(|b| b.to_vec()));
                l
            };
            let k = c.choose(runs as usize + alone.len());
            let mut cnt = 0;
            if k < runs as usize {
                let mut f = Vec::new();
                for u in k as u32 * 256..(k as u32 + 1) * 256 {
                    if let Some(ch) = char::from_u32(u) { let mut e = [0; 4]; f.extend_from_slice(ch.encode_utf8(&mut e).as_bytes()) }
                }
                for n in [70_000usize, 140_000] {
                    if n > 70_000 && !th { break }
                    for at in [0, n / 2, n - f.len()] {
                        let mut s = vec![b'x'; n];
                        s[at..at + f.len()].copy_from_slice(&f);
                        text_ok(&s)?;
                        cnt += 1;
                    }
                    c.beat();
                }
                c.label(|| format!("characters from U+{:04X} in huge text", k * 256));
            } else {
                let f = &alone[k - runs as usize];
                for n in [65_535usize, 65_537, 131_073, 1_048_577, 4_194_305] {
                    if n > 2_000_000 && !th { break }
                    for at in [0, n / 2, n - f.len(), 65_536 - f.len(), 65_535, 65_536 - f.len() / 2] {
                        if at + f.len() > n { continue }
                        let mut s = vec![b'x'; n];
                        s[at..at + f.len()].copy_from_slice(f);
                        text_ok(&s)?;
                        cnt += 1;
                    }
                    c.beat();
                }
                c.label(|| format!("{} alone in huge text", short(f)));
            }
            c.bulk(cnt);
            c.outcome("compared");
            Ok(())
        }),
        Space::new("serialized", "every scalar value as one-character text and repeated across the buffer boundary, serialized and read back", |c| {
            let chunk = c.choose(0x1100) as u32;
            for u in chunk * 256..(chunk + 1) * 256 {
                let Some(ch) = char::from_u32(u) else { continue };
                for n in [1usize, 127 / ch.len_utf8(), 127 / ch.len_utf8() + 1] {
                    if n != 1 && u % 64 != 0 { continue }
                    let s: String = std::iter::repeat(ch).take(n).collect();
                    let b = real::ser_any(&s).map_err(|e| format!("{:?}", e))?;
                    let (r, k) = real::de_any::<String>(&b);
                    if r.as_ref().ok() != Some(&s) || k != b.len() { return Err(format!("{} times U+{:04X} came back as {:?}", n, u, r)) }
                    c.bulk(1);
                }
            }
            c.outcome("compared");
            Ok(())
        }),
    ];
    l.push(Space::new("delivery", "text with a multi-byte character or an ill-formed sequence at every position, delivered 1, 2, 3, 5 bytes at a time, lengths around 128 and 4096", move |c| {
        let n = *c.pick(&[1usize, 4, 10, 126, 127, 128, 129, 130, 200, 4096]);
        let f: &[u8] = *c.pick(&[&b"\xE2\x82\xAC"[..], &b"\xF0\x9F\x98\x80"[..], &b"\xE2\x82"[..], &b"\xED\xBF\xBF"[..], &b"\x80"[..]]);
        if f.len() > n { return Ok(()) }
        let step = *c.pick(&[1usize, 2, 3, 5]);
        let mut cnt = 0;
        for p in 0..=n - f.len() {
            if n > 300 && p % 97 != 0 && p != n - f.len() { continue }
            let mut s = vec![b'x'; n];
            s[p..p + f.len()].copy_from_slice(f);
            let mut b = Vec::new();
            enc_len(n, &mut b);
            b.extend_from_slice(&s);
            let r = real::de_from(&Ty::Str, &mut Dribble { data: &b, step });
            match (r, utf8_ok(&s)) {
                (Ok(Val::Str(x)), true) if x.as_bytes() == s => {}
                (Err(_), false) => {}
                (r, g) => return Err(format!("{} (well-formed: {}) delivered {} at a time gives {:?}", short(&s), g, step, r.map(|v| sv(&v)))),
            }
            cnt += 1;
        }
        c.bulk(cnt);
        c.label(|| format!("{} in {} bytes, {} at a time", short(f), n, step));
        Ok(())
    }));
    l
}
