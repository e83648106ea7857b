//! C10 header codec, C13 dynamic bodies, C14 validation.
use super::cases::*;
use super::core::is_void;
use super::*;
use crate::env::*;
use crate::explore::Check;
use crate::gen::*;
use dlhn::{Body, Header};

pub fn hs(h: &Header) -> String {
    let s = format!("{:?}", h);
    if s.len() > 200 { format!("{}..({} chars)", &s[..180], s.len()) } else { s }
}

/// encode, compare with the format, decode, compare
pub fn header_roundtrip(c: &Ctx, h: &Header) -> Check {
    let mut want = Vec::new();
    let ok = real::enc_header(h, &mut want).is_some();
    match (real::header_ser(h), ok) {
        (Err(_), false) => { c.outcome("refused"); c.validated(1); return Ok(()) }
        (Ok(b), false) => return Err(format!("{} has more members than a header can state but is written, as {}", hs(h), short(&b))),
        (Err(e), true) => return Err(format!("{} is refused: {}", hs(h), e)),
        (Ok(b), true) => if b != want { return Err(format!("{} is written as {}, should be {}", hs(h), short(&b), short(&want))) },
    }
    for tail in [&[][..], &[0x15, 0xFF][..]] {
        let mut b = want.clone();
        b.extend_from_slice(tail);
        match real::header_de(&b) {
            (Ok(x), n) => {
                if x != *h { return Err(format!("{} written as {} comes back as {}", hs(h), short(&want), hs(&x))) }
                if n != want.len() { return Err(format!("{} is {} bytes, {} were read", hs(h), want.len(), n)) }
            }
            (Err(e), _) => return Err(format!("{} written as {} does not decode: {}", hs(h), short(&want), e)),
        }
    }
    use dlhn::DeserializeHeader;
    let mut r = Dribble { data: &want, step: 1 };
    match r.deserialize_header() {
        Ok(x) if x == *h => {}
        r => return Err(format!("{} delivered byte by byte gives {:?}", hs(h), r)),
    }
    c.outcome("round trip");
    c.validated(1);
    Ok(())
}

pub fn c10(th: bool) -> Vec<Space> {
    let mut trees = leaf_headers();
    trees.extend(headers1(&leaf_headers()));
    trees.extend(headers2(&leaf_headers()));
    if th { for h in headers2(&[Header::UInt32, Header::Binary]) { trees.extend(wrap_header(&h, &Header::Date)) } }
    let what = format!("{} headers: all leaves, all constructors over all leaves, two levels{}", trees.len(), if th { ", three levels over two leaves" } else { "" });
    vec![
        Space::new("trees", &what, move |c| {
            let h = c.pick(&trees);
            c.state(&format!("{:?}", h));
            c.label(|| hs(h));
            header_roundtrip(c, h)
        }),
        {
            let w = format!("every header of up to {} nodes over two leaves: round-trips", if th { 9 } else { 8 });
            Space::new("every tree of a size", &w, move |c| {
                let n = c.choose(if th { 9 } else { 8 }) + 1;
                let h = header_tree(c, n, &[Header::Unit, Header::String]);
                c.distinct();
                c.label(|| hs(&h));
                header_roundtrip(c, &h)
            })
        },
        Space::new("long byte trees", "every byte string over 7 codes and counts that is a header, grown byte by byte to 8 (thorough 9) bytes", move |c| {
            let alpha: &[u8] = &[0, 1, 2, 3, 20, 21, 24];
            let max = if th { 9 } else { 8 };
            let mut b: Vec<u8> = Vec::new();
            loop {
                if b.len() >= max { break }
                let mut d = Dec::new(&b);
                if real::dec_header(&mut d) != Err(Stop::NeedMore) { break }
                match c.extend(alpha.len()) { Some(k) => b.push(alpha[k]), None => break }
            }
            c.state(&b);
            c.label(|| short(&b));
            header_bytes(c, &b)
        }),
        Space::new("byte trees", "every byte string over codes and counts that is a header, grown byte by byte to 6 (thorough 8) bytes: every such header round-trips, every prefix and every other string is refused", move |c| {
            let alpha: &[u8] = if th { &[0, 1, 18, 20, 21, 23, 24, 26, 2, 7] } else { &[0, 1, 18, 20, 21, 23, 24, 26, 2] };
            let max = if th { 8 } else { 6 };
            let mut b: Vec<u8> = Vec::new();
            loop {
                if b.len() >= max { break }
                let mut d = Dec::new(&b);
                if real::dec_header(&mut d) != Err(Stop::NeedMore) { break }
                match c.extend(alpha.len()) { Some(k) => b.push(alpha[k]), None => break }
            }
            c.state(&b);
            c.label(|| short(&b));
            header_bytes(c, &b)
        }),
        Space::new("all codes", "every string of 1 and 2 bytes, every first byte followed by counts and leaves", |c| {
            let a = c.choose(256) as u8;
            header_bytes(c, &[a])?;
            for b in 0..=255u8 {
                header_bytes(c, &[a, b])?;
                for d in [0u8, 2, 7, 12, 18, 22, 27, 255] { header_bytes(c, &[a, b, d])?; header_bytes(c, &[a, b, d, d])?; }
            }
            c.bulk(256 * 17 + 1);
            c.label(|| format!("first byte {}", a));
            Ok(())
        }),
        Space::new("widths", "tuples and enums of 0..=300 members and around every power of two to 65535, at top level and nested; and every count above 65535 tried is refused", move |c| {
            let mut l: Vec<usize> = (0..=300).collect();
            for k in 9..16 { l.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]) }
            l.extend([16383 + 64, 40000, 65534, 65535, 65536, 65537, 65536 + 127, 65536 + 128, 70000, 131071, 131072, 131073, 65536 * 3]);
            let n = *c.pick(&l);
            let leaf = c.pick(&[Header::Unit, Header::String]).clone();
            let m = vec![leaf; n];
            let w = if c.flag() { Header::Enum(m) } else { Header::Tuple(m) };
            let h = match c.choose(6) {
                0 => w,
                1 => Header::Optional(Box::new(w)),
                2 => Header::Array(Box::new(w)),
                3 => Header::Map(Box::new(w)),
                4 => Header::Tuple(vec![Header::UInt8, w, Header::Date]),
                _ => Header::Enum(vec![Header::Unit, w]),
            };
            c.state(&hs(&h));
            c.label(|| hs(&h));
            header_roundtrip(c, &h)
        }),
        Space::new("nesting", "each constructor nested 1..=400 deep, and all pairs of constructors alternating", |c| {
            let d = *c.pick(&(1..=64).chain([100, 127, 128, 129, 200, 256, 400]).collect::<Vec<_>>());
            let (a, b) = (c.choose(5), c.choose(5));
            let mut h = Header::UInt64;
            for i in 0..d {
                let x = Box::new(h.clone());
                h = match if i % 2 == 0 { a } else { b } {
                    0 => Header::Optional(x),
                    1 => Header::Array(x),
                    2 => Header::Map(x),
                    3 => Header::Tuple(vec![*x]),
                    _ => Header::Enum(vec![Header::Unit, *x]),
                };
            }
            c.state(&(d, a, b));
            c.label(|| hs(&h));
            header_roundtrip(c, &h)
        }),
        Space::new("sequence", "headers one after another in one stream, every pair from the one-level ones", |c| {
            use dlhn::DeserializeHeader;
            let l = headers1(&[Header::UInt8, Header::String, Header::Unit]);
            let (a, b) = (c.pick(&l), c.pick(&l));
            let mut out = Vec::new();
            for h in [a, b, a] { h.serialize(&mut out).map_err(|e| e.to_string())? }
            c.state(&out);
            c.label(|| format!("{}, {}", hs(a), hs(b)));
            let mut r = &out[..];
            for h in [a, b, a] { let x = r.deserialize_header().map_err(|e| format!("{} in a stream: {}", hs(h), e))?; if x != *h { return Err(format!("{} in a stream came back as {}", hs(h), hs(&x))) } }
            if !r.is_empty() { return Err("bytes left".into()) }
            c.validated(3);
            Ok(())
        }),
    ]
}

/// arbitrary bytes as a header, against the model
pub fn header_bytes(c: &Ctx, b: &[u8]) -> Check {
    let mut d = Dec::new(b);
    let m = real::dec_header(&mut d);
    let (pos, slack) = (d.pos, d.slack);
    let (r, n) = real::header_de(b);
    c.validated(1);
    match (m, r) {
        (Ok(h), Ok(x)) => {
            if x != h { return Err(format!("{} decodes to {}, should be {}", short(b), hs(&x), hs(&h))) }
            if n != pos { return Err(format!("{}: header of {} bytes, {} read", short(b), pos, n)) }
            if !slack {
                let back = real::header_ser(&x).map_err(|e| e.to_string())?;
                if back != b[..pos] { return Err(format!("{} decodes to {} which is written as {}", short(b), hs(&x), short(&back))) }
            }
            c.outcome("header");
            Ok(())
        }
        (Ok(_), Err(_)) if slack => { c.outcome("over-long count refused"); Ok(()) }
        (Ok(h), Err(e)) => Err(format!("{} is the header {} but is refused: {}", short(b), hs(&h), e)),
        (Err(m), Ok(x)) => Err(format!("{} is no header ({:?}) but decodes to {}", short(b), m, hs(&x))),
        (Err(Stop::NeedMore), Err(_)) => { c.outcome("cut short"); Ok(()) }
        (Err(_), Err(_)) => { c.outcome("no header"); Ok(()) }
    }
}

// ---------------------------------------------------------------- C13

pub fn header_list(th: bool) -> Vec<Header> {
    let mut l = leaf_headers();
    l.extend(headers1(&leaf_headers()));
    l.push(Header::Enum(vec![]));
    let inner = if th { leaf_headers() } else { vec![Header::Unit, Header::UInt16, Header::String, Header::Int64, Header::BigDecimal, Header::Boolean] };
    l.extend(headers2(&inner));
    l
}

pub fn body_case(c: &Ctx, h: &Header, v: &Val) -> Check {
    let t = real::ty_of(h);
    let stat = ser_ok(&t, v)?;
    let body = real::body_of(h, v)?;
    let dynb = real::ser_any(&body).map_err(|e| format!("body {:.200} does not serialize: {:?}", format!("{:?}", body), e))?;
    if dynb != stat { return Err(format!("{} under {}: body written as {}, static value as {}", sv(v), hs(h), short(&dynb), short(&stat))) }
    if !body.validate(h) { return Err(format!("the body for {} does not validate against {}", sv(v), hs(h))) }
    for tail in [&[][..], &[0x80, 0x01, 0xFF][..]] {
        let mut b = stat.clone();
        b.extend_from_slice(tail);
        match real::body_de(h, &b) {
            (Ok(x), n) => {
                let same = real::val_of(&x)? == *v;
                if !same { return Err(format!("{} under {} comes back as {:.300}", sv(v), hs(h), format!("{:?}", x))) }
                if n != stat.len() { return Err(format!("{} under {}: {} bytes written, {} read", sv(v), hs(h), stat.len(), n)) }
                // equality of bodies themselves, where the content is comparable (no NaN)
                if !has_nan(v) && x != body { return Err(format!("{} under {}: decoded body differs from the original", sv(v), hs(h))) }
                if !x.validate(h) { return Err(format!("{} under {}: decoded body does not validate", sv(v), hs(h))) }
            }
            (Err(e), _) => return Err(format!("{} under {} written as {} does not decode: {:?}", sv(v), hs(h), short(&stat), e)),
        }
    }
    let mut r = Dribble { data: &stat, step: 2 };
    match real::body_de_from(h, &mut r) { Ok(x) if real::val_of(&x)? == *v => {}, x => return Err(format!("{} under {} delivered two bytes at a time: {:.200}", sv(v), hs(h), format!("{:?}", x))) }
    c.validated(1);
    Ok(())
}
pub fn has_nan(v: &Val) -> bool {
    match v {
        Val::F32(b) => f32::from_bits(*b).is_nan(),
        Val::F64(b) => f64::from_bits(*b).is_nan(),
        Val::Opt(Some(v)) => has_nan(v),
        Val::List(l) | Val::Enum(_, l) => l.iter().any(has_nan),
        Val::Map(m) => m.iter().any(|(_, v)| has_nan(v)),
        _ => false,
    }
}

/// any bytes: under the header and as the static type
pub fn body_bytes(c: &Ctx, h: &Header, t: &Ty, b: &[u8]) -> Check {
    if huge_zero(t, b) { c.outcome("count of empty elements: see C05"); return Ok(()) }
    let (s, ns) = real::de(t, b);
    let (d, nd) = real::body_de(h, b);
    c.validated(1);
    match (s, d) {
        (Ok(v), Ok(x)) => {
            c.outcome("both accept");
            let xv = real::val_of(&x)?;
            if normal(&v) != normal(&xv) { return Err(format!("{} as {}: static {}, dynamic {}", short(b), hs(h), sv(&v), sv(&xv))) }
            if ns != nd { return Err(format!("{} as {}: static used {} bytes, dynamic {}", short(b), hs(h), ns, nd)) }
            if !x.validate(h) { return Err(format!("{} as {}: the decoded body does not validate", short(b), hs(h))) }
            Ok(())
        }
        (Err(_), Err(_)) => { c.outcome("both refuse"); Ok(()) }
        (Ok(v), Err(e)) => Err(format!("{} as {}: static type gives {}, dynamic body fails with {:?}", short(b), hs(h), sv(&v), e)),
        (Err(e), Ok(x)) => Err(format!("{} as {}: static type fails with {:?}, dynamic body gives {:.200}", short(b), hs(h), e, format!("{:?}", x))),
    }
}

/// the bytes claim a huge count of elements that occupy no bytes
pub fn huge_zero(t: &Ty, b: &[u8]) -> bool { let mut d = Dec::new(b); let _ = d.dec(t); d.hit_zero_cap }

pub const ALPHA: [u8; 14] = [0, 1, 2, 3, 0x41, 0x7F, 0x80, 0x81, 0xC0, 0xC3, 0xE0, 0xED, 0xF0, 0xFF];

/// walk the tree of byte strings that are so far a prefix of an encoding
pub fn byte_tree(c: &Ctx, t: &Ty, alpha: &[u8], max: usize) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    loop {
        if b.len() >= max { break }
        if Dec::new(&b).dec(t) != Err(Stop::NeedMore) { break }
        match c.extend(alpha.len()) { Some(k) => b.push(alpha[k]), None => break }
    }
    b
}

pub fn c13(th: bool) -> Vec<Space> {
    let l = header_list(th);
    let l2: Vec<Header> = { let mut x = leaf_headers(); x.extend(headers1(&leaf_headers())); x.push(Header::Enum(vec![])); x };
    let l3 = headers2(&[Header::Unit, Header::UInt16, Header::String]);
    let n = l.len();
    vec![
        Space::new("values", &format!("{} headers (all leaves, one and two levels of constructors), boundary values, up to 2 elements", n), move |c| {
            let h = c.pick(&l);
            let t = real::ty_of(h);
            if is_void(&t) { return Ok(()) }
            let rich = if depth(&t) <= 1 { 2 } else { 1 };
            let v = value(c, &t, if matches!(&t, Ty::Tuple(v) if v.len() > 2) { 1 } else { rich }, 2);
            // a dynamic map keeps its keys in order
            let v = normal(&v);
            c.state(&(&t, &v));
            c.label(|| format!("{} = {}", hs(h), sv(&v)));
            c.outcome("value");
            body_case(c, h, &v)
        }),
        Space::new("bytes", "every byte string over 14 byte values, grown while it is a prefix of an encoding, to 5 (thorough 6) bytes, under all leaf and one-level headers", move |c| {
            let h = c.pick(&l2);
            let t = real::ty_of(h);
            let b = byte_tree(c, &t, &ALPHA, if th { 6 } else if depth(&t) == 0 { 5 } else { 4 });
            c.state(&(&t, &b));
            c.label(|| format!("{} as {}", short(&b), hs(h)));
            body_bytes(c, h, &t, &b)
        }),
        Space::new("bytes, nested", "the same to 5 (thorough 6) bytes under two-level headers with 8 byte values", move |c| {
            let h = c.pick(&l3);
            let t = real::ty_of(h);
            let b = byte_tree(c, &t, &[0, 1, 2, 0x41, 0x80, 0xC0, 0xC3, 0xFF], if th { 6 } else { 5 });
            c.state(&(&t, &b));
            c.label(|| format!("{} as {}", short(&b), hs(h)));
            body_bytes(c, h, &t, &b)
        }),
        Space::new("sizes", "texts and binaries of every length 0..=400 and around 4096 and 16384, arrays and maps of 0..=300 and more elements, tuples of 0..=300 members, enum bodies with every index to 300 and around 2^7, 2^14, 2^16", move |c| {
            use Header as H;
            let (h, v) = match c.choose(7) {
                0 => { let n = *c.pick(&(0..=400).chain([4095, 4096, 4097, 8193, 16383, 16384, 16385, 70000]).collect::<Vec<usize>>()); (H::String, Val::Str(text(n))) }
                1 => { let n = *c.pick(&(0..=400).chain([4095, 4096, 4097, 8192, 8193, 12288, 16384, 16385, 70000]).collect::<Vec<usize>>()); (H::Binary, Val::Bytes(bytes(n))) }
                2 => { let n = *c.pick(&counts(th)); (H::Array(Box::new(H::UInt8)), Val::List((0..n).map(|i| Val::U8(i as u8)).collect())) }
                3 => { let n = *c.pick(&counts(false)); let mut k: Vec<String> = (0..n).map(|i| i.to_string()).collect(); k.sort(); (H::Map(Box::new(H::UInt32)), Val::Map(k.into_iter().enumerate().map(|(i, s)| (s, Val::U32(i as u32))).collect())) }
                4 => { let n = c.choose(301); (H::Tuple(vec![H::UInt16; n]), Val::List((0..n).map(|i| Val::U16(i as u16 * 77)).collect())) }
                5 => { let i = *c.pick(&(0..=300).chain([16382, 16383, 16384, 16385, 65534, 65535, 65536, 65537, 70000]).collect::<Vec<u32>>()); (H::Enum(vec![H::UInt16; i as usize + 1 + c.choose(2)]), Val::Enum(i, vec![Val::U16(513)])) }
                _ => { let n = *c.pick(&(0..=140).collect::<Vec<usize>>()); (H::Tuple(vec![H::BigInt, H::BigUInt]), Val::List(vec![Val::Big(bytes(n)), Val::Big(bytes(n + 1))])) }
            };
            c.state(&(hs(&h), fxv(&v)));
            c.label(|| format!("{} = {}", hs(&h), sv(&v)));
            body_case(c, &h, &v)
        }),
        Space::new("many of each", MANY, move |c| {
            let (t, v) = many_case(c, th);
            let h = real::header_of(&t).ok_or("harness: no header")?;
            if real::ty_of(&h) != unnamed(&t) { c.outcome("no body of its own"); return Ok(()) }
            c.state_of_choices();
            c.label(|| format!("{} = {}", hs(&h), sv(&v)));
            c.outcome("value");
            body_case(c, &h, &v)
        }),
        Space::new("contents", CONTENTS, move |c| {
            let (t, v) = content_case(c);
            let h = real::header_of(&t).ok_or("harness: no header")?;
            let v = normal(&v);
            // characters and the like have no body of their own
            if real::ty_of(&h) != unnamed(&t) { c.outcome("no body of its own"); return Ok(()) }
            c.state(&(&t, &v));
            c.label(|| format!("{} = {}", hs(&h), sv(&v)));
            c.outcome("value");
            body_case(c, &h, &v)
        }),
        Space::new("nesting", "bodies nested 1..=60 deep through each constructor", |c| {
            let d = c.choose(60) + 1;
            let k = c.choose(5);
            let (mut h, mut v) = (Header::UInt16, Val::U16(300));
            for i in 0..d {
                let x = Box::new(h);
                (h, v) = match k {
                    0 => (Header::Optional(x), Val::Opt(Some(Box::new(v)))),
                    1 => (Header::Array(x), Val::List(vec![v])),
                    2 => (Header::Map(x), Val::Map(vec![(i.to_string(), v)])),
                    3 => (Header::Tuple(vec![*x, Header::Boolean]), Val::List(vec![v, Val::Bool(i % 2 == 0)])),
                    _ => (Header::Enum(vec![Header::Unit, *x]), Val::Enum(1, vec![v])),
                };
            }
            c.state(&(d, k));
            c.label(|| hs(&h));
            body_case(c, &h, &v)
        }),
    ]
}
/// structs as the tuples they are under a header
fn unnamed(t: &Ty) -> Ty {
    match t {
        Ty::Opt(t) => Ty::Opt(bx(unnamed(t))),
        Ty::Seq(t) => Ty::Seq(bx(unnamed(t))),
        Ty::Map(t) => Ty::Map(bx(unnamed(t))),
        Ty::Struct(ts) | Ty::Tuple(ts) => Ty::Tuple(ts.iter().map(unnamed).collect()),
        t => t.clone(),
    }
}
/// `b` with one part of it, at any depth, replaced by `x`
fn spoiled(b: &Body, x: &Body) -> Vec<Body> {
    let mut l = vec![x.clone()];
    match b {
        Body::Optional(Some(i)) => l.extend(spoiled(i, x).into_iter().map(|i| Body::Optional(Some(Box::new(i))))),
        Body::Enum(k, i) => l.extend(spoiled(i, x).into_iter().map(|i| Body::Enum(*k, Box::new(i)))),
        Body::Array(v) | Body::Tuple(v) => for p in 0..v.len() {
            for i in spoiled(&v[p], x) {
                let mut w = v.clone();
                w[p] = i;
                l.push(if let Body::Array(_) = b { Body::Array(w) } else { Body::Tuple(w) });
            }
        },
        Body::Map(m) => for (k, v) in m {
            for i in spoiled(v, x) { let mut w = m.clone(); w.insert(k.clone(), i); l.push(Body::Map(w)) }
        },
        _ => {}
    }
    l
}
pub fn fxv(v: &Val) -> u64 { crate::explore::fx(v) }

// ---------------------------------------------------------------- C14

pub fn leaf_bodies() -> Vec<Body> {
    leaf_headers().iter().map(|h| real::body_of(h, &default_value(&real::ty_of(h))).expect("leaf body")).collect()
}
pub fn map_body(l: &[&Body]) -> Body { Body::Map(l.iter().enumerate().map(|(i, b)| (format!("k{}", i), (*b).clone())).collect()) }
/// all bodies of one more level over `s`
pub fn bodies_over(s: &[Body], three: bool) -> Vec<Body> {
    let o = |b: &Body| Box::new(b.clone());
    let mut l = vec![Body::Optional(None), Body::Array(vec![]), Body::Tuple(vec![]), Body::Map(Default::default())];
    for a in s {
        l.push(Body::Optional(Some(o(a))));
        l.push(Body::Array(vec![a.clone()]));
        l.push(Body::Tuple(vec![a.clone()]));
        l.push(map_body(&[a]));
        for i in [0, 1, 2, 3, 256, 65536, 65537, u32::MAX] { l.push(Body::Enum(i, o(a))) }
        for b in s {
            l.push(Body::Array(vec![a.clone(), b.clone()]));
            l.push(Body::Tuple(vec![a.clone(), b.clone()]));
            l.push(map_body(&[a, b]));
            if three { for d in s { l.push(Body::Tuple(vec![a.clone(), b.clone(), d.clone()])); l.push(Body::Array(vec![a.clone(), b.clone(), d.clone()])) } }
        }
    }
    l
}
pub fn headers_over(s: &[Header], three: bool) -> Vec<Header> {
    let o = |b: &Header| Box::new(b.clone());
    let mut l = vec![Header::Tuple(vec![]), Header::Enum(vec![])];
    for a in s {
        l.extend([Header::Optional(o(a)), Header::Array(o(a)), Header::Map(o(a)), Header::Tuple(vec![a.clone()]), Header::Enum(vec![a.clone()])]);
        for b in s {
            l.push(Header::Tuple(vec![a.clone(), b.clone()]));
            l.push(Header::Enum(vec![a.clone(), b.clone()]));
            if three { for d in s { l.push(Header::Tuple(vec![a.clone(), b.clone(), d.clone()])); l.push(Header::Enum(vec![a.clone(), b.clone(), d.clone()])) } }
        }
    }
    l
}
pub fn agree(h: &Header, b: &Body) -> Check {
    let (got, want) = (b.validate(h), real::fits(h, b));
    if got != want { return Err(format!("{:.300} against {}: validation says {}, the shape {}", format!("{:?}", b), hs(h), got, if want { "fits" } else { "does not fit" })) }
    Ok(())
}

/// the bodies that differ from `b` at one place: another kind of node there, a member more or less, another variant
pub fn mutants(b: &Body) -> Vec<Body> {
    let mut l: Vec<Body> = [Body::Unit, Body::UInt8(7), Body::Optional(None), Body::Array(vec![]), Body::Tuple(vec![]), Body::Map(Default::default()), Body::Boolean(true), Body::String("s".into())].into_iter().filter(|x| std::mem::discriminant(x) != std::mem::discriminant(b)).collect();
    let o = |x: Body| Some(Box::new(x));
    let each = |v: &Vec<Body>, f: &dyn Fn(Vec<Body>) -> Body, l: &mut Vec<Body>| for i in 0..v.len() { for m in mutants(&v[i]) { let mut w = v.clone(); w[i] = m; l.push(f(w)) } };
    match b {
        Body::Optional(Some(x)) => l.extend(mutants(x).into_iter().map(|m| Body::Optional(o(m)))),
        Body::Array(v) => each(v, &Body::Array, &mut l),
        Body::Tuple(v) => {
            each(v, &Body::Tuple, &mut l);
            let mut w = v.clone();
            w.push(v.last().cloned().unwrap_or(Body::Unit));
            l.push(Body::Tuple(w));
            if !v.is_empty() { l.push(Body::Tuple(v[1..].to_vec())) }
        }
        Body::Map(m) => for k in m.keys() { for x in mutants(&m[k]) { let mut w = m.clone(); w.insert(k.clone(), x); l.push(Body::Map(w)) } },
        Body::Enum(i, x) => {
            l.extend(mutants(x).into_iter().map(|m| Body::Enum(*i, Box::new(m))));
            l.push(Body::Enum(i.wrapping_add(1), x.clone()));
            l.push(Body::Enum(i.wrapping_sub(1), x.clone()));
        }
        _ => {}
    }
    l
}

pub fn c14(th: bool) -> Vec<Space> {
    use Header as H;
    let pairs = |name: &str, what: &str, hl: Vec<Header>, bl: Vec<Body>| {
        let w = format!("{} ({} headers x {} bodies)", what, hl.len(), bl.len());
        Space::new(name, &w, move |c| {
            let h = c.pick(&hl);
            let mut fit = 0;
            for b in &bl {
                agree(h, b)?;
                if real::fits(h, b) { fit += 1 }
            }
            c.bulk(bl.len() as u64);
            c.outcome(if fit > 0 { "header with fitting bodies" } else { "header nothing fits" });
            c.label(|| format!("{}: {} of {} bodies fit", hs(h), fit, bl.len()));
            Ok(())
        })
    };
    let lh = leaf_headers();
    let lb = leaf_bodies();
    let sub_h = [H::Unit, H::UInt16, H::String, H::Boolean];
    let sub_b: Vec<Body> = sub_h.iter().map(|h| real::body_of(h, &default_value(&real::ty_of(h))).unwrap()).collect();
    let mut h1 = lh.clone();
    h1.extend(headers_over(&lh, false));
    let mut b1 = lb.clone();
    b1.extend(bodies_over(&lb, false));
    let (mut h1s, mut b1s) = (headers_over(&sub_h, true), bodies_over(&sub_b, true));
    h1s.extend(lh.clone());
    b1s.extend(lb.clone());
    // representatives of one level, then one level over those
    let rh = vec![H::Unit, H::UInt8, H::Optional(Box::new(H::UInt8)), H::Array(Box::new(H::UInt8)), H::Map(Box::new(H::UInt8)), H::Tuple(vec![H::UInt8]), H::Tuple(vec![H::UInt8, H::Unit]), H::Enum(vec![H::Unit, H::UInt8]), H::Tuple(vec![]), H::Enum(vec![H::UInt8])];
    let (u, n) = (Body::Unit, Body::UInt8(7));
    let o = |b: &Body| Box::new(b.clone());
    let rb = vec![u.clone(), n.clone(), Body::Optional(None), Body::Optional(Some(o(&n))), Body::Optional(Some(o(&u))), Body::Array(vec![]), Body::Array(vec![n.clone(), u.clone()]), Body::Array(vec![n.clone()]),
        map_body(&[&n]), map_body(&[&n, &u]), Body::Tuple(vec![]), Body::Tuple(vec![n.clone()]), Body::Tuple(vec![n.clone(), u.clone()]), Body::Enum(1, o(&n)), Body::Enum(0, o(&n)), Body::Enum(2, o(&u))];
    let (h2, b2) = (headers_over(&rh, th), bodies_over(&rb, th));
    // two levels over three representatives
    let rh3: Vec<Header> = h2.iter().filter(|h| !matches!(h, H::Tuple(v) | H::Enum(v) if v.len() > 1)).cloned().collect();
    let rb3: Vec<Body> = b2.iter().filter(|b| !matches!(b, Body::Tuple(v) if v.len() > 1)).filter(|b| !matches!(b, Body::Enum(i, _) if *i > 3)).cloned().collect();
    let wrap3: Vec<Header> = rh3.iter().flat_map(|h| vec![H::Optional(Box::new(h.clone())), H::Array(Box::new(h.clone())), H::Map(Box::new(h.clone())), H::Tuple(vec![H::Unit, h.clone()]), H::Enum(vec![H::Unit, h.clone()])]).collect();
    let wrapb3: Vec<Body> = rb3.iter().flat_map(|b| vec![Body::Optional(Some(o(b))), Body::Array(vec![b.clone()]), map_body(&[b]), Body::Tuple(vec![u.clone(), b.clone()]), Body::Enum(1, o(b)), Body::Enum(0, o(b))]).collect();
    let dl = header_list(false);
    let dl2 = { let mut l = rh.clone(); l.extend(headers1(&rh[..8])); l.extend(headers2(&[H::UInt16, H::String])); l.extend(headers1(&headers1(&[H::UInt8])).into_iter().map(|h| H::Enum(vec![h, H::Unit]))); l };
    vec![
        pairs("one level, all leaves", "all leaves and constructors over all leaves", h1, b1),
        pairs("one level, three members", "constructors with up to three members over four leaves", h1s, b1s),
        pairs("two levels", "constructors over one-level representatives", h2, b2),
        pairs("three levels", "single-member constructors over two-level ones", wrap3, wrapb3),
        {
            let w = format!("every header of up to {} nodes over unit and an integer against every body of up to {} nodes over those", if th { 6 } else { 5 }, if th { 6 } else { 5 });
            let max = if th { 6 } else { 5 };
            let bl = { let mut l = Vec::new(); for n in 1..=max { l.extend(crate::explore::all(|c| body_tree(c, n, &[Body::Unit, Body::UInt8(9)]))) } l };
            let w = format!("{} ({} bodies)", w, bl.len());
            Space::new("every pair of a size", &w, move |c| {
                let n = c.choose(max) + 1;
                let h = header_tree(c, n, &[H::Unit, H::UInt8]);
                let mut fit = 0;
                for b in &bl { agree(&h, b)?; if real::fits(&h, b) { fit += 1 } }
                c.bulk(bl.len() as u64);
                c.outcome(if fit > 0 { "header with fitting bodies" } else { "header nothing fits" });
                c.label(|| format!("{}: {} of {} bodies fit", hs(&h), fit, bl.len()));
                Ok(())
            })
        },
        Space::new("deep misfits", "each pair of constructors alternating 1..=300 deep (and 511..=513, 1,000), the body fitting, and not fitting at each level of the nesting in three ways", |c| {
            let ds: Vec<usize> = (1..=300).chain([511, 512, 513, 1000]).collect();
            let d = *c.pick(&ds);
            let (a, b) = (c.choose(5), c.choose(5));
            let k = |i: usize| if i % 2 == 0 { a } else { b };
            // level i wraps the (i-1)th; level 0 is the leaf
            let wrap_h = |h: H, k: usize| match k { 0 => H::Optional(Box::new(h)), 1 => H::Array(Box::new(h)), 2 => H::Map(Box::new(h)), 3 => H::Tuple(vec![H::Unit, h]), _ => H::Enum(vec![H::Unit, h]) };
            let wrap_b = |x: Body, k: usize| match k { 0 => Body::Optional(Some(Box::new(x))), 1 => Body::Array(vec![x]), 2 => Body::Map([("k".to_string(), x)].into_iter().collect()), 3 => Body::Tuple(vec![Body::Unit, x]), _ => Body::Enum(1, Box::new(x)) };
            let mut h = H::UInt16;
            for i in 0..d { h = wrap_h(h, k(i)) }
            // where it goes wrong: at every level up to depth 40, else at the ends and around 2^k from the top
            let at: Vec<usize> = if d <= 40 { (0..=d).collect() } else { let mut l = vec![0, 1, 2, d / 2, d - 1]; for e in [31usize, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512] { if e < d { l.push(d - e) } } l };
            let x = Body::UInt16(7);
            let mut y = x.clone();
            for i in 0..d { y = wrap_b(y, k(i)) }
            agree(&h, &y)?;
            if !y.validate(&h) { return Err(format!("a fitting body {} deep does not validate", d)) }
            for &lev in &at {
                for wrong in [Body::UInt8(7), Body::Unit, Body::Tuple(vec![])] {
                    let mut y = wrong;
                    for i in lev..d { y = wrap_b(y, k(i)) }
                    agree(&h, &y)?;
                }
            }
            c.bulk(1 + 3 * at.len() as u64);
            c.label(|| format!("{} deep, constructors {} and {}", d, a, b));
            c.outcome("compared");
            Ok(())
        }),
        Space::new("positions", "arrays, maps and tuples of every length 0..=40 and 127..=130, 255..=257, 300 with one misfit at every position, at the top and nested", |c| {
            let ns: Vec<usize> = (0..=40).chain([127, 128, 129, 130, 255, 256, 257, 300]).collect();
            let n = *c.pick(&ns);
            let kind = c.choose(3);
            let outer = c.choose(4);
            let good = Body::UInt16(1);
            let bad = [Body::UInt8(1), Body::Unit, Body::Optional(Some(Box::new(good.clone())))];
            let mk = |l: Vec<Body>| match kind { 0 => Body::Array(l), 1 => Body::Tuple(l), _ => Body::Map(l.into_iter().enumerate().map(|(i, b)| (format!("{:04}", i), b)).collect()) };
            let h = match kind { 0 => H::Array(Box::new(H::UInt16)), 1 => H::Tuple(vec![H::UInt16; n]), _ => H::Map(Box::new(H::UInt16)) };
            let wh = match outer { 0 => h.clone(), 1 => H::Optional(Box::new(h.clone())), 2 => H::Array(Box::new(h.clone())), _ => H::Enum(vec![H::Unit, h.clone()]) };
            let wb = |b: Body| match outer { 0 => b, 1 => Body::Optional(Some(Box::new(b))), 2 => Body::Array(vec![mk(vec![good.clone(); n]), b]), _ => Body::Enum(1, Box::new(b)) };
            agree(&wh, &wb(mk(vec![good.clone(); n])))?;
            for p in 0..n { for x in &bad { let mut l = vec![good.clone(); n]; l[p] = x.clone(); agree(&wh, &wb(mk(l)))? } }
            // arities around n
            for d in [1usize, 2] { agree(&wh, &wb(mk(vec![good.clone(); n + d])))?; if n >= d { agree(&wh, &wb(mk(vec![good.clone(); n - d])))? } }
            c.bulk(3 * n as u64 + 4);
            c.label(|| format!("{} of {} members", ["array", "tuple", "map"][kind], n));
            c.outcome("compared");
            Ok(())
        }),
        Space::new("contents", &format!("{}: as a body, and with each part of it replaced by a body that fits no header used here, and by a unit", CONTENTS), |c| {
            let (t, v) = content_case(c);
            let h = real::header_of(&t).ok_or("harness: no header")?;
            if real::ty_of(&h) != unnamed(&t) { c.outcome("no body of its own"); return Ok(()) }
            let b = real::body_of(&h, &normal(&v))?;
            agree(&h, &b)?;
            if !b.validate(&h) { return Err(format!("{:?} does not validate against {}", b, hs(&h))) }
            let mut n = 0;
            for x in [Body::Enum(9, Box::new(Body::Unit)), Body::Unit] {
                for y in spoiled(&b, &x) { agree(&h, &y)?; n += 1 }
            }
            c.bulk(1 + n);
            c.label(|| format!("{} = {}", hs(&h), sv(&v)));
            c.outcome("compared");
            Ok(())
        }),
        {
            let hl: Vec<Header> = dl2.into_iter().filter(|h| !is_void(&real::ty_of(h))).collect();
            let w = format!("{} headers (two levels of constructors, enums over them): each fitting body of up to 2 elements beside itself and others, with every body that differs from it at one place, at any depth, before, between and after them in arrays, maps, tuples and arrays of arrays", hl.len());
            Space::new("siblings", &w, move |c| {
                let h = c.pick(&hl);
                let t = real::ty_of(h);
                let v = value(c, &t, 0, if depth(&t) > 2 { 1 } else { 2 });
                let b = real::body_of(h, &normal(&v))?;
                let d = real::body_of(h, &default_value(&t))?;
                let bx = |h: &H| Box::new(h.clone());
                let mut n = 0;
                for m in mutants(&b) {
                    for l in [vec![&b, &m], vec![&m, &b], vec![&b, &b, &m], vec![&b, &m, &b], vec![&d, &m], vec![&m, &d, &b], vec![&d, &b, &m, &m]] {
                        let l: Vec<Body> = l.into_iter().cloned().collect();
                        let w: Vec<H> = l.iter().map(|_| h.clone()).collect();
                        agree(&H::Map(bx(h)), &Body::Map(l.iter().enumerate().map(|(i, b)| (i.to_string(), b.clone())).collect()))?;
                        agree(&H::Tuple(w), &Body::Tuple(l.clone()))?;
                        let a = H::Array(bx(h));
                        agree(&H::Array(bx(&a)), &Body::Array(vec![Body::Array(vec![b.clone()]), Body::Array(l.clone())]))?;
                        agree(&a, &Body::Array(l))?;
                        n += 4;
                    }
                }
                c.bulk(n);
                c.label(|| format!("{} = {}", hs(h), sv(&v)));
                c.state(&(&t, &v));
                c.outcome("compared");
                Ok(())
            })
        },
        Space::new("counts", "tuples, arrays and maps of 0..=2, 255..=258, 511, 512, 65534..=65538 and 131,072 members: each two counts as header and body, at the top and nested", |c| {
            let ns = [0usize, 1, 2, 255, 256, 257, 258, 511, 512, 65534, 65535, 65536, 65537, 65538, 131072];
            let (n, outer) = (*c.pick(&ns), c.choose(5));
            let wh = |h: H| match outer { 0 => h, 1 => H::Optional(Box::new(h)), 2 => H::Array(Box::new(h)), 3 => H::Tuple(vec![H::Unit, h]), _ => H::Map(Box::new(h)) };
            let wb = |b: Body| match outer { 0 => b, 1 => Body::Optional(Some(Box::new(b))), 2 => Body::Array(vec![b]), 3 => Body::Tuple(vec![Body::Unit, b]), _ => Body::Map([("k".to_string(), b)].into_iter().collect()) };
            let ht = wh(H::Tuple(vec![H::UInt8; n]));
            for m in ns {
                agree(&ht, &wb(Body::Tuple(vec![Body::UInt8(9); m])))?;
                // no tuple, however long
                agree(&ht, &wb(Body::Array(vec![Body::UInt8(9); m])))?;
                c.beat();
            }
            // a misfit in the last of so many
            for (h, l) in [(wh(H::Array(Box::new(H::UInt8))), 0), (wh(H::Map(Box::new(H::UInt8))), 1), (ht, 2)] {
                for last in [Body::UInt8(1), Body::Unit] {
                    let b = match l {
                        1 => Body::Map((0..n).map(|i| (format!("{:06}", i), if i + 1 == n { last.clone() } else { Body::UInt8(0) })).collect()),
                        _ => { let mut v = vec![Body::UInt8(0); n]; if n > 0 { v[n - 1] = last.clone() } if l == 0 { Body::Array(v) } else { Body::Tuple(v) } }
                    };
                    agree(&h, &wb(b))?;
                }
            }
            c.bulk(2 * ns.len() as u64 + 6);
            c.label(|| format!("{} members", n));
            c.outcome("compared");
            Ok(())
        }),
        {
            let hl: Vec<Header> = { let mut l = leaf_headers(); l.extend(headers1(&[H::UInt8])); l.into_iter().filter(|h| !is_void(&real::ty_of(h))).collect() };
            let w = format!("arrays of 1,000 to 2^20+1 and maps of 1,000 to 131,073 members (thorough: 2^23+1 and 2^20+1), of each of {} headers: all fitting, and one misfit first, in the middle, last, behind the 2^16th and behind the 2^17th", hl.len());
            Space::new("huge counts", &w, move |c| {
                let h = c.pick(&hl);
                let map = c.flag();
                let ns: Vec<usize> = [1000usize, 1025, 4097, 10_001, 65_537, 131_073, 300_001, (1 << 20) + 1, (1 << 23) + 1].into_iter().filter(|n| *n <= match (map, th) { (true, false) => 131_073, (true, true) => (1 << 20) + 1, (false, false) => (1 << 20) + 1, _ => (1 << 23) + 1 }).collect();
                let n = *c.pick(&ns);
                let good = real::body_of(h, &default_value(&real::ty_of(h)))?;
                let bad = if real::fits(h, &Body::Unit) { Body::UInt8(1) } else { Body::Unit };
                let places: Vec<usize> = [0, n / 2, n - 1, 65_536, 131_072].into_iter().filter(|p| *p < n).collect();
                let mut cnt = 1;
                let say = |v: bool, p: Option<usize>| Err(format!("{} of {} fitting members of {}, misfit at {:?}: validation says {}", if map { "a map" } else { "an array" }, n, hs(h), p, v));
                if map {
                    let hh = H::Map(Box::new(h.clone()));
                    let mut b = Body::Map((0..n).map(|i| (format!("{:07}", i), good.clone())).collect());
                    if !b.validate(&hh) { return say(false, None) }
                    for p in places {
                        let k = format!("{:07}", p);
                        if let Body::Map(m) = &mut b { *m.get_mut(&k).unwrap() = bad.clone() }
                        if b.validate(&hh) { return say(true, Some(p)) }
                        if let Body::Map(m) = &mut b { *m.get_mut(&k).unwrap() = good.clone() }
                        cnt += 1;
                    }
                } else {
                    let hh = H::Array(Box::new(h.clone()));
                    let mut b = Body::Array(vec![good.clone(); n]);
                    if !b.validate(&hh) { return say(false, None) }
                    for p in places {
                        if let Body::Array(m) = &mut b { m[p] = bad.clone() }
                        if b.validate(&hh) { return say(true, Some(p)) }
                        if let Body::Array(m) = &mut b { m[p] = good.clone() }
                        cnt += 1;
                    }
                }
                c.beat();
                c.state_of_choices();
                c.bulk(cnt);
                c.validated(cnt);
                c.label(|| format!("{} members of {}", n, hs(h)));
                c.outcome("compared");
                Ok(())
            })
        },
        Space::new("enum indexes", "enums of 0..=300 and around 2^8, 2^14, 2^16 variants, every index near 0, the count, its multiples of 2^8 and 2^16, and u32::MAX", |c| {
            let ns: Vec<u32> = (0..=300).chain([16383, 16384, 65535, 65536, 65537]).collect();
            let n = *c.pick(&ns);
            // payload types alternate so that a wrong variant shows
            let h = H::Enum((0..n).map(|i| if i % 2 == 0 { H::UInt8 } else { H::String }).collect());
            let mut is: Vec<u32> = vec![0, 1, 2, 255, 256, 257, 16383, 16384, 65534, 65535, 65536, 65537, 65538, u32::MAX, u32::MAX - 1, 1 << 31];
            for d in -2i64..=2 { for m in [0u32, 256, 65536, 1 << 24] { is.push((n as i64 + d).max(0) as u32 + m) } }
            for i in is {
                for b in [Body::UInt8(1), Body::String("x".into()), Body::Unit] { agree(&h, &Body::Enum(i, Box::new(b)))? }
                c.bulk(3);
            }
            c.label(|| format!("enum of {} variants", n));
            c.outcome("compared");
            Ok(())
        }),
        Space::new("decoded bodies", "every body decoded from a byte string of up to 4 (thorough 5) bytes under all one-level and representative two-level headers validates, and fits", move |c| {
            let h = c.pick(&dl);
            let t = real::ty_of(h);
            let b = byte_tree(c, &t, &[0, 1, 2, 0x41, 0x80, 0xC0, 0xFF], if th { 5 } else { 4 });
            c.state(&(&t, &b));
            if huge_zero(&t, &b) { return Ok(()) }
            if let (Ok(x), _) = real::body_de(h, &b) {
                if !x.validate(h) { return Err(format!("{} decoded under {} gives {:?}, which does not validate", short(&b), hs(h), x)) }
                agree(h, &x)?;
                c.outcome("decoded");
                c.label(|| format!("{} under {}", short(&b), hs(h)));
            } else { c.outcome("refused") }
            c.validated(1);
            Ok(())
        }),
    ]
}
