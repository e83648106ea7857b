//! One deterministic enumeration whose every outcome is noted down in a way that
//! does not depend on platform or configuration, for C22 and C23.
use crate::env::*;
use crate::explore::*;
use crate::gen::*;
use crate::model::*;
use crate::props::cases::*;
use crate::props::headers::*;
use crate::props::hostile::{claims, sound};
use crate::props::*;
use crate::{real, rec};
use dlhn::{Body, Header};
use std::io::Write;

/// how large the enumeration is: 0 where it is interpreted, 1 natively, 2 natively and thorough
pub type Size = usize;

fn bytes_agree(t: &Ty, v: &Val) -> Result<Vec<u8>, String> {
    let b = ser_ok(t, v)?;
    let e = encoded(t, v);
    if b != e { return Err(format!("{} as {}: {}, the format says {}", sv(v), st(t), short(&b), short(&e))) }
    Ok(b)
}
fn whole(c: &Ctx, t: &Ty, v: &Val) -> Check {
    bytes_agree(t, v)?;
    roundtrip(c, t, v).map(|_| ())
}
/// a reader that gives one byte at a time, a writer that is full after k bytes, an end after k bytes
fn pieces(t: &Ty, v: &Val) -> Check {
    let e = encoded(t, v);
    let mut r = Dribble { data: &e, step: 1 };
    let x = real::de_from(t, &mut r);
    rec::de_hash(&x, e.len() - r.data.len());
    if x.as_ref().ok() != Some(v) { return Err(format!("{} delivered one byte at a time: {:?}", sv(v), x)) }
    for k in 0..e.len().min(40) {
        let mut w = Full { got: vec![], room: k };
        let x = real::ser_to(t, v, &mut w);
        rec::ser(&x, &w.got);
        if x.is_ok() || !e.starts_with(&w.got) { return Err(format!("{} into a writer of {} bytes: {:?}", sv(v), k, x)) }
        if let (Ok(x), _) = real::de(t, &e[..k]) { return Err(format!("the first {} bytes of {} read as {}", k, short(&e), sv(&x))) }
    }
    Ok(())
}
pub struct Full { pub got: Vec<u8>, pub room: usize }
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.room - self.got.len());
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

/// numbers of a width at and about every place where a representation changes
pub fn lattice(w: u32, size: Size) -> Vec<u64> {
    let max = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    let mut l = vec![0u64, 1, max, max - 1, 0x0123_4567_89AB_CDEF & max, 0xFEDC_BA98_7654_3210 & max, 0x5A5A_5A5A_5A5A_5A5A & max];
    for k in 0..w { for d in [-1i64, 0, 1] { l.push((1u64 << k).wrapping_add(d as u64) & max) } }
    if size > 0 { for i in 0..w { for j in 0..i { l.push(1u64 << i | 1u64 << j); l.push((1u64 << i) - (1u64 << j)) } } }
    // every byte value at every place
    for k in 0..w / 8 { for b in 0..256u64 { if size > 0 || b % 7 == 1 { l.push(b << (8 * k)) } } }
    l.sort();
    l.dedup();
    l
}
fn integer(w: u32, signed: bool, x: u64) -> (Ty, Val) {
    match (w, signed) {
        (16, false) => (Ty::U16, Val::U16(x as u16)), (32, false) => (Ty::U32, Val::U32(x as u32)), (64, false) => (Ty::U64, Val::U64(x)),
        (16, true) => (Ty::I16, Val::I16(unzigzag(x) as i16)), (32, true) => (Ty::I32, Val::I32(unzigzag(x) as i32)), _ => (Ty::I64, Val::I64(unzigzag(x))),
    }
}

pub fn spaces(size: Size) -> Vec<Space> {
    let deep = size > 0;
    let th = size > 1;
    let mut l: Vec<Space> = Vec::new();
    let small: Vec<Ty> = { let mut l = atoms(); l.extend(depth1_over(&if deep { atoms() } else { vec![Ty::U16, Ty::Str, Ty::I64, Ty::Bytes, Ty::DateTime, Ty::BigDecimal] })); l };
    let two: Vec<Ty> = if deep { depth2(&rep_atoms()) } else { depth2(&[Ty::U32]).into_iter().step_by(3).collect() };
    let sm = small.clone();
    l.push(Space::new("values", "all scalars and library types with boundary values, all constructors over them", move |c| {
        let t = c.pick(&sm);
        let v = value(c, t, if depth(t) == 0 { 2 - (size == 0 && matches!(t, Ty::Bytes | Ty::BytesVia)) as u8 } else { 1 - (fan(t) > 1) as u8 * (size == 0) as u8 }, 2);
        c.label(|| format!("{} = {}", st(t), sv(&v)));
        whole(c, t, &v)
    }));
    l.push(Space::new("nested values", "constructors over constructors", move |c| {
        let t = c.pick(&two);
        let v = value(c, t, if deep { 1 } else { 0 }, if deep { 2 } else { 1 });
        c.label(|| format!("{} = {}", st(t), sv(&v)));
        whole(c, t, &v)
    }));
    let sm = small.clone();
    l.push(Space::new("pieces", "delivery one byte at a time, a writer full after, and an input that ends after, every number of bytes", move |c| {
        let t = c.pick(&sm);
        let v = if depth(t) == 0 { let mut l = atom_vals(t, 2); l.sort_by_key(|v| encoded(t, v).len()); let n = l.len(); l[[0, n / 2, n - 1][c.choose(3)]].clone() } else { default_value(t) };
        c.label(|| format!("{} = {}", st(t), sv(&v)));
        if encoded(t, &v).len() > 700 { return Ok(()) }
        pieces(t, &v)
    }));
    let lat = [lattice(16, size), lattice(32, size), lattice(64, size)];
    l.push(Space::new("integers", "every integer type about every power of two, and every byte at every place", move |c| {
        let w = *c.pick(&[16u32, 32, 64]);
        let signed = c.flag();
        let l = &lat[w as usize / 32];
        let n = 16;
        let k = c.choose(l.len().div_ceil(n));
        for x in &l[k * n..(k * n + n).min(l.len())] { let (t, v) = integer(w, signed, *x); whole(c, &t, &v)? }
        c.label(|| format!("{} {}-bit integers from {}", if signed { "signed" } else { "unsigned" }, w, l[k * n]));
        c.count(n as u64);
        Ok(())
    }));
    l.push(Space::new("floats", "bit patterns with every byte different, and one byte varied", move |c| {
        let w = *c.pick(&[4usize, 8]);
        let p = c.choose(w);
        let k = c.choose(16) as u64;
        for b in k * 16..k * 16 + 16 {
            if !deep && b % 5 != 0 { continue }
            for base in [0u64, 0x0102_0304_0506_0708, 0x7FF8_0000_7FC0_0001] {
                let x = base ^ (b << (8 * p));
                let (t, v) = if w == 4 { (Ty::F32, Val::F32(x as u32)) } else { (Ty::F64, Val::F64(x)) };
                whole(c, &t, &v)?;
                c.count(1);
            }
        }
        Ok(())
    }));
    l.push(Space::new("lengths", "texts, binaries, keys and big integers about the lengths where their form changes", move |c| {
        let mut l: Vec<usize> = if deep { (0..700).collect() } else { vec![0, 1, 2, 3, 4, 31, 63, 64, 65, 126, 127, 128, 129, 130, 255, 256, 257, 500] };
        l.extend(if deep { &[4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384][..] } else { &[4097, 16384] });
        if deep { l.extend([16385, 65535, 65536, 65537, 1 << 20, (1 << 21) - 1, 1 << 21, (1 << 21) + 1]) }
        let n = *c.pick(&l);
        let (t, v) = text_case(c, n, if !deep && n > 5000 { 2 } else { 8 });
        c.label(|| format!("{} of length {}", st(&t), n));
        whole(c, &t, &v)
    }));
    l.push(Space::new("counts", "arrays, maps and tuples about the counts where their form changes", move |c| {
        let mut l = vec![0usize, 1, 2, 3, 126, 127, 128, 129];
        if deep { l.extend([255, 256, 257, 16383, 16384, 16385, 65535, 65536, 65537]) }
        let n = *c.pick(&l);
        let (t, v) = if c.flag() { if n > 2000 { return Ok(()) } wide_case(c, n) } else { count_case(c, n) };
        c.label(|| format!("{} members", n));
        whole(c, &t, &v)
    }));
    l.push(Space::new("variants", "enum indexes about the places where their form changes", move |c| {
        let mut l = vec![0u32, 1, 127, 128];
        if deep { l.extend([2, 63, 64, 126, 129, 255, 256, 257, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000]) }
        let i = *c.pick(&l);
        let kind = c.choose(4);
        c.label(|| format!("variant {} with payload kind {}", i, kind));
        if deep { let (t, v) = variant_case(i, kind); return whole(c, t, &v) }
        let x = [Var::Unit, Var::New(Ty::U16), Var::Tuple(vec![Ty::U8, Ty::Str]), Var::Struct(vec![Ty::Str, Ty::U8])][kind].clone();
        whole(c, &Ty::Enum(vec![x; 130]), &variant_case_value(i, kind))
    }));
    // -- decoding of anything
    let tree = move |c: &Ctx, t: &Ty, a: &[u8], max: usize| -> Check { let b = byte_tree(c, t, a, max); c.label(|| format!("{} from {}", st(t), short(&b))); sound(c, t, &b) };
    let sa: &[u8] = if deep { &ALPHA } else { &[0, 1, 0x41, 0x80, 0xFF] };
    let at = atoms();
    l.push(Space::new("bytes", "all scalars and library types on all byte strings over an alphabet that are prefixes of something decodable", move |c| {
        let t = c.pick(&at);
        tree(c, t, sa, if th { 6 } else if deep { 4 } else { 3 })
    }));
    let at = atoms();
    l.push(Space::new("every byte", "all scalars and library types on every single byte, followed by nothing or more", move |c| {
        let t = c.pick(&at);
        let k = c.choose(16) * 16;
        for b in (k..k + 16).filter(|b| deep || b % 3 != 1) { for tail in if deep { vec![&[][..], &[0x41, 0x80, 0, 0xFF, 1, 2, 3, 4, 5, 6, 7]] } else { vec![&[0x41, 0x80, 0, 0xFF, 1, 2, 3, 4, 5, 6, 7][..]] } { let mut i = vec![b as u8]; i.extend_from_slice(tail); sound(c, t, &i)?; c.count(1) } }
        Ok(())
    }));
    let d1 = depth1_over(&if deep { rep_atoms() } else { vec![Ty::U16, Ty::Str] });
    l.push(Space::new("bytes of constructors", "constructors on all byte strings over an alphabet that are prefixes of something decodable", move |c| {
        let t = c.pick(&d1);
        tree(c, t, &[0, 1, 2, 0x41, 0x80, 0xC3, 0xFF], if deep { 4 } else { 2 })
    }));
    let claimers: Vec<Ty> = { let mut l = vec![Ty::Str, Ty::StrVia, Ty::Bytes, Ty::BytesVia, Ty::Char, Ty::BigUint, Ty::BigInt, Ty::BigDecimal]; for t in [Ty::U8, Ty::Str, Ty::Bytes] { l.extend(wrap(&t, &Ty::U16)) } l };
    let claimers: Vec<Ty> = claimers.into_iter().filter(|t| !claims(t, 100, &[]).is_empty()).collect();
    l.push(Space::new("claims", "lengths and counts about powers of two to 2^64-1 at every place, followed by none or a few bytes; under headers as well", move |c| {
        let t = c.pick(&claimers);
        let mut ks: Vec<u64> = vec![];
        for k in if deep { (7..64).collect::<Vec<u32>>() } else { vec![31, 32, 63] } { for d in [-1i64, 0, 1, 2] { ks.push((1u64 << k).wrapping_add(d as u64)) } }
        ks.extend([u64::MAX, u64::MAX - 1, (3u64 << 32) + 1, (5 << 32) + 2, (1 << 63) + 1]);
        let k = *c.pick(&ks);
        c.label(|| format!("{} claiming {}", st(t), k));
        for f in if deep { vec![&[][..], &[1], &[0; 4], &[b'a'; 20]] } else { vec![&[b'a'; 6][..]] } {
            for b in claims(t, k, &f) {
                sound(c, t, &b)?;
                if let Some(h) = real::header_of(t) { let _ = real::body_de(&h, &b); }
                c.count(1);
            }
        }
        Ok(())
    }));
    // -- headers and bodies
    let hl: Vec<Header> = { let mut l = leaf_headers(); l.extend(headers1(&if deep { leaf_headers() } else { vec![Header::UInt16, Header::String, Header::DateTime, Header::BigDecimal] })); l };
    let hl2: Vec<Header> = { let mut l = hl.clone(); l.extend(headers2(&if deep { leaf_headers() } else { vec![Header::Int64] })); l };
    l.push(Space::new("headers", "all leaves, one and two levels of constructors, and wide ones", move |c| {
        let mut wide = vec![127usize, 128, 129, 300];
        if deep { wide.extend([16383, 16384, 65534, 65535, 65536, 65537]) }
        let n = c.choose(hl2.len() + 2 * wide.len());
        let h = if n < hl2.len() { hl2[n].clone() } else { let n = n - hl2.len(); let m = vec![Header::UInt8; wide[n / 2]]; if n % 2 == 0 { Header::Tuple(m) } else { Header::Enum(m) } };
        c.label(|| hs(&h));
        let mut e = vec![];
        match (real::header_ser(&h), real::enc_header(&h, &mut e)) {
            (Ok(b), Some(())) if b == e => match real::header_de(&b) { (Ok(x), n) if x == h && n == b.len() => Ok(()), x => Err(format!("{} comes back as {:?}", hs(&h), x)) },
            (Err(_), None) => Ok(()),
            (r, _) => Err(format!("{} is written as {:.200}", hs(&h), format!("{:02x?}", r))),
        }
    }));
    l.push(Space::new("header bytes", "all byte strings over codes and counts that are prefixes of a header, and every byte alone", move |c| {
        let mut b: Vec<u8> = Vec::new();
        if c.flag() {
            let x = c.choose(32) * 8;
            for x in x..x + 8 { for t in [&[][..], &[0], &[3, 3, 3], &[0x80, 1, 3, 3]] { let mut b = vec![x as u8]; b.extend_from_slice(t); header_bytes(c, &b)?; c.count(1) } }
            return Ok(());
        }
        let alpha: &[u8] = if deep { &[0, 1, 2, 7, 18, 20, 21, 22, 23, 24, 25, 27, 0x80, 0xC0, 0xFF] } else { &[0, 1, 20, 21, 24, 0x80, 0xC0] };
        while b.len() < if th { 6 } else if deep { 5 } else { 4 } {
            if real::dec_header(&mut Dec::new(&b)) != Err(Stop::NeedMore) { break }
            match c.extend(alpha.len()) { Some(k) => b.push(alpha[k]), None => break }
        }
        c.label(|| short(&b));
        header_bytes(c, &b)
    }));
    let hv = hl.clone();
    l.push(Space::new("bodies", "bodies under all leaf and one-level headers: written, read, validated", move |c| {
        let h = c.pick(&hv);
        let t = real::ty_of(h);
        let v = value(c, &t, if depth(&t) == 0 && deep { 2 } else { 1 - (fan(&t) > 1) as u8 * (size == 0) as u8 }, 2);
        let v = normal(&v);
        c.label(|| format!("{} = {}", hs(h), sv(&v)));
        body_case(c, h, &v)
    }));
    let hb = hl.clone();
    l.push(Space::new("bytes under headers", "the same headers on all byte strings over an alphabet, against the static type", move |c| {
        let h = c.pick(&hb);
        let t = real::ty_of(h);
        let b = byte_tree(c, &t, if deep { &[0, 1, 2, 0x41, 0x80, 0xC3, 0xFF] } else { &[0, 1, 0x41, 0xFF] }, if th { 5 } else if deep { 4 } else { 2 });
        c.label(|| format!("{} under {}", short(&b), hs(h)));
        body_bytes(c, h, &t, &b)
    }));
    l.push(Space::new("validation", "all one-level headers against all one-level bodies", move |c| {
        let s = if deep { leaf_headers() } else { vec![Header::Unit, Header::UInt16, Header::Date] };
        let sb: Vec<Body> = if deep { leaf_bodies() } else { s.iter().map(|h| real::body_of(h, &default_value(&real::ty_of(h))).unwrap()).collect() };
        let mut hl = s.clone();
        hl.extend(headers_over(&s, false));
        let h = c.pick(&hl);
        let mut bl = leaf_bodies();
        bl.extend(bodies_over(&sb, false));
        let mut m = 0u64;
        for b in &bl { agree(h, b)?; m = m.wrapping_mul(31).wrapping_add(b.validate(h) as u64) }
        rec::note(&format!("{} fits {:x}", hs(h), m));
        c.label(|| hs(h));
        c.bulk(bl.len() as u64);
        Ok(())
    }));
    l.push(Space::new("no form", "keys that are no text, 128-bit integers, sequences of unknown length, requests for anything", move |c| crate::props::unsupported::no_form(c, if deep { 1 } else { 0 })));
    l.push(Space::new("static types", "built-in types: their header, and a value of each written and read", |c| statics(c)));
    #[cfg(feature = "f_dlhn_derive")]
    l.push(Space::new("derived headers", "headers of derived types", |c| derived(c)));
    #[cfg(feature = "f_time")]
    {
        use crate::props::times::*;
        l.push(Space::new("dates", "the first, last and sixtieth days of years about every change of form, and encoded pairs", move |c| {
            let ys: Vec<i32> = if deep { (-9999..=9999).step_by(7).chain(1900..2110).collect() } else { vec![-9999, -1, 0, 4, 1900, 1935, 1936, 1970, 1999, 2000, 2001, 2004, 2063, 2064, 2100, 9999] };
            let y = *c.pick(&ys);
            for o in [1, 2, 59, 60, 61, 64, 65, 128, 129, 365, 366] { if o <= days_in(y) { date_ok(y, o as u16)? } }
            c.count(11);
            Ok(())
        }));
        let ys: Vec<i32> = { let l = year_edges(); if deep { l } else { l.into_iter().step_by(17).collect() } };
        let os: Vec<u16> = ordinal_edges().into_iter().enumerate().filter(|(i, _)| deep || i % 5 == 0).map(|x| x.1).collect();
        l.push(Space::new("encoded dates", "encoded years and days at their edges", move |c| {
            let y = *c.pick(&ys);
            for o in &os { encoded_date(y, *o)? }
            c.count(1);
            Ok(())
        }));
        let ss: Vec<i64> = { let l = second_edges(); if deep { l } else { l.into_iter().step_by(17).collect() } };
        let ns: Vec<u32> = nano_edges(true).into_iter().enumerate().filter(|(i, _)| deep || i % 9 == 0).map(|x| x.1).collect();
        l.push(Space::new("encoded instants", "encoded seconds and nanoseconds at their edges", move |c| {
            let s = *c.pick(&ss);
            for n in &ns { encoded_instant(s, *n)? }
            c.count(1);
            Ok(())
        }));
        l.push(Space::new("clocks", "instants with offsets", move |c| {
            let y = *c.pick(&[-9999, 0, 1969, 1970, 2000, 9999]);
            let o = *c.pick(&[1u16, 180, 365]);
            for (s, n) in [(0u32, 0u32), (1, 1), (43200, 999_999_999), (86399, 500_000_000)] { for off in [0, 60, -60, 3600, -3600, 50_400, -43_200, 1_800] { if (y == -9999 && o == 1) || (y == 9999 && o == 365) { if off != 0 { continue } } clock_ok(y, o, s, n, off)?; c.count(1) } }
            Ok(())
        }));
        l.push(Space::new("time headers", "headers of the time crate's types", |_| { header_is::<time::Date>("time::Date", Header::Date)?; header_is::<time::OffsetDateTime>("time::OffsetDateTime", Header::DateTime) }));
    }
    #[cfg(all(feature = "f_num_traits", feature = "f_num_bigint"))]
    {
        use crate::props::bigs::*;
        l.push(Space::new("big integers", "magnitudes and encoded strings over an alphabet, and about powers of two", move |c| {
            if c.flag() {
                let k = c.choose(if deep { 600 } else { 20 });
                let n = if deep { k } else { [0, 1, 2, 6, 7, 8, 9, 14, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129][k] };
                let p = num_bigint::BigUint::from(1u8) << n;
                for d in 0..=2u32 { let m = (&p + d - 1u32).to_bytes_le(); uint_ok(&m)?; int_ok(false, &m)?; if m.iter().any(|x| *x != 0) { int_ok(true, &m)? } c.count(3) }
                return Ok(());
            }
            let m = if deep { string(c, 4) } else { let n = c.choose(3); (0..n).map(|_| *c.pick(&[0u8, 1, 0x7F, 0x80, 0xFF])).collect() };
            uint_ok(&m)?;
            int_ok(false, &m)?;
            if m.iter().any(|x| *x != 0) { int_ok(true, &m)? }
            encoded_ints(&m)
        }));
        l.push(Space::new("big integer headers", "headers of the number crates' types", |_| { header_is::<num_bigint::BigUint>("BigUint", Header::BigUInt)?; header_is::<num_bigint::BigInt>("BigInt", Header::BigInt) }));
    }
    #[cfg(feature = "f_bigdecimal")]
    l.push(Space::new("big decimal header", "header of bigdecimal::BigDecimal", |_| header_is::<bigdecimal::BigDecimal>("BigDecimal", Header::BigDecimal)));
    #[cfg(all(feature = "f_num_traits", feature = "f_bigdecimal"))]
    l.push(Space::new("decimals written", "decimals of the number crate by the portable type", move |c| {
        let ms: Vec<i64> = if deep { (-1030..=1030).collect() } else { vec![0, 1, -1, 9, 10, 100, 127, 128, -128, -129, 255, 256, 1000, -1230, 70000] };
        let m = *c.pick(&ms);
        for s in [0i64, 1, -1, 2, 63, 64, -64, -65, 8191, 8192, i64::MAX, i64::MIN, i64::MIN + 1, i64::MAX - 1] {
            let d = bigdecimal::BigDecimal::new(bigdecimal::num_bigint::BigInt::from(m), s);
            let (mut m, mut s) = (m, s);
            while m != 0 && m % 10 == 0 && s > i64::MIN { m /= 10; s -= 1 }
            let mut e = vec![];
            if m == 0 { e.push(0) } else {
                let mut b = m.to_le_bytes().to_vec();
                while b.len() > 1 && ((b[b.len() - 1] == 0 && b[b.len() - 2] < 128) || (b[b.len() - 1] == 255 && b[b.len() - 2] >= 128)) { b.pop(); }
                e.push(b.len() as u8);
                e.extend(b);
                enc_uint(64, zigzag(s), &mut e);
            }
            let w = real::ser_any(&dlhn::BigDecimal::from(d));
            if w.as_ref().ok() != Some(&e) { return Err(format!("{} at scale {} is written as {:02x?}, the format says {}", m, s, w, short(&e))) }
            c.count(1);
        }
        Ok(())
    }));
    #[cfg(all(feature = "f_num_traits", feature = "f_num_bigint", feature = "f_bigdecimal"))]
    {
        use crate::props::decs::*;
        l.push(Space::new("decimals", "decimals by both routes, both ways", move |c| {
            let ms: Vec<i64> = if deep { (-130..=130).chain([255, 256, 32767, 32768, -32768, -32769]).collect() } else { vec![0, 1, -1, 127, 128, -128, -129, 255] };
            let m = *c.pick(&ms);
            for z in if deep { vec![0, 1, 2, 5, 20] } else { vec![0, 3] } { for s in if deep { vec![0i64, 1, -1, 64, -65, i64::MAX, i64::MIN, i64::MIN + 1] } else { vec![0, -1, 64, i64::MAX, i64::MIN] } {
                if m % 10 != 0 || m == 0 { dec_ok(&num_bigint::BigInt::from(m), z, s)? }
                c.count(1);
            } }
            Ok(())
        }));
        l.push(Space::new("encoded decimals", "digits and scales as encoded", move |c| {
            let n = c.choose(3);
            let b: Vec<u8> = (0..n).map(|_| *c.pick(&[0u8, 1, 10, 0x80, 0xFF])).collect();
            for s in if deep { vec![0i64, 1, -1, 64, i64::MAX, i64::MIN] } else { vec![0, -1, 64, i64::MIN] } { for cut in if deep { 0..3 } else { 0..2 } { encoded_dec(&b, s, cut)?; c.count(1) } }
            Ok(())
        }));
    }
    l
}

fn fan(t: &Ty) -> usize {
    match t {
        Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => ts.len(),
        Ty::Enum(_) | Ty::Seq(_) | Ty::Map(_) => 2,
        _ => 1,
    }
}
fn variant_case_value(i: u32, kind: usize) -> Val {
    let s = || Val::Str("p".into());
    Val::Enum(i, match kind { 0 => vec![], 1 => vec![Val::U16(777)], 2 => vec![Val::U8(9), s()], _ => vec![s(), Val::U8(9)] })
}

fn header_is<T: dlhn::SerializeHeader + ?Sized>(name: &str, h: Header) -> Check {
    let mut o = vec![];
    let r = T::serialize_header(&mut o);
    rec::ser(&r.as_ref().map(|_| ()).map_err(|e| e.kind()), &o);
    let mut e = vec![];
    real::enc_header(&h, &mut e).unwrap();
    if r.is_err() || o != e { return Err(format!("the header of {} is written as {}, the format says {}", name, short(&o), short(&e))) }
    for k in 0..e.len() {
        let mut w = Full { got: vec![], room: k };
        if T::serialize_header(&mut w).is_ok() { return Err(format!("the header of {} into {} bytes", name, k)) }
    }
    Ok(())
}

fn item<T: serde::Serialize + for<'d> serde::Deserialize<'d> + PartialEq + std::fmt::Debug>(name: &str, v: T, e: &[u8]) -> Check {
    let b = real::ser_any(&v).map_err(|x| format!("{}: {:?}", name, x))?;
    if b != e { return Err(format!("{} {:?} is written as {}, the format says {}", name, v, short(&b), short(e))) }
    match real::de_any::<T>(&b) { (Ok(x), n) if x == v && n == b.len() => {} x => return Err(format!("{} {:?} comes back as {:?}", name, v, x)) }
    for k in 0..b.len() { if let (Ok(x), _) = real::de_any::<T>(&b[..k]) { return Err(format!("{}: {} reads as {:?}", name, short(&b[..k]), x)) } }
    Ok(())
}

fn written<T: serde::Serialize>(name: &str, v: &T, e: &[u8]) -> Check {
    let b = real::ser_any(v).map_err(|x| format!("{}: {:?}", name, x))?;
    if b == e { Ok(()) } else { Err(format!("{} is written as {}, the format says {}", name, short(&b), short(e))) }
}
fn statics(c: &Ctx) -> Check {
    use std::collections::{BTreeMap, HashMap};
    use Header as H;
    let b = |h: Header| Box::new(h);
    macro_rules! pick { ($($n:literal => $e:expr),+ $(,)?) => { match c.choose([$($n),+].len()) { $($n => $e),+ , _ => unreachable!() } } }
    fn lib<T: for<'d> serde::Deserialize<'d>>(t: &Ty, v: &Val) -> T { T::deserialize(&mut dlhn::Deserializer::new(&mut &encoded(t, v)[..])).unwrap() }
    let date = || lib::<dlhn::Date>(&Ty::Date, &Val::Date(2064, 129));
    let dt = || lib::<dlhn::DateTime>(&Ty::DateTime, &Val::DateTime(-1, 999_999_999));
    let dec = || lib::<dlhn::BigDecimal>(&Ty::BigDecimal, &Val::Dec(vec![15, 128], -70));
    let uint = |w, x: u64| { let mut o = vec![]; enc_uint(w, x, &mut o); o };
    pick! {
        0 => { header_is::<()>("()", H::Unit)?; item("()", (), &[]) },
        1 => { header_is::<bool>("bool", H::Boolean)?; item("bool", true, &[1]) },
        2 => { header_is::<u8>("u8", H::UInt8)?; item("u8", 200u8, &[200]) },
        3 => { header_is::<u16>("u16", H::UInt16)?; item("u16", 0x1234u16, &uint(16, 0x1234)) },
        4 => { header_is::<u32>("u32", H::UInt32)?; item("u32", 0x1234_5678u32, &uint(32, 0x1234_5678)) },
        5 => { header_is::<u64>("u64", H::UInt64)?; item("u64", 0x1234_5678_9ABC_DEF0u64, &uint(64, 0x1234_5678_9ABC_DEF0)) },
        6 => { header_is::<i8>("i8", H::Int8)?; item("i8", -3i8, &[253]) },
        7 => { header_is::<i16>("i16", H::Int16)?; item("i16", -30000i16, &uint(16, zigzag(-30000))) },
        8 => { header_is::<i32>("i32", H::Int32)?; item("i32", i32::MIN, &uint(32, zigzag(i32::MIN as i64))) },
        9 => { header_is::<i64>("i64", H::Int64)?; item("i64", i64::MIN + 7, &uint(64, zigzag(i64::MIN + 7))) },
        10 => { header_is::<f32>("f32", H::Float32)?; item("f32", 1.5f32, &[0, 0, 0xC0, 0x3F]) },
        11 => { header_is::<f64>("f64", H::Float64)?; item("f64", 1.5f64, &[0, 0, 0, 0, 0, 0, 0xF8, 0x3F]) },
        12 => { header_is::<String>("String", H::String)?; header_is::<&str>("&str", H::String)?; item("String", "k\u{e9}".to_string(), b"\x03k\xC3\xA9") },
        13 => { header_is::<serde_bytes::ByteBuf>("ByteBuf", H::Binary)?; header_is::<serde_bytes::Bytes>("Bytes", H::Binary)?; item("ByteBuf", serde_bytes::ByteBuf::from(vec![0, 255, 7]), &[3, 0, 255, 7]) },
        14 => { header_is::<dlhn::BigUint>("dlhn::BigUint", H::BigUInt)?; item("dlhn::BigUint", lib::<dlhn::BigUint>(&Ty::BigUint, &Val::Big(vec![1, 2, 0])), &[3, 1, 2, 0]) },
        15 => { header_is::<dlhn::BigInt>("dlhn::BigInt", H::BigInt)?; item("dlhn::BigInt", lib::<dlhn::BigInt>(&Ty::BigInt, &Val::Big(vec![127, 255, 255])), &[3, 127, 255, 255]) },
        16 => { header_is::<dlhn::BigDecimal>("dlhn::BigDecimal", H::BigDecimal)?; item("dlhn::BigDecimal", dec(), &encoded(&Ty::BigDecimal, &Val::Dec(vec![15, 128], -70))) },
        17 => { header_is::<dlhn::Date>("dlhn::Date", H::Date)?; item("dlhn::Date", date(), &encoded(&Ty::Date, &Val::Date(2064, 129))) },
        18 => { header_is::<dlhn::DateTime>("dlhn::DateTime", H::DateTime)?; item("dlhn::DateTime", dt(), &encoded(&Ty::DateTime, &Val::DateTime(-1, 999_999_999))) },
        19 => { header_is::<Option<u16>>("Option<u16>", H::Optional(b(H::UInt16)))?; item("Option<u16>", Some(300u16), &[&[1][..], &uint(16, 300)].concat())?; item("Option<u16>", None::<u16>, &[0]) },
        20 => { header_is::<Vec<Option<String>>>("Vec<Option<String>>", H::Array(b(H::Optional(b(H::String)))))?; item("Vec<Option<String>>", vec![None, Some("a".to_string())], &[2, 0, 1, 1, b'a']) },
        21 => { header_is::<BTreeMap<String, Vec<u8>>>("BTreeMap", H::Map(b(H::Array(b(H::UInt8)))))?; item("BTreeMap", BTreeMap::from([("b".to_string(), vec![1u8]), ("a".to_string(), vec![])]), &[2, 1, b'a', 0, 1, b'b', 1, 1]) },
        22 => { header_is::<HashMap<String, u32>>("HashMap", H::Map(b(H::UInt32)))?; item("HashMap", HashMap::from([("a".to_string(), 7u32)]), &[1, 1, b'a', 7]) },
        23 => { header_is::<(u8,)>("1-tuple", H::Tuple(vec![H::UInt8]))?; item("1-tuple", (7u8,), &[7]) },
        24 => { header_is::<(u8, String)>("2-tuple", H::Tuple(vec![H::UInt8, H::String]))?; item("2-tuple", (7u8, "x".to_string()), &[7, 1, b'x']) },
        25 => { header_is::<(u8, u8, u8, u8, u8, u8, u8)>("7-tuple", H::Tuple(vec![H::UInt8; 7]))?; item("7-tuple", (1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8), &[1, 2, 3, 4, 5, 6, 7]) },
        26 => { header_is::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, bool)>("12-tuple", H::Tuple([vec![H::UInt8; 11], vec![H::Boolean]].concat()))?; item("12-tuple", (1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, true), &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 1]) },
        27 => { header_is::<(u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i64)>("16-tuple", H::Tuple([vec![H::UInt8; 15], vec![H::Int64]].concat()))?; written("16-tuple", &(1u8, 2u8, 3u8, 4u8, 5u8, 6u8, 7u8, 8u8, 9u8, 10u8, 11u8, 12u8, 13u8, 14u8, 15u8, -1i64), &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 1]) },
        28 => { header_is::<Vec<(dlhn::Date, Option<dlhn::DateTime>, BTreeMap<String, dlhn::BigDecimal>)>>("nested", H::Array(b(H::Tuple(vec![H::Date, H::Optional(b(H::DateTime)), H::Map(b(H::BigDecimal))]))))?; item("nested", vec![(date(), Some(dt()), BTreeMap::from([("k".to_string(), dec())]))], &[&[1][..], &encoded(&Ty::Date, &Val::Date(2064, 129)), &[1], &encoded(&Ty::DateTime, &Val::DateTime(-1, 999_999_999)), &[1, 1, b'k'], &encoded(&Ty::BigDecimal, &Val::Dec(vec![15, 128], -70))].concat()) },
        // sizes differ by platform, encodings must not
        29 => { for x in [0usize, 127, 128, 65535, 1 << 28, 0xFFFF_FFFF] { item("usize", x, &uint(64, x as u64))? } Ok(()) },
        30 => { for x in [0isize, -1, 64, -65, i32::MAX as isize, i32::MIN as isize] { item("isize", x, &uint(64, zigzag(x as i64)))? } Ok(()) },
        31 => { item("char", '\u{10FFFF}', b"\x04\xF4\x8F\xBF\xBF")?; item("array", [1u16, 128, 65535], &[&uint(16, 1)[..], &uint(16, 128), &uint(16, 65535)].concat()) },
        32 => { item("Duration", std::time::Duration::new(1 << 40, 5), &[&uint(64, 1 << 40)[..], &uint(32, 5)].concat())?; item("Ipv4Addr", std::net::Ipv4Addr::new(1, 2, 3, 4), &[1, 2, 3, 4]) },
        33 => { item("Result", vec![Ok::<u8, String>(7), Err("e".into())], &[2, 0, 7, 1, 1, b'e'])?; item("Range", 300u16..70, &[&uint(16, 300)[..], &uint(16, 70)].concat()) },
        34 => { #[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)] enum E { A, B(u8), C { x: i32, y: Option<String> }, D(u8, bool) }
            #[derive(serde::Serialize, serde::Deserialize, PartialEq, Debug)] struct S { a: Vec<E>, u: (), #[serde(skip)] n: u8, #[serde(rename = "q")] z: f32 }
            item("derived struct", S { a: vec![E::A, E::B(9), E::C { x: -2, y: Some("y".into()) }, E::D(1, true)], u: (), n: 0, z: -0.0 }, &[4, 0, 1, 9, 2, 3, 1, 1, b'y', 3, 1, 1, 0, 0, 0, 0x80]) },
    }
}

#[cfg(feature = "f_dlhn_derive")]
#[allow(dead_code)]
fn derived(c: &Ctx) -> Check {
    use Header as H;
    #[derive(dlhn::SerializeHeader)] struct U;
    #[derive(dlhn::SerializeHeader)] struct E0 {}
    #[derive(dlhn::SerializeHeader)] struct N(u16);
    #[derive(dlhn::SerializeHeader)] struct T(u8, String, Vec<Option<u64>>);
    #[derive(dlhn::SerializeHeader)] struct S { a: u8, b: Option<N>, c: dlhn::Date, d: dlhn::DateTime, e: std::collections::BTreeMap<String, dlhn::BigDecimal>, f: (bool, i8) }
    #[derive(dlhn::SerializeHeader)] enum E { A, B(u16), C(u8, T), D { x: S, y: f32 } }
    macro_rules! wide { ($($f:ident)*) => { #[derive(dlhn::SerializeHeader)] struct W { $($f: u8),* } } }
    wide!(a0 a1 a2 a3 a4 a5 a6 a7 a8 a9 b0 b1 b2 b3 b4 b5 b6 b7 b8 b9 c0 c1 c2 c3 c4 c5 c6 c7 c8 c9 d0 d1 d2 d3 d4 d5 d6 d7 d8 d9 e0 e1 e2 e3 e4 e5 e6 e7 e8 e9 f0 f1 f2 f3 f4 f5 f6 f7 f8 f9
        g0 g1 g2 g3 g4 g5 g6 g7 g8 g9 h0 h1 h2 h3 h4 h5 h6 h7 h8 h9 i0 i1 i2 i3 i4 i5 i6 i7 i8 i9 j0 j1 j2 j3 j4 j5 j6 j7 j8 j9 k0 k1 k2 k3 k4 k5 k6 k7 k8 k9 l0 l1 l2 l3 l4 l5 l6 l7 l8 l9 m0 m1 m2 m3 m4 m5 m6 m7 m8 m9);
    let b = |h: Header| Box::new(h);
    let n = || H::Tuple(vec![H::UInt16]);
    let t = || H::Tuple(vec![H::UInt8, H::String, H::Array(b(H::Optional(b(H::UInt64))))]);
    let s = || H::Tuple(vec![H::UInt8, H::Optional(b(n())), H::Date, H::DateTime, H::Map(b(H::BigDecimal)), H::Tuple(vec![H::Boolean, H::Int8])]);
    match c.choose(7) {
        0 => header_is::<U>("unit struct", H::Tuple(vec![])),
        1 => header_is::<E0>("empty struct", H::Tuple(vec![])),
        2 => header_is::<N>("newtype", n()),
        3 => header_is::<T>("tuple struct", t()),
        4 => header_is::<S>("struct", s()),
        5 => header_is::<E>("enum", H::Enum(vec![H::Unit, H::UInt16, H::Tuple(vec![H::UInt8, t()]), H::Tuple(vec![s(), H::Float32])])),
        _ => header_is::<W>("wide struct", H::Tuple(vec![H::UInt8; 130])),
    }
}

// ---------------------------------------------------------------- the walk

#[cfg(target_family = "wasm")]
#[link(wasm_import_module = "env")]
extern "C" {
    fn host_say(p: *const u8, n: usize);
    fn host_args(p: *mut u8, n: usize) -> usize;
}
#[cfg(target_family = "wasm")]
fn say(s: &str) { unsafe { host_say(s.as_ptr(), s.len()) } }
#[cfg(target_family = "wasm")]
fn asked() -> Vec<String> {
    let mut b = vec![0u8; 4096];
    let n = unsafe { host_args(b.as_mut_ptr(), b.len()) };
    String::from_utf8(b[..n].to_vec()).unwrap().split('\n').map(|s| s.to_string()).collect()
}
#[cfg(not(target_family = "wasm"))]
fn say(s: &str) { println!("{}", s) }
#[cfg(not(target_family = "wasm"))]
fn asked() -> Vec<String> { std::env::args().collect() }

/// what a process that explores one share of a space says
pub fn main() {
    let a = asked();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    quiet_panics();
    let size: Size = get("--size").map_or(0, |s| s.parse().unwrap());
    let l = spaces(size);
    if a.iter().any(|x| x == "list") {
        for s in &l { say(&format!("{}\t{}", s.name, s.what)) }
        return;
    }
    let names = get("--spaces").expect("--spaces");
    let (share, of) = get("--share").map_or((0, 1), |s| { let (a, b) = s.split_once('/').unwrap(); (a.parse::<u32>().unwrap(), b.parse::<u32>().unwrap()) });
    let case: Option<Vec<u32>> = get("--case").map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
    let first: Option<u32> = get("--first").map(|s| s.parse().unwrap());
    for name in names.split(';') {
        let s = l.iter().find(|s| s.name == name).expect("space");
        let r = std::panic::AssertUnwindSafe(|| match &case {
            Some(k) => show(s, k),
            None => walk(s, share, of, first),
        });
        r.0();
    }
}

/// the first choice says to which share an execution belongs, the first two where the first has few values; every space starts elsewhere
fn share_of(k: &[u32], many: bool, off: u32) -> u32 {
    let a = k.first().copied().unwrap_or(0);
    (if many { a } else { a.wrapping_mul(7).wrapping_add(k.get(1).copied().unwrap_or(0)) }).wrapping_add(off)
}

fn walk(s: &Space, share: u32, of: u32, first: Option<u32>) {
    use std::collections::BTreeMap;
    let mut todo: Vec<Vec<u32>> = vec![vec![]];
    // per first choice: executions, digest, choices made, held
    let mut sums: BTreeMap<u32, (u64, u64, u64, u64)> = BTreeMap::new();
    let mut many = false;
    let off = s.name.bytes().fold(0u32, |a, b| a.wrapping_mul(31).wrapping_add(b as u32)) >> 3;
    while let Some(p) = todo.pop() {
        if p.len() >= if many { 1 } else { 2 } && share_of(&p, many, off) % of != share { continue }
        if let (Some(f), Some(x)) = (first, p.first()) { if *x != f { continue } }
        rec::start(1);
        let (verdict, taken, alts, steps) = one(s, &p);
        note_verdict(&verdict);
        let (h, _) = rec::stop();
        if alts.iter().any(|(pos, _, hi)| *pos == 0 && *hi >= 6) { many = true }
        if share_of(&taken, many, off) % of == share && first.map_or(true, |f| taken.first() == Some(&f)) {
            let mut id = rec::fnv(0x1234_5678_9ABC_DEF1, &h.to_le_bytes());
            for x in &taken { id = rec::fnv(id, &x.to_le_bytes()) }
            let e = sums.entry(taken.first().copied().unwrap_or(0)).or_default();
            e.0 += 1;
            e.1 = e.1.wrapping_add(id.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23));
            e.2 += taken.len() as u64 + steps;
            e.3 += verdict.is_ok() as u64;
            if first.is_some() { say(&format!("case\t{}\t{:016x}", taken.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), h)) }
        }
        for (pos, lo, hi) in alts { for x in lo..hi { let mut q = taken[..pos].to_vec(); q.push(x); todo.push(q) } }
    }
    for (k, (n, d, t, ok)) in sums { say(&format!("sum\t{}\t{}\t{}\t{:016x}\t{}\t{}", s.name, k, n, d, t, ok)) }
    say(&format!("end\t{}", s.name));
}
fn note_verdict(v: &Check) { rec::note(match v { Ok(()) => "held", Err(m) if m.starts_with("panic") => "panicked", Err(_) => "violated" }) }

fn show(s: &Space, k: &[u32]) {
    rec::start(2);
    let (verdict, _, _, _) = one(s, k);
    note_verdict(&verdict);
    let (h, t) = rec::stop();
    say(&format!("space: {}\nchoices: {:?}\nfingerprint: {:016x}\nwhat happened:{}", s.name, k, h, t));
    say(&format!("against the model: {}", match verdict { Ok(()) => "held".to_string(), Err(e) => format!("differs: {}", e) }));
}
