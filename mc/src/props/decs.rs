//! C18 big decimals.
use super::bigs::*;
use super::*;
use crate::alloc;
use crate::explore::Check;
use dlhn::BigDecimal as PDec;
use num_bigint::{BigInt, Sign};
use serde::{Deserialize, Serialize};
pub type Dec10 = bigdecimal::BigDecimal;
crate::route!(d_ser, d_de, Dec10, big_decimal, |x: &Dec10| format!("{:?}", x.as_bigint_and_exponent()));

pub fn z64(x: i64) -> Vec<u8> { let mut o = vec![]; enc_uint(64, zigzag(x), &mut o); o }
pub fn ten_to(z: u32) -> BigInt { BigInt::from(10).pow(z) }
pub fn parts(d: &Dec10) -> (BigInt, i64) { d.as_bigint_and_exponent() }
pub fn mag_of(n: &BigInt) -> (bool, Vec<u8>) { (n.sign() == Sign::Minus, n.magnitude().to_bytes_le()) }
pub fn enc_dec(n: &BigInt, scale: i64) -> Vec<u8> {
    let (neg, m) = mag_of(n);
    let b = signed_bytes(neg, &m);
    if b.is_empty() { return vec![0] }
    let mut o = counted(&b);
    o.extend(z64(scale));
    o
}
/// memory one conversion may take for a number of so many bytes
pub fn allowance(n: usize) -> usize { 16 * 1024 + 64 * n }
pub fn within<T>(what: &str, n: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let (x, peak) = alloc::peak(f);
    if peak > allowance(n) { return Err(format!("{} takes {} bytes of memory for a number of {} bytes", what, peak, n)) }
    Ok(x)
}

/// m, not a multiple of ten, times 10^z, at a scale
pub fn dec_ok(m: &BigInt, z: u32, scale: i64) -> Check {
    let n = m * ten_to(z);
    let k = (z as i128).min(scale as i128 - i64::MIN as i128);
    let (cn, cs) = if n.sign() == Sign::NoSign { (n.clone(), 0) } else { (m * ten_to(z - k as u32), (scale as i128 - k) as i64) };
    let size = mag_of(&n).1.len();
    let at = || format!("({} * 10^{}) * 10^-({})", if size < 40 { m.to_string() } else { format!("a number of {} bytes", size) }, z, scale);
    let d = Dec10::new(n.clone(), scale);
    let e = enc_dec(&cn, cs);
    let p: PDec = within(&format!("{}: converting to the portable type", at()), size, || d.clone().into())?;
    let back: Dec10 = within(&format!("{}: converting back", at()), size, || p.clone().into())?;
    if parts(&back) != (cn.clone(), cs) { return Err(format!("{}: the portable type converts back to {:?}", at(), parts(&back))) }
    let w = within(&format!("{}: serializing", at()), size, || real::ser_any(&p))?;
    let f = within(&format!("{}: serializing by format::big_decimal", at()), size, || d_ser(&d))?;
    for (route, b) in [("the portable type", w), ("format::big_decimal", f)] {
        match b { Ok(b) if b == e => {} b => return Err(format!("{}: {} writes {:02x?}, the one encoding is {}", at(), route, b, sh(&e))) }
    }
    match within(&format!("{}: deserializing", at()), size, || real::de_any::<PDec>(&e))? { (Ok(x), k) if x == p && k == e.len() => {} x => return Err(format!("{}: the portable type reads {:?}", at(), x)) }
    match within(&format!("{}: deserializing by format::big_decimal", at()), size, || d_de(&e))? { (Ok(x), k) if parts(&x) == (cn, cs) && k == e.len() => {} (x, k) => return Err(format!("{}: format::big_decimal reads {:?}, {} of {} bytes", at(), x.map(|x| parts(&x)), k, e.len())) }
    Ok(())
}

/// digits and scale as encoded, canonical or not
pub fn encoded_dec(b: &[u8], scale: i64, cut: usize) -> Check {
    let mut input = counted(b);
    if !b.is_empty() { input.extend(z64(scale)) }
    let k = input.len();
    let at = |i: &[u8]| format!("encoded decimal {}", sh(i));
    if cut > 0 {
        if cut > k { return Ok(()) }
        let i = &input[..k - cut];
        if let (Ok(x), _) = d_de(i) { return Err(format!("{} cut short: format::big_decimal reads {:?}", at(i), parts(&x))) }
        if let (Ok(x), _) = real::de_any::<PDec>(i) { return Err(format!("{} cut short: the portable type reads {:?}", at(i), x)) }
        return Ok(())
    }
    input.extend_from_slice(&[0xA5, 1]);
    let (neg, m) = signed_value(b);
    let n = int(neg, &m);
    let same = |d: &Dec10| { let (x, s) = parts(d); x == n && (s == scale || n.sign() == Sign::NoSign) };
    match d_de(&input) { (Ok(x), i) if same(&x) && i == k => {} (x, i) => return Err(format!("{}: format::big_decimal reads {:?}, {} of {} bytes", at(&input[..k]), x.map(|x| parts(&x)), i, k)) }
    match real::de_any::<PDec>(&input) { (Ok(x), i) if i == k && same(&x.clone().into()) => {} (x, i) => return Err(format!("{}: the portable type reads {:?}, {} of {} bytes", at(&input[..k]), x, i, k)) }
    // by way of either type, one encoding of the number results
    let (x, _) = d_de(&input);
    let x = x.map_err(|e| format!("{:?}", e))?;
    let (a, f) = (real::ser_any(&PDec::from(x.clone())), d_ser(&x));
    if a.is_err() || a.as_ref().ok() != f.as_ref().ok() { return Err(format!("{}: written again as {:02x?} and {:02x?}", at(&input[..k]), a, f)) }
    Ok(())
}

pub fn scales() -> Vec<i64> {
    let mut l: Vec<i128> = (-40..=40).collect();
    for k in 5..=63 { for s in [1i128, -1] { for d in -1..=1 { l.push(s * (1i128 << k) + d) } } }
    for d in 0..=45 { l.push(i64::MIN as i128 + d); l.push(i64::MAX as i128 - d) }
    for d in [i32::MAX as i128, i32::MIN as i128, 1_000_000_000_000, -1_000_000_000_000] { for k in -1..=1 { l.push(d + k) } }
    let mut l: Vec<i64> = l.into_iter().filter_map(|x| x.try_into().ok()).collect();
    l.sort(); l.dedup();
    l
}

#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct DecsF { a: u8, #[serde(with = "dlhn::format::big_decimal")] x: Dec10, b: u8, #[serde(with = "dlhn::format::big_decimal")] y: Dec10, c: u8 }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct DecsP { a: u8, x: PDec, b: u8, y: PDec, c: u8 }

pub fn c18(th: bool) -> Vec<Space> {
    let small: i64 = if th { 200_000 } else { 20_000 };
    let zs: u32 = if th { 120 } else { 42 };
    let lens = if th { 1500 } else { 260 };
    let len = if th { 5 } else { 4 };
    vec![
        Space::new("small decimals", &format!("every integer from -{} to {} at every scale -20..=20", small, small), move |c| {
            let s = c.choose(41) as i64 - 20;
            let k = c.choose(small as usize / 1000) as i64 * 1000;
            c.label(|| format!("integers of magnitude {}..={} at scale {}", k, k + 1000, s));
            for i in k..=k + 1000 {
                let (mut m, mut z) = (i, 0);
                while m != 0 && m % 10 == 0 { m /= 10; z += 1 }
                dec_ok(&BigInt::from(m), z, s)?;
                dec_ok(&BigInt::from(-m), z, s)?;
                if i % 256 == 0 { c.beat() }
            }
            c.bulk(2002);
            Ok(())
        }),
        Space::new("equal decimals", &format!("numbers with 0..={} trailing zeros, both signs, at scales -40..=40, about every power of two, and within 45 of both ends of the 64-bit integers", zs), move |c| {
            let l = scales();
            let s = *c.pick(&l);
            c.label(|| format!("scale {}", s));
            let mut k = 0;
            for m in [1i64, 3, 127, 128, 129, 255, 256, 257, 32767, 32768, 99, 1001, i64::MAX, 12345678901, 5, 25, 1 << 20] {
                for z in 0..=zs {
                    dec_ok(&BigInt::from(m), z, s)?;
                    dec_ok(&BigInt::from(-m), z, s)?;
                    k += 2;
                }
                c.beat();
            }
            c.bulk(k);
            Ok(())
        }),
        Space::new("zero", "zero at every one of those scales, and powers of ten whose zeros the scale can and cannot take up", |c| {
            let l = scales();
            let s = *c.pick(&l);
            c.label(|| format!("zero and powers of ten at scale {}", s));
            c.state(&s);
            dec_ok(&BigInt::from(0), 0, s)?;
            for z in [43, 100, 255, 256, 257, 999, 1000, 1001] { dec_ok(&BigInt::from(1), z, s)?; dec_ok(&BigInt::from(-7), z, s)? }
            c.validated(17);
            Ok(())
        }),
        Space::new("long decimals", &format!("2^k-1, 2^k+1 for byte lengths up to {}, with and without trailing zeros, at 6 scales", lens), move |c| {
            let k = c.choose(lens) + 1;
            c.label(|| format!("about {} bytes", k));
            let mut n = 0;
            for bits in [k * 8 - 1, k * 8] {
                let p = BigInt::from(1) << bits;
                for m in [&p - 1, &p + 1] {
                    let mut m = m;
                    while (&m % 10u32) == BigInt::from(0) { m += 2 }
                    for (z, s) in [(0, 0), (1, -5), (k as u32 * 2, 7), (3, i64::MIN), (2, i64::MIN + 1), (1, i64::MAX)] {
                        dec_ok(&m, z, s)?;
                        dec_ok(&-&m, z, s)?;
                        n += 2;
                    }
                }
                c.beat();
            }
            c.bulk(n);
            Ok(())
        }),
        Space::new("encoded decimals", &format!("every digit string over {:02x?} up to {} bytes at scales about powers of two and both ends, whole and cut by one to three bytes", ALPHA, len), move |c| {
            let b = string(c, len);
            c.label(|| format!("digits {:02x?}", b));
            c.state(&b);
            let l: Vec<i64> = scales().into_iter().filter(|s| s.unsigned_abs() > 1 << 40 || s % 8 == 0 || s.abs() < 3).collect();
            for s in &l { for cut in 0..=3 { encoded_dec(&b, *s, cut)? } }
            c.bulk(l.len() as u64 * 4);
            Ok(())
        }),
        Space::new("long encoded decimals", "encoded digit strings of every length 0..=600 with bytes 0, 1, 7F, 80, FF at the ends", |c| {
            let n = c.choose(601);
            c.label(|| format!("{} bytes of digits", n));
            let mut k = 0;
            for low in [0, 1, 0xFF] { for mid in [0, 0xFF] { for top in [0, 0x7F, 0x80, 0xFF] { for s in [0, -3, i64::MIN, i64::MAX] { for cut in [0, 1] {
                encoded_dec(&fill(n, low, mid, top), s, cut)?;
                k += 1;
            } } } } c.beat() }
            c.bulk(k);
            Ok(())
        }),
        Space::new("very long decimals", &format!("encoded digit strings and numbers of 2^k-1, 2^k and 2^k+1 bytes up to k = {}, whole and cut, and numbers of so many bytes with trailing zeros", if th { 17 } else { 15 }), move |c| {
            let k = 9 + c.choose(if th { 9 } else { 7 });
            let n = (1usize << k) - 1 + c.choose(3);
            let kind = c.choose(6);
            c.label(|| format!("{} bytes of digits, kind {}", n, kind));
            match kind {
                0 => encoded_dec(&fill(n, 1, 0xFF, 0x7F), -3, 0)?,
                1 => encoded_dec(&fill(n, 0, 0, 0x80), i64::MAX, 0)?,
                2 => for cut in 1..=3 { encoded_dec(&fill(n, 0xFF, 0, 0x7F), 2, cut)? },
                _ => {
                    let mut m = (BigInt::from(1) << (8 * n - 9)) + 1;
                    while (&m % 10u32) == BigInt::from(0) { m += 2 }
                    let (z, s) = [(0, 0), (3, -70), (1000, 5)][kind - 3];
                    dec_ok(&m, z, s)?
                }
            }
            c.bulk(1);
            Ok(())
        }),
        Space::new("between other fields", "pairs of decimals between bytes, by both routes", |c| {
            let l: Vec<(i64, u32, i64)> = vec![(0, 0, 0), (0, 0, 9), (1, 0, 0), (-1, 0, 0), (1, 3, 0), (15, 0, 1), (-15, 2, -70), (128, 0, 64), (1, 0, i64::MIN), (1, 2, i64::MIN), (-128, 0, i64::MAX), (300, 0, -65)];
            let (x, y) = (*c.pick(&l), *c.pick(&l));
            c.state(&(x, y));
            let mk = |(m, z, s): (i64, u32, i64)| {
                let mut m = BigInt::from(m) * ten_to(z);
                let d = Dec10::new(m.clone(), s);
                let mut s = s;
                if m == BigInt::from(0) { s = 0 } else { while s > i64::MIN && &m % 10u32 == BigInt::from(0) { m /= 10u32; s -= 1 } }
                (d, enc_dec(&m, s))
            };
            let ((dx, ex), (dy, ey)) = (mk(x), mk(y));
            let want = [&[1][..], &ex, &[2], &ey, &[3]].concat();
            let f = DecsF { a: 1, x: dx.clone(), b: 2, y: dy.clone(), c: 3 };
            let p = DecsP { a: 1, x: dx.into(), b: 2, y: dy.into(), c: 3 };
            for b in [real::ser_any(&f), real::ser_any(&p)] { if b.as_ref().ok() != Some(&want) { return Err(format!("{:?} and {:?}: written as {:02x?}, the format says {}", x, y, b, sh(&want))) } }
            match real::de_any::<DecsF>(&want) { (Ok(d), n) if n == want.len() && (d.a, d.b, d.c) == (1, 2, 3) && d_ser(&d.x).ok() == Some(ex.clone()) && d_ser(&d.y).ok() == Some(ey.clone()) => {} (d, n) => return Err(format!("{} read as {:?}, {} bytes", sh(&want), d.is_ok(), n)) }
            match real::de_any::<DecsP>(&want) { (Ok(d), n) if d == p && n == want.len() => {} d => return Err(format!("{} read as {:?}", sh(&want), d)) }
            c.validated(4);
            Ok(())
        }),
    ]
}
