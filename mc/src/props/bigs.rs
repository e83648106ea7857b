//! C17 big integers.
use super::*;
use crate::explore::Check;
use dlhn::{BigInt as PInt, BigUint as PUint};
use num_bigint::{BigInt, BigUint, Sign};
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- the model: little-endian byte arithmetic

pub fn strip(mut m: Vec<u8>) -> Vec<u8> { while m.last() == Some(&0) { m.pop(); } m }
/// shortest two's complement; nothing for zero
pub fn signed_bytes(neg: bool, mag: &[u8]) -> Vec<u8> {
    let mut b = strip(mag.to_vec());
    if b.is_empty() { return b }
    b.push(0);
    if neg {
        let mut carry = true;
        for x in b.iter_mut() { let (y, c) = (!*x).overflowing_add(carry as u8); *x = y; carry = c }
    }
    let ext = if neg { 0xFF } else { 0 };
    while b.len() > 1 && b[b.len() - 1] == ext && (b[b.len() - 2] >> 7 == 1) == neg { b.pop(); }
    b
}
/// what two's complement bytes of any length say
pub fn signed_value(b: &[u8]) -> (bool, Vec<u8>) {
    let neg = b.last().map_or(false, |x| x >> 7 == 1);
    let mut m = b.to_vec();
    if neg {
        m.push(0xFF);
        let mut carry = true;
        for x in m.iter_mut() { let (y, c) = (!*x).overflowing_add(carry as u8); *x = y; carry = c }
    }
    (neg, strip(m))
}
pub fn counted(b: &[u8]) -> Vec<u8> { let mut o = Vec::with_capacity(b.len() + 9); enc_len(b.len(), &mut o); o.extend_from_slice(b); o }
pub fn sh(b: &[u8]) -> String { short(b) }

pub fn uint(m: &[u8]) -> BigUint { BigUint::from_bytes_le(m) }
pub fn int(neg: bool, m: &[u8]) -> BigInt { BigInt::from_bytes_le(if neg { Sign::Minus } else { Sign::Plus }, m) }

crate::route!(u_ser, u_de, BigUint, big_uint);
crate::route!(i_ser, i_de, BigInt, big_int);

pub fn uint_ok(m: &[u8]) -> Check {
    let n = uint(m);
    let e = counted(&strip(m.to_vec()));
    let p: PUint = n.clone().into();
    let back: BigUint = p.clone().into();
    if back != n { return Err(format!("unsigned {}: converts back to {:?}", sh(m), back)) }
    for (route, b) in [("the portable type", real::ser_any(&p)), ("format::big_uint", u_ser(&n))] {
        match b { Ok(b) if b == e => {} b => return Err(format!("unsigned {}: {} writes {:02x?}, shortest is {}", sh(m), route, b, sh(&e))) }
    }
    match real::de_any::<PUint>(&e) { (Ok(x), k) if x == p && k == e.len() && Into::<BigUint>::into(x.clone()) == n => {} x => return Err(format!("unsigned {}: the portable type reads {:?}", sh(m), x)) }
    match u_de(&e) { (Ok(x), k) if x == n && k == e.len() => {} x => return Err(format!("unsigned {}: format::big_uint reads {:?}", sh(m), x)) }
    Ok(())
}
pub fn int_ok(neg: bool, m: &[u8]) -> Check {
    let n = int(neg, m);
    let e = counted(&signed_bytes(neg, m));
    let at = || format!("{}{} (little endian)", if neg { "-" } else { "+" }, sh(m));
    let p: PInt = n.clone().into();
    let back: BigInt = p.clone().into();
    if back != n { return Err(format!("{}: converts back to {:?}", at(), back)) }
    for (route, b) in [("the portable type", real::ser_any(&p)), ("format::big_int", i_ser(&n))] {
        match b { Ok(b) if b == e => {} b => return Err(format!("{}: {} writes {:02x?}, shortest is {}", at(), route, b, sh(&e))) }
    }
    match real::de_any::<PInt>(&e) { (Ok(x), k) if x == p && k == e.len() && Into::<BigInt>::into(x.clone()) == n => {} x => return Err(format!("{}: the portable type reads {:?}", at(), x)) }
    match i_de(&e) { (Ok(x), k) if x == n && k == e.len() => {} x => return Err(format!("{}: format::big_int reads {:?}", at(), x)) }
    Ok(())
}
/// bytes, shortest or not, under a count
pub fn encoded_ints(b: &[u8]) -> Check {
    let mut input = counted(b);
    let k = input.len();
    input.extend_from_slice(&[0xA5, 1]);
    let n = uint(b);
    match u_de(&input) { (Ok(x), i) if x == n && i == k => {} x => return Err(format!("unsigned bytes {}: format::big_uint reads {:?}", sh(b), x)) }
    match real::de_any::<PUint>(&input) { (Ok(x), i) if Into::<BigUint>::into(x.clone()) == n && i == k => {} x => return Err(format!("unsigned bytes {}: the portable type reads {:?}", sh(b), x)) }
    let (neg, m) = signed_value(b);
    let n = int(neg, &m);
    match i_de(&input) { (Ok(x), i) if x == n && i == k => {} x => return Err(format!("signed bytes {}: format::big_int reads {:?}", sh(b), x)) }
    match real::de_any::<PInt>(&input) { (Ok(x), i) if Into::<BigInt>::into(x.clone()) == n && i == k => {} x => return Err(format!("signed bytes {}: the portable type reads {:?}", sh(b), x)) }
    Ok(())
}

pub const ALPHA: [u8; 7] = [0, 1, 0x7F, 0x80, 0x81, 0xFE, 0xFF];
/// all strings over ALPHA up to a length
pub fn string(c: &Ctx, max: usize) -> Vec<u8> { let n = c.choose(max + 1); (0..n).map(|_| *c.pick(&ALPHA)).collect() }
pub fn fill(n: usize, low: u8, mid: u8, top: u8) -> Vec<u8> { let mut v = vec![mid; n]; if n > 0 { v[0] = low; v[n - 1] = top } v }

#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct IntsF { a: u8, #[serde(with = "dlhn::format::big_uint")] u: BigUint, b: u8, #[serde(with = "dlhn::format::big_int")] i: BigInt, c: u8 }
#[derive(Serialize, Deserialize, PartialEq, Debug)]
pub struct IntsP { a: u8, u: PUint, b: u8, i: PInt, c: u8 }

pub fn c17(th: bool) -> Vec<Space> {
    let small = if th { 1 << 24 } else { 1 << 20 };
    let powers = if th { 20000 } else { 4200 };
    let len = if th { 6 } else { 5 };
    let lens = if th { 10000 } else { 3000 };
    vec![
        Space::new("small integers", &format!("every unsigned below {}, every signed from -{} to {}", small, small, small), move |c| {
            let k = c.choose(small / 4096) as u32;
            c.label(|| format!("integers of magnitude {}..{}", k * 4096, k * 4096 + 4096));
            for i in k * 4096..=k * 4096 + 4096 { let m = i.to_le_bytes(); uint_ok(&m)?; int_ok(false, &m)?; if i > 0 { int_ok(true, &m)? } }
            c.bulk(4096 * 3);
            Ok(())
        }),
        Space::new("around powers of two", &format!("2^k-2 to 2^k+2 for every k up to {}, both signs", powers), move |c| {
            let k = c.choose(powers);
            c.label(|| format!("around 2^{}", k));
            let p = BigUint::from(1u8) << k;
            for d in -2i32..=2 {
                if k < 2 && d < 0 { continue }
                let m = if d < 0 { &p - (-d as u32) } else { &p + d as u32 }.to_bytes_le();
                uint_ok(&m)?; int_ok(false, &m)?; int_ok(true, &m)?;
            }
            c.bulk(15);
            Ok(())
        }),
        Space::new("byte patterns", &format!("every magnitude, and every encoded byte string, over {:02x?} up to {} bytes", ALPHA, len), move |c| {
            let m = string(c, len);
            c.label(|| format!("{:02x?}", m));
            c.state(&m);
            uint_ok(&m)?;
            int_ok(false, &m)?;
            if m.iter().any(|x| *x != 0) { int_ok(true, &m)? }
            encoded_ints(&m)?;
            c.validated(4);
            Ok(())
        }),
        Space::new("two bytes", "every encoded byte string of up to two bytes, alone and after another byte", |c| {
            let a = c.choose(256) as u8;
            c.label(|| format!("bytes ending with {:02x}", a));
            encoded_ints(&[a])?;
            for b in 0..=255 { encoded_ints(&[b, a])?; encoded_ints(&[0, b, a])?; encoded_ints(&[0xFF, b, a])? }
            c.bulk(769);
            Ok(())
        }),
        Space::new("lengths", &format!("magnitudes and encoded strings of every length 0..={} and about powers of two to 1 MiB, with bytes 0, 7F, 80, FF at the ends", lens), move |c| {
            let mut l: Vec<usize> = (0..=lens).collect();
            for k in 12..=20 { for d in [-1i64, 0, 1] { l.push(((1i64 << k) + d) as usize) } }
            let n = *c.pick(&l);
            c.label(|| format!("{} bytes", n));
            let ends = [0, 1, 0x7F, 0x80, 0xFF];
            let mut k = 0;
            for low in ends { for mid in [0, 0xFF] { for top in ends {
                if n > 8192 && (low > 1 || top == 1) { continue }
                let m = fill(n, low, mid, top);
                uint_ok(&m)?;
                int_ok(false, &m)?;
                if m.iter().any(|x| *x != 0) { int_ok(true, &m)? }
                encoded_ints(&m)?;
                k += 4;
            } } }
            c.bulk(k);
            Ok(())
        }),
        Space::new("between other fields", "pairs of an unsigned and a signed integer between bytes, by both routes", |c| {
            let (u, i) = (string(c, 2), string(c, 2));
            let neg = c.flag() && i.iter().any(|x| *x != 0);
            c.state(&(&u, &i, neg));
            let want = [&[1][..], &counted(&strip(u.clone())), &[2], &counted(&signed_bytes(neg, &i)), &[3]].concat();
            let f = IntsF { a: 1, u: uint(&u), b: 2, i: int(neg, &i), c: 3 };
            let p = IntsP { a: 1, u: uint(&u).into(), b: 2, i: int(neg, &i).into(), c: 3 };
            for b in [real::ser_any(&f), real::ser_any(&p)] { if b.as_ref().ok() != Some(&want) { return Err(format!("{:?} written as {:02x?}, the format says {}", f, b, sh(&want))) } }
            match real::de_any::<IntsF>(&want) { (Ok(x), n) if x == f && n == want.len() => {} x => return Err(format!("{} read as {:?}", sh(&want), x)) }
            match real::de_any::<IntsP>(&want) { (Ok(x), n) if x == p && n == want.len() => {} x => return Err(format!("{} read as {:?}", sh(&want), x)) }
            c.validated(4);
            Ok(())
        }),
    ]
}
