//! C26: the portable values compared with each other.
use super::times::*;
use super::*;
use crate::explore::Check;
use num_bigint::BigInt;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use time::{OffsetDateTime, UtcOffset};

fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
/// equality, hash and order of two portable values, of which it is known whether they carry the same
fn two<T: Hash + Ord + Debug + Clone>(a: &T, b: &T, same: bool) -> Check {
    let say = |s: &str| Err(format!("{:.200?} and {:.200?} carry {}: {}", a, b, if same { "the same" } else { "different things" }, s));
    if (a == b) != same || (b == a) != same || (a != b) == same { return say("equality says otherwise") }
    if same && hash(a) != hash(b) { return say("their hashes differ") }
    if (a.cmp(b) == Ordering::Equal) != same || a.cmp(b) != b.cmp(a).reverse() || a.partial_cmp(b) != Some(a.cmp(b)) || (a < b) != (b > a) { return say("their order says otherwise") }
    if a.clone() != *a || a.clone().cmp(a) != Ordering::Equal { return say("a copy differs") }
    Ok(())
}
fn in_order<T: Ord + Debug>(a: &T, b: &T, want: Ordering) -> Check {
    if a.cmp(b) != want || (a < b) != want.is_lt() || (a > b) != want.is_gt() { return Err(format!("{:?} compared with {:?} gives {:?}, in time it is {:?}", a, b, a.cmp(b), want)) }
    Ok(())
}
/// as members of sets: as many as there are different values
fn sets<T: Hash + Ord + Clone>(l: &[T], different: usize) -> Check {
    let (h, b): (HashSet<T>, BTreeSet<T>) = (l.iter().cloned().collect(), l.iter().cloned().collect());
    if h.len() != different || b.len() != different { return Err(format!("{} portable values of {} different ones make a hash set of {} and an ordered set of {}", l.len(), different, h.len(), b.len())) }
    Ok(())
}

fn days(th: bool) -> Vec<time::Date> {
    let mut l = vec![];
    let ys: Vec<i32> = if th { (-9999..=9999).step_by(97).chain(-130..=130).chain(1870..2131).collect() } else { vec![-9999, -9998, -8192, -6192, -2000, -400, -129, -128, -127, -101, -100, -65, -64, -63, -5, -4, -1, 0, 1, 4, 63, 64, 100, 1582, 1872, 1900, 1936, 1937, 1970, 1999, 2000, 2001, 2004, 2063, 2064, 2127, 2128, 2129, 2255, 2256, 4096, 8191, 9998, 9999] };
    for y in ys { for o in [1u16, 2, 59, 60, 61, 127, 128, 129, 255, 256, 257, 364, 365, 366] { if let Ok(d) = time::Date::from_ordinal_date(y, o) { l.push(d) } } }
    l.sort();
    l.dedup();
    l
}
fn instants() -> Vec<OffsetDateTime> {
    let mut l = vec![];
    for s in [min_ts(), min_ts() + 1, -(1 << 33), -(1 << 32), -(1i64 << 31) - 1, -(1 << 31), -86401, -86400, -65536, -129, -65, -64, -2, -1, 0, 1, 2, 63, 64, 127, 128, 255, 256, 86399, 86400, 65535, 65536, (1 << 31) - 1, 1 << 31, 1 << 32, max_ts() - 1, max_ts()] {
        for n in [0u32, 1, 127, 128, 255, 256, 65535, 65536, 500_000_000, 999_999_998, 999_999_999] {
            let Ok(o) = OffsetDateTime::from_unix_timestamp(s) else { continue };
            let Some(o) = o.replace_nanosecond(n).ok() else { continue };
            l.push(o);
            for h in [-25 * 3600 + 1, -9 * 3600, 1, 5 * 3600 + 1800, 25 * 3600 - 1] { if let Ok(z) = UtcOffset::from_whole_seconds(h) { if s > min_ts() + 100_000 && s < max_ts() - 100_000 { l.push(o.to_offset(z)) } } }
        }
    }
    l
}

pub fn c26(th: bool) -> Vec<Space> {
    let ds = days(th);
    let is = instants();
    let mut nums: Vec<BigInt> = vec![];
    for k in [0u32, 1, 2, 6, 7, 8, 9, 15, 16, 17, 23, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1023, 1024, 2047, 2048] { for a in [-2i32, -1, 0, 1, 2] { let x = (BigInt::from(1) << k) + a; nums.push(-&x); nums.push(x) } }
    for n in 0..=if th { 600 } else { 300 } { nums.push(n.into()); nums.push((-n).into()) }
    nums.sort();
    nums.dedup();
    let us: Vec<num_bigint::BigUint> = nums.iter().filter_map(|n| n.to_biguint()).collect();
    // digits and scale; 1.0 and 1, 100 and 1e2 are one number
    let mut decs: Vec<(BigInt, i64)> = vec![];
    for m in [0i64, 1, -1, 2, 5, 7, -7, 10, 12, 25, 100, 101, 127, 128, -128, -129, 255, 256, 999, 1000, 1001, 32767, 32768, i64::MAX, i64::MIN] {
        for s in [i64::MIN, i64::MIN + 1, i64::MIN + 2, -65, -64, -3, -2, -1, 0, 1, 2, 3, 63, 64, 65, 127, 128, i64::MAX - 2, i64::MAX - 1, i64::MAX] { for z in 0..4u32 { decs.push((BigInt::from(m) * BigInt::from(10).pow(z), s)) } }
    }
    let canon: Vec<(BigInt, i128)> = decs.iter().map(|(m, s)| {
        let (mut m, mut s) = (m.clone(), *s as i128);
        if m == BigInt::from(0) { return (m, 0) }
        while (&m % 10) == BigInt::from(0) { m /= 10; s -= 1 }
        (m, s)
    }).collect();
    let (n1, n2, n3, n4, n5) = (ds.len(), is.len(), nums.len(), us.len(), decs.len());
    let each = |i: usize, n: usize, c: &Ctx| { c.bulk(n as u64); c.validated(n as u64); c.state(&i) };
    vec![
        Space::new("dates", &format!("every two of {} dates", n1), move |c| {
            let i = c.choose(n1);
            let a: dlhn::Date = ds[i].into();
            c.label(|| ds[i].to_string());
            for d in &ds { let b: dlhn::Date = (*d).into(); two(&a, &b, ds[i] == *d)?; in_order(&a, &b, ds[i].cmp(d))? }
            if i == 0 { sets(&ds.iter().map(|d| (*d).into()).collect::<Vec<dlhn::Date>>(), n1)? }
            each(i, n1, c);
            Ok(())
        }),
        Space::new("instants", &format!("every two of {} date-times, the same instants in six offsets among them", n2), move |c| {
            let i = c.choose(n2);
            let a: dlhn::DateTime = is[i].into();
            c.label(|| is[i].to_string());
            for d in &is { let b: dlhn::DateTime = (*d).into(); let (x, y) = (is[i].unix_timestamp_nanos(), d.unix_timestamp_nanos()); two(&a, &b, x == y)?; in_order(&a, &b, x.cmp(&y))? }
            if i == 0 { sets(&is.iter().map(|d| (*d).into()).collect::<Vec<dlhn::DateTime>>(), is.iter().map(|d| d.unix_timestamp_nanos()).collect::<BTreeSet<_>>().len())? }
            each(i, n2, c);
            Ok(())
        }),
        Space::new("big integers", &format!("every two of {} integers, converted and decoded", n3), move |c| {
            let i = c.choose(n3);
            let a: dlhn::BigInt = nums[i].clone().into();
            c.label(|| nums[i].to_string());
            let d = real::de_any::<dlhn::BigInt>(&real::ser_any(&a).map_err(|e| format!("{:?}", e))?).0.map_err(|e| format!("{:?}", e))?;
            two(&a, &d, true)?;
            for n in &nums { two(&a, &n.clone().into(), nums[i] == *n)? }
            if i == 0 { sets(&nums.iter().map(|n| n.clone().into()).collect::<Vec<dlhn::BigInt>>(), n3)? }
            each(i, n3, c);
            Ok(())
        }),
        Space::new("big unsigned integers", &format!("every two of {} integers, converted and decoded", n4), move |c| {
            let i = c.choose(n4);
            let a: dlhn::BigUint = us[i].clone().into();
            c.label(|| us[i].to_string());
            let d = real::de_any::<dlhn::BigUint>(&real::ser_any(&a).map_err(|e| format!("{:?}", e))?).0.map_err(|e| format!("{:?}", e))?;
            two(&a, &d, true)?;
            for n in &us { two(&a, &n.clone().into(), us[i] == *n)? }
            if i == 0 { sets(&us.iter().map(|n| n.clone().into()).collect::<Vec<dlhn::BigUint>>(), n4)? }
            each(i, n4, c);
            Ok(())
        }),
        Space::new("one bit apart", "two numbers that differ in one bit: integers and decimals of every length to 70 bytes (every bit), and of 100 to 66,000 bytes (96 bits from end to end), their signs, and scales in every bit of 64; dates and instants 2^k days, seconds and nanoseconds apart", move |c| {
            let lens: Vec<usize> = (1..=70).chain([100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 1030, 2048, 4096, 4097, 5000, 8192, 16384, 65_535, 65_536, 66_000]).collect();
            let k = c.choose(lens.len() + 2);
            let mut n = 0;
            if k < lens.len() {
                let len = lens[k];
                c.label(|| format!("numbers of {} bytes", len));
                let base: Vec<u8> = (0..len).map(|i| if i + 1 == len { 0x3F } else { (i * 37 + 11) as u8 }).collect();
                let x = num_bigint::BigUint::from_bytes_le(&base);
                let (xi, xb): (dlhn::BigInt, dlhn::BigUint) = (BigInt::from(x.clone()).into(), x.clone().into());
                let neg: dlhn::BigInt = (-BigInt::from(x.clone())).into();
                two(&xi, &neg, false)?;
                let dec = len <= 600;
                let xd: dlhn::BigDecimal = bigdecimal::BigDecimal::new(BigInt::from(if dec { x.clone() } else { 7u8.into() }), 3).into();
                let bits = len as u64 * 8 - 2;
                let l: Vec<u64> = if len <= 70 { (0..bits).collect() } else { (0..96).map(|i| i * (bits - 1) / 95).collect() };
                for b in l {
                    let mut y = base.clone();
                    y[(b / 8) as usize] ^= 1 << (b % 8);
                    let y = num_bigint::BigUint::from_bytes_le(&y);
                    two(&xi, &BigInt::from(y.clone()).into(), false)?;
                    two(&neg, &(-BigInt::from(y.clone())).into(), false)?;
                    two(&xb, &y.clone().into(), false)?;
                    if dec { two(&xd, &bigdecimal::BigDecimal::new(BigInt::from(y), 3).into(), false)? }
                    n += 4;
                }
                two(&xi, &BigInt::from(x.clone()).into(), true)?;
                two(&xb, &x.into(), true)?;
            } else if k == lens.len() {
                c.label(|| "scales".to_string());
                for m in [1i64, -7, 1 << 40] { for base in [0i64, 1, -1, 3, 0x0123_4567_89AB_CDEF] { for b in 0..64 {
                    let make = |s: i64| -> dlhn::BigDecimal { bigdecimal::BigDecimal::new(m.into(), s).into() };
                    let (x, y) = (make(base), make(base ^ (1i64 << b)));
                    two(&x, &y, false)?;
                    n += 1;
                } } }
            } else {
                c.label(|| "dates and instants".to_string());
                for t in [0i64, -1, 1_700_000_000, -70_000_000_000] { for ns in [0u32, 1, 999_999_999] { for b in 0..42 {
                    let o = |s: i64, n: u32| OffsetDateTime::from_unix_timestamp(s).ok().and_then(|o| o.replace_nanosecond(n).ok());
                    let Some(x) = o(t, ns) else { continue };
                    for y in [o(t + (1i64 << b), ns), o(t - (1i64 << b), ns), if b < 30 { o(t, ns ^ (1 << b)) } else { None }].into_iter().flatten() {
                        let (p, q): (dlhn::DateTime, dlhn::DateTime) = (x.into(), y.into());
                        two(&p, &q, false)?;
                        in_order(&p, &q, x.cmp(&y))?;
                        if x.date() != y.date() { let (p, q): (dlhn::Date, dlhn::Date) = (x.date().into(), y.date().into()); two(&p, &q, false)?; in_order(&p, &q, x.date().cmp(&y.date()))? }
                        n += 1;
                    }
                } } }
            }
            c.bulk(n);
            c.validated(n);
            c.state(&(k, "bits"));
            Ok(())
        }),
        Space::new("big decimals", &format!("every two of {} decimals, the same numbers with different digits and scales among them, converted and decoded", n5), move |c| {
            let i = c.choose(n5);
            let make = |k: usize| -> dlhn::BigDecimal { bigdecimal::BigDecimal::new(decs[k].0.clone(), decs[k].1).into() };
            let a = make(i);
            c.label(|| format!("{} scale {}", decs[i].0, decs[i].1));
            let d = real::de_any::<dlhn::BigDecimal>(&real::ser_any(&a).map_err(|e| format!("{:?}", e))?).0.map_err(|e| format!("{:?}", e))?;
            two(&a, &d, true)?;
            // zeros beyond the least scale cannot be taken off: such numbers are compared as they are
            for k in 0..n5 { two(&a, &make(k), canon[i] == canon[k])? }
            each(i, n5, c);
            Ok(())
        }),
    ]
}
