//! C15 calendar dates, C16 instants.
use super::*;
use crate::explore::Check;
use dlhn::{Date, DateTime};
use std::convert::TryInto;
use time::{OffsetDateTime, PrimitiveDateTime, Time, UtcOffset};

pub const YEARS: std::ops::RangeInclusive<i32> = -9999..=9999;

pub fn leap(y: i32) -> bool { y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0) }
pub fn days_in(y: i32) -> u32 { if leap(y) { 366 } else { 365 } }
/// days from 1970-01-01 to the first day of year y
pub fn day_of_year_start(y: i32) -> i64 {
    let leaps_before = |y: i64| { let p = y - 1; p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) };
    (y as i64 - 1970) * 365 + leaps_before(y as i64) - leaps_before(1970)
}

pub fn enc_date(year: i32, ordinal0: u16, o: &mut Vec<u8>) { enc_uint(32, zigzag(year as i64), o); enc_uint(16, ordinal0 as u64, o) }

#[derive(serde::Serialize, serde::Deserialize)]
pub struct DateF(#[serde(with = "dlhn::format::date")] time::Date);
#[derive(serde::Serialize, serde::Deserialize)]
pub struct TimeF(#[serde(with = "dlhn::format::date_time")] OffsetDateTime);

crate::route!(f_ser, f_de, time::Date, date);

pub fn date_ok(y: i32, ord: u16) -> Check {
    let d = time::Date::from_ordinal_date(y, ord).map_err(|_| format!("harness: {}-{} is no date", y, ord))?;
    let p: Date = d.into();
    let back: Result<time::Date, ()> = p.try_into();
    if back != Ok(d) { return Err(format!("year {} day {}: the portable date converts back to {:?}", y, ord, back)) }
    let mut e = Vec::with_capacity(8);
    enc_date(y - 2000, ord - 1, &mut e);
    for (route, b) in [("the portable date", real::ser_any(&p)), ("format::date", f_ser(&d))] {
        match b { Ok(b) if b == e => {} b => return Err(format!("year {} day {}: {} writes {:02x?}, the format says {:02x?}", y, ord, route, b, e)) }
    }
    match real::de_any::<Date>(&e) { (Ok(x), n) if x == p && n == e.len() => {} x => return Err(format!("year {} day {}: {:02x?} reads as {:?} by the portable date", y, ord, e, x)) }
    match f_de(&e) { (Ok(x), n) if x == d && n == e.len() => {} x => return Err(format!("year {} day {}: {:02x?} reads as {:?} by format::date", y, ord, e, x)) }
    Ok(())
}

/// whatever pair of integers is encoded
pub fn encoded_date(year: i32, ordinal0: u16) -> Check {
    let mut b = Vec::with_capacity(8);
    enc_date(year, ordinal0, &mut b);
    let y = year as i64 + 2000;
    let real = y >= *YEARS.start() as i64 && y <= *YEARS.end() as i64 && (ordinal0 as u32) < days_in(y as i32);
    if real { date_ok(y as i32, ordinal0 + 1)? }
    let (f, n) = f_de(&b);
    match &f {
        Ok(d) if real && d.year() as i64 == y && d.ordinal() == ordinal0 + 1 && n == b.len() => {}
        Err(_) if !real => {}
        _ => return Err(format!("year 2000{:+} day {} (from 0), {:02x?}: format::date reads {:?}", year, ordinal0, b, f)),
    }
    let (p, n) = real::de_any::<Date>(&b);
    match p {
        Ok(p) => {
            let c: Result<time::Date, ()> = p.try_into();
            match c {
                Ok(d) if real && f.as_ref().ok() == Some(&d) && n == b.len() => {}
                Err(()) if !real && n == b.len() => {}
                c => return Err(format!("year 2000{:+} day {} (from 0), {:02x?}: the portable date converts to {:?}", year, ordinal0, b, c)),
            }
            // and what was read is written again as it was
            match real::ser_any(&p) { Ok(x) if x == b => {} x => return Err(format!("year 2000{:+} day {} (from 0): {:02x?} read and written again is {:02x?}", year, ordinal0, b, x)) }
        }
        Err(_) if !real => {}
        Err(e) => return Err(format!("year 2000{:+} day {} (from 0), {:02x?}: the portable date is refused: {:?}", year, ordinal0, b, e)),
    }
    Ok(())
}

pub fn year_edges() -> Vec<i32> {
    let mut l: Vec<i64> = vec![];
    for k in 0..=32 { for s in [1i64, -1] { for d in -2..=2 { l.push(s * (1i64 << k) + d); l.push(s * (1i64 << k) + d - 2000); l.push(s * (1i64 << k) + d + 2000) } } }
    for y in [-12000i64, -11999, 7999, 8000, 0, -2000, -100, -1900, 1 << 13] { for d in -2..=2 { l.push(y + d) } }
    let mut l: Vec<i32> = l.into_iter().filter_map(|x| x.try_into().ok()).collect();
    l.sort(); l.dedup();
    l
}
pub fn ordinal_edges() -> Vec<u16> {
    let mut l: Vec<i64> = vec![0, 58, 59, 60, 363, 364, 365, 366, 367];
    for k in 0..=16 { for d in -2..=1 { l.push((1i64 << k) + d) } }
    let mut l: Vec<u16> = l.into_iter().filter_map(|x| x.try_into().ok()).collect();
    l.sort(); l.dedup();
    l
}

pub fn c15(th: bool) -> Vec<Space> {
    let mut l = vec![
        Space::new("calendar dates", "every date of the years -9999..=9999 (7 304 484 of them): conversion, both routes, bytes against the format", |c| {
            let y = c.choose(19999) as i32 - 9999;
            c.label(|| format!("the {} days of year {}", days_in(y), y));
            for o in 1..=days_in(y) { date_ok(y, o as u16)? }
            if time::Date::from_ordinal_date(y, days_in(y) as u16 + 1).is_ok() { return Err(format!("harness: year {} has more days", y)) }
            c.bulk(days_in(y) as u64);
            Ok(())
        }),
        Space::new("encoded dates near the calendar", "encoded years -12100..=8100, encoded days 0..=400", |c| {
            let y = c.choose(20201) as i32 - 12100;
            c.label(|| format!("encoded year {} days 0..=400", y));
            for o in 0..=400 { encoded_date(y, o)? }
            c.bulk(401);
            Ok(())
        }),
        Space::new("encoded days", "all 65536 encoded days of years at every power of two, at the ends of the calendar and of the 32-bit integers", |c| {
            let l = year_edges();
            let y = *c.pick(&l);
            let k = c.choose(16) as u32 * 4096;
            c.label(|| format!("encoded year {} days {}..", y, k));
            for o in k..k + 4096 { encoded_date(y, o as u16)? }
            c.bulk(4096);
            Ok(())
        }),
        Space::new("encoded years at the ends", "every encoded year within 5000 of the ends of the 32-bit integers, encoded days at powers of two and ends of years", |c| {
            let k = c.choose(10001) as i64;
            let y = if k <= 5000 { i32::MIN as i64 + k } else { i32::MAX as i64 - (k - 5001) } as i32;
            c.label(|| format!("encoded year {}", y));
            let l = ordinal_edges();
            for o in &l { encoded_date(y, *o)? }
            c.bulk(l.len() as u64);
            Ok(())
        }),
        Space::new("dates in containers", "dates inside options, sequences, maps and structs, among other fields, by both routes", |c| {
            let e = [(-9999, 1), (-9999, 365), (9999, 365), (2000, 1), (2000, 366), (1900, 365), (1999, 365), (2001, 1), (0, 366), (-1, 365), (2178, 100), (2064, 366), (1936, 129)];
            let (y, o) = *c.pick(&e);
            let (y2, o2) = *c.pick(&e);
            let (a, b) = (time::Date::from_ordinal_date(y, o).unwrap(), time::Date::from_ordinal_date(y2, o2).unwrap());
            let (mut ea, mut eb) = (vec![], vec![]);
            enc_date(y - 2000, o - 1, &mut ea);
            enc_date(y2 - 2000, o2 - 1, &mut eb);
            c.state(&(y, o, y2, o2));
            let v: (Vec<Date>, Option<Date>, std::collections::BTreeMap<String, Date>, u8) = (vec![a.into(), b.into()], Some(b.into()), [("k".to_string(), a.into())].into(), 7);
            let f = (vec![DateF(a), DateF(b)], Some(DateF(b)), std::collections::BTreeMap::from([("k".to_string(), DateF(a))]), 7u8);
            let want = [&[2][..], &ea, &eb, &[1], &eb, &[1, 1, b'k'], &ea, &[7]].concat();
            for b in [real::ser_any(&v), real::ser_any(&f)] { if b.as_ref().ok() != Some(&want) { return Err(format!("{:?} written as {:02x?}, the format says {:02x?}", v, b, want)) } }
            match real::de_any::<(Vec<Date>, Option<Date>, std::collections::BTreeMap<String, Date>, u8)>(&want) { (Ok(x), n) if x == v && n == want.len() => {} x => return Err(format!("{:?} comes back as {:?}", v, x)) }
            match real::de_any::<(Vec<DateF>, Option<DateF>, std::collections::BTreeMap<String, DateF>, u8)>(&want) {
                (Ok(x), n) if n == want.len() && x.0.len() == 2 && x.0[0].0 == a && x.0[1].0 == b && x.1.as_ref().map(|d| d.0) == Some(b) && x.2["k"].0 == a && x.3 == 7 => {}
                (x, n) => return Err(format!("{:?} does not come back by format::date ({} bytes, error {:?})", v, n, x.err())),
            }
            c.validated(4);
            Ok(())
        }),
    ];
    if th {
        l.push(Space::new("all encoded years", "all 2^32 encoded years, encoded days 0 and 365", |c| {
            let k = c.choose(1 << 16) as u32;
            c.label(|| format!("encoded years from {}", (k << 16) as i32));
            for i in 0..=0xFFFFu32 {
                let y = (k << 16 | i) as i32;
                encoded_date(y, 0)?;
                encoded_date(y, 365)?;
                if i % 0x4000 == 0 { c.beat() }
            }
            c.bulk(2 << 16);
            Ok(())
        }));
    }
    l
}

// ---------------------------------------------------------------- instants

pub const NS: i128 = 1_000_000_000;
pub fn min_ts() -> i64 { day_of_year_start(*YEARS.start()) * 86400 }
pub fn max_ts() -> i64 { day_of_year_start(*YEARS.end() + 1) * 86400 - 1 }

crate::route!(t_ser, t_de, OffsetDateTime, date_time);
pub fn enc_time(ts: i64, ns: u32, o: &mut Vec<u8>) { enc_uint(64, zigzag(ts), o); enc_uint(32, ns as u64, o) }

/// a wall clock reading in an offset
pub fn clock_ok(y: i32, ord: u16, secs: u32, ns: u32, off: i32) -> Check {
    let t = Time::from_hms_nano((secs / 3600) as u8, (secs / 60 % 60) as u8, (secs % 60) as u8, ns).map_err(|e| format!("harness: {:?}", e))?;
    let d = time::Date::from_ordinal_date(y, ord).map_err(|e| format!("harness: {:?}", e))?;
    let o = UtcOffset::from_whole_seconds(off).map_err(|e| format!("harness: {:?}", e))?;
    let odt = PrimitiveDateTime::new(d, t).assume_offset(o);
    let ts = (day_of_year_start(y) + ord as i64 - 1) * 86400 + secs as i64 - off as i64;
    instant_ok(odt, ts, ns)
}

pub fn instant_ok(odt: OffsetDateTime, ts: i64, ns: u32) -> Check {
    let at = || format!("{} s {} ns in offset {}", ts, ns, odt.offset().whole_seconds());
    let want = ts as i128 * NS + ns as i128;
    let p: DateTime = odt.into();
    let mut e = Vec::with_capacity(16);
    enc_time(ts, ns, &mut e);
    for (route, b) in [("the portable date-time", real::ser_any(&p)), ("format::date_time", t_ser(&odt))] {
        match b { Ok(b) if b == e => {} b => return Err(format!("{}: {} writes {:02x?}, the format says {:02x?}", at(), route, b, e)) }
    }
    let inside = ts >= min_ts() && ts <= max_ts();
    let same = |x: &OffsetDateTime| x.unix_timestamp_nanos() == want && x.unix_timestamp() == ts && x.nanosecond() == ns && *x == odt;
    let back: Result<OffsetDateTime, ()> = p.try_into();
    match &back { Ok(x) if inside && same(x) => {} Err(()) if !inside => {} x => return Err(format!("{}: the portable date-time converts back to {:?}", at(), x)) }
    match t_de(&e) { (Ok(x), n) if inside && same(&x) && n == e.len() => {} (Err(_), _) if !inside => {} x => return Err(format!("{}: {:02x?} reads as {:?} by format::date_time", at(), e, x)) }
    match real::de_any::<DateTime>(&e) { (Ok(x), n) if x == p && n == e.len() => {} x => return Err(format!("{}: {:02x?} reads as {:?} by the portable date-time", at(), e, x)) }
    Ok(())
}

/// whatever pair of integers is encoded
pub fn encoded_instant(ts: i64, ns: u32) -> Check {
    let mut b = Vec::with_capacity(16);
    enc_time(ts, ns, &mut b);
    let want = ts as i128 * NS + ns as i128;
    let inside = want >= min_ts() as i128 * NS && want < (max_ts() as i128 + 1) * NS;
    let canonical = ns < 1_000_000_000;
    let at = || format!("{} s {} ns, {:02x?}", ts, ns, b);
    let judge = |route: &str, r: Option<OffsetDateTime>| match r {
        Some(x) if inside && x.unix_timestamp_nanos() == want => Ok(()),
        // nanoseconds beyond a second are nothing an encoder writes: to refuse them is as good
        None if !inside || !canonical => Ok(()),
        x => Err(format!("{}: {} gives {:?}", at(), route, x)),
    };
    let (f, n) = t_de(&b);
    if f.is_ok() && n != b.len() { return Err(format!("{}: {} bytes consumed by format::date_time", at(), n)) }
    judge("format::date_time", f.ok())?;
    let (p, n) = real::de_any::<DateTime>(&b);
    match p {
        Ok(p) => {
            if n != b.len() { return Err(format!("{}: {} bytes consumed by the portable date-time", at(), n)) }
            let x: Result<OffsetDateTime, ()> = p.try_into();
            judge("the portable date-time", x.ok())?;
            match real::ser_any(&p) { Ok(x) if x == b => {} x => return Err(format!("{}: read and written again as {:02x?}", at(), x)) }
        }
        Err(_) if !inside || !canonical => {}
        Err(e) => return Err(format!("{}: refused by the portable date-time: {:?}", at(), e)),
    }
    if canonical && inside { instant_ok(OffsetDateTime::from_unix_timestamp_nanos(want).map_err(|e| format!("harness: {:?}", e))?, ts, ns)? }
    Ok(())
}

pub fn second_edges() -> Vec<i64> {
    let mut l: Vec<i128> = vec![];
    for k in 0..=63 { for s in [1i128, -1] { for d in -2..=2 { l.push(s * (1i128 << k) + d) } } }
    for b in [min_ts(), max_ts(), 0, 86400, -86400, 951782400, -62135596800] { for d in -6..=6 { l.push(b as i128 + d) } }
    let mut l: Vec<i64> = l.into_iter().filter_map(|x| x.try_into().ok()).collect();
    l.sort(); l.dedup();
    l
}
pub fn nano_edges(beyond: bool) -> Vec<u32> {
    let mut l: Vec<i64> = vec![999_999_999, 500_000_000, 123_456_789, 1_000, 999, 1_000_000, 999_999];
    for k in 0..=32 { for d in -1..=1 { l.push((1i64 << k) + d) } }
    if beyond { for k in 1..=4 { for d in -1..=1 { l.push(k * 1_000_000_000 + d) } } }
    l.push(0);
    let mut l: Vec<u32> = l.into_iter().filter_map(|x| x.try_into().ok()).filter(|x| beyond || *x < 1_000_000_000).collect();
    l.sort(); l.dedup();
    l
}

pub fn c16(th: bool) -> Vec<Space> {
    let step = 1 << 16;
    let secs = if th { 1usize << 16 } else { 1 << 8 };
    let nanos = if th { 1_000_000_000usize.div_ceil(step) } else { 1 << 6 };
    vec![
        Space::new("days", "first and last nanosecond of every day of the years -9999..=9999, in UTC", |c| {
            let y = c.choose(19999) as i32 - 9999;
            c.label(|| format!("the days of year {}", y));
            for o in 1..=days_in(y) as u16 { clock_ok(y, o, 0, 0, 0)?; clock_ok(y, o, 86399, 999_999_999, 0)? }
            c.bulk(days_in(y) as u64 * 2);
            Ok(())
        }),
        Space::new("offsets", "every UTC offset from -25:59:59 to +25:59:59, date-times at the epoch, ordinary ones and those within a day of both ends, nanoseconds at the edges of a second", |c| {
            let k = c.choose(2 * 26 * 60);
            let at = [(1970, 1, 0), (1969, 365, 86399), (2024, 366, 43200), (-9999, 1, 0), (-9999, 2, 3600 * 2), (9999, 365, 86399), (9999, 364, 3600 * 22), (1, 1, 1)];
            let (y, o, s) = *c.pick(&at);
            c.label(|| format!("year {} day {} second {}, offsets from {} s", y, o, s, k as i32 * 60 - 93600));
            for m in 0..60 {
                let off = k as i32 * 60 - 93600 + m;
                if off == -93600 { continue }
                for ns in [0, 1, 999_999_999] { clock_ok(y, o, s, ns, off)? }
            }
            c.bulk(180);
            Ok(())
        }),
        Space::new("instants at the edges", "seconds at powers of two, the epoch and both ends, nanoseconds at powers of two and ends of a second, offsets -25:59:59, -1, 0, 1, +25:59:59", |c| {
            let l = second_edges();
            let ts = *c.pick(&l);
            c.label(|| format!("instant {} s", ts));
            if ts < min_ts() + 93600 || ts > max_ts() - 93600 { return Ok(()) }
            let mut k = 0;
            for ns in nano_edges(false) {
                for off in [-93599, -1, 0, 1, 93599] {
                    let odt = OffsetDateTime::from_unix_timestamp_nanos(ts as i128 * NS + ns as i128).map_err(|e| format!("harness: {:?}", e))?;
                    instant_ok(odt.to_offset(UtcOffset::from_whole_seconds(off).unwrap()), ts, ns)?;
                    k += 1;
                }
            }
            c.bulk(k);
            Ok(())
        }),
        Space::new("seconds around 1970", &format!("every second within {} of the epoch", secs * step / 2), move |c| {
            let k = c.choose(secs) as i64;
            let t0 = (k - secs as i64 / 2) * step as i64;
            c.label(|| format!("{} seconds from {}", step, t0));
            for i in 0..step as i64 { encoded_instant(t0 + i, 0)?; if i % 8192 == 0 { c.beat() } }
            c.bulk(step as u64);
            Ok(())
        }),
        Space::new("nanoseconds", &format!("the first {} nanoseconds of a second, after and before 1970", (nanos * step).min(1_000_000_000)), move |c| {
            let k = c.choose(nanos);
            c.label(|| format!("nanoseconds from {}", k * step));
            for i in 0..step { let ns = (k * step + i) as u32; if ns < 1_000_000_000 { encoded_instant(if i % 2 == 0 { -1 } else { 1_600_000_000 }, ns)? } if i % 8192 == 0 { c.beat() } }
            c.bulk(step as u64);
            Ok(())
        }),
        Space::new("encoded pairs", "encoded seconds at every power of two, the epoch and both ends, encoded nanoseconds at powers of two and multiples of a second up to the end of the 32-bit integers", |c| {
            let l = second_edges();
            let ts = *c.pick(&l);
            c.label(|| format!("encoded second {}", ts));
            c.state(&ts);
            let n = nano_edges(true);
            for ns in &n { encoded_instant(ts, *ns)? }
            c.bulk(n.len() as u64);
            Ok(())
        }),
        Space::new("around both ends", "every encoded second within 100000 of both ends of the calendar", |c| {
            let end = c.choose(2);
            let k = c.choose(200) as i64;
            let t0 = if end == 0 { min_ts() } else { max_ts() } + (k - 100) * 1000;
            c.label(|| format!("encoded seconds from {}", t0));
            for ts in t0..t0 + 1000 { for ns in [0, 999_999_999, 1_000_000_000, u32::MAX] { encoded_instant(ts, ns)? } }
            c.bulk(4000);
            Ok(())
        }),
        Space::new("date-times in containers", "date-times inside options, sequences, maps and structs, among other fields, by both routes", |c| {
            let e = [(0i64, 0u32), (-1, 999_999_999), (i32::MAX as i64, 1), (min_ts(), 0), (max_ts(), 999_999_999), (63, 127), (-65, 128), (8192, 1 << 21)];
            let (s1, n1) = *c.pick(&e);
            let (s2, n2) = *c.pick(&e);
            let mk = |s: i64, n: u32| OffsetDateTime::from_unix_timestamp_nanos(s as i128 * NS + n as i128).unwrap();
            let (a, b) = (mk(s1, n1), mk(s2, n2));
            let (mut ea, mut eb) = (vec![], vec![]);
            enc_time(s1, n1, &mut ea);
            enc_time(s2, n2, &mut eb);
            c.state(&(s1, n1, s2, n2));
            type V = (Vec<DateTime>, Option<DateTime>, std::collections::BTreeMap<String, DateTime>, u8);
            type F = (Vec<TimeF>, Option<TimeF>, std::collections::BTreeMap<String, TimeF>, u8);
            let v: V = (vec![a.into(), b.into()], Some(b.into()), [("k".to_string(), a.into())].into(), 7);
            let f: F = (vec![TimeF(a), TimeF(b)], Some(TimeF(b)), [("k".to_string(), TimeF(a))].into(), 7);
            let want = [&[2][..], &ea, &eb, &[1], &eb, &[1, 1, b'k'], &ea, &[7]].concat();
            for b in [real::ser_any(&v), real::ser_any(&f)] { if b.as_ref().ok() != Some(&want) { return Err(format!("{:?} written as {:02x?}, the format says {:02x?}", v, b, want)) } }
            match real::de_any::<V>(&want) { (Ok(x), n) if x == v && n == want.len() => {} x => return Err(format!("{:?} comes back as {:?}", v, x)) }
            match real::de_any::<F>(&want) {
                (Ok(x), n) if n == want.len() && x.0.len() == 2 && x.0[0].0 == a && x.0[1].0 == b && x.1.as_ref().map(|d| d.0) == Some(b) && x.2["k"].0 == a && x.3 == 7 => {}
                (x, n) => return Err(format!("{:?} does not come back by format::date_time ({} bytes, error {:?})", v, n, x.err())),
            }
            c.validated(4);
            Ok(())
        }),
    ]
}
