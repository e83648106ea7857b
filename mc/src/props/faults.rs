//! C07 readers and C08 writers that misbehave in every way, up to a bound on
//! how often they depart from plain full-length answers.
use super::*;
use crate::env::*;
use crate::explore::Check;
use crate::gen::*;
use dlhn::Header as H;

#[derive(Clone)]
pub enum Case { Static(Ty, Val), Body(H, Val), Header(H), HeaderOf(H, fn(&mut dyn std::io::Write) -> std::io::Result<()>) }

impl Case {
    fn name(&self) -> String {
        match self {
            Case::Static(t, v) => format!("{} = {}", st(t), sv(v)),
            Case::Body(h, v) => format!("body {:.200} = {}", format!("{:?}", h), sv(v)),
            Case::Header(h) | Case::HeaderOf(h, _) => format!("header {:.200}", format!("{:?}", h)),
        }
    }
    fn bytes(&self) -> Vec<u8> {
        match self {
            Case::Static(t, v) => encoded(t, v),
            Case::Body(h, v) => encoded(&real::ty_of(h), v),
            Case::Header(h) | Case::HeaderOf(h, _) => { let mut o = vec![]; real::enc_header(h, &mut o).unwrap(); o }
        }
    }
}

/// values covering every read and write call site, with long ones for the chunked paths
pub fn cases() -> Vec<Case> {
    let mut l = Vec::new();
    for t in atoms() {
        let vs = atom_vals(&t, 2);
        // the default, the longest and one in between
        let mut pick = vec![default_value(&t)];
        let longest = vs.iter().filter(|v| encoded(&t, v).len() <= 700).max_by_key(|v| encoded(&t, v).len()).unwrap().clone();
        pick.push(longest);
        pick.dedup();
        for v in pick { l.push(Case::Static(t.clone(), v)) }
    }
    // every width of every varint
    for (w, t) in [(16u32, Ty::U16), (32, Ty::U32), (64, Ty::U64)] {
        for k in 1..=9 { if 7 * k < w { let x = 1u64 << (7 * k); l.push(Case::Static(t.clone(), match w { 16 => Val::U16(x as u16), 32 => Val::U32(x as u32), _ => Val::U64(x) })) } }
    }
    for t in depth1_over(&[Ty::U16, Ty::Str]) { let v = default_value(&t); l.push(Case::Static(t, v)) }
    for n in [127usize, 128, 129, 300] { l.push(Case::Static(Ty::Str, Val::Str(text(n)))); l.push(Case::Static(Ty::StrVia, Val::Str(text(n)))) }
    for n in [4095usize, 4096, 4097, 8192, 9000, 12288] { l.push(Case::Static(Ty::Bytes, Val::Bytes(bytes(n)))) }
    l.push(Case::Static(Ty::Str, Val::Str(text(9000))));
    l.push(Case::Static(Ty::BigUint, Val::Big(bytes(40))));
    l.push(Case::Static(Ty::Map(bx(Ty::Seq(bx(Ty::U32)))), Val::Map(vec![("a".into(), Val::List(vec![Val::U32(1), Val::U32(1 << 30)])), (text(130), Val::List(vec![]))])));
    l.push(Case::Static(Ty::Seq(bx(Ty::Unit)), Val::List(vec![Val::Unit; 3])));
    let mut hs = leaf_headers();
    hs.extend(headers1(&[H::UInt16, H::String]));
    hs.push(H::Map(Box::new(H::Array(Box::new(H::Optional(Box::new(H::Int64)))))));
    for h in &hs {
        let t = real::ty_of(h);
        l.push(Case::Body(h.clone(), default_value(&t)));
        l.push(Case::Header(h.clone()));
    }
    l.push(Case::Body(H::String, Val::Str(text(300))));
    l.push(Case::Body(H::Binary, Val::Bytes(bytes(8195))));
    l.push(Case::Body(H::Enum(vec![H::Unit; 200]), Val::Enum(190, vec![Val::Unit])));
    l.push(Case::Header(H::Tuple(vec![H::UInt8; 130])));
    l.push(Case::Header(H::Enum(vec![H::Optional(Box::new(H::Unit)), H::Tuple(vec![H::Date, H::Map(Box::new(H::Binary))])])));
    l.push(Case::HeaderOf(H::Map(Box::new(H::Tuple(vec![H::String, H::Optional(Box::new(H::Array(Box::new(H::BigDecimal))))]))), |mut w| {
        use dlhn::SerializeHeader;
        std::collections::BTreeMap::<String, (String, Option<Vec<dlhn::BigDecimal>>)>::serialize_header(&mut w)
    }));
    l.push(Case::HeaderOf(H::Tuple(vec![H::Int8, H::DateTime, H::Array(Box::new(H::Float64))]), |mut w| {
        use dlhn::SerializeHeader;
        <(i8, dlhn::DateTime, Vec<f64>)>::serialize_header(&mut w)
    }));
    l
}

fn read_case(c: &Ctx, k: &Case, budget: u32) -> Check {
    let b = k.bytes();
    let mut data = b.clone();
    data.extend_from_slice(&[0x01, 0x80, 0xFF, 0x00, 0x42]);
    c.set_budget(budget);
    let mut r = ChoiceReader::new(c, &data, b.len(), true);
    // what came out, as text and as verdict
    let res: Result<bool, String> = match k {
        Case::Static(t, v) => real::de_from(t, &mut r).map(|x| x == *v).map_err(|e| format!("{:?}", e)),
        Case::Body(h, v) => match real::body_de_from(h, &mut r) {
            Ok(x) => real::val_of(&x).map(|x| x == *v),
            Err(e) => Err(format!("{:?}", e)),
        },
        Case::Header(h) | Case::HeaderOf(h, _) => {
            use dlhn::DeserializeHeader;
            (&mut r).deserialize_header().map(|x| x == *h).map_err(|e| e.to_string())
        }
    };
    let (failed, interrupted, over, pos, calls) = (r.failed, r.interrupted, r.over, r.pos, r.calls);
    c.validated(1);
    c.observe(&(failed, pos, calls));
    if over > 0 { return Err(format!("{}: the decoder asked for {} bytes beyond the end of the value", k.name(), over)) }
    match (failed, res) {
        (true, Err(_)) => { c.outcome("fault reported"); Ok(()) }
        (true, Ok(_)) => Err(format!("{}: the reader failed after {} of {} bytes, yet a value was returned", k.name(), pos, b.len())),
        (false, Ok(true)) => {
            if pos != b.len() { return Err(format!("{}: consumed {} of {} bytes", k.name(), pos, b.len())) }
            c.outcome("value");
            Ok(())
        }
        (false, Ok(false)) => Err(format!("{}: a different value came out of a reader that splits reads{}", k.name(), if interrupted { " and is interrupted" } else { "" })),
        (false, Err(e)) => Err(format!("{}: decoding fails ({}) although the reader delivered everything{}", k.name(), e, if interrupted { " (with an interruption)" } else { "" })),
    }
}

fn write_case(c: &Ctx, k: &Case, budget: u32) -> Check {
    let b = k.bytes();
    c.set_budget(budget);
    let mut w = ChoiceWriter::new(c);
    let res: Result<(), String> = match k {
        Case::Static(t, v) => match real::ser_to(t, v, &mut w) { Ok(()) => Ok(()), Err(dlhn::ser::Error::Write) => Err("Write".into()), Err(e) => Err(format!("{:?}", e)) },
        Case::Body(h, v) => { use serde::Serialize; let body = real::body_of(h, v)?; let mut s = dlhn::Serializer::new(&mut w); body.serialize(&mut s).map_err(|e| format!("{:?}", e)) }
        Case::Header(h) => h.serialize(&mut w).map_err(|e| e.to_string()),
        Case::HeaderOf(_, f) => f(&mut w).map_err(|e| e.to_string()),
    };
    c.validated(1);
    c.observe(&(&w.got, w.failed, w.calls));
    if w.after_failure > 0 { return Err(format!("{}: {} writes after the writer had failed", k.name(), w.after_failure)) }
    if !b.starts_with(&w.got) { return Err(format!("{}: the writer received {}, which is no prefix of {}", k.name(), short(&w.got), short(&b))) }
    match (w.failed, res) {
        (true, Err(_)) => { c.outcome("fault reported"); Ok(()) }
        (true, Ok(())) => Err(format!("{}: the writer failed after {} of {} bytes and serialization reports success", k.name(), w.got.len(), b.len())),
        (false, Ok(())) if w.got == b => { c.outcome("complete"); Ok(()) }
        (false, Ok(())) => Err(format!("{}: success, but only {} of {} bytes were delivered", k.name(), w.got.len(), b.len())),
        (false, Err(e)) => Err(format!("{}: serialization fails ({}) although the writer accepted everything in parts", k.name(), e)),
    }
}

/// interrupts `times` times in a row before each call (or only at byte `at`), where it may then fail
struct Patience<'a> { data: &'a [u8], pos: usize, times: usize, left: usize, at: Option<usize>, fails: bool, failed: bool, after: u64, step: usize }
impl Patience<'_> {
    fn call(&mut self, asked: usize) -> std::io::Result<usize> {
        if self.failed { self.after += 1 }
        if self.at.map_or(true, |p| p == self.pos) {
            if self.left > 0 { self.left -= 1; return Err(std::io::ErrorKind::Interrupted.into()) }
            if self.fails { self.failed = true; return Err(std::io::Error::new(std::io::ErrorKind::Other, "gone")) }
        }
        if self.at.is_none() { self.left = self.times }
        let to = match self.at { Some(p) if p > self.pos => p - self.pos, _ => usize::MAX };
        Ok(asked.min(self.step).min(to))
    }
}
impl std::io::Read for Patience<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let n = self.call(b.len())?.min(self.data.len() - self.pos);
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
struct Taker<'a>(Patience<'a>, Vec<u8>);
impl std::io::Write for Taker<'_> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0) }
        let n = self.0.call(b.len())?;
        self.1.extend_from_slice(&b[..n]);
        self.0.pos += n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
const TIMES: [usize; 24] = [6, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257];
const MANY_TIMES: [usize; 8] = [500, 1000, 1024, 1025, 4096, 10_000, 65_536, 70_000];
fn patience(write: bool, th: bool) -> Space {
    let l: Vec<Case> = cases().into_iter().filter(|k| { let n = k.bytes().len(); n > 0 && n <= 310 }).collect();
    let w = format!("{} values, bodies and headers; a {} that is interrupted 6 to 257 times in a row before every call, or that and up to 70,000 times before one byte (each of the first {} and the last), where it then goes on or fails", l.len(), if write { "writer" } else { "reader" }, if th { 64 } else { 12 });
    Space::new("interrupted for long", &w, move |c| {
        let k = c.pick(&l);
        let b = k.bytes();
        c.label(|| k.name());
        let mut data = b.clone();
        data.extend_from_slice(&[1, 0x80, 0xFF]);
        let mut places: Vec<Option<usize>> = vec![None];
        places.extend((0..b.len()).filter(|p| *p < if th { 64 } else { 12 } || *p + 1 == b.len()).map(Some));
        let at = *c.pick(&places);
        let mut n = 0;
        let long = at.map_or(false, |p| p < 2 || p + 1 == b.len());
        for &times in TIMES.iter().chain(if long { &MANY_TIMES[..] } else { &[] }) {
            for fails in [false, true] {
                if fails && at.is_none() { continue }
                for step in [1usize, usize::MAX] {
                    if step == 1 && (times > 300 || fails || at.is_none() && times > 100 && b.len() > 40) { continue }
                    let p = Patience { data: &data, pos: 0, times, left: times, at, fails, failed: false, after: 0, step };
                    let what = format!("{}: {} interrupted {} times {}{}", k.name(), if write { "writer" } else { "reader" }, times, at.map_or("before every call".into(), |p| format!("at byte {}", p)), if fails { ", then failing" } else { "" });
                    n += 1;
                    if write {
                        let mut w = Taker(p, vec![]);
                        let r: Result<(), String> = match k {
                            Case::Static(t, v) => real::ser_to(t, v, &mut w).map_err(|e| format!("{:?}", e)),
                            Case::Body(h, v) => { use serde::Serialize; let body = real::body_of(h, v)?; body.serialize(&mut dlhn::Serializer::new(&mut w)).map_err(|e| format!("{:?}", e)) }
                            Case::Header(h) => h.serialize(&mut w).map_err(|e| e.to_string()),
                            Case::HeaderOf(_, f) => f(&mut w).map_err(|e| e.to_string()),
                        };
                        if r.is_ok() == fails || w.0.after > 0 || !b.starts_with(&w.1) || !fails && w.1 != b { return Err(format!("{}: {:?}, {} of {} bytes written, {} writes after the failure", what, r, w.1.len(), b.len(), w.0.after)) }
                    } else {
                        let mut p = p;
                        let r: Result<bool, String> = match k {
                            Case::Static(t, v) => real::de_from(t, &mut p).map(|x| x == *v).map_err(|e| format!("{:?}", e)),
                            Case::Body(h, v) => match real::body_de_from(h, &mut p) { Ok(x) => real::val_of(&x).map(|x| x == *v), Err(e) => Err(format!("{:?}", e)) },
                            Case::Header(h) | Case::HeaderOf(h, _) => { use dlhn::DeserializeHeader; (&mut p).deserialize_header().map(|x| x == *h).map_err(|e| e.to_string()) }
                        };
                        let good = if fails { r.is_err() && p.pos == at.unwrap() } else { r == Ok(true) && p.pos == b.len() };
                        if !good { return Err(format!("{}: {:?}, {} of {} bytes read", what, r, p.pos, b.len())) }
                    }
                }
            }
            c.beat();
        }
        c.state_of_choices();
        c.bulk(n);
        c.validated(n);
        c.outcome("as it should be");
        Ok(())
    })
}

/// lengths around every power of two a buffer or a counter might end at
fn long_lengths(th: bool) -> Vec<usize> {
    let mut l = vec![16_383, 16_384, 16_385, 32_769, 65_535, 65_536, 65_537, 69_632, 131_071, 131_073, 200_000, 262_145];
    if th { l.extend([1 << 20, (1 << 20) + 1, 3_000_001]) }
    l
}
fn long_cases(th: bool, pieces: bool) -> Vec<Case> {
    let mut l = Vec::new();
    for n in long_lengths(th) {
        l.push(Case::Static(Ty::Bytes, Val::Bytes(bytes(n))));
        l.push(Case::Static(Ty::Str, Val::Str(text(n))));
        l.push(Case::Body(H::Binary, Val::Bytes(bytes(n))));
        l.push(Case::Body(H::String, Val::Str(text(n))));
    }
    for n in [65_537usize, 140_000] {
        l.push(Case::Static(Ty::StrVia, Val::Str(text(n))));
        // these go byte by byte: a place for a fault at each
        l.push(Case::Static(Ty::BigUint, Val::Big(bytes(if pieces { n } else { n / 100 }).into_iter().map(|b| b | 1).collect())));
        l.push(Case::Static(Ty::Map(bx(Ty::Bytes)), Val::Map(vec![(text(n), Val::Bytes(bytes(3))), ("z".into(), Val::Bytes(bytes(n)))])));
    }
    l
}

fn departures(th: bool, k: &Case, deeper: bool) -> u32 {
    match (th, deeper, k.bytes().len()) {
        (true, true, 0..=8) => 8,
        (true, true, 9..=16) => 6,
        (_, true, _) => 5,
        (true, false, 0..=64) => 4,
        _ => 3,
    }
}
fn more(th: bool, s: &str) -> String { if th { format!(" ({})", s) } else { String::new() } }

fn small(k: &Case, n: usize) -> bool { k.bytes().len() <= n }

pub fn c07(th: bool) -> Vec<Space> {
    let all = cases();
    let little: Vec<Case> = all.iter().filter(|k| small(k, 24)).cloned().collect();
    let w1 = format!("{} values, bodies and headers; every placement of at most {} departures{} (short reads of 1, half, all but one; interruption; 6 error kinds; early end)", all.len(), 3, more(th, "4 in those of at most 64 bytes"));
    let w2 = format!("the {} shortest of them with at most {} departures{}", little.len(), 5, more(th, "6 in those of at most 16 bytes, 8 in those of at most 8"));
    let l = vec![
        Space::new("readers", &w1, move |c| { let k = c.pick(&all); go(c, k, departures(th, k, false), read_case) }),
        Space::new("readers, deeper", &w2, move |c| { let k = c.pick(&little); go(c, k, departures(th, k, true), read_case) }),
        {
            let long = long_cases(th, false);
            let w = format!("{} texts, byte strings, bodies, big numbers and maps of them of 16 KiB to {}; every placement of at most 1 departure", long.len(), if th { "3 MB" } else { "262,145 bytes" });
            Space::new("long values", &w, move |c| { let k = c.pick(&long); go(c, k, 1, read_case) })
        },
        {
            let long = long_cases(th, true);
            let w = format!("the {} long values in constant pieces of 1, 2, 3, 7, 100, 4,095, 4,097, 65,535 or 65,537 bytes", long.len());
            Space::new("long values in pieces", &w, move |c| {
                let k = c.pick(&long);
                let step = *c.pick(&[1usize, 2, 3, 7, 100, 4095, 4097, 65_535, 65_537]);
                let mut b = k.bytes();
                b.extend_from_slice(&[1, 2, 3]);
                c.label(|| format!("{} in pieces of {}", k.name(), step));
                c.state_of_choices();
                let mut r = Dribble { data: &b, step };
                let ok = match k {
                    Case::Static(t, v) => real::de_from(t, &mut r).map(|x| x == *v).map_err(|e| format!("{:?}", e)),
                    Case::Body(h, v) => match real::body_de_from(h, &mut r) { Ok(x) => real::val_of(&x).map(|x| x == *v), Err(e) => Err(format!("{:?}", e)) },
                    _ => Ok(true),
                };
                c.validated(1);
                match ok {
                    Ok(true) if r.data.len() == 3 => { c.outcome("value"); Ok(()) }
                    x => Err(format!("{} delivered {} bytes at a time gives {:?}, {} bytes left of 3", k.name(), step, x, r.data.len())),
                }
            })
        },
        Space::new("one byte at a time", "every depth-1 type, text and binary around 128 and 4096, delivered in constant pieces of 1..=9 bytes", |c| {
            let mut l: Vec<(Ty, Val)> = depth1().into_iter().map(|t| { let v = default_value(&t); (t, v) }).collect();
            for n in [120usize, 127, 128, 129, 130, 255, 256, 1000, 4095, 4096, 4097, 8200, 16390] { l.push((Ty::Str, Val::Str(text(n)))); l.push((Ty::Bytes, Val::Bytes(bytes(n)))) }
            let (t, v) = c.pick(&l);
            let step = c.choose(9) + 1;
            let mut b = encoded(t, v);
            let n = b.len();
            b.extend_from_slice(&[1, 2, 3]);
            c.state(&(t, v, step));
            c.label(|| format!("{} = {} in pieces of {}", st(t), sv(v), step));
            let mut r = Dribble { data: &b, step };
            match real::de_from(t, &mut r) {
                Ok(x) if x == *v && r.data.len() == 3 => { c.validated(1); c.outcome("value"); Ok(()) }
                x => Err(format!("{} = {} ({} bytes) delivered {} at a time gives {:?}, {} bytes left of 3", st(t), sv(v), n, step, x.map(|v| sv(&v)), r.data.len())),
            }
        }),
        #[cfg(feature = "full")]
        huge::faulty_readers(th),
        patience(false, th),
    ];
    l
}
fn go(c: &Ctx, k: &Case, d: u32, f: fn(&Ctx, &Case, u32) -> Check) -> Check {
    let r = f(c, k, d);
    c.label(|| k.name());
    c.distinct();
    r
}
pub fn c08(th: bool) -> Vec<Space> {
    let all: Vec<Case> = cases();
    let little: Vec<Case> = all.iter().filter(|k| small(k, 24)).cloned().collect();
    let w1 = format!("{} values, bodies and headers; every placement of at most {} departures{} (partial writes of 1, half, all but one; interruption; 6 error kinds; refusal)", all.len(), 3, more(th, "4 in those of at most 64 bytes"));
    let w2 = format!("the {} shortest of them with at most {} departures{}", little.len(), 5, more(th, "6 in those of at most 16 bytes, 8 in those of at most 8"));
    let nested = depth2(&[Ty::U16, Ty::Str]);
    let l = vec![
        Space::new("writers", &w1, move |c| { let k = c.pick(&all); go(c, k, departures(th, k, false), write_case) }),
        Space::new("writers, deeper", &w2, move |c| { let k = c.pick(&little); go(c, k, departures(th, k, true), write_case) }),
        {
            let long = long_cases(th, false);
            let w = format!("{} texts, byte strings, bodies, big numbers and maps of them of 16 KiB to {}; every placement of at most 1 departure", long.len(), if th { "3 MB" } else { "262,145 bytes" });
            Space::new("long values", &w, move |c| { let k = c.pick(&long); go(c, k, 1, write_case) })
        },
        Space::new("full buffers", "every depth-1 and two-level type into a fixed buffer of every size below its encoding's: an error, and a prefix", move |c| {
            let l = depth1();
            let k = c.choose(l.len() + nested.len());
            let t = if k < l.len() { &l[k] } else { &nested[k - l.len()] };
            let v = value(c, t, 0, 2);
            let b = encoded(t, &v);
            c.state(&(t, &v));
            c.label(|| format!("{} = {}", st(t), sv(&v)));
            for n in 0..b.len() {
                let mut buf = vec![0xCC; n];
                let left = { let mut w = &mut buf[..]; let r = real::ser_to(t, &v, &mut w); if r.is_ok() { return Err(format!("{} = {} needs {} bytes but fits {}", st(t), sv(&v), b.len(), n)) } w.len() };
                let used = n - left;
                if buf[..used] != b[..used] { return Err(format!("{} = {} into {} bytes wrote {}, not a prefix of {}", st(t), sv(&v), n, short(&buf[..used]), short(&b))) }
                c.transitions(1);
                c.validated(1);
            }
            c.outcome("refused");
            Ok(())
        }),
        #[cfg(feature = "full")]
        huge::faulty_writers(th),
        patience(true, th),
    ];
    l
}
