//! C01, C02 beyond what fits a 28-bit or 32-bit length: texts and byte strings of
//! untouched zero pages with a few marks, into a writer that looks at every byte and keeps none.
use super::*;
use crate::explore::Check;
use dlhn::{Deserializer, Serializer};
use serde::de::DeserializeSeed;
use serde::ser::{SerializeMap, SerializeSeq};
use serde::Serialize;
use std::io::{Read, Write};

/// the first `n` bytes of 4 GiB of zero pages shared by everyone, marked at a few places
pub struct Pages { n: usize, pub marks: Vec<(usize, u8)> }
const MOST: usize = (1 << 32) + 1;
const MARKS: [(usize, u8); 8] = [(0, b'a'), (4095, b'b'), (65_536, b'c'), ((1 << 28) - 2, b'd'), (1 << 28, b'e'), (1 << 31, b'f'), ((1 << 32) - 2, b'g'), (1 << 32, b'h')];
fn base() -> *mut u8 {
    static B: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    *B.get_or_init(|| {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), MOST, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED, "harness: mmap");
        for (i, b) in MARKS { unsafe { *(p as *mut u8).add(i) = b } }
        p as usize
    }) as *mut u8
}
impl Pages {
    pub fn new(n: usize) -> Pages {
        assert!(n <= MOST);
        Pages { n, marks: MARKS.iter().filter(|(i, _)| *i < n).copied().collect() }
    }
    pub fn get(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(base(), self.n) } }
}

/// counts bytes and keeps those that are not zero with their positions (at most 64)
#[derive(Default)]
pub struct Sink { pub n: u64, pub marks: Vec<(u64, u8)> }
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let mut i = 0;
        for ch in b.chunks(4096) {
            if ch.iter().fold(0u8, |a, x| a | x) != 0 {
                for (j, x) in ch.iter().enumerate() { if *x != 0 && self.marks.len() < 64 { self.marks.push((self.n + (i + j) as u64, *x)) } }
            }
            i += ch.len();
        }
        self.n += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// the marks of `pre`, then those of the pages, then those of `post`
fn expect(pre: &[u8], p: &Pages, post: &[u8]) -> Sink {
    let mut s = Sink::default();
    s.write_all(pre).unwrap();
    for (i, b) in &p.marks { s.marks.push((pre.len() as u64 + *i as u64, *b)) }
    s.n += p.n as u64;
    s.write_all(post).unwrap();
    s
}
fn same(what: &str, got: &Sink, want: &Sink) -> Check {
    if got.n != want.n || got.marks != want.marks { return Err(format!("{} is written as {} bytes with {:?} where they are not zero; the format says {} bytes, {:?}", what, got.n, got.marks, want.n, want.marks)) }
    Ok(())
}

struct Txt<'a>(&'a [u8]);
impl<'a> Serialize for Txt<'a> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_str(unsafe { std::str::from_utf8_unchecked(self.0) }) } }
struct Raw<'a>(&'a [u8]);
impl<'a> Serialize for Raw<'a> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { z.serialize_bytes(self.0) } }
struct Units(u64);
impl Serialize for Units { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { let mut q = z.serialize_seq(Some(self.0 as usize))?; for _ in 0..self.0 { q.serialize_element(&())? } q.end() } }
struct Keys<'a>(u64, &'a [u8]);
impl<'a> Serialize for Keys<'a> { fn serialize<Z: serde::Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> { let mut q = z.serialize_map(Some(self.0 as usize))?; for _ in 0..self.0 { q.serialize_entry(&Txt(self.1), &7u8)? } q.end() } }

pub fn written(th: bool) -> Space {
    Space::new("huge lengths", "texts, byte strings and map keys of 2^28-1, 2^28, 2^28+1, 2^32-1, 2^32, 2^32+1 bytes, alone and inside a tuple; arrays of 2^28-1..2^28+1 units (thorough: 2^32+1): every byte of what is written looked at", move |c| {
        let k = c.choose(4);
        if k == 3 {
            let mut ns = vec![(1u64 << 28) - 1, 1 << 28, (1 << 28) + 1];
            if th { ns.push((1 << 32) + 1) }
            let n = *c.pick(&ns);
            let mut want = vec![];
            enc_len(n as usize, &mut want);
            c.label(|| format!("an array of {} units", n));
            c.state(&n);
            let mut s = Sink::default();
            Units(n).serialize(&mut Serializer::new(&mut s)).map_err(|e| format!("an array of {} units: {:?}", n, e))?;
            let mut w = Sink::default();
            w.write_all(&want).unwrap();
            c.validated(1);
            c.beat();
            return same(&format!("an array of {} units", n), &s, &w);
        }
        let ns = vec![(1usize << 28) - 1, 1 << 28, (1 << 28) + 1, u32::MAX as usize, 1 << 32, (1 << 32) + 1];
        let n = *c.pick(&ns);
        let p = Pages::new(n);
        let mut len = vec![];
        enc_len(n, &mut len);
        let inside = c.flag();
        let what = format!("{} of {} bytes{}", ["a text", "a byte string", "a map key"][k], n, if inside { " between two numbers" } else { "" });
        c.label(|| what.clone());
        c.state(&(n, k, inside));
        let e = |e: dlhn::ser::Error| format!("{}: {:?}", what, e);
        let mut s = Sink::default();
        {
            let mut z = Serializer::new(&mut s);
            match (k, inside) {
                (0, false) => Txt(p.get()).serialize(&mut z).map_err(e)?,
                (0, true) => (3u8, Txt(p.get()), 9u8).serialize(&mut z).map_err(e)?,
                (1, false) => Raw(p.get()).serialize(&mut z).map_err(e)?,
                (1, true) => (3u8, Raw(p.get()), 9u8).serialize(&mut z).map_err(e)?,
                (_, false) => Keys(1, p.get()).serialize(&mut z).map_err(e)?,
                (_, true) => (3u8, Keys(1, p.get()), 9u8).serialize(&mut z).map_err(e)?,
            }
        }
        let mut pre = if inside { vec![3u8] } else { vec![] };
        if k == 2 { pre.push(1) }
        pre.extend_from_slice(&len);
        let mut post = if k == 2 { vec![7u8] } else { vec![] };
        if inside { post.push(9) }
        c.validated(1);
        c.beat();
        same(&what, &s, &expect(&pre, &p, &post))
    })
}

pub fn read(th: bool) -> Space {
    Space::new("huge lengths, read", "texts and byte strings of 2^28-1, 2^28 and 2^28+1 bytes (thorough: also 2^30+1) and arrays of 2^28-1..2^28+1 units (thorough: 2^32+1) come back whole", move |c| {
        let k = c.choose(3);
        let mut ns = vec![(1u64 << 28) - 1, 1 << 28, (1 << 28) + 1];
        if th { ns.push(if k == 2 { (1 << 32) + 1 } else { (1 << 30) + 1 }) }
        let n = *c.pick(&ns);
        let mut head = vec![];
        enc_len(n as usize, &mut head);
        let what = format!("{} {}", n, ["bytes of text", "bytes", "units"][k]);
        c.label(|| what.clone());
        c.state(&(n, k));
        if k == 2 {
            struct Count;
            impl<'d> serde::de::Visitor<'d> for Count {
                type Value = u64;
                fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str("units") }
                fn visit_seq<A: serde::de::SeqAccess<'d>>(self, mut a: A) -> Result<u64, A::Error> { let mut n = 0; while a.next_element::<()>()?.is_some() { n += 1 } Ok(n) }
            }
            head.push(0x77);
            let mut r = &head[..];
            let got = serde::Deserializer::deserialize_seq(&mut Deserializer::new(&mut r), Count).map_err(|e| format!("{}: {:?}", what, e))?;
            c.validated(1);
            if got != n || r != [0x77] { return Err(format!("{} come back as {}, {:?} left", what, got, r)) }
            return Ok(());
        }
        let p = Pages::new(n as usize);
        let mut r = (&head[..]).chain(p.get()).chain(&[1u8, 2, 3][..]);
        let t = if k == 0 { Ty::Str } else { Ty::Bytes };
        let v = real::D(&t).deserialize(&mut Deserializer::new(&mut r)).map_err(|e| format!("{}: {:?}", what, e))?;
        c.beat();
        let mut rest = vec![];
        r.read_to_end(&mut rest).map_err(|e| e.to_string())?;
        if rest != [1, 2, 3] { return Err(format!("{}: {} bytes left of 3", what, rest.len())) }
        let ok = match &v { Val::Str(s) => s.as_bytes() == p.get(), Val::Bytes(b) => b == p.get(), _ => false };
        c.validated(1);
        if !ok { return Err(format!("{} come back different", what)) }
        Ok(())
    })
}

// ---------------------------------------------------------------- C07, C08: faults in what is larger than any buffer

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mishap { Interrupted, Refused, Failed(std::io::ErrorKind) }
const MISHAPS: [Mishap; 5] = [Mishap::Interrupted, Mishap::Refused, Mishap::Failed(std::io::ErrorKind::Other), Mishap::Failed(std::io::ErrorKind::WouldBlock), Mishap::Failed(std::io::ErrorKind::TimedOut)];

/// takes at most `step` bytes at a time; its call number `at` goes wrong, all others go well
struct Faulty { s: Sink, step: usize, at: u64, m: Mishap, calls: u64, failed: bool, after: u64 }
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.failed { self.after += 1 }
        if self.calls - 1 == self.at && !b.is_empty() {
            match self.m {
                Mishap::Interrupted => return Err(std::io::ErrorKind::Interrupted.into()),
                Mishap::Refused => { self.failed = true; return Ok(0) }
                Mishap::Failed(k) => { self.failed = true; return Err(k.into()) }
            }
        }
        self.s.write(&b[..b.len().min(self.step)])
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn lengths(most: u32) -> Vec<usize> {
    let mut l = vec![(1 << 19) + 1, (1 << 20) - 1, 1 << 20, (1 << 20) + 1];
    l.extend((21..=most).map(|k| (1 << k) + 1));
    l
}
fn places(n: u64) -> Vec<u64> {
    let mut l: Vec<u64> = [0, 1, 2, 3, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)].into_iter().filter(|i| *i < n).collect();
    l.sort();
    l.dedup();
    l
}

pub fn faulty_writers(th: bool) -> Space {
    let most = if th { 32 } else { 28 };
    let w = format!("texts, byte strings and map keys of 2^19+1 to 2^{}+1 bytes to writers that take everything, 2^19 or 65,537 bytes at once; one mishap (interruption, refusal, three error kinds) at the first four calls, a third and half of the way, and the last two; all later calls would succeed", most);
    Space::new("huge lengths", &w, move |c| {
        let k = c.choose(3);
        let n = *c.pick(&lengths(most));
        let step = *c.pick(&[usize::MAX, 1 << 19, 65_537]);
        let p = Pages::new(n);
        let mut pre = vec![];
        if k == 2 { pre.push(1) }
        enc_len(n, &mut pre);
        let post = if k == 2 { vec![7u8] } else { vec![] };
        let want = expect(&pre, &p, &post);
        let go = |at: u64, m: Mishap| {
            let mut w = Faulty { s: Sink::default(), step, at, m, calls: 0, failed: false, after: 0 };
            let r = { let mut z = Serializer::new(&mut w); match k { 0 => Txt(p.get()).serialize(&mut z), 1 => Raw(p.get()).serialize(&mut z), _ => Keys(1, p.get()).serialize(&mut z) } };
            (w, r)
        };
        let what = format!("{} of {} bytes", ["a text", "a byte string", "a map key"][k], n);
        let (plain, r) = go(u64::MAX, Mishap::Interrupted);
        r.map_err(|e| format!("{}: {:?}", what, e))?;
        same(&what, &plain.s, &want)?;
        let at = *c.pick(&places(plain.calls));
        let m = *c.pick(&MISHAPS);
        c.label(|| format!("{} to a writer of {} bytes at once, {:?} at call {}", what, step, m, at));
        c.state(&(n, k, step, at, format!("{:?}", m)));
        let (w, r) = go(at, m);
        c.validated(1);
        c.transitions(w.calls);
        c.beat();
        let what = format!("{}, writer taking at most {} bytes at once, {:?} at call {} of {}", what, step, m, at, plain.calls);
        if w.after > 0 { return Err(format!("{}: {} writes after the failure", what, w.after)) }
        if w.s.n > want.n || w.s.marks != want.marks.iter().filter(|(i, _)| *i < w.s.n).copied().collect::<Vec<_>>() { return Err(format!("{}: what was written ({} bytes, {:?}) is no prefix of the encoding ({} bytes, {:?})", what, w.s.n, w.s.marks, want.n, want.marks)) }
        match (w.failed, r) {
            (true, Err(_)) => { c.outcome("fault reported"); Ok(()) }
            (false, Ok(())) if w.s.n == want.n => { c.outcome("complete"); Ok(()) }
            (f, r) => Err(format!("{}: the writer failed: {}, result {:?}, {} of {} bytes written", what, f, r, w.s.n, want.n)),
        }
    })
}

/// delivers at most `step` bytes at a time; its call number `at` goes wrong, all others go well
struct Trickle<'a> { head: &'a [u8], body: &'a [u8], tail: &'a [u8], step: usize, at: u64, m: Mishap, calls: u64, failed: bool, over: u64 }
impl Read for Trickle<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let left = self.head.len() + self.body.len();
        // a request that is answered from a value's bytes may be larger than what is left of
        // them only by what the caller knows not to be there
        if b.len() > left && !b.is_empty() { self.over = self.over.max((b.len() - left) as u64) }
        self.calls += 1;
        if self.calls - 1 == self.at && !b.is_empty() {
            match self.m {
                Mishap::Interrupted => return Err(std::io::ErrorKind::Interrupted.into()),
                Mishap::Refused => { self.failed = true; self.head = &[]; self.body = &[]; self.tail = &[]; return Ok(0) }
                Mishap::Failed(k) => { self.failed = true; return Err(k.into()) }
            }
        }
        let n = b.len().min(self.step);
        if !self.head.is_empty() { (&mut self.head).read(&mut b[..n]) } else if !self.body.is_empty() { (&mut self.body).read(&mut b[..n]) } else { (&mut self.tail).read(&mut b[..n]) }
    }
}

pub fn faulty_readers(th: bool) -> Space {
    let most = if th { 26 } else { 24 };
    let w = format!("texts and byte strings, static and under a header, of 2^19+1 to 2^{}+1 bytes from readers that give what is asked, 2^19 or 65,537 bytes at once; one mishap (interruption, end of input, three error kinds) at the first four calls, a third and half of the way, and the last two; all later calls would succeed", most);
    Space::new("huge lengths", &w, move |c| {
        let k = c.choose(4);
        let n = *c.pick(&lengths(most));
        let step = *c.pick(&[usize::MAX, 1 << 19, 65_537]);
        let p = Pages::new(n);
        let mut head = vec![];
        enc_len(n, &mut head);
        let go = |at: u64, m: Mishap| {
            let mut r = Trickle { head: &head, body: p.get(), tail: &[1, 2, 3], step, at, m, calls: 0, failed: false, over: 0 };
            let v: Result<bool, String> = if k < 2 {
                let t = if k == 0 { Ty::Str } else { Ty::Bytes };
                real::D(&t).deserialize(&mut Deserializer::new(&mut r)).map(|v| match &v { Val::Str(s) => s.as_bytes() == p.get(), Val::Bytes(b) => b == p.get(), _ => false }).map_err(|e| format!("{:?}", e))
            } else {
                let h = if k == 2 { dlhn::Header::String } else { dlhn::Header::Binary };
                dlhn::Body::deserialize(&h, &mut Deserializer::new(&mut r)).map(|v| match &v { dlhn::Body::String(s) => s.as_bytes() == p.get(), dlhn::Body::Binary(b) => &b[..] == p.get(), _ => false }).map_err(|e| format!("{:?}", e))
            };
            (r.calls, r.failed, r.over, r.head.len() + r.body.len() + r.tail.len(), v)
        };
        let what = format!("{} of {} bytes", ["a text", "a byte string", "a text under a header", "a byte string under a header"][k], n);
        let (calls, _, over, left, v) = go(u64::MAX, Mishap::Interrupted);
        if v != Ok(true) || left != 3 || over > 0 { return Err(format!("{} in pieces of at most {} bytes: {:?}, {} bytes left of 3, {} asked for beyond the end", what, step, v, left, over)) }
        let at = *c.pick(&places(calls));
        let m = *c.pick(&MISHAPS);
        c.label(|| format!("{} in pieces of at most {} bytes, {:?} at call {}", what, step, m, at));
        c.state(&(n, k, step, at, format!("{:?}", m)));
        let (calls2, failed, over, left, v) = go(at, m);
        c.validated(1);
        c.transitions(calls2);
        c.beat();
        match (failed, v) {
            (true, Err(_)) => { c.outcome("fault reported"); Ok(()) }
            (false, Ok(true)) if left == 3 && over == 0 => { c.outcome("value"); Ok(()) }
            (f, v) => Err(format!("{} in pieces of at most {} bytes, {:?} at call {} of {}: the reader failed: {}, result {:?}, {} bytes left of 3, {} asked for beyond the end", what, step, m, at, calls, f, v, left, over)),
        }
    })
}
