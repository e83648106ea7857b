//! C04 arbitrary bytes, C05 memory.
use super::cases::*;
use super::headers::{body_bytes, byte_tree, header_bytes, ALPHA};
use super::*;
use crate::alloc;
use crate::explore::Check;
use crate::gen::*;
use dlhn::Header;

/// real code against the model on arbitrary bytes: no panic (a panic is caught
/// by the explorer), nothing accepted that is no encoding, nothing invented
pub fn sound(c: &Ctx, t: &Ty, b: &[u8]) -> Check {
    let mut d = Dec::new(b);
    let m = d.dec(t);
    if d.hit_zero_cap { c.outcome("count of empty elements: see C05"); return Ok(()) }
    let (r, n) = real::de(t, b);
    c.validated(1);
    match (r, m) {
        (Err(_), Err(Stop::NeedMore)) => { c.outcome("cut short"); Ok(()) }
        (Err(_), Err(Stop::Bad(w))) => { c.outcome(w); Ok(()) }
        (Err(_), Ok(_)) => { c.outcome("refused although well-formed"); Ok(()) }
        (Ok(v), Ok(x)) => {
            if v != x { return Err(format!("{} as {}: got {}, the bytes say {}", short(b), st(t), sv(&v), sv(&x))) }
            if n != d.pos { return Err(format!("{} as {}: {} bytes consumed, the value has {}", short(b), st(t), n, d.pos)) }
            if !d.slack {
                let e = encoded(t, &v);
                if e != b[..n] { return Err(format!("{} as {}: {} is encoded as {}", short(b), st(t), sv(&v), short(&e))) }
            }
            c.outcome(if d.slack { "value, over-long integer" } else { "value" });
            Ok(())
        }
        (Ok(v), Err(e)) => Err(format!("{} as {} is no encoding ({:?}) but decodes to {}", short(b), st(t), e, sv(&v))),
    }
}

pub fn c04(th: bool) -> Vec<Space> {
    let a = atoms();
    let d1 = depth1();
    let d2 = depth2(&[Ty::U16, Ty::Str, Ty::Char]);
    let hl: Vec<Header> = { let mut x = leaf_headers(); x.extend(headers1(&leaf_headers())); x };
    let mut l = vec![
        Space::new("scalars", "all scalar and library types on every byte string of up to 2 bytes and, over 14 byte values, every one grown to 5 (thorough 6) bytes, over 5 byte values to 8 (thorough 9), while it is a prefix of an encoding", move |c| {
            let t = c.pick(&a);
            let kind = c.choose(3);
            if kind == 0 {
                let x = c.choose(257);
                if x == 256 { return sound(c, t, &[]) }
                sound(c, t, &[x as u8])?;
                for y in 0..=255u8 { sound(c, t, &[x as u8, y])?; }
                c.count(257);
                c.label(|| format!("{} from {:02x} ..", st(t), x));
                Ok(())
            } else {
                let b = if kind == 1 { byte_tree(c, t, &ALPHA, if th { 6 } else { 5 }) } else { byte_tree(c, t, &[0, 1, 0x7F, 0x80, 0xFF], if th { 9 } else { 8 }) };
                c.state(&(t, &b));
                c.label(|| format!("{} from {}", st(t), short(&b)));
                sound(c, t, &b)
            }
        }),
        Space::new("one level", "all constructors over all scalar and library types, grown to 4 (thorough 5) bytes over 14 byte values", move |c| {
            let t = c.pick(&d1);
            let b = byte_tree(c, t, &ALPHA, if th { 5 } else { 4 });
            c.state(&(t, &b));
            c.label(|| format!("{} from {}", st(t), short(&b)));
            sound(c, t, &b)
        }),
        Space::new("two levels", "constructors over constructors, grown to 5 (thorough 6) bytes over 7 byte values", move |c| {
            let t = c.pick(&d2);
            let b = byte_tree(c, t, &[0, 1, 2, 0x41, 0x80, 0xC3, 0xFF], if th { 6 } else { 5 });
            c.state(&(t, &b));
            c.label(|| format!("{} from {}", st(t), short(&b)));
            sound(c, t, &b)
        }),
        Space::new("mutations", "the encoding of a value of every depth-1 type with every single byte replaced by each of 18 values, removed, or doubled", move |c| {
            let l = { let mut l = depth1(); l.extend(atoms()); l };
            let t = c.pick(&l);
            let v = value(c, t, if th { 1 } else { 0 }, 2);
            let e = encoded(t, &v);
            c.state(&(t, &v));
            c.label(|| format!("mutations of {} = {}", st(t), sv(&v)));
            for i in 0..e.len().min(300) {
                for x in [0u8, 1, 2, 3, 0x20, 0x3F, 0x40, 0x7E, 0x7F, 0x80, 0x81, 0xBF, 0xC0, 0xDF, 0xE0, 0xF0, 0xFE, 0xFF] { let mut b = e.clone(); b[i] = x; sound(c, t, &b)?; }
                let mut b = e.clone();
                b.remove(i);
                sound(c, t, &b)?;
                let mut b = e.clone();
                b.insert(i, e[i]);
                sound(c, t, &b)?;
                c.transitions(20);
            }
            Ok(())
        }),
        Space::new("extremes", "every type that starts with an integer, on integers of all widths at their limits followed by nothing, zeros or ones", move |c| {
            let l: Vec<Ty> = { let mut l = atoms(); l.extend(depth1_over(&[Ty::U64, Ty::Date, Ty::DateTime, Ty::BigDecimal, Ty::Str])); l };
            let t = c.pick(&l);
            let w = *c.pick(&[16u32, 32, 64]);
            let k = c.choose(w as usize + 1);
            let base = if k == w as usize { if w == 64 { u64::MAX } else { (1u64 << w) - 1 } } else { 1u64 << k };
            for d in [-2i64, -1, 0, 1, 2] {
                let max = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let x = base.wrapping_add(d as u64) & max;
                let mut head = Vec::new();
                enc_uint(w, x, &mut head);
                for tail in [&[][..], &[0; 12], &[0xFF; 12], &[0xC0, 0xFF, 0xFF, 0, 0, 0], &[0xF0, 0xFF, 0xFF, 0xFF, 0xFF, 0]] {
                    // counts of elements that occupy no bytes: see the known findings
                    if hugezero(t, x) { continue }
                    let mut b = head.clone();
                    b.extend_from_slice(tail);
                    sound(c, t, &b)?;
                    for pre in [0u8, 1] { let mut b2 = vec![pre]; b2.extend_from_slice(&b); if !hugezero_at(t, &b2) { sound(c, t, &b2)? } }
                    c.count(3);
                }
            }
            c.label(|| format!("{} from {}-bit {:#x}", st(t), w, base));
            Ok(())
        }),
        Space::new("headers", "every byte string over codes, counts and unknown codes grown to 5 (thorough 7) bytes while it is a prefix of a header", move |c| {
            let alpha = [0u8, 1, 2, 7, 18, 20, 21, 22, 23, 24, 27, 0x80, 0xC0, 0xFF];
            let mut b: Vec<u8> = Vec::new();
            loop {
                if b.len() >= if th { 7 } else { 5 } { break }
                let mut d = Dec::new(&b);
                if real::dec_header(&mut d) != Err(Stop::NeedMore) { break }
                match c.extend(alpha.len()) { Some(k) => b.push(alpha[k]), None => break }
            }
            c.state(&b);
            c.label(|| short(&b));
            header_bytes(c, &b)
        }),
        Space::new("bodies", "dynamic bodies under all leaf and one-level headers on the same byte strings, to 4 (thorough 5) bytes", move |c| {
            let h = c.pick(&hl);
            let t = real::ty_of(h);
            let b = byte_tree(c, &t, &ALPHA, if th { 5 } else if depth(&t) == 0 { 5 } else { 4 });
            c.state(&(&t, &b));
            c.label(|| format!("{:?} from {}", h, short(&b)));
            if hugezero_at(&t, &b) { return Ok(()) }
            body_bytes(c, h, &t, &b)?;
            let (r, n) = real::body_de(h, &b);
            let mut d = Dec::new(&b);
            match (r, d.dec(&t)) {
                (Ok(x), Ok(m)) => if normal(&real::val_of(&x)?) != normal(&m) || n != d.pos { Err(format!("{} under {:?} gives {:?}", short(&b), h, x)) } else { Ok(()) },
                (Ok(x), Err(e)) => Err(format!("{} under {:?} is no encoding ({:?}) but gives {:?}", short(&b), h, e, x)),
                _ => Ok(()),
            }
        }),
        Space::new("text", "texts and binaries with lengths 120..=140 and around 4096 announced, with more, exactly as many or fewer bytes present, and a bad byte at the first, middle, last position", |c| {
            let n = *c.pick(&(120usize..=140).chain([255, 256, 1000, 4094, 4095, 4096, 4097, 8191, 8192, 8193]).collect::<Vec<_>>());
            let t = c.pick(&[Ty::Str, Ty::StrVia, Ty::Bytes, Ty::BytesVia, Ty::Char, Ty::BigUint, Ty::Map(bx(Ty::Unit)), Ty::Seq(bx(Ty::Char))]).clone();
            for have in [0, 1, n / 2, n - 1, n, n + 1, n + 200] {
                for bad in [None, Some(0), Some(n / 2), Some(n - 1)] {
                    let mut b = Vec::new();
                    if matches!(t, Ty::Map(_) | Ty::Seq(_)) { b.push(1) }
                    enc_len(n, &mut b);
                    let mut body = vec![b'm'; have];
                    if let Some(p) = bad { if p < have { body[p] = 0xFA } }
                    b.extend(body);
                    sound(c, &t, &b)?;
                    c.count(1);
                }
            }
            c.label(|| format!("{} announcing {} bytes", st(&t), n));
            Ok(())
        }),
    ];
    l
}

/// a count above the cap for elements that occupy no bytes, anywhere the model gets to
pub fn hugezero_at(t: &Ty, b: &[u8]) -> bool { let mut d = Dec::new(b); let _ = d.dec(t); d.hit_zero_cap }
pub fn hugezero(t: &Ty, x: u64) -> bool { let mut b = Vec::new(); enc_uint(64, x, &mut b); for w in [16, 32] { let mut y = Vec::new(); enc_uint(w, x & ((1 << w) - 1), &mut y); if hugezero_at(t, &y) { return true } } hugezero_at(t, &b) }

// ---------------------------------------------------------------- C05

pub const BASE: usize = 16 << 20;
pub const FACTOR: usize = 256;

pub fn bounded(c: &Ctx, what: &str, b: &[u8], claim: u64, f: impl FnOnce() -> bool) -> Check {
    let (ok, peak) = alloc::peak(f);
    c.validated(1);
    c.outcome(match peak { 0..=4096 => "up to 4 KiB", 4097..=65536 => "up to 64 KiB", 65537..=1048576 => "up to 1 MiB", _ => "more" });
    if peak > BASE + FACTOR * b.len() {
        return Err(format!("{} on {} ({} bytes, claiming {}): {} bytes of memory at once", what, short(b), b.len(), claim, peak));
    }
    if ok && claim > 0 { return Err(format!("{} on {} ({} bytes): a claim of {} that the input does not back up ends in a value", what, short(b), b.len(), claim)) }
    Ok(())
}

/// encodings of `t` in which one length or count is replaced by a claim; what precedes it is kept, a little follows
pub fn claims(t: &Ty, claim: u64, follow: &[u8]) -> Vec<Vec<u8>> {
    let mut l = Vec::new();
    fn put(t: &Ty, claim: u64, pre: &[u8], follow: &[u8], l: &mut Vec<Vec<u8>>) {
        let claimed = |l: &mut Vec<Vec<u8>>, pre: &[u8]| { let mut b = pre.to_vec(); enc_uint(64, claim, &mut b); b.extend_from_slice(follow); l.push(b) };
        let with = |x: &[u8]| { let mut p = pre.to_vec(); p.extend_from_slice(x); p };
        match t {
            Ty::Str | Ty::StrVia | Ty::Char | Ty::Bytes | Ty::BytesVia | Ty::BigUint | Ty::BigInt | Ty::BigDecimal => claimed(l, pre),
            Ty::Opt(t) => put(t, claim, &with(&[1]), follow, l),
            Ty::Newtype(t) => put(t, claim, pre, follow, l),
            Ty::Seq(t) => { if !zero_size(t) { claimed(l, pre) } put(t, claim, &with(&[1]), follow, l); put(t, claim, &with(&[0xFE, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x7F]), follow, l) }
            Ty::Map(t) => { claimed(l, pre); put(&Ty::Str, claim, &with(&[1]), follow, l); put(t, claim, &with(&[1, 1, b'k']), follow, l) }
            Ty::Tuple(ts) | Ty::TupleStruct(ts) | Ty::Struct(ts) => { let mut p = pre.to_vec(); for t in ts { put(t, claim, &p, follow, l); enc(t, &default_value(t), &mut p) } }
            Ty::Enum(vs) => for (i, v) in vs.iter().enumerate() {
                let mut p = pre.to_vec();
                enc_uint(32, i as u64, &mut p);
                match v { Var::Unit => {}, Var::New(t) => put(t, claim, &p, follow, l), Var::Tuple(ts) | Var::Struct(ts) => put(&Ty::Tuple(ts.clone()), claim, &p, follow, l) }
            },
            _ => {}
        }
    }
    put(t, claim, &[], follow, &mut l);
    l
}
pub fn claim_values(th: bool) -> Vec<u64> {
    let mut v: Vec<u64> = (7..64).map(|k| 1u64 << k).collect();
    v.extend((7..64).map(|k| (1u64 << k) - 1));
    if th { v.extend((7..64).map(|k| (1u64 << k) + 1)); v.extend((7..63).map(|k| (1u64 << k) + (1u64 << (k - 1)))) }
    v.extend([u64::MAX, u64::MAX - 1, isize::MAX as u64 / 24, isize::MAX as u64 / 32, isize::MAX as u64 / 40, 1_000_000, 10_000_000, 100_000_000]);
    v.retain(|x| *x >= 100);
    v
}

/// a sequence of elements that occupy no bytes, at any depth
pub fn zero_seq(t: &Ty) -> bool {
    match t {
        Ty::Seq(t) => zero_size(t) || zero_seq(t),
        Ty::Opt(t) | Ty::Newtype(t) | Ty::Map(t) => zero_seq(t),
        Ty::Tuple(l) | Ty::TupleStruct(l) | Ty::Struct(l) => l.iter().any(zero_seq),
        Ty::Enum(vs) => vs.iter().any(|v| match v { Var::Unit => false, Var::New(t) => zero_seq(t), Var::Tuple(l) | Var::Struct(l) => l.iter().any(zero_seq) }),
        _ => false,
    }
}

pub fn c05(th: bool) -> Vec<Space> {
    let types: Vec<Ty> = { let mut l = atoms(); l.extend(depth1_over(&[Ty::U8, Ty::Str, Ty::Bytes, Ty::BigDecimal, Ty::U64, Ty::Date, Ty::BigInt])); l.extend(depth2(&[Ty::Str])); l };
    // counts of elements without bytes are bounded by nothing: a finding of its own (known.rs)
    let types: Vec<Ty> = types.into_iter().filter(|t| !claims(t, 100, &[]).is_empty() && !zero_seq(t)).collect();
    let heads: Vec<Header> = { let mut l = leaf_headers(); l.extend(headers1(&leaf_headers())); l.extend(headers2(&[Header::String, Header::UInt8, Header::Unit])); l };
    let heads: Vec<Header> = heads.into_iter().filter(|h| { let t = real::ty_of(h); !claims(&t, 100, &[]).is_empty() && !zero_seq(&t) }).collect();
    let w = format!("{} types: each length and count replaced by claims of 2^k and 2^k-1 for every k from 7 to 63, followed by 0, 1, 60 or 5000 bytes", types.len());
    let w2 = format!("the same for dynamic bodies under {} headers", heads.len());
    let cl = claim_values(th);
    let cl2 = cl.clone();
    let follows = || vec![vec![], vec![1u8], vec![0u8; 60], vec![b'a'; 5000]];
    let l = vec![
        Space::new("claimed lengths", &w, move |c| {
            let t = c.pick(&types);
            let k = *c.pick(&cl);
            c.label(|| format!("{} claiming {}", st(t), k));
            for f in follows() {
                for b in claims(t, k, &f) {
                    // short claims may be backed up by what follows
                    let backed = Dec::new(&b).dec(t).is_ok();
                    bounded(c, &st(t), &b, if backed { 0 } else { k }, || real::de(t, &b).0.is_ok())?;
                    c.state(&(t, &b));
                }
            }
            Ok(())
        }),
        Space::new("claimed lengths in bodies", &w2, move |c| {
            let h = c.pick(&heads);
            let t = real::ty_of(h);
            let k = *c.pick(&cl2);
            c.label(|| format!("{:?} claiming {}", h, k));
            for f in follows() {
                for b in claims(&t, k, &f) {
                    let backed = Dec::new(&b).dec(&t).is_ok();
                    bounded(c, &format!("{:?}", h), &b, if backed { 0 } else { k }, || real::body_de(h, &b).0.is_ok())?;
                    c.state(&(&t, &b));
                }
            }
            Ok(())
        }),
        Space::new("claimed members in headers", "tuple and enum headers claiming each of 2^k and 2^k-1 members, nested 1..=40 deep through the first or second member, with few members present", |c| {
            let depth = c.choose(40) + 1;
            let k = c.choose(30);
            let n = if k < 15 { 2u64 << k } else { (2u64 << (k - 15)) - 1 }.min(65535).max(130);
            let kind = c.choose(4);
            let mut b = Vec::new();
            for i in 0..depth {
                if kind >= 2 && i > 0 { b.push(0) }
                b.push(if (kind + i) % 2 == 0 { 21 } else { 24 });
                enc_uint(16, n, &mut b);
            }
            b.extend([0, 2, 3]);
            c.state(&b);
            c.label(|| short(&b));
            bounded(c, "header", &b, n, || real::header_de(&b).0.is_ok())
        }),
        Space::new("claims at every level", "dynamic bodies under arrays, maps, options and tuples in each two alternating, 1..=120, 200, 300 and 400 deep, where every level claims each of 2^k and 2^k-1 members and one is begun; the same arrays and maps read as types up to 12 deep", |c| {
            let ds: Vec<usize> = (1..=120).chain([200, 300, 400]).collect();
            let d = *c.pick(&ds);
            let (x, y) = (c.choose(2), c.choose(5));
            let leaf = c.pick(&[Header::UInt8, Header::String, Header::Binary, Header::BigInt, Header::Tuple(vec![Header::UInt8, Header::UInt8])]).clone();
            // level i wraps what is inside; the outermost comes last here, so the bytes are put before
            let k = |i: usize| if i % 2 == 0 { x } else { y };
            let mut h = leaf;
            for i in 0..d {
                h = match k(i) { 0 => Header::Array(Box::new(h)), 1 => Header::Map(Box::new(h)), 2 => Header::Optional(Box::new(h)), 3 => Header::Tuple(vec![h, Header::UInt8]), _ => Header::Enum(vec![Header::Unit, h]) };
            }
            let ty = if d <= 12 { Some(real::ty_of(&h)) } else { None };
            for p in [7u32, 8, 10, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 40, 63] {
                for claim in [1u64 << p, (1u64 << p) - 1] {
                    let mut b = Vec::new();
                    for i in (0..d).rev() {
                        match k(i) { 0 => enc_uint(64, claim, &mut b), 1 => { enc_uint(64, claim, &mut b); b.push(0) }, 2 => b.push(1), 3 => {}, _ => b.push(1) }
                    }
                    enc_uint(64, claim, &mut b);
                    bounded(c, &format!("a body nested {} deep, constructors {} and {}", d, x, y), &b, claim, || real::body_de(&h, &b).0.is_ok())?;
                    if let Some(t) = &ty { bounded(c, &st(t), &b, claim, || real::de(t, &b).0.is_ok())? }
                    c.count(1);
                }
            }
            c.state(&(d, x, y, format!("{:?}", h).len()));
            c.label(|| format!("{} deep, constructors {} and {}", d, x, y));
            Ok(())
        }),
        Space::new("honest input", "values whose data is all there: memory stays within the same bound for texts, binaries, arrays and maps up to 4 MiB", move |c| {
            let n = *c.pick(&[1000usize, 4096, 65536, 1 << 20, if th { 1 << 24 } else { 1 << 22 }]);
            let (t, v) = match c.choose(5) {
                0 => (Ty::Str, Val::Str(text(n))),
                1 => (Ty::Bytes, Val::Bytes(bytes(n))),
                2 => (Ty::BigUint, Val::Big(bytes(n))),
                3 => (Ty::Seq(bx(Ty::U8)), Val::List(vec![Val::U8(1); n.min(1 << 18)])),
                _ => (Ty::Map(bx(Ty::U8)), Val::Map((0..n.min(1 << 14)).map(|i| (i.to_string(), Val::U8(0))).collect())),
            };
            let b = encoded(&t, &v);
            c.state(&(&t, n));
            c.label(|| format!("{} of {}", st(&t), n));
            if let Some(h) = real::header_of(&t) { bounded(c, "body", &b, 0, || real::body_de(&h, &b).0.is_ok())? }
            match t {
                Ty::Str => bounded(c, "String", &b, 0, || real::de_any::<String>(&b).0.is_ok()),
                Ty::Bytes => bounded(c, "ByteBuf", &b, 0, || real::de_any::<serde_bytes::ByteBuf>(&b).0.is_ok()),
                Ty::Seq(_) => bounded(c, "Vec<u8>", &b, 0, || real::de_any::<Vec<u8>>(&b).0.is_ok()),
                Ty::Map(_) => bounded(c, "BTreeMap", &b, 0, || real::de_any::<std::collections::BTreeMap<String, u8>>(&b).0.is_ok()),
                _ => bounded(c, "BigUint", &b, 0, || real::de_any::<dlhn::BigUint>(&b).0.is_ok()),
            }
        }),
        Space::new("cut short", "texts, binaries and arrays that claim 2^20 to 2^40 bytes and deliver 1 KiB to 1 MiB of them", |c| {
            let claim = 1u64 << (20 + c.choose(21));
            let have = *c.pick(&[1000usize, 4096, 5000, 65536, 1 << 20]);
            let t = c.pick(&[Ty::Str, Ty::Bytes, Ty::BigInt, Ty::Seq(bx(Ty::U16)), Ty::Map(bx(Ty::Unit)), Ty::Char]).clone();
            let mut b = Vec::new();
            enc_uint(64, claim, &mut b);
            b.resize(have, 0);
            c.state(&(&t, claim, have));
            c.label(|| format!("{} claiming {} with {} present", st(&t), claim, have));
            if Dec::new(&b).dec(&t).is_ok() { return Ok(()) }
            bounded(c, &st(&t), &b, claim, || real::de(&t, &b).0.is_ok())?;
            if let Some(h) = real::header_of(&t) { bounded(c, "body", &b, claim, || real::body_de(&h, &b).0.is_ok())? }
            Ok(())
        }),
    ];
    l
}
