use crate::explore::{Ctx, Space, Tier};
use crate::model::*;
use crate::real;

#[cfg(all(feature = "f_num_traits", feature = "f_num_bigint"))]
pub mod bigs;
pub mod cases;
#[cfg(feature = "full")]
pub mod compare;
pub mod core;
#[cfg(all(feature = "f_num_traits", feature = "f_num_bigint", feature = "f_bigdecimal"))]
pub mod decs;
pub mod errors;
pub mod faults;
pub mod headers;
pub mod hostile;
#[cfg(feature = "full")]
pub mod huge;
#[cfg(feature = "f_time")]
pub mod times;
pub mod unsupported;

pub fn spaces(prop: &str, tier: Tier) -> Vec<Space> {
    let th = tier == Tier::Thorough;
    match prop {
        "C01" => core::c01(th),
        "C02" => core::c02(th),
        "C03" => core::c03(th),
        "C04" => hostile::c04(th),
        "C05" => hostile::c05(th),
        "C06" => core::c06(th),
        "C07" => faults::c07(th),
        "C08" => faults::c08(th),
        "C09" => core::c09(th),
        "C10" => headers::c10(th),
        "C13" => headers::c13(th),
        "C14" => headers::c14(th),
        #[cfg(feature = "full")]
        "C15" => times::c15(th),
        #[cfg(feature = "full")]
        "C16" => times::c16(th),
        #[cfg(feature = "full")]
        "C17" => bigs::c17(th),
        #[cfg(feature = "full")]
        "C18" => decs::c18(th),
        "C19" => unsupported::c19(th),
        "C20" => core::c20(th),
        "C25" => errors::c25(th),
        #[cfg(feature = "full")]
        "C26" => compare::c26(th),
        _ => vec![],
    }
}

pub fn short(b: &[u8]) -> String {
    if b.len() <= 64 { format!("{:02x?}", b) } else { format!("{:02x?}.. ({} bytes)", &b[..48], b.len()) }
}
pub fn sv(v: &Val) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 300 {
        let mut k = 280;
        while !s.is_char_boundary(k) { k -= 1 }
        let n = s.len();
        s.truncate(k);
        s.push_str(&format!("..({} chars)", n));
    }
    s
}
pub fn st(t: &Ty) -> String {
    let mut s = format!("{:?}", t);
    if s.len() > 300 { let n = s.len(); s.truncate(280); s.push_str(&format!("..({} chars)", n)); }
    s
}

/// serialize, with the error as text
pub fn ser_ok(t: &Ty, v: &Val) -> Result<Vec<u8>, String> {
    real::ser(t, v).map_err(|e| format!("serializing {} as {} failed: {:?}", sv(v), st(t), e))
}

/// the value is serialized, deserialized, compared; end position checked with trailing bytes present
pub fn roundtrip(c: &Ctx, t: &Ty, v: &Val) -> Result<Vec<u8>, String> {
    let b = ser_ok(t, v)?;
    for tail in [&[][..], &[0xA5, 0, 0xFF][..]] {
        let mut input = b.clone();
        input.extend_from_slice(tail);
        let (r, n) = real::de(t, &input);
        match r {
            Ok(x) if x == *v => {}
            Ok(x) => return Err(format!("{} of type {} came back as {} from {}", sv(v), st(t), sv(&x), short(&input))),
            Err(e) => return Err(format!("{} of type {} serialized to {} does not deserialize: {:?}", sv(v), st(t), short(&input), e)),
        }
        if n != b.len() { return Err(format!("{} of type {}: {} bytes written, {} read back", sv(v), st(t), b.len(), n)) }
    }
    c.validated(1);
    Ok(b)
}
