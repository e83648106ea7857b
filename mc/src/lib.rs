#![cfg_attr(not(feature = "full"), allow(dead_code, unused_mut, unused_imports))]
/// a `format` module of the crate as two functions
#[macro_export]
macro_rules! route { ($ser:ident, $de:ident, $t:ty, $m:ident) => { $crate::route!($ser, $de, $t, $m, |x: &$t| format!("{:?}", x)); }; ($ser:ident, $de:ident, $t:ty, $m:ident, $show:expr) => {
    pub fn $ser(v: &$t) -> Result<Vec<u8>, $crate::real::SerErr> {
        let mut o = Vec::new();
        let r = dlhn::format::$m::serialize(v, &mut dlhn::Serializer::new(&mut o));
        $crate::rec::ser(&r, &o);
        r?;
        Ok(o)
    }
    pub fn $de(b: &[u8]) -> (Result<$t, $crate::real::DeErr>, usize) {
        let mut r = b;
        let v = dlhn::format::$m::deserialize(&mut dlhn::Deserializer::new(&mut r));
        $crate::rec::de_shown(&v, b.len() - r.len(), $show);
        (v, b.len() - r.len())
    }
} }

pub mod alloc;
pub mod env;
pub mod explore;
pub mod gen;
pub mod model;
pub mod probe;
pub mod props;
pub mod real;
pub mod rec;
#[cfg(feature = "full")]
pub mod cli;

#[cfg(feature = "full")]
#[global_allocator]
static A: alloc::Counting = alloc::Counting;
