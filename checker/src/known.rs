//! The defects recorded in known_findings.txt, each tried again on every run, in a process of its own:
//! "fails: ..." (or the end of the process) while the defect is there, "holds" once it is gone.
use dlhn::{Body, DeserializeHeader, Deserializer, Header, SerializeHeader, Serializer};
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Debug, PartialEq)]
struct Alias { a: u8, #[serde(alias = "old")] b: u8 }
#[derive(Serialize, Deserialize, Debug)]
struct List(Option<Box<List>>);
#[derive(Serialize, Deserialize, dlhn::SerializeHeader, Debug, PartialEq)]
enum Gap { A, #[serde(skip)] #[allow(dead_code)] B, C(u16) }
#[derive(Serialize, Deserialize, dlhn::SerializeHeader)]
#[allow(dead_code)]
struct Tree { v: u8, kids: Vec<Tree> }

fn try_it(key: &str) -> Option<String> {
    match key {
        // 1,000,000 optional headers within each other; the process dies on its stack
        "header-nesting" => {
            let b = vec![1u8; 1_000_000];
            let r = b.as_slice().deserialize_header();
            r.is_ok().then(|| "accepted".into())
        }
        "type-nesting" => {
            let b = vec![1u8; 1_000_000];
            let r = List::deserialize(&mut Deserializer::new(&mut b.as_slice()));
            r.is_ok().then(|| "accepted".into())
        }
        // 4 bytes that say 2^20 elements of no bytes each
        "empty-elements" => {
            let mut o = Vec::new();
            (1u64 << 20).serialize(&mut Serializer::new(&mut o)).expect("count");
            let (r, peak) = mc::alloc::peak(|| Body::deserialize(&Header::Array(Box::new(Header::Unit)), &mut Deserializer::new(&mut o.as_slice())));
            (peak > (1 << 20)).then(|| format!("{} bytes take {} bytes of memory ({})", o.len(), peak, if r.is_ok() { "accepted" } else { "refused" }))
        }
        "alias" => {
            let v = Alias { a: 1, b: 2 };
            let mut o = Vec::new();
            v.serialize(&mut Serializer::new(&mut o)).expect("serialize");
            match Alias::deserialize(&mut Deserializer::new(&mut o.as_slice())) {
                Ok(x) if x == v => None,
                r => Some(format!("{:02x?} comes back as {:?}", o, r)),
            }
        }
        "skipped-variant" => {
            let mut h = Vec::new();
            Gap::serialize_header(&mut h).expect("header");
            let h = h.as_slice().deserialize_header().expect("header");
            let mut o = Vec::new();
            Gap::C(500).serialize(&mut Serializer::new(&mut o)).expect("serialize");
            match Body::deserialize(&h, &mut Deserializer::new(&mut o.as_slice())) {
                Ok(b) if b == Body::Enum(1, Box::new(Body::UInt16(500))) || b == Body::Enum(2, Box::new(Body::UInt16(500))) => None,
                r => Some(format!("header {:?}, body {:02x?}: {:?}", h, o, r)),
            }
        }
        "recursive-type" => {
            struct Full(usize);
            impl std::io::Write for Full {
                fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += b.len(); if self.0 > 1 << 14 { Err(std::io::ErrorKind::Other.into()) } else { Ok(b.len()) } }
                fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
            }
            Tree::serialize_header(&mut Full(0)).is_err().then(|| "the header of a type that contains itself has no end".into())
        }
        k => { eprintln!("mc: no such finding {}", k); std::process::exit(2) }
    }
}
pub fn main(key: &str) {
    match try_it(key) { Some(s) => println!("fails: {}", s), None => println!("holds") }
}
