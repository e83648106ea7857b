//! What the real code does, noted down: a fingerprint that is the same on every platform.
use std::cell::{Cell, RefCell};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

thread_local! {
    static ON: Cell<u8> = const { Cell::new(0) };
    static HASH: Cell<u64> = const { Cell::new(0) };
    static TEXT: RefCell<String> = const { RefCell::new(String::new()) };
}
const START: u64 = 0xcbf2_9ce4_8422_2325;

/// 1: fingerprint, 2: text as well
pub fn start(how: u8) { ON.with(|o| o.set(how)); HASH.with(|h| h.set(START)); TEXT.with(|t| t.borrow_mut().clear()) }
pub fn stop() -> (u64, String) { ON.with(|o| o.set(0)); (HASH.with(|h| h.get()), TEXT.with(|t| t.take())) }
pub fn on() -> bool { ON.with(|o| o.get()) != 0 }

/// eight bytes at a time, because it is interpreted on some platforms
pub fn fnv(mut h: u64, b: &[u8]) -> u64 {
    let l = b.chunks_exact(8);
    let rest = l.remainder();
    for x in l { h = (h ^ u64::from_le_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]])).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) }
    for x in rest { h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3) }
    (h ^ b.len() as u64).wrapping_mul(0x100_0000_01b3)
}
pub fn note(s: &str) {
    HASH.with(|h| h.set(fnv(fnv(h.get(), s.as_bytes()), &[0xFF])));
    if ON.with(|o| o.get()) == 2 { TEXT.with(|t| { let mut t = t.borrow_mut(); t.push_str("\n  "); t.push_str(s) }) }
}
/// the kind of an error, without its text
fn kind<E: Debug>(e: &E) -> String {
    let s = format!("{:?}", e);
    s.split(['(', ' ', '{']).next().unwrap_or("").to_string()
}
/// into the fingerprint without the cost of a text, which is made only where it is wanted
fn put(h: u64, text: impl Fn() -> String) {
    HASH.with(|x| x.set(fnv(fnv(x.get(), &h.to_le_bytes()), &[0xFE])));
    if ON.with(|o| o.get()) == 2 { TEXT.with(|t| { let mut t = t.borrow_mut(); t.push_str("\n  "); t.push_str(&text()) }) }
}
pub fn ser<E: Debug>(r: &Result<(), E>, o: &[u8]) {
    if on() { match r { Ok(()) => put(fnv(START, o), || format!("written {:02x?}", o)), Err(e) => put(1, || format!("not written: {}", kind(e))) } }
}
/// a hasher that says the same on every platform
struct Same(u64);
impl Hasher for Same {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) { self.0 = fnv(self.0, b) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_i8(&mut self, x: i8) { self.write_u64(x as u64) }
    fn write_i16(&mut self, x: i16) { self.write_u64(x as u64) }
    fn write_i32(&mut self, x: i32) { self.write_u64(x as u64) }
    fn write_i64(&mut self, x: i64) { self.write_u64(x as u64) }
    fn write_isize(&mut self, x: isize) { self.write_u64(x as u64) }
}
pub fn de_hash<T: Debug + Hash, E: Debug>(r: &Result<T, E>, n: usize) {
    if !on() { return }
    match r {
        Ok(v) => { let mut h = Same(START); v.hash(&mut h); h.write_usize(n); put(h.finish(), || format!("read {:?} from {} bytes", v, n)) }
        Err(e) => put(2, || format!("not read: {}", kind(e))),
    }
}
pub fn de<T: Debug, E: Debug>(r: &Result<T, E>, n: usize) {
    if on() { match r { Ok(v) => note(&format!("read {:?} from {} bytes", v, n)), Err(e) => put(2, || format!("not read: {}", kind(e))) } }
}
pub fn de_shown<T, E: Debug>(r: &Result<T, E>, n: usize, show: impl Fn(&T) -> String) {
    if on() { match r { Ok(v) => note(&format!("read {} from {} bytes", show(v), n)), Err(e) => put(2, || format!("not read: {}", kind(e))) } }
}
/// of a value that cannot be shown
pub fn de_blind<T, E: Debug>(r: &Result<T, E>, n: usize) { de(&r.as_ref().map(|_| ()), n) }
