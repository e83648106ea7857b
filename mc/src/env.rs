//! Readers and writers whose every answer is chosen by the explorer.
use crate::explore::Ctx;
use std::cell::{Cell, RefCell};
use std::io::{self, ErrorKind, Read, Write};

/// A reader over `data` that may cut reads short, interrupt, fail or end early.
pub struct ChoiceReader<'a, 'c> {
    pub c: &'a Ctx<'c>,
    pub data: &'a [u8],
    pub pos: usize,
    /// allowed to fail for good
    pub faults: bool,
    pub failed: bool,
    pub interrupted: bool,
    pub calls: u64,
    /// most bytes past the data the decoder asked for
    pub over: usize,
    /// bytes that may be asked for (the value's length)
    pub allowed: usize,
}
impl<'a, 'c> ChoiceReader<'a, 'c> {
    pub fn new(c: &'a Ctx<'c>, data: &'a [u8], allowed: usize, faults: bool) -> Self {
        ChoiceReader { c, data, pos: 0, faults, failed: false, interrupted: false, calls: 0, over: 0, allowed }
    }
}
pub const FAULTS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::BrokenPipe, ErrorKind::InvalidData];

impl<'a, 'c> Read for ChoiceReader<'a, 'c> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        assert!(self.calls < 1_000_000, "decoder keeps reading");
        if buf.is_empty() { return Ok(0) }
        if self.pos + buf.len() > self.allowed { self.over = self.over.max(self.pos + buf.len() - self.allowed) }
        let n = buf.len().min(self.data.len() - self.pos);
        if n == 0 { return Ok(0) }
        // 0: everything. Then short reads (distinct sizes), an interruption, failures, an early end.
        let mut shorts: Vec<usize> = Vec::new();
        for s in [1, n / 2, n - 1] { if s > 0 && s < n && !shorts.contains(&s) { shorts.push(s) } }
        let faults = if self.faults { FAULTS.len() + 1 } else { 0 };
        let k = self.c.dev(1 + shorts.len() + 1 + faults);
        if k == 0 { return Ok(self.give(buf, n)) }
        if k <= shorts.len() { self.c.outcome("short read"); return Ok(self.give(buf, shorts[k - 1])) }
        let k = k - 1 - shorts.len();
        if k == 0 {
            self.c.outcome("interrupted");
            self.interrupted = true;
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.failed = true;
        if k <= FAULTS.len() {
            self.c.outcome("read error");
            Err(io::Error::new(FAULTS[k - 1], "injected"))
        } else {
            self.c.outcome("early end");
            self.data = &self.data[..self.pos];
            Ok(0)
        }
    }
}
impl<'a, 'c> ChoiceReader<'a, 'c> {
    fn give(&mut self, buf: &mut [u8], n: usize) -> usize {
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        n
    }
}

/// A writer that may accept part of a write, interrupt, refuse or fail.
pub struct ChoiceWriter<'a, 'c> {
    pub c: &'a Ctx<'c>,
    pub got: Vec<u8>,
    pub failed: bool,
    pub after_failure: usize,
    pub calls: u64,
    pub flushes: u64,
}
impl<'a, 'c> ChoiceWriter<'a, 'c> {
    pub fn new(c: &'a Ctx<'c>) -> Self { ChoiceWriter { c, got: vec![], failed: false, after_failure: 0, calls: 0, flushes: 0 } }
}
impl<'a, 'c> Write for ChoiceWriter<'a, 'c> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        assert!(self.calls < 1_000_000, "serializer keeps writing");
        if buf.is_empty() { return Ok(0) }
        if self.failed { self.after_failure += 1; self.got.extend_from_slice(buf); return Ok(buf.len()) }
        let n = buf.len();
        let mut shorts: Vec<usize> = Vec::new();
        for s in [1, n / 2, n - 1] { if s > 0 && s < n && !shorts.contains(&s) { shorts.push(s) } }
        let k = self.c.dev(1 + shorts.len() + 1 + FAULTS.len() + 1);
        if k == 0 { self.got.extend_from_slice(buf); return Ok(n) }
        if k <= shorts.len() {
            self.c.outcome("short write");
            let s = shorts[k - 1];
            self.got.extend_from_slice(&buf[..s]);
            return Ok(s);
        }
        let k = k - 1 - shorts.len();
        if k == 0 { self.c.outcome("interrupted"); return Err(io::Error::new(ErrorKind::Interrupted, "interrupted")) }
        self.failed = true;
        if k <= FAULTS.len() {
            self.c.outcome("write error");
            Err(io::Error::new(FAULTS[k - 1], "injected"))
        } else {
            self.c.outcome("refused write");
            Ok(0)
        }
    }
    fn flush(&mut self) -> io::Result<()> { self.flushes += 1; Ok(()) }
}

/// A reader that hands out at most `step` bytes at a time.
pub struct Dribble<'a> { pub data: &'a [u8], pub step: usize }
impl<'a> Read for Dribble<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len().min(self.step).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        Ok(n)
    }
}
/// A reader that counts what is asked of it and never has a shortage: after the
/// data it repeats a byte for ever, so over-reading shows in the position.
pub struct Endless<'a> { pub data: &'a [u8], pub pos: usize, pub fill: u8 }
impl<'a> Read for Endless<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        for b in buf.iter_mut() { *b = self.data.get(self.pos).copied().unwrap_or(self.fill); self.pos += 1 }
        Ok(buf.len())
    }
}
pub struct Shared<'a>(pub &'a RefCell<Vec<u8>>, pub &'a Cell<u64>);
impl<'a> Write for Shared<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.1.set(self.1.get() + 1);
        self.0.borrow_mut().extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
