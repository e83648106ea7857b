//! The explorer: exhaustive, deterministic, choice-driven enumeration.
//!
//! A space is a function of a `Ctx`. Everything that can vary is asked of the
//! `Ctx` (`choose`, `dev`, `extend`), so an execution is identified by its
//! vector of choices, and running every vector is running every execution.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
#[cfg(feature = "full")]
use std::sync::{atomic::{AtomicBool, AtomicUsize}, Mutex};
#[cfg(feature = "full")]
use std::time::Duration;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Tier { Quick, Thorough }

pub type Check = Result<(), String>;

pub struct Space {
    pub name: String,
    pub what: String,
    pub f: Box<dyn Fn(&Ctx) -> Check + Send + Sync>,
    /// runs an execution somewhere else instead (in a process of its own)
    pub far: Option<Box<dyn Fn(&[u32]) -> Result<Vec<u8>, String> + Send + Sync>>,
    /// the code under test may keep something from one execution to the next, so that the same choices
    /// need not come up again: such executions are counted, and only what they result in is judged
    pub loose: bool,
}
impl Space {
    pub fn new(name: &str, what: &str, f: impl Fn(&Ctx) -> Check + Send + Sync + 'static) -> Space {
        Space { name: name.into(), what: what.into(), f: Box::new(f), far: None, loose: false }
    }
}

// ------------------------------------------------------------------ hashing

#[derive(Default, Clone, Copy)]
pub struct Id(u64);
impl Hasher for Id {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x }
}
type Set = HashSet<u64, BuildHasherDefault<Id>>;

/// fixed (unseeded) hash, the same in every run
pub fn fx<T: Hash + ?Sized>(t: &T) -> u64 {
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 {
            let mut x = self.0;
            x ^= x >> 33; x = x.wrapping_mul(0xff51afd7ed558ccd); x ^= x >> 33;
            x = x.wrapping_mul(0xc4ceb9fe1a85ec53); x ^ (x >> 33)
        }
        fn write(&mut self, b: &[u8]) {
            for c in b.chunks(8) {
                let mut w = [0; 8];
                w[..c.len()].copy_from_slice(c);
                self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(w) ^ ((c.len() as u64) << 59)).wrapping_mul(0x517cc1b727220a95);
            }
        }
    }
    let mut h = F(0x9E3779B97F4A7C15);
    t.hash(&mut h);
    h.finish()
}

// ------------------------------------------------------------------ one execution

#[derive(Default)]
struct Local {
    states: Set,
    bulk_states: u64,
    transitions: u64,
    validated: u64,
    executions: u64,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
}

pub struct Ctx<'a> {
    prefix: &'a [u32],
    taken: RefCell<Vec<u32>>,
    alts: RefCell<Vec<(usize, u32, u32)>>,
    ended: Cell<bool>,
    diverged: RefCell<Option<String>>,
    budget: Cell<u32>,
    trace: Cell<u64>,
    counting: bool,
    local: &'a RefCell<Local>,
    want_label: bool,
    label: RefCell<Option<String>>,
    beat: &'a AtomicU64,
    pub tier: Tier,
    pub verbose: bool,
}

impl<'a> Ctx<'a> {
    fn at(&self, n: u32) -> Option<u32> {
        let pos = self.taken.borrow().len();
        assert!(!self.ended.get(), "harness: choice after the end of a tree node");
        if pos < self.prefix.len() {
            let c = self.prefix[pos];
            if c >= n {
                *self.diverged.borrow_mut() = Some(format!("replay diverged: choice {} of {} at point {}", c, n, pos));
                panic!("replay diverged");
            }
            self.taken.borrow_mut().push(c);
            Some(c)
        } else {
            None
        }
    }
    /// a value below n; all are explored
    pub fn choose(&self, n: usize) -> usize {
        assert!(n > 0 && n <= u32::MAX as usize, "harness: empty choice");
        if n == 1 { return 0 }
        if let Some(c) = self.at(n as u32) { return c as usize }
        let pos = self.taken.borrow().len();
        self.alts.borrow_mut().push((pos, 1, n as u32));
        self.taken.borrow_mut().push(0);
        0
    }
    pub fn flag(&self) -> bool { self.choose(2) == 1 }
    pub fn pick<'b, T>(&self, l: &'b [T]) -> &'b T { &l[self.choose(l.len())] }
    /// how many departures from the default answer `dev` may still make
    pub fn set_budget(&self, n: u32) { self.budget.set(n) }
    /// an answer of the environment: 0 is the default, others cost one deviation
    pub fn dev(&self, n: usize) -> usize {
        if self.budget.get() == 0 || n == 1 { return 0 }
        let c = self.choose(n);
        if c != 0 { self.budget.set(self.budget.get() - 1) }
        c
    }
    /// one more step into a tree: Some(child) on the way to the node under
    /// test, None at the node under test, whose children are then explored too
    pub fn extend(&self, n: usize) -> Option<usize> {
        if let Some(c) = self.at(n as u32) { return Some(c as usize) }
        let pos = self.taken.borrow().len();
        if n > 0 { self.alts.borrow_mut().push((pos, 0, n as u32)) }
        self.ended.set(true);
        None
    }
    /// whether the node under test has been reached without another step
    pub fn leaf_next(&self) -> bool { self.taken.borrow().len() >= self.prefix.len() }

    // -- bookkeeping
    pub fn state<T: Hash + ?Sized>(&self, t: &T) {
        let h = fx(t);
        self.trace.set(self.trace.get().rotate_left(7) ^ h);
        if self.counting { self.local.borrow_mut().states.insert(h); }
    }
    /// this execution, told apart from others by all its choices
    pub fn state_of_choices(&self) { let h = fx(&self.taken.borrow()[..]); if self.counting { self.local.borrow_mut().states.insert(h); } }
    /// the same where there are too many to remember: no two executions make the same choices
    pub fn distinct(&self) { let h = fx(&self.taken.borrow()[..]); self.observe(&h); if self.counting { self.local.borrow_mut().bulk_states += 1 } }
    /// part of what must be identical when the execution is repeated
    pub fn observe<T: Hash + ?Sized>(&self, t: &T) { self.trace.set(self.trace.get().rotate_left(9) ^ fx(t)) }
    /// n states / transitions / comparisons counted in a loop over a range
    pub fn bulk(&self, n: u64) {
        self.beat();
        if self.counting {
            let mut l = self.local.borrow_mut();
            l.bulk_states += n;
            l.transitions += n;
            l.validated += n;
        }
    }
    /// n states and transitions, compared and counted elsewhere
    pub fn count(&self, n: u64) {
        self.beat();
        if self.counting {
            let mut l = self.local.borrow_mut();
            l.bulk_states += n;
            l.transitions += n;
        }
    }
    /// the real code's behaviour was compared with the model's n times
    pub fn validated(&self, n: u64) { if self.counting { self.local.borrow_mut().validated += n } }
    pub fn transitions(&self, n: u64) { if self.counting { self.local.borrow_mut().transitions += n } }
    pub fn outcome(&self, s: &str) {
        if self.counting {
            let mut l = self.local.borrow_mut();
            if let Some(x) = l.outcomes.get_mut(s) { *x += 1 } else { l.outcomes.insert(s.to_string(), 1); }
        }
    }
    pub fn label(&self, f: impl FnOnce() -> String) {
        if self.want_label {
            let mut s = f();
            if s.len() > 600 {
                let mut k = 600;
                while !s.is_char_boundary(k) { k -= 1 }
                s.truncate(k);
                s.push_str("...");
            }
            *self.label.borrow_mut() = Some(s)
        }
    }
    pub fn beat(&self) { self.beat.store(now_ms(), Ordering::Relaxed) }
}

fn now_ms() -> u64 {
    // no clock there
    if cfg!(any(miri, target_family = "wasm")) { return 0 }
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

// ------------------------------------------------------------------ journal of running cases

#[cfg(feature = "full")]
mod journal {
pub const SLOT: usize = 4096;
pub struct Journal { base: *mut u8, slots: usize }
unsafe impl Send for Journal {}
unsafe impl Sync for Journal {}
impl Journal {
    pub fn open(path: &str, slots: usize) -> Journal {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(path).expect("journal");
        f.set_len((SLOT * slots) as u64).expect("journal size");
        let base = unsafe {
            libc::mmap(std::ptr::null_mut(), SLOT * slots, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0)
        };
        assert!(base != libc::MAP_FAILED, "journal mmap");
        Journal { base: base as *mut u8, slots }
    }
    /// slot layout: u32 busy, u32 space, u32 n, n choices
    pub fn set(&self, slot: usize, space: u32, c: &[u32]) {
        assert!(slot < self.slots);
        let n = c.len().min(SLOT / 4 - 3);
        unsafe {
            let p = self.base.add(slot * SLOT) as *mut u32;
            p.add(1).write(space);
            p.add(2).write(n as u32);
            std::ptr::copy_nonoverlapping(c.as_ptr(), p.add(3), n);
            p.write_volatile(1);
        }
    }
    pub fn clear(&self, slot: usize) { unsafe { (self.base.add(slot * SLOT) as *mut u32).write_volatile(0) } }
}
}
#[cfg(feature = "full")]
pub use journal::*;

// ------------------------------------------------------------------ a whole space

#[derive(Clone, Debug)]
pub struct Violation { pub case: Vec<u32>, pub msg: String, pub label: String }

#[derive(Default, Debug)]
pub struct Outcome {
    pub name: String,
    pub what: String,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub repeated: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub engine_errors: Vec<String>,
    pub capped: bool,
    pub wall: f64,
}

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) } }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "?".into());
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|p| *p.borrow_mut() = format!("panic: {} at {}", m, loc));
    }));
}
pub fn last_panic() -> String { PANIC.with(|p| p.borrow().clone()) }

/// run `f`, turning a panic into an error text
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

#[cfg(feature = "full")]
struct Item { base: std::sync::Arc<Vec<u32>>, len: usize, lo: u32, hi: u32, leaf: bool }

struct Done { verdict: Check, diverged: Option<String>, taken: Vec<u32>, alts: Vec<(usize, u32, u32)>, trace: u64, label: Option<String> }

fn execute(space: &Space, prefix: &[u32], tier: Tier, local: &RefCell<Local>, counting: bool, want_label: bool, beat: &AtomicU64, verbose: bool) -> Done {
    if let Some(far) = &space.far {
        beat.store(now_ms(), Ordering::Relaxed);
        let d = match far(prefix).and_then(|b| far_done(&b, local, counting)) {
            Ok(d) => Done { label: d.label.filter(|_| want_label), ..d },
            Err(m) => Done { verdict: Err(m), diverged: None, taken: prefix.to_vec(), alts: vec![], trace: 0, label: None },
        };
        return d;
    }
    near(space, prefix, tier, local, counting, want_label, beat, verbose)
}
/// what `far_child` wrote
fn far_done(b: &[u8], local: &RefCell<Local>, counting: bool) -> Result<Done, String> {
    let mut at = 0;
    let mut next = || -> Option<u64> { let x = b.get(at..at + 8)?; at += 8; Some(u64::from_le_bytes(x.try_into().unwrap())) };
    let mut read = || -> Option<(Done, u64, u64, Vec<u64>)> {
        let text = |next: &mut dyn FnMut() -> Option<u64>| -> Option<Option<String>> {
            if next()? == 0 { return Some(None) }
            let n = next()?;
            let mut s = Vec::new();
            for _ in 0..n { s.push(next()? as u8) }
            Some(Some(String::from_utf8_lossy(&s).into_owned()))
        };
        let verdict = match text(&mut next)? { Some(m) => Err(m), None => Ok(()) };
        let diverged = text(&mut next)?;
        let label = text(&mut next)?;
        let n = next()?;
        let taken = (0..n).map(|_| next().map(|x| x as u32)).collect::<Option<Vec<_>>>()?;
        let n = next()?;
        let alts = (0..n).map(|_| Some((next()? as usize, next()? as u32, next()? as u32))).collect::<Option<Vec<_>>>()?;
        let trace = next()?;
        let (transitions, validated) = (next()?, next()?);
        let n = next()?;
        let states = (0..n).map(|_| next()).collect::<Option<Vec<_>>>()?;
        Some((Done { verdict, diverged, taken, alts, trace, label }, transitions, validated, states))
    };
    let (d, transitions, validated, states) = read().ok_or("the execution did not come to its end")?;
    if counting {
        let mut l = local.borrow_mut();
        l.transitions += transitions;
        l.validated += validated;
        l.states.extend(states);
    }
    Ok(d)
}
/// in the process of its own: run the execution, and tell what came of it
pub fn far_child(space: &Space, prefix: &[u32], tier: Tier) -> Vec<u8> {
    let local = RefCell::new(Local::default());
    let beat = AtomicU64::new(0);
    let d = near(space, prefix, tier, &local, true, true, &beat, false);
    let l = local.borrow();
    let mut o: Vec<u64> = Vec::new();
    let text = |o: &mut Vec<u64>, s: Option<&String>| match s {
        None => o.push(0),
        Some(s) => { o.push(1); o.push(s.len() as u64); o.extend(s.bytes().map(|b| b as u64)) }
    };
    text(&mut o, d.verdict.as_ref().err());
    text(&mut o, d.diverged.as_ref());
    text(&mut o, d.label.as_ref());
    o.push(d.taken.len() as u64);
    o.extend(d.taken.iter().map(|x| *x as u64));
    o.push(d.alts.len() as u64);
    for (a, b, c) in &d.alts { o.extend([*a as u64, *b as u64, *c as u64]) }
    o.extend([d.trace, l.transitions, l.validated, l.states.len() as u64]);
    o.extend(l.states.iter());
    o.iter().flat_map(|x| x.to_le_bytes()).collect()
}

fn near(space: &Space, prefix: &[u32], tier: Tier, local: &RefCell<Local>, counting: bool, want_label: bool, beat: &AtomicU64, verbose: bool) -> Done {
    let ctx = Ctx {
        prefix, taken: RefCell::new(Vec::new()), alts: RefCell::new(Vec::new()), ended: Cell::new(false),
        diverged: RefCell::new(None), budget: Cell::new(0), trace: Cell::new(0), counting, local, want_label,
        label: RefCell::new(None), beat, tier, verbose,
    };
    ctx.beat();
    let verdict = match catch_unwind(AssertUnwindSafe(|| (space.f)(&ctx))) {
        Ok(r) => r,
        Err(_) => Err(last_panic()),
    };
    let mut diverged = ctx.diverged.borrow_mut().take();
    if diverged.is_none() && verdict.is_ok() && ctx.taken.borrow().len() < prefix.len() {
        diverged = Some(format!("replay diverged: only {} of {} choices used", ctx.taken.borrow().len(), prefix.len()));
    }
    if let Err(m) = &verdict { ctx.trace.set(ctx.trace.get() ^ fx(m.as_str())) }
    Done { verdict, diverged, taken: ctx.taken.take(), alts: ctx.alts.take(), trace: ctx.trace.get(), label: ctx.label.take() }
}

#[cfg(feature = "full")]
pub struct Limits { pub threads: usize, pub deadline: Instant, pub hang: Duration, pub max_violations: usize }

#[cfg(feature = "full")]
pub fn run_space(space: &Space, index: u32, tier: Tier, lim: &Limits, journal: &Journal) -> Outcome {
    let t0 = Instant::now();
    let queue: Mutex<Vec<Item>> = Mutex::new(vec![Item { base: Default::default(), len: 0, lo: 0, hi: 1, leaf: true }]);
    let busy = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let over = AtomicBool::new(false);
    let starving = AtomicUsize::new(0);
    let beats: Vec<AtomicU64> = (0..lim.threads).map(|_| AtomicU64::new(0)).collect();
    let out = Mutex::new(Outcome { name: space.name.clone(), what: space.what.clone(), ..Default::default() });
    let all_states: Mutex<Set> = Mutex::new(Set::default());

    std::thread::scope(|sc| {
        let mut hs = Vec::new();
        for w in 0..lim.threads {
            let (queue, busy, stop, capped, starving, beats, out, all_states) =
                (&queue, &busy, &stop, &capped, &starving, &beats, &out, &all_states);
            hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
                let local = RefCell::new(Local::default());
                let mut mine: Vec<Item> = Vec::new();
                let mut repeated = 0;
                let mut waiting = false;
                loop {
                    if stop.load(Ordering::Relaxed) { break }
                    if mine.is_empty() {
                        let got = {
                            let mut q = queue.lock().unwrap();
                            let i = q.pop();
                            if i.is_some() { busy.fetch_add(1, Ordering::SeqCst); }
                            i
                        };
                        match got {
                            Some(i) => {
                                if waiting { starving.fetch_sub(1, Ordering::Relaxed); waiting = false }
                                mine.push(i)
                            }
                            None => {
                                if !waiting { starving.fetch_add(1, Ordering::Relaxed); waiting = true }
                                let q = queue.lock().unwrap();
                                if q.is_empty() && busy.load(Ordering::SeqCst) == 0 { break }
                                drop(q);
                                std::thread::sleep(Duration::from_micros(200));
                                continue;
                            }
                        }
                    }
                    while let Some(mut it) = mine.pop() {
                        if stop.load(Ordering::Relaxed) { break }
                        // give work away when others have none
                        if starving.load(Ordering::Relaxed) > 0 {
                            let mut q = queue.lock().unwrap();
                            if q.len() < lim.threads {
                                if it.hi - it.lo > 1 {
                                    let mid = it.lo + (it.hi - it.lo) / 2;
                                    q.push(Item { base: it.base.clone(), len: it.len, lo: mid, hi: it.hi, leaf: false });
                                    it.hi = mid;
                                }
                                let give = mine.len() / 2;
                                q.extend(mine.drain(..give));
                            }
                        }
                        let mut case = it.base[..it.len].to_vec();
                        if !it.leaf {
                            case.push(it.lo);
                            if it.hi - it.lo > 1 {
                                mine.push(Item { base: it.base, len: it.len, lo: it.lo + 1, hi: it.hi, leaf: false })
                            }
                        }
                        let n = { let mut l = local.borrow_mut(); l.executions += 1; l.executions };
                        let want = local.borrow().samples.len() < 3 && n.is_power_of_two();
                        journal.set(w, index, &case);
                        let d = execute(space, &case, tier, &local, true, want, &beats[w], false);
                        journal.clear(w);
                        local.borrow_mut().transitions += (d.taken.len().saturating_sub(case.len().saturating_sub(1))) as u64;
                        if let Some(l) = d.label { local.borrow_mut().samples.push(l) }
                        if let Some(e) = d.diverged.as_ref().filter(|_| space.loose && d.verdict.is_ok()) {
                            *local.borrow_mut().outcomes.entry("another course than before".into()).or_insert(0) += 1;
                            let _ = e;
                            continue;
                        }
                        if let Some(e) = d.diverged.filter(|_| !space.loose) {
                            out.lock().unwrap().engine_errors.push(format!("{} (case {:?})", e, case));
                            stop.store(true, Ordering::Relaxed);
                            break;
                        }
                        // ownership of nondeterminism: repeat now and then, everything must be the same
                        if n % 509 == 1 || d.verdict.is_err() {
                            journal.set(w, index, &d.taken);
                            let e = execute(space, &d.taken, tier, &local, false, d.verdict.is_err(), &beats[w], false);
                            journal.clear(w);
                            repeated += 1;
                            let steady = e.trace == d.trace && e.verdict == d.verdict;
                            if !steady && space.loose && d.verdict.is_ok() && e.verdict.is_ok() {
                                *local.borrow_mut().outcomes.entry("another course than before".into()).or_insert(0) += 1;
                            } else if !steady && d.verdict.is_ok() && e.verdict.is_ok() {
                                out.lock().unwrap().engine_errors.push(format!(
                                    "not deterministic: case {:?} gave {:?} then {:?}", d.taken, d.verdict, e.verdict));
                                stop.store(true, Ordering::Relaxed);
                                break;
                            }
                            // the outcome of an execution must not depend on those before it: a failure counts once seen
                            let verdict = match (d.verdict, e.verdict) {
                                (Err(m), _) if steady => Err(m),
                                (Err(m), _) | (_, Err(m)) => Err(format!("{} (not on every execution of this case: it depends on what ran before)", m)),
                                (v, _) => v,
                            };
                            if let Err(m) = verdict {
                                let mut o = out.lock().unwrap();
                                o.violations.push(Violation { case: d.taken.clone(), msg: m, label: e.label.unwrap_or_default() });
                                if o.violations.len() >= lim.max_violations { stop.store(true, Ordering::Relaxed); }
                            }
                        }
                        let base = std::sync::Arc::new(d.taken);
                        for (pos, lo, hi) in d.alts {
                            mine.push(Item { base: base.clone(), len: pos, lo, hi, leaf: false })
                        }
                        if n % 64 == 0 && Instant::now() > lim.deadline {
                            capped.store(true, Ordering::Relaxed);
                            stop.store(true, Ordering::Relaxed);
                        }
                    }
                    beats[w].store(0, Ordering::Relaxed);
                    busy.fetch_sub(1, Ordering::SeqCst);
                }
                beats[w].store(0, Ordering::Relaxed);
                let l = local.into_inner();
                let mut o = out.lock().unwrap();
                o.executions += l.executions;
                o.transitions += l.transitions;
                o.validated += l.validated;
                o.states += l.bulk_states;
                o.repeated += repeated;
                for (k, v) in l.outcomes { *o.outcomes.entry(k).or_insert(0) += v }
                o.samples.extend(l.samples);
                drop(o);
                let mut a = all_states.lock().unwrap();
                if a.is_empty() { *a = l.states } else { a.extend(l.states) }
            }).expect("worker"));
        }
        // watchdog: a case that does not end is a verdict of its own
        sc.spawn(|| {
            while !over.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(20));
                let t = now_ms();
                for (w, b) in beats.iter().enumerate() {
                    let b = b.load(Ordering::Relaxed);
                    if b != 0 && t > b && t - b > lim.hang.as_millis() as u64 {
                        eprintln!("mc: case in slot {} of space {} has been running for {} ms", w, space.name, t - b);
                        std::process::exit(78);
                    }
                }
            }
        });
        for h in hs { h.join().expect("worker died") }
        over.store(true, Ordering::Relaxed);
    });
    let mut o = out.into_inner().unwrap();
    o.states += all_states.into_inner().unwrap().len() as u64;
    o.capped = capped.load(Ordering::Relaxed);
    o.violations.sort_by(|a, b| (a.case.len(), &a.case).cmp(&(b.case.len(), &b.case)));
    o.samples.sort();
    o.samples.dedup();
    o.samples.truncate(4);
    o.wall = t0.elapsed().as_secs_f64();
    o
}

/// every value a choosing function can produce, in order
pub fn all<T>(f: impl Fn(&Ctx) -> T) -> Vec<T> {
    let local = RefCell::new(Local::default());
    let beat = AtomicU64::new(0);
    let mut out = Vec::new();
    let mut todo: Vec<Vec<u32>> = vec![vec![]];
    while let Some(prefix) = todo.pop() {
        let ctx = Ctx {
            prefix: &prefix, taken: RefCell::new(Vec::new()), alts: RefCell::new(Vec::new()), ended: Cell::new(false),
            diverged: RefCell::new(None), budget: Cell::new(0), trace: Cell::new(0), counting: false, local: &local, want_label: false,
            label: RefCell::new(None), beat: &beat, tier: Tier::Quick, verbose: false,
        };
        out.push(f(&ctx));
        let taken = ctx.taken.take();
        for (pos, lo, hi) in ctx.alts.take() { for k in (lo..hi).rev() { let mut p = taken[..pos].to_vec(); p.push(k); todo.push(p) } }
    }
    out
}

/// run one case; its verdict and what it was about
pub fn replay(space: &Space, case: &[u32], tier: Tier) -> (Check, String) {
    let local = RefCell::new(Local::default());
    let beat = AtomicU64::new(0);
    std::thread::scope(|sc| {
        let (local, beat) = (std::panic::AssertUnwindSafe(local), &beat);
        struct SendBox<T>(T);
        unsafe impl<T> Send for SendBox<T> {}
        let l = SendBox(local);
        std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(sc, move || {
            let l = l;
            let d = execute(space, case, tier, &l.0, true, true, beat, true);
            if let Some(e) = d.diverged.filter(|_| !space.loose) { return (Err(e), String::new()) }
            (d.verdict, d.label.unwrap_or_default())
        }).expect("spawn").join().expect("join")
    })
}

/// run one execution by itself: verdict, choices, alternatives, transitions counted by it
pub fn one(space: &Space, prefix: &[u32]) -> (Check, Vec<u32>, Vec<(usize, u32, u32)>, u64) {
    let local = RefCell::new(Local::default());
    let beat = AtomicU64::new(0);
    let d = execute(space, prefix, Tier::Quick, &local, true, false, &beat, false);
    assert!(d.diverged.is_none(), "harness: {:?}", d.diverged);
    let t = local.borrow().transitions;
    (d.verdict, d.taken, d.alts, t)
}
