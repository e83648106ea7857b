//! A controlled scheduler: one actor runs at a time, on a thread of its own,
//! and at every scheduling point the explorer says who goes on.
use crate::actors::Actor;
use crate::explore::Ctx;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Condvar, Mutex};
use std::time::Duration;

extern "C" {
    fn sched_set_hook(h: Option<extern "C" fn()>);
    fn sched_pause(on: i32);
    fn sched_paused() -> i32;
}

/// which points are scheduling points
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Grain {
    /// every call of a reader or writer; at most so many preemptions
    Calls(u32),
    /// besides, every edge of the compiled code; at most so many preemptions
    Edges(u32),
}

struct State { turn: Option<usize>, done: u32, started: u32, free: bool, steps: u64 }
struct Shared<'a> { m: Mutex<State>, cv: Condvar, ctx: *const Ctx<'a>, n: usize, grain: Grain }
unsafe impl<'a> Sync for Shared<'a> {}

thread_local! {
    static ME: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    /// what befalls every reader and writer of this thread at its n-th call
    static BEFALLS: Cell<Option<(Mishap, usize)>> = const { Cell::new(None) };
    static NEST: RefCell<Option<Box<dyn FnMut()>>> = const { RefCell::new(None) };
}

/// what may go wrong in a reader or writer
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mishap { Panics, Fails, IsInterrupted, Ends }
pub fn befalls(m: Option<(Mishap, usize)>) { BEFALLS.with(|b| b.set(m)) }
/// asked by the readers and writers at their n-th call
pub fn mishap(n: usize) -> Option<Mishap> { BEFALLS.with(|b| b.get()).filter(|(m, k)| if *m == Mishap::IsInterrupted { n == *k } else { n >= *k }).map(|(m, _)| m) }

/// harness code: not a place to be preempted in
pub fn harness<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let was = sched_paused();
        sched_pause(1);
        let r = f();
        sched_pause(was);
        r
    }
}

/// called by the readers and writers before they answer
pub fn io_point() {
    harness(|| {
        let (s, me) = ME.with(|m| m.get());
        if s != 0 { let s = unsafe { &*(s as *const Shared<'static>) }; s.point(me, true) }
        let n = NEST.with(|n| n.borrow_mut().take());
        if let Some(mut f) = n { f(); NEST.with(|n| *n.borrow_mut() = Some(f)) }
    })
}
extern "C" fn edge() {
    let (s, me) = ME.with(|m| m.get());
    if s != 0 { let s = unsafe { &*(s as *const Shared<'static>) }; s.point(me, false) }
}

impl<'a> Shared<'a> {
    fn others(&self, done: u32, me: usize) -> Vec<usize> { (0..self.n).filter(|i| *i != me && done & (1 << i) == 0).collect() }
    /// the explorer's answer; should the schedule not fit (which the explorer notices), all go on
    fn ask(&self, st: &mut State, f: impl FnOnce(&Ctx) -> usize) -> usize {
        let c = unsafe { &*self.ctx };
        match catch_unwind(AssertUnwindSafe(|| f(c))) {
            Ok(k) => k,
            Err(_) => { st.free = true; self.cv.notify_all(); 0 }
        }
    }
    fn point(&self, me: usize, io: bool) {
        let mut st = self.m.lock().unwrap();
        if st.free { return }
        st.steps += 1;
        let o = self.others(st.done, me);
        if o.is_empty() { return }
        let k = self.ask(&mut st, |c| match self.grain {
            Grain::Calls(_) if io => c.dev(o.len() + 1),
            Grain::Calls(_) => 0,
            Grain::Edges(_) => c.dev(o.len() + 1),
        });
        if k == 0 { return }
        st.turn = Some(o[k - 1]);
        self.cv.notify_all();
        self.wait(st, me);
    }
    fn wait(&self, mut st: std::sync::MutexGuard<State>, me: usize) {
        while st.turn != Some(me) && !st.free { st = self.cv.wait(st).unwrap() }
    }
    fn finish(&self, me: usize) {
        let mut st = self.m.lock().unwrap();
        st.done |= 1 << me;
        let o = self.others(st.done, me);
        if st.free || o.is_empty() { st.turn = None } else { let k = self.ask(&mut st, |c| c.choose(o.len())); st.turn = Some(o[k]) }
        self.cv.notify_all();
    }
}

pub struct Ran { pub results: Vec<String>, pub steps: u64, pub freed: bool }

/// run the actors together under the explorer's schedule
pub fn together(c: &Ctx, actors: &[&Actor], grain: Grain) -> Ran {
    let sh = Shared { m: Mutex::new(State { turn: None, done: 0, started: 0, free: false, steps: 0 }), cv: Condvar::new(), ctx: c as *const Ctx as *const _, n: actors.len(), grain };
    match grain { Grain::Edges(b) | Grain::Calls(b) => c.set_budget(b) }
    let results: Vec<Mutex<String>> = actors.iter().map(|_| Mutex::new(String::new())).collect();
    std::thread::scope(|sc| {
        for (i, a) in actors.iter().enumerate() {
            let (sh, results) = (&sh, &results);
            std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, move || {
                ME.with(|m| m.set((sh as *const Shared as usize, i)));
                {
                    let mut st = sh.m.lock().unwrap();
                    st.started += 1;
                    sh.cv.notify_all();
                    while st.turn != Some(i) && !st.free { st = sh.cv.wait(st).unwrap() }
                }
                unsafe { if let Grain::Edges(_) = grain { sched_set_hook(Some(edge)) } }
                let r = (a.run)();
                unsafe { sched_set_hook(None) }
                *results[i].lock().unwrap() = r;
                ME.with(|m| m.set((0, 0)));
                sh.finish(i);
            }).expect("actor");
        }
        let mut st = sh.m.lock().unwrap();
        while (st.started as usize) < actors.len() { st = sh.cv.wait(st).unwrap() }
        st.turn = Some(c.choose(actors.len()));
        sh.cv.notify_all();
        let all = (1u32 << actors.len()) - 1;
        let mut last = 0;
        while st.done != all {
            let (g, t) = sh.cv.wait_timeout(st, Duration::from_millis(400)).unwrap();
            st = g;
            // an actor that was stopped within the library may rightly hold what another one needs for a
            // moment: let all run. One that waits while the others are in their own readers and writers may not.
            if t.timed_out() && matches!(grain, Grain::Edges(_)) && st.steps == last && !st.free { st.free = true; sh.cv.notify_all() }
            last = st.steps;
        }
    });
    let st = sh.m.into_inner().unwrap();
    Ran { results: results.into_iter().map(|r| r.into_inner().unwrap()).collect(), steps: st.steps, freed: st.free }
}

/// run one actor, and another one within its k-th reader or writer call, on the same thread
pub fn nested(outer: &Actor, inner: &'static Actor, at: usize) -> (String, Option<String>) {
    let seen = std::rc::Rc::new(RefCell::new(None));
    let s2 = seen.clone();
    let mut calls = 0;
    NEST.with(|n| *n.borrow_mut() = Some(Box::new(move || {
        if calls == at { let r = (inner.run)(); *s2.borrow_mut() = Some(r) }
        calls += 1;
    })));
    let r = (outer.run)();
    NEST.with(|n| *n.borrow_mut() = None);
    let i = seen.borrow_mut().take();
    (r, i)
}
pub fn set_nest(f: Option<Box<dyn FnMut()>>) { NEST.with(|n| *n.borrow_mut() = f) }
