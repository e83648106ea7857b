use crate::actors::{actors, Actor};
use crate::explore::{Ctx, Space};
use crate::run::*;
use std::sync::OnceLock;

/// what each actor does when it runs alone, in a process of its own
fn alone() -> &'static [String] {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    A.get_or_init(|| {
        if let Some(k) = crate::actors::KNOWN.get() { return k.alone.clone() }
        let me = std::env::current_exe().expect("exe");
        let kids: Vec<_> = (0..actors().len()).map(|i| {
            std::process::Command::new(&me).args(["alone", &i.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("spawn")
        }).collect();
        kids.into_iter().map(|k| {
            let o = k.wait_with_output().expect("alone");
            assert!(o.status.success(), "harness: a program ends its process");
            String::from_utf8(o.stdout).expect("utf-8")
        }).collect()
    })
}
fn compare(c: &Ctx, who: &[usize], r: &Ran) -> Result<(), String> {
    for (k, i) in who.iter().enumerate() {
        c.observe(r.results[k].as_str());
        if r.results[k] != alone()[*i] {
            let names: Vec<&str> = who.iter().map(|i| actors()[*i].name).collect();
            return Err(format!("{:?} running together: {} gives {:.300}; alone it gives {:.300}", names, names[k], r.results[k], alone()[*i]));
        }
    }
    c.transitions(r.steps);
    c.validated(who.len() as u64);
    if r.freed { c.outcome("let go on") }
    Ok(())
}
fn label(c: &Ctx, who: &[usize]) { c.label(|| who.iter().map(|i| actors()[*i].name).collect::<Vec<_>>().join(" | ")) }

pub const ALL: u32 = u32::MAX;
fn choose2(n: usize, k: usize) -> u64 { let mut r = 1u64; for i in 0..k as u64 { r = r.saturating_mul(n as u64 - i) / (i + 1) } r }

pub fn spaces(th: bool) -> Vec<Space> {
    let n = actors().len();
    alone();
    let far = crate::actors::KNOWN.get();
    let len: &'static [usize] = Box::leak(match far { Some(k) => k.calls.clone(), None => actors().iter().map(calls).collect::<Vec<_>>() }.into_boxed_slice());
    let known: &'static [u8] = match far { Some(_) => &[], None => Box::leak(crate::actors::Known::bytes(alone(), len).into_boxed_slice()) };
    let mut l = Vec::new();
    // every pair; the programs are dealt to the shards by the sum of their numbers
    let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i..n).map(move |j| (i, j))).collect();
    let deal = |k: usize, of: usize| -> &'static [(usize, usize)] {
        Box::leak(pairs.iter().copied().enumerate().filter(|(x, _)| x % of == k).map(|(_, p)| p).collect::<Vec<_>>().into_boxed_slice())
    };
    let most = if th { 3500 } else { 150 };
    let shards = 8;
    for k in 0..shards {
        let mine = deal(k, shards);
        l.push(Space::new(&format!("calls {}/{}", k + 1, shards), &format!("pairs of {} programs: every interleaving of their reader and writer calls, or (where there are more than {}) every one with at most {} preemptions", n, most, if th { 3 } else { 2 }), move |c| {
            let &(i, j) = c.pick(mine);
            let all = choose2(len[i] + len[j], len[i]) <= most;
            let r = together(c, &[&actors()[i], &actors()[j]], Grain::Calls(if all { ALL } else if th { 3 } else { 2 }));
            label(c, &[i, j]);
            c.state_of_choices();
            c.outcome(if all { "any interleaving" } else { "few preemptions" });
            compare(c, &[i, j], &r)
        }));
    }
    l.push(Space::new("one after another", &format!("every sequence of {} of {} programs, one after the other", if th { 4 } else { 3 }, n), move |c| {
        let w: Vec<usize> = (0..if th { 4 } else { 3 }).map(|_| c.choose(n)).collect();
        label(c, &w);
        c.state_of_choices();
        let results = w.iter().map(|i| (actors()[*i].run)()).collect();
        compare(c, &w, &Ran { results, steps: w.len() as u64, freed: false })
    }));
    let times = if th { 140_000 } else { 10_000 };
    l.push(Space::new("again and again", &format!("each of {} programs {} times over, and then every one once", n, times), move |c| {
        let i = c.choose(n);
        c.state_of_choices();
        c.label(|| format!("{} {} times", actors()[i].name, times));
        for k in 0..times {
            let r = (actors()[i].run)();
            if r != alone()[i] { return Err(format!("{} after {} times gives {:.300}; alone it gives {:.300}", actors()[i].name, k, r, alone()[i])) }
            c.beat();
        }
        c.transitions(times);
        let all: Vec<usize> = (0..n).collect();
        let results = all.iter().map(|i| (actors()[*i].run)()).collect();
        compare(c, &all, &Ran { results, steps: n as u64, freed: false })
    }));
    let rounds = if th { 20_000 } else { 2_000 };
    l.push(Space::new("failing again and again", &format!("each of {} programs {} times over with its reader or writer panicking, failing, interrupted or at its end at each of its calls, and then every program once", n, rounds), move |c| {
        let i = c.choose(n);
        let k = c.choose(len[i].max(1)) + 1;
        let m = *c.pick(&[Mishap::Panics, Mishap::Fails, Mishap::IsInterrupted, Mishap::Ends]);
        c.state_of_choices();
        c.label(|| format!("{} {} times, its call {}: {:?}", actors()[i].name, rounds, k, m));
        let mut first = String::new();
        for x in 0..rounds {
            befalls(Some((m, k)));
            let r = (actors()[i].run)();
            befalls(None);
            if x == 0 { first = r } else if r != first { return Err(format!("{}, its reader or writer at call {}: {:?}: the first time it gives {:.300}; after {} times {:.300}", actors()[i].name, k, m, first, x, r)) }
            c.beat();
        }
        c.observe(first.as_str());
        c.transitions(rounds);
        let all: Vec<usize> = (0..n).collect();
        let results = all.iter().map(|i| (actors()[*i].run)()).collect();
        compare(c, &all, &Ran { results, steps: n as u64, freed: false })
    }));
    l.push(Space::new("nested", &format!("each of {} programs run within each reader or writer call of each, on the same thread", n), move |c| {
        let (i, j) = (c.choose(n), c.choose(n));
        let k = c.choose(24);
        let (o, x) = nested(&actors()[i], &actors()[j], k);
        c.label(|| format!("{} within call {} of {}", actors()[j].name, k, actors()[i].name));
        c.state_of_choices();
        c.observe(o.as_str());
        if o != alone()[i] { return Err(format!("{} with {} run within its call {} gives {:.300}; alone it gives {:.300}", actors()[i].name, actors()[j].name, k, o, alone()[i])) }
        match x {
            Some(x) if x != alone()[j] => Err(format!("{} run within call {} of {} gives {:.300}; alone it gives {:.300}", actors()[j].name, k, actors()[i].name, x, alone()[j])),
            Some(_) => { c.outcome("nested"); c.validated(2); Ok(()) }
            None => { c.outcome("fewer calls"); Ok(()) }
        }
    }));
    let deep = if th { vec![20, 130, 300, 1_000, 5_000] } else { vec![20, 130, 300, 1_000] };
    l.push(Space::new("nested deep", &format!("pairs of {} programs taking turns, each run within the first or last reader or writer call of the one before, {:?} deep on one thread", n, deep), move |c| {
        let (i, j) = (c.choose(n), c.choose(n));
        let (d, last) = (*c.pick(&deep), c.flag());
        if len[i] == 0 || len[j] == 0 { c.outcome("no calls"); return Ok(()) }
        c.label(|| format!("{} and {} within each other {} deep", actors()[i].name, actors()[j].name, d));
        c.state_of_choices();
        let got = std::thread::scope(|s| std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || {
            let out = std::rc::Rc::new(std::cell::RefCell::new(Vec::new()));
            chain([i, j], [len[i], len[j]], 0, d, last, &out);
            let o = out.borrow().clone();
            o
        }).expect("thread").join());
        let got = got.map_err(|_| format!("{} and {} within each other {} deep: a panic", actors()[i].name, actors()[j].name, d))?;
        if got.len() != d { return Err(format!("harness: {} of {} programs ran", got.len(), d)) }
        for (k, r) in &got {
            if *r != alone()[*k] { return Err(format!("{} with {} programs open around or within it gives {:.300}; alone it gives {:.300}", actors()[*k].name, d - 1, r, alone()[*k])) }
        }
        c.transitions(d as u64);
        c.validated(d as u64);
        Ok(())
    }));
    let most = if th { vec![33, 257, 1_025, 4_097, 65_537, 1 << 20] } else { vec![33, 257, 1_025, 4_097, 65_537] };
    l.push(Space::new("many at once", &format!("{:?} encoders or decoders alive at once on one thread (or on four), untouched, or taking turns through three values or the elements of a sequence; meanwhile and afterwards every program once", most), move |c| {
        let (k, m, threads) = (*c.pick(&most), c.choose(MANY.len()), if c.flag() { 4 } else { 1 });
        c.label(|| format!("{} {}, {} threads", k, MANY[m], threads));
        c.state_of_choices();
        let meet = Meet::new(threads);
        let l = std::thread::scope(|s| {
            let t: Vec<_> = (0..threads).map(|_| s.spawn(|| many(m, k / threads, &meet))).collect();
            t.into_iter().map(|t| t.join().unwrap_or_else(|_| Err("a panic".into()))).collect::<Vec<_>>()
        });
        for r in l { r.map_err(|e| format!("{} {} alive at once: {}", k, MANY[m], e))? }
        c.transitions(3 * k as u64);
        let all: Vec<usize> = (0..n).collect();
        let results = all.iter().map(|i| (actors()[*i].run)()).collect();
        compare(c, &all, &Ran { results, steps: n as u64, freed: false })
    }));
    for k in 0..shards {
        let mine = deal(k, shards);
        l.push(Space::new(&format!("edges {}/{}", k + 1, shards), &format!("every pair of {} programs, with at most 1 preemption at any edge of the compiled code", n), move |c| {
            let &(i, j) = c.pick(mine);
            let r = together(c, &[&actors()[i], &actors()[j]], Grain::Edges(1));
            label(c, &[i, j]);
            c.state_of_choices();
            compare(c, &[i, j], &r)
        }));
    }
    // two preemptions: the shortest programs
    let few: Vec<usize> = (0..n).filter(|i| ["encode to a slow writer", "decode malformed text", "decode a bad option", "refuse a map key", "read a header", "write a header", "read a bad header"].contains(&actors()[*i].name)).collect();
    let few: &'static [usize] = Box::leak(few.into_boxed_slice());
    if th {
        let pairs: Vec<(usize, usize)> = few.iter().flat_map(|i| few.iter().filter(move |j| i <= *j).map(move |j| (*i, *j))).collect();
        for k in 0..shards {
            let mine: &'static [(usize, usize)] = Box::leak(pairs.iter().copied().enumerate().filter(|(x, _)| x % shards == k).map(|(_, p)| p).collect::<Vec<_>>().into_boxed_slice());
            l.push(Space::new(&format!("edges twice {}/{}", k + 1, shards), &format!("every pair of {} short programs, with at most 2 preemptions at any edge of the compiled code", few.len()), move |c| {
                let &(i, j) = c.pick(mine);
                let r = together(c, &[&actors()[i], &actors()[j]], Grain::Edges(2));
                label(c, &[i, j]);
                c.state_of_choices();
                compare(c, &[i, j], &r)
            }));
        }
    }
    // three at once: the shortest programs
    let few: Vec<usize> = (0..n).filter(|i| ["encode to a slow writer", "decode from a slow reader", "decode malformed text", "decode a bad option", "refuse a map key", "encode a struct", "read a header"].contains(&actors()[*i].name)).collect();
    let few: &'static [usize] = Box::leak(few.into_boxed_slice());
    let most = if th { 12 } else { 8 };
    let who: Vec<[usize; 3]> = (0..few.len()).flat_map(|i| (i..few.len()).flat_map(move |j| (j..few.len()).map(move |k| [few[i], few[j], few[k]])))
        .filter(|w| w.iter().map(|i| len[*i]).sum::<usize>() <= most).collect();
    for s in 0..8 {
        let mine: &'static [[usize; 3]] = Box::leak(who.iter().copied().enumerate().filter(|(x, _)| x % 8 == s).map(|(_, p)| p).collect::<Vec<_>>().into_boxed_slice());
        l.push(Space::new(&format!("triples {}/8", s + 1), &format!("every interleaving of the reader and writer calls of triples of {} short programs (those with at most {} calls together)", few.len(), most), move |c| {
            let who = *c.pick(mine);
            label(c, &who);
            let r = together(c, &who.map(|i| &actors()[i]), Grain::Calls(ALL));
            c.state_of_choices();
            compare(c, &who, &r)
        }));
    }
    // the same from a cold start: each execution in a process that has not used the library before
    let mut cold = Vec::new();
    for k in 0..shards {
        let mine = deal(k, shards);
        cold.push(Space::new(&format!("cold edges {}/{}", k + 1, shards), &format!("every pair of {} programs, with at most 1 preemption at any edge of the compiled code, each time in a fresh process", n), move |c| {
            let &(i, j) = c.pick(mine);
            label(c, &[i, j]);
            let r = together(c, &[&actors()[i], &actors()[j]], Grain::Edges(1));
            c.state_of_choices();
            compare(c, &[i, j], &r)
        }));
    }
    let many = if th { 3 } else { 2 };
    cold.push(Space::new("cold, one after another", &format!("every sequence of {} of {} programs, each time in a fresh process", many, n), move |c| {
        let w: Vec<usize> = (0..many).map(|_| c.choose(n)).collect();
        label(c, &w);
        c.state_of_choices();
        let results = w.iter().map(|i| (actors()[*i].run)()).collect();
        compare(c, &w, &Ran { results, steps: w.len() as u64, freed: false })
    }));
    for mut s in cold {
        let at = l.len();
        s.far = Some(Box::new(move |prefix| apart(th, at, prefix, known)));
        l.push(s);
    }
    for s in l.iter_mut() { s.loose = true }
    l
}
/// an execution in a process of its own
fn apart(th: bool, space: usize, prefix: &[u32], known: &[u8]) -> Result<Vec<u8>, String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let me = std::env::current_exe().expect("exe");
    let case = prefix.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    let mut k = Command::new(&me).args(["far", if th { "thorough" } else { "quick" }, &space.to_string(), &case]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let _ = k.stdin.take().expect("stdin").write_all(known);
    let o = k.wait_with_output().expect("far");
    if !o.status.success() { return Err(format!("the process of these programs ends with {}", o.status)) }
    Ok(o.stdout)
}
/// how many reader and writer calls a program makes
fn calls(a: &Actor) -> usize {
    let n = std::rc::Rc::new(std::cell::Cell::new(0));
    let m = n.clone();
    set_nest(Some(Box::new(move || m.set(m.get() + 1))));
    (a.run)();
    set_nest(None);
    n.get()
}

/// programs within each other's calls; what each gives goes to `out`
fn chain(w: [usize; 2], len: [usize; 2], at: usize, d: usize, last: bool, out: &std::rc::Rc<std::cell::RefCell<Vec<(usize, String)>>>) {
    let me = w[at % 2];
    let o = out.clone();
    let (mut calls, place) = (0, if last { len[at % 2] - 1 } else { 0 });
    set_nest(if at + 1 == d { None } else { Some(Box::new(move || {
        if calls == place { chain(w, len, at + 1, d, last, &o); set_nest(None) }
        calls += 1;
    })) });
    let r = (actors()[me].run)();
    set_nest(None);
    out.borrow_mut().push((me, r));
}

/// threads wait for each other here; one that leaves, by an error or a panic, lets the others go
struct Meet { threads: usize, here: std::sync::atomic::AtomicUsize, gone: std::sync::atomic::AtomicBool }
impl Meet {
    fn new(threads: usize) -> Self { Meet { threads, here: 0.into(), gone: false.into() } }
    fn wait(&self) {
        use std::sync::atomic::Ordering::SeqCst;
        let x = self.here.fetch_add(1, SeqCst);
        let full = (x / self.threads + 1) * self.threads;
        while self.here.load(SeqCst) < full && !self.gone.load(SeqCst) { std::thread::yield_now() }
    }
}
struct Leave<'a>(&'a Meet);
impl Drop for Leave<'_> { fn drop(&mut self) { self.0.gone.store(true, std::sync::atomic::Ordering::SeqCst) } }

const MANY: [&str; 7] = ["encoders, untouched", "encoders of three values each", "encoders, each within a sequence", "encoders, each within a map", "decoders, untouched", "decoders of three values each", "encoders made within each other's lifetime, every second one dropped"];
fn many(kind: usize, k: usize, meet: &Meet) -> Result<(), String> {
    let _leave = Leave(meet);
    use dlhn::{Deserializer, Serializer};
    use serde::ser::{SerializeMap, SerializeSeq};
    use serde::{Deserialize, Serialize, Serializer as _};
    let others = || -> Result<(), String> {
        meet.wait();
        for (i, a) in actors().iter().enumerate() {
            let r = (a.run)();
            if r != alone()[i] { return Err(format!("{} meanwhile gives {:.300}; alone it gives {:.300}", a.name, r, alone()[i])) }
        }
        meet.wait();
        Ok(())
    };
    let check = |i: usize, got: &[u8], want: &[u8]| if got == want { Ok(()) } else { Err(format!("number {} wrote {:02x?} instead of {:02x?}", i, got, want)) };
    let e = |i: usize| move |e: dlhn::ser::Error| format!("number {}: {:?}", i, e);
    let val = |i: usize| (i as u8, i as u16 & 0x7f, "ab");
    let val_bytes = |i: usize| vec![i as u8, i as u8 & 0x7f, 2, b'a', b'b'];
    match kind {
        0 | 1 | 6 => {
            let mut outs = vec![Vec::new(); k];
            let mut l: Vec<Option<Serializer<&mut Vec<u8>>>> = outs.iter_mut().map(|o| Some(Serializer::new(o))).collect();
            if kind == 6 { for s in l.iter_mut().step_by(2) { *s = None } }
            let r = others();
            r?;
            if kind != 0 { for _ in 0..3 { for (i, s) in l.iter_mut().enumerate() { if let Some(s) = s { val(i).serialize(&mut *s).map_err(e(i))?; vec![1u8].serialize(s).map_err(e(i))? } } } }
            drop(l);
            for (i, o) in outs.iter().enumerate() {
                let mut w = val_bytes(i);
                w.extend([1, 1]);
                let w = if kind == 0 || kind == 6 && i % 2 == 0 { vec![] } else { w.repeat(3) };
                check(i, o, &w)?
            }
            Ok(())
        }
        2 | 3 => {
            let mut outs = vec![Vec::new(); k];
            let mut l: Vec<Serializer<&mut Vec<u8>>> = outs.iter_mut().map(Serializer::new).collect();
            let bad;
            if kind == 2 {
                let mut q = Vec::new();
                for (i, s) in l.iter_mut().enumerate() { q.push(s.serialize_seq(Some(3)).map_err(e(i))?) }
                bad = others();
                for x in 0..3 { for i in 0..k { let i = if x == 1 { k - 1 - i } else { i }; q[i].serialize_element(&val(i)).map_err(e(i))? } }
                for (i, s) in q.into_iter().enumerate() { SerializeSeq::end(s).map_err(e(i))? }
            } else {
                let mut q = Vec::new();
                for (i, s) in l.iter_mut().enumerate() { q.push(s.serialize_map(Some(3)).map_err(e(i))?) }
                bad = others();
                for x in 0..3 { for i in 0..k { let i = if x == 1 { k - 1 - i } else { i }; q[i].serialize_key(["a", "b", "c"][x]).map_err(e(i))?; } for i in 0..k { q[i].serialize_value(&val(i)).map_err(e(i))? } }
                for (i, s) in q.into_iter().enumerate() { SerializeMap::end(s).map_err(e(i))? }
            }
            bad?;
            drop(l);
            for (i, o) in outs.iter().enumerate() {
                let v = val_bytes(i);
                let mut w = vec![3];
                for x in 0..3 { if kind == 3 { w.extend([1, b'a' + x]) } w.extend(&v) }
                check(i, o, &w)?
            }
            Ok(())
        }
        _ => {
            let ins: Vec<Vec<u8>> = (0..k).map(|i| val_bytes(i).repeat(3)).collect();
            let mut rs: Vec<&[u8]> = ins.iter().map(|v| &v[..]).collect();
            let mut l: Vec<Deserializer<&[u8]>> = rs.iter_mut().map(Deserializer::new).collect();
            others()?;
            if kind == 5 {
                for x in 0..3 { for i in 0..k {
                    let i = if x == 1 { k - 1 - i } else { i };
                    let v = <(u8, u16, String)>::deserialize(&mut l[i]).map_err(|e| format!("number {}: {:?}", i, e))?;
                    if (v.0, v.1, v.2.as_str()) != val(i) { return Err(format!("number {} reads {:?} instead of {:?}", i, v, val(i))) }
                } }
            }
            drop(l);
            for (i, r) in rs.iter().enumerate() { if r.len() != if kind == 5 { 0 } else { 15 } { return Err(format!("number {}: {} bytes left", i, r.len())) } }
            Ok(())
        }
    }
}
