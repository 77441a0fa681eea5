//! C19..C21: the ring buffer against a log model, sequentially & concurrently
use crate::infra::*;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex, RwLock};

/// element types exercised
trait Elem: Sized + Send + Sync + 'static { fn make(id: u64) -> Self; fn id(&self) -> u64; }
impl Elem for u64 { fn make(id: u64) -> Self { id } fn id(&self) -> u64 { *self } }
impl Elem for u8 { fn make(id: u64) -> Self { id as u8 } fn id(&self) -> u64 { *self as u64 } }
impl Elem for String { fn make(id: u64) -> Self { format!("element #{id}") } fn id(&self) -> u64 { self[9..].parse().unwrap() } }
impl Elem for (u64, [u64; 6]) { fn make(id: u64) -> Self { (id, [id ^ 0xABCD; 6]) } fn id(&self) -> u64 { if self.1.iter().all(|x| *x == self.0 ^ 0xABCD) { self.0 } else { u64::MAX } } }
impl Elem for Box<u64> { fn make(id: u64) -> Self { Box::new(id) } fn id(&self) -> u64 { **self } }

macro_rules! with_ring_type {
    ($r: expr, $f: ident ( $($a: expr),* )) => { match $r.below(14) {
        0 => $f::<u64, 1>($($a),*), 1 => $f::<u64, 2>($($a),*), 2 => $f::<u64, 3>($($a),*), 3 => $f::<u64, 4>($($a),*), 4 => $f::<String, 5>($($a),*),
        5 => $f::<u8, 7>($($a),*), 6 => $f::<(u64, [u64; 6]), 8>($($a),*), 7 => $f::<Box<u64>, 4>($($a),*), 8 => $f::<u64, 16>($($a),*), 9 => $f::<String, 16>($($a),*),
        10 => $f::<u64, 64>($($a),*), 11 => $f::<(u64, [u64; 6]), 100>($($a),*), 12 => $f::<u64, 1024>($($a),*), _ => $f::<Box<u64>, 6>($($a),*),
    } }
}

/// single-threaded history. With `overflows`, consumers are allowed to fall too far behind.
/// There is one such history around each of the `positions`, given in ascending order: elements are just enqueued until they are reached
fn sequential<T: Elem, const N: usize>(c: &mut Case, overflows: bool, positions: &[u64]) -> Result<(), String> {
    let ring = RingBuffer::<T, N>::new();
    let mut enqueued: u64 = 0;
    let element = |i: u64| i % 251;
    let (mut overflowed, mut wraps, mut peeks, mut deqs, mut created) = (0u64, 0u64, 0u64, 0u64, 0);
    struct K<'a, T, const N: usize> { real: RingBufferConsumer<'a, T, N>, head: u64, failed: bool }
    let mut ks: Vec<K<T, N>> = vec![];
    let mut old: Option<K<T, N>> = None;
    for (n, position) in positions.iter().enumerate() {
    if !overflows { ks.clear() }
    // most overflows are only noticed much later
    while ks.len() > 2 { let k = c.rng.below(ks.len() as u64) as usize; ks.remove(k); }
    if overflows && positions.len() > 1 && n == positions.len() / 2 { old = Some(K { real: ring.consumer(), head: enqueued, failed: false }) }
    while enqueued < *position { ring.enqueue(T::make(element(enqueued))); enqueued += 1; }
    let mut trace: Vec<String> = vec![];
    let ops = if c.rng.chance(10) { c.rng.range(N as u64 * 3, N as u64 * 6 + 400) } else { c.rng.range(10, 400) };
    let burst_bias = c.rng.below(3);
    if ring.get_buffer_size() != N { return Err(format!("get_buffer_size() is {}", ring.get_buffer_size())); }
    let mut i = 0;
    let show = |t: &Vec<String>, enqueued: u64| format!("{} slots of {}; {} enqueued so far; last operations: {}", N, std::any::type_name::<T>(), enqueued, t[t.len().saturating_sub(40)..].join(", "));
    while i < ops {
        i += 1;
        match c.rng.below(10) {
            0 if ks.len() < 6 => { ks.push(K { real: ring.consumer(), head: enqueued, failed: false }); created += 1; trace.push(format!("consumer #{}", ks.len() - 1)); }
            1 if ks.len() > 2 && c.rng.chance(20) => { let k = c.rng.below(ks.len() as u64) as usize; ks.remove(k); trace.push(format!("drop consumer #{k}")); }
            0..=4 => {
                let burst = if overflows && c.rng.below(5000) == 0 { *c.rng.pick(&[1u64 << 8, 1 << 15, 1 << 16, 1 << 16, 2 << 16, 1 << 17]).max(&(N as u64 * 2)) - c.rng.below(N as u64 + 2) } else { match burst_bias { 0 => 1, 1 => c.rng.range(1, 4), _ => c.rng.range(1, N as u64 + 2) } };
                trace.push(format!("enqueue up to {burst} from #{enqueued}"));
                for _ in 0..burst {
                    if !overflows && ks.iter().any(|k| enqueued - k.head >= N as u64) { break; }
                    ring.enqueue(T::make(element(enqueued)));
                    enqueued += 1;
                    if enqueued % N as u64 == 0 { wraps += 1; }
                }
            }
            op => {
                if ks.is_empty() { continue; }
                let ki = c.rng.below(ks.len() as u64) as usize;
                let times = if c.rng.chance(20) { N as u64 + 1 } else { 1 };
                for _ in 0..times {
                    let k = &mut ks[ki];
                    let behind = enqueued - k.head;
                    let want_err = behind > N as u64;
                    if want_err && !k.failed { k.failed = true; overflowed += 1; }
                    if op < 8 {
                        deqs += 1;
                        trace.push(format!("dequeue #{ki}"));
                        let got = k.real.dequeue().map(|e| e.map(|e| e.id()));
                        let want = if want_err { Err(()) } else if behind == 0 { Ok(None) } else { Ok(Some(element(k.head))) };
                        match (&got, &want) {
                            (Err(_), Err(())) => {}
                            (Ok(g), Ok(w)) if g == w => { if g.is_some() { k.head += 1; } }
                            _ => { c.desc = show(&trace, enqueued); return Err(format!("consumer #{ki}, {behind} elements behind: dequeue yielded {got:?}, expected {want:?}")); }
                        }
                    } else {
                        peeks += 1;
                        trace.push(format!("peek #{ki}"));
                        let got: Result<Vec<u64>, String> = k.real.peek_all().map(|ch| ch.iter().flat_map(|s| s.iter().map(|e| e.id())).collect()).map_err(|e| e.to_string());
                        let want: Result<Vec<u64>, ()> = if want_err { Err(()) } else { Ok((k.head..enqueued).map(element).collect()) };
                        match (&got, &want) {
                            (Err(_), Err(())) => {}
                            (Ok(g), Ok(w)) if g == w => {}
                            _ => { c.desc = show(&trace, enqueued); return Err(format!("consumer #{ki}, {behind} elements behind: peek yielded {got:?}, expected {want:?}")); }
                        }
                        break;
                    }
                }
            }
        }
    }
    // everything still unread must be there
    for (ki, k) in ks.iter_mut().enumerate() {
        trace.push(format!("drain #{ki}"));
        for _ in 0..=N {
            let behind = enqueued - k.head;
            let got = k.real.dequeue().map(|e| e.map(|e| e.id()));
            let fine = match &got { Err(_) => behind > N as u64, Ok(None) => behind == 0, Ok(Some(x)) => behind > 0 && behind <= N as u64 && *x == element(k.head) };
            if !fine { c.desc = show(&trace, enqueued); return Err(format!("consumer #{ki}, {behind} elements behind: dequeue yielded {got:?}")); }
            if let Ok(Some(_)) = got { k.head += 1 }
        }
    }
    }
    if let Some(old) = old {
        let until = old.head + (1 << 32) + c.rng.below(N as u64 + 1);
        while enqueued < until { ring.enqueue(T::make(element(enqueued))); enqueued += 1; }
        let got = if c.rng.chance(50) { old.real.dequeue().map(|e| e.map(|e| e.id())).map_err(|e| e.to_string()) } else { old.real.peek_all().map(|ch| ch.iter().flat_map(|s| s.iter()).next().map(|e| e.id())).map_err(|e| e.to_string()) };
        if got.is_ok() { c.desc = format!("{N} slots of {}", std::any::type_name::<T>()); return Err(format!("a consumer {} elements behind yielded {got:?}", enqueued - old.head)); }
    }
    c.desc = format!("{N} slots of {}, {} enqueues ({wraps} observed laps), {deqs} dequeues, {peeks} peeks, {} consumers, {overflowed} overflows", std::any::type_name::<T>(), enqueued, created);
    c.evals(deqs + peeks);
    c.count("operations", enqueued + deqs + peeks);
    c.count("laps", wraps);
    c.count("overflowed_consumers", overflowed);
    c.key(&[N as u64, enqueued, deqs, peeks, overflowed, wraps]);
    Ok(())
}
pub fn c19(ctx: &mut Ctx) {
    let (n, t) = (ctx.n(40_000, 700_000), (25.0, 400.0));
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(t.0, t.1) { break; }
        ctx.case(|c| { let mut r = c.rng.clone(); let p = positions(c); with_ring_type!(r, sequential(c, false, &p)) });
    }
}
/// where histories happen: mostly, at the start
fn positions(c: &mut Case) -> Vec<u64> {
    if !c.rng.chance(1) { return vec![0] }
    let around = *c.rng.pick(&[1u64 << 8, 1 << 15, 1 << 16, 1 << 16, 3 << 16, 100_000]);
    vec![around - c.rng.below(around.min(200))]
}
/// histories along rings which lived long enough for counters of 8, 16, 24, 31 & 32 bits to go around
pub fn long_lived(ctx: &mut Ctx, overflows: bool) {
    let seed = ctx.seed;
    let first = ctx.n(1, 3);
    for kind in 0..first {
        ctx.case(|c| {
            let mut p = vec![];
            for bits in [8, 15, 16, 17, 20, 24, 31, 32] { for _ in 0..4 { p.push((1u64 << bits) - c.rng.below(60)) } }
            p.sort();
            c.count("enqueues", 1 << 32);
            match (seed + kind) % 3 { 0 => sequential::<u64, 7>(c, overflows, &p), 1 => sequential::<u8, 100>(c, overflows, &p), _ => sequential::<u64, 3>(c, overflows, &p) }
        });
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Enq(u64), Deq(usize, Option<u64>), }
#[derive(Clone, Debug)]
struct Ev { op: Op, inv: u64, res: u64 }
#[derive(Clone, Debug)]
struct Peek { consumer: usize, seen: Vec<u64>, inv: u64, res: u64 }
/// a consumer created while the others work
#[derive(Clone, Debug)]
struct Late { inv: u64, res: u64, seen: Vec<u64> }

fn jitter(r: &mut Rng, level: u64) {
    match level {
        0 => {}
        1 => if r.chance(30) { for _ in 0..r.below(60) { std::hint::spin_loop(); } },
        _ => if r.chance(4) { std::thread::yield_now(); } else if r.chance(20) { for _ in 0..r.below(400) { std::hint::spin_loop(); } },
    }
}

/// concurrent history without overflows, checked afterwards
fn concurrent<T: Elem, const N: usize>(c: &mut Case, producers: usize, sharing: Vec<usize>, per_producer: u64, level: u64) -> Result<(), String> {
    let ring = RingBuffer::<T, N>::new();
    let clock = AtomicU64::new(1);
    let now = || clock.fetch_add(1, SeqCst);
    let total = per_producer * producers as u64;
    let wraps = total > N as u64;
    // consumer 0 is never shared: its order is the order
    let consumers: Vec<RingBufferConsumer<T, N>> = (0..sharing.len()).map(|_| ring.consumer()).collect();
    let taken: Vec<AtomicU64> = sharing.iter().map(|_| AtomicU64::new(0)).collect();
    // for each thread dequeuing, how many elements its consumer's threads were done with when it started (`head` can't be less)
    let busy: Vec<Vec<AtomicU64>> = sharing.iter().map(|k| (0..*k).map(|_| AtomicU64::new(u64::MAX)).collect()).collect();
    // all elements in the positions before this one were already taken & used by every consumer
    let floor = || (0..taken.len()).map(|ci| { let t = taken[ci].load(SeqCst); busy[ci].iter().map(|b| b.load(SeqCst)).fold(t, u64::min) }).min().unwrap();
    let tickets = AtomicU64::new(0);
    let produced = AtomicU64::new(0);
    let producing = RwLock::new(());
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let abort = AtomicBool::new(false);
    let events: Mutex<Vec<Ev>> = Mutex::new(vec![]);
    let peeks: Mutex<Vec<Peek>> = Mutex::new(vec![]);
    let lates: Mutex<Vec<Late>> = Mutex::new(vec![]);
    let peekers = 1usize;
    let late_threads = if wraps { 0 } else { 1 };
    let threads = producers + sharing.iter().sum::<usize>() + peekers + late_threads;
    let barrier = Barrier::new(threads);
    let fail = |m: String| { abort.store(true, SeqCst); failed.lock().unwrap().get_or_insert(m); };
    let seed = c.rng.next();
    std::thread::scope(|s| {
        for p in 0..producers {
            let (ring, barrier, now, tickets, taken, floor, events, producing, abort, produced, fail) = (&ring, &barrier, &now, &tickets, &taken, &floor, &events, &producing, &abort, &produced, &fail);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (p as u64 + 1));
                let mut evs = Vec::with_capacity(per_producer as usize);
                barrier.wait();
                for i in 0..per_producer {
                    let ticket = tickets.fetch_add(1, SeqCst);
                    let mut spins = 0u64;
                    while ticket >= floor() + N as u64 {
                        if abort.load(Relaxed) { return; }
                        spins += 1; if spins % 64 == 0 { std::thread::yield_now() } else { std::hint::spin_loop() }
                        if spins % (1 << 20) == 0 && thread_cpu_s() > 30.0 { fail(format!("elements already enqueued are never delivered: consumers took {:?} of the {ticket} already enqueued", taken.iter().map(|t| t.load(SeqCst)).collect::<Vec<_>>())); }
                    }
                    jitter(&mut r, level);
                    let id = (p as u64) << 32 | i;
                    let e = T::make(id);
                    let _g = if wraps { Some(producing.read().unwrap()) } else { None };
                    let inv = now();
                    ring.enqueue(e);
                    let res = now();
                    drop(_g);
                    produced.fetch_add(1, SeqCst);
                    evs.push(Ev { op: Op::Enq(id), inv, res });
                }
                events.lock().unwrap().extend(evs);
            });
        }
        for (ci, k) in sharing.iter().enumerate() {
            for t in 0..*k {
                let (consumer, barrier, now, taken, busy, events, fail, abort, produced) = (&consumers[ci], &barrier, &now, &taken[ci], &busy[ci][t], &events, &fail, &abort, &produced);
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ ((ci as u64 + 1) << 8) ^ ((t as u64 + 1) << 16));
                    let mut evs = vec![];
                    let mut nones = 0;
                    barrier.wait();
                    while taken.load(SeqCst) < total && !abort.load(Relaxed) {
                        jitter(&mut r, level);
                        let all_produced = produced.load(SeqCst) >= total;
                        busy.store(taken.load(SeqCst), SeqCst);
                        let inv = now();
                        let d = consumer.dequeue();
                        match d {
                            Ok(Some(e)) => { let id = e.id(); let res = now(); taken.fetch_add(1, SeqCst); evs.push(Ev { op: Op::Deq(ci, Some(id)), inv, res }); nones = 0; }
                            Ok(None) => { let res = now(); nones += 1; if nones < 300 { evs.push(Ev { op: Op::Deq(ci, None), inv, res }); } else { std::thread::yield_now(); } if all_produced { break } }
                            Err(e) => fail(format!("consumer #{ci} got an error although it's never more than {N} elements behind: {e}")),
                        }
                        busy.store(u64::MAX, SeqCst);
                    }
                    events.lock().unwrap().extend(evs);
                });
            }
        }
        for p in 0..peekers {
            let (consumers, barrier, now, tickets, peeks, producing, fail, abort) = (&consumers, &barrier, &now, &tickets, &peeks, &producing, &fail, &abort);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ ((p as u64 + 1) << 24));
                let mut out = vec![];
                barrier.wait();
                while tickets.load(SeqCst) < total && !abort.load(Relaxed) && out.len() < 200 {
                    let ci = r.below(consumers.len() as u64) as usize;
                    // when slots are reused, they can't be replaced while being looked at -- as the documentation demands
                    let _g = if wraps { Some(producing.write().unwrap()) } else { None };
                    let inv = now();
                    match consumers[ci].peek_all() {
                        Ok(chunks) => { let seen: Vec<u64> = chunks.iter().flat_map(|s| s.iter().map(|e| e.id())).collect(); let res = now(); out.push(Peek { consumer: ci, seen, inv, res }); }
                        Err(e) => fail(format!("peeking consumer #{ci} failed although it's never more than {N} elements behind: {e}")),
                    }
                    drop(_g);
                    jitter(&mut r, 2);
                }
                peeks.lock().unwrap().extend(out);
            });
        }
        for l in 0..late_threads {
            let (ring, barrier, now, produced, lates, abort) = (&ring, &barrier, &now, &produced, &lates, &abort);
            let fail = &fail;
            s.spawn(move || {
                let mut r = Rng::new(seed ^ ((l as u64 + 1) << 30));
                barrier.wait();
                for _ in 0..r.below(300) { std::hint::spin_loop(); }
                let inv = now();
                let k = ring.consumer();
                let res = now();
                let mut seen = vec![];
                loop {
                    let done = produced.load(SeqCst) >= total;
                    match k.dequeue() {
                        Ok(Some(e)) => seen.push(e.id()),
                        Ok(None) => if done || abort.load(Relaxed) { break } else { std::hint::spin_loop() },
                        Err(e) => { fail(format!("a late consumer got an error: {e}")); break }
                    }
                }
                lates.lock().unwrap().push(Late { inv, res, seen });
            });
        }
    });
    let setup = format!("{N} slots of {}, {producers} producers of {per_producer}, consumers shared by {sharing:?} threads, jitter {level}", std::any::type_name::<T>());
    c.desc = setup.clone();
    if let Some(m) = failed.into_inner().unwrap() { return Err(m); }
    let events = events.into_inner().unwrap();
    let peeks = peeks.into_inner().unwrap();
    let lates = lates.into_inner().unwrap();
    // ids may have been narrowed by the element type
    let key = |id: u64| T::make(id).id();
    let mut enq: HashMap<u64, (u64, u64)> = HashMap::new();
    for e in &events { if let Op::Enq(id) = e.op { enq.insert(key(id), (e.inv, e.res)); } }
    // the global order
    let mut deqs: Vec<Vec<(u64, u64, u64)>> = vec![vec![]; sharing.len()];
    let mut nones: Vec<Vec<(u64, u64)>> = vec![vec![]; sharing.len()];
    for e in &events { if let Op::Deq(ci, x) = e.op { match x { Some(id) => deqs[ci].push((e.inv, e.res, id)), None => nones[ci].push((e.inv, e.res)) } } }
    deqs[0].sort();
    let mut pos: HashMap<u64, usize> = HashMap::new();
    for (i, d) in deqs[0].iter().enumerate() { if pos.insert(d.2, i).is_some() { return Err(format!("consumer #0 was given element {:#x} twice", d.2)); } }
    let order: Vec<u64> = deqs[0].iter().map(|d| d.2).collect();
    for (id, _) in &enq { if !pos.contains_key(id) { return Err(format!("consumer #0 was never given element {id:#x}")); } }
    if order.len() != enq.len() { return Err(format!("consumer #0 was given elements never enqueued: {:x?}", order.iter().filter(|i| !enq.contains_key(i)).collect::<Vec<_>>())); }
    // consistent with real-time order of enqueues
    let mut max_inv = 0;
    for id in order.iter().rev().collect::<Vec<_>>().into_iter().rev() {
        let (inv, res) = enq[id];
        if res < max_inv { return Err(format!("element {id:#x} was enqueued before another one that precedes it in the order consumer #0 got them")); }
        max_inv = max_inv.max(inv);
    }
    for (ci, d) in deqs.iter().enumerate() {
        let mut seen: HashMap<u64, (u64, u64)> = HashMap::new();
        for (inv, res, id) in d {
            let Some(e) = enq.get(id) else { return Err(format!("consumer #{ci} was given {id:#x}, which was never enqueued")) };
            if *res < e.0 { return Err(format!("consumer #{ci} was given {id:#x} before it was enqueued")); }
            if seen.insert(*id, (*inv, *res)).is_some() { return Err(format!("consumer #{ci} was given {id:#x} twice")); }
        }
        if let Some(id) = order.iter().find(|id| !seen.contains_key(id)) { return Err(format!("consumer #{ci} was never given {id:#x}")); }
        let mut max_inv = 0;
        for id in &order {
            let (inv, res) = seen[id];
            if res < max_inv { return Err(format!("consumer #{ci} was given {id:#x} before an element that precedes it")); }
            max_inv = max_inv.max(inv);
        }
        // empty only when everything enqueued before was taken
        let mut by_res: Vec<(u64, u64)> = order.iter().map(|id| (enq[id].1, seen[id].0)).collect();
        by_res.sort();
        let mut worst = Vec::with_capacity(by_res.len());
        let mut m = 0; for (_, deq_inv) in &by_res { m = m.max(*deq_inv); worst.push(m); }
        for (inv, res) in &nones[ci] {
            let k = by_res.partition_point(|x| x.0 < *inv);
            if k > 0 && worst[k - 1] > *res { return Err(format!("consumer #{ci} was reported empty at [{inv},{res}], when an element enqueued before that was only taken later")); }
        }
        // peeks
        for p in peeks.iter().filter(|p| p.consumer == ci) {
            let mut want = None;
            for id in &p.seen {
                let Some(i) = pos.get(id) else { return Err(format!("a peek on consumer #{ci} shows {id:#x}, which was never enqueued")) };
                if want.map_or(false, |w| w != *i) { return Err(format!("a peek on consumer #{ci} shows {:x?}: not a gap-free run of the order {:x?}", p.seen, order.iter().take(40).collect::<Vec<_>>())); }
                want = Some(*i + 1);
                if enq[id].0 > p.res { return Err(format!("a peek on consumer #{ci} shows {id:#x} before it was enqueued")); }
                if seen[id].1 < p.inv { return Err(format!("a peek on consumer #{ci} shows {id:#x}, taken before")); }
            }
            for id in &order { if enq[id].1 < p.inv && seen[id].0 > p.res && !p.seen.contains(id) { return Err(format!("a peek on consumer #{ci} doesn't show {id:#x}, enqueued before it and taken after")); } }
        }
    }
    for l in &lates {
        if let Some(first) = l.seen.first() {
            let at = pos[first];
            if l.seen[..] != order[at..] { return Err(format!("a consumer created while elements were enqueued got {:x?} rather than the tail of {order:x?}", l.seen)); }
        }
        for id in &order {
            let got = l.seen.contains(id);
            if enq[id].0 > l.res && !got { return Err(format!("a consumer missed {id:#x}, enqueued after its creation")); }
            if enq[id].1 < l.inv && got { return Err(format!("a consumer got {id:#x}, enqueued before its creation")); }
        }
    }
    let overlapping = { let mut es: Vec<(u64, u64)> = enq.values().copied().collect(); es.sort(); es.windows(2).filter(|w| w[1].0 < w[0].1).count() as u64 };
    let empties: u64 = nones.iter().map(|n| n.len() as u64).sum();
    c.desc = format!("{setup}: {} enqueues ({overlapping} overlapping the next one), {} empty dequeues, {} peeks; order of the first elements: {:x?}", enq.len(), empties, peeks.len(), order.iter().take(12).collect::<Vec<_>>());
    c.key(&order.iter().map(|x| *x).chain(events.len().min(1) as u64..1).chain([N as u64, empties]).collect::<Vec<_>>());
    c.count("events", events.len() as u64 + peeks.len() as u64);
    c.count("overlapping_enqueues", overlapping);
    c.count("empty_dequeues", empties);
    c.count("peeks", peeks.len() as u64);
    c.count("nonempty_peeks", peeks.iter().filter(|p| !p.seen.is_empty()).count() as u64);
    c.count("late_consumers_with_partial_view", lates.iter().filter(|l| !l.seen.is_empty() && l.seen.len() < order.len()).count() as u64);
    Ok(())
}
/// consumers which come & go while others enqueue: each one sees precisely what is enqueued after its creation
fn arrivals<const N: usize>(c: &mut Case) -> Result<(), String> {
    let ring = RingBuffer::<u64, N>::new();
    let clock = AtomicU64::new(1);
    let now = || clock.fetch_add(1, SeqCst);
    let producers = c.rng.range(2, 4);
    let level = c.rng.below(2);
    let per_producer = N as u64 / producers;
    let first = ring.consumer();
    let seed = c.rng.next();
    let enqueues: Mutex<HashMap<u64, (u64, u64)>> = Mutex::new(HashMap::new());
    // (creation, look, first element seen, last one, how many)
    let looks: Mutex<Vec<((u64, u64), (u64, u64), u64, u64, usize)>> = Mutex::new(vec![]);
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let done = AtomicU64::new(0);
    let barrier = Barrier::new(producers as usize + 2);
    std::thread::scope(|s| {
        for p in 0..producers {
            let (ring, now, enqueues, done, barrier) = (&ring, &now, &enqueues, &done, &barrier);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (p + 1));
                let mut mine = Vec::with_capacity(per_producer as usize);
                barrier.wait();
                for i in 0..per_producer {
                    let id = p << 32 | i;
                    jitter(&mut r, level);
                    let inv = now();
                    ring.enqueue(id);
                    mine.push((id, (inv, now())));
                }
                done.fetch_add(1, SeqCst);
                enqueues.lock().unwrap().extend(mine);
            });
        }
        for t in 0..2u64 {
            let (ring, now, looks, done, barrier, failed) = (&ring, &now, &looks, &done, &barrier, &failed);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t + 1) << 20);
                let mut mine = vec![];
                barrier.wait();
                while done.load(SeqCst) < producers && mine.len() < 20_000 {
                    let inv = now();
                    let k = ring.consumer();
                    let res = now();
                    let pause = r.below(4); for _ in 0..pause * pause { std::hint::spin_loop(); }
                    let peek_first = r.chance(60);
                    for what in 0..2 {
                        let l_inv = now();
                        if peek_first == (what == 0) {
                            match k.peek_all() {
                                Ok(chunks) => { let (n, f, l) = (chunks[0].len() + chunks[1].len(), chunks[0].first().copied(), chunks[1].last().or(chunks[0].last()).copied()); mine.push(((inv, res), (l_inv, now()), f.unwrap_or(0), l.unwrap_or(0), n)); }
                                Err(e) => { failed.lock().unwrap().get_or_insert(format!("a new consumer, {N} elements at most having ever been enqueued, failed to peek: {e}")); return }
                            }
                            if peek_first { break }
                        } else {
                            // the first element taken
                            match k.dequeue() {
                                Ok(Some(e)) => { mine.push(((inv, res), (l_inv, now()), *e, *e, 1)); break }
                                Ok(None) => {}
                                Err(e) => { failed.lock().unwrap().get_or_insert(format!("a new consumer, {N} elements at most having ever been enqueued, failed to dequeue: {e}")); return }
                            }
                        }
                    }
                }
                looks.lock().unwrap().extend(mine);
            });
        }
    });
    if let Some(m) = failed.into_inner().unwrap() { return Err(m); }
    let enq = enqueues.into_inner().unwrap();
    let mut order = vec![];
    while let Some(e) = first.dequeue().map_err(|e| e.to_string())? { order.push(*e); }
    let pos: HashMap<u64, usize> = order.iter().enumerate().map(|(i, id)| (*id, i)).collect();
    if order.len() != enq.len() || pos.len() != enq.len() || enq.keys().any(|id| !pos.contains_key(id)) { return Err(format!("{} elements were enqueued; the first consumer got {}, {} of them different", enq.len(), order.len(), pos.len())); }
    // by position: the latest start & the earliest end of the enqueues from it on, and the latest end of those up to it
    let n = order.len();
    let mut started_by = vec![0u64; n + 1]; for i in 0..n { started_by[i + 1] = started_by[i].max(enq[&order[i]].0); }
    let mut ended_from = vec![u64::MAX; n + 1]; for i in (0..n).rev() { ended_from[i] = ended_from[i + 1].min(enq[&order[i]].1); }
    for i in 0..n { if started_by[i] > enq[&order[i]].1 { return Err(format!("{:#x} was enqueued before an element that precedes it", order[i])); } }
    // by start: the earliest end (& whose it is) of the enqueues started from it on
    let mut by_start: Vec<(u64, u64, u64)> = enq.iter().map(|(id, e)| (e.0, e.1, *id)).collect();
    by_start.sort();
    for i in (1..n).rev() { if by_start[i].1 < by_start[i - 1].1 { (by_start[i - 1].1, by_start[i - 1].2) = (by_start[i].1, by_start[i].2); } }
    let looks = looks.into_inner().unwrap();
    let mut seen = 0u64;
    let mut in_flight = 0u64;
    for ((inv, res), (l_inv, l_res), f, l, k) in &looks {
        if *k == 0 {
            // nothing may have been wholly enqueued between the creation and the look
            let from = by_start.partition_point(|(start, _, _)| start <= res);
            if let Some((_, end, id)) = by_start.get(from).filter(|x| x.1 < *l_inv) { return Err(format!("a consumer created at [{inv},{res}] saw nothing at [{l_inv},{l_res}]: {id:#x} was enqueued since, and until {end}")); }
            continue;
        }
        seen += 1;
        let (Some(a), Some(b)) = (pos.get(f), pos.get(l)) else { return Err(format!("a new consumer saw {f:#x}..{l:#x}: not elements that were enqueued")) };
        if a + k != b + 1 { return Err(format!("a new consumer saw {k} elements, from the {a}th to the {b}th")); }
        if enq[f].1 < *inv { return Err(format!("a consumer created at [{inv},{res}] saw {f:#x}, enqueued at {:?}", enq[f])); }
        if started_by[b + 1] > *l_res { return Err(format!("a consumer looking at [{l_inv},{l_res}] saw elements up to {l:#x}, including some that weren't enqueued yet")); }
        // what precedes the first one may not have started after the creation; what follows the last may not have ended before the look
        if started_by[*a] > *res { return Err(format!("a consumer created at [{inv},{res}] has {f:#x} as its first element: another one enqueued after the creation precedes it")); }
        if l_inv != l_res && f != l && ended_from[b + 1] < *l_inv { return Err(format!("a consumer looking at [{l_inv},{l_res}] saw elements up to {l:#x} only: the ones enqueued before that should be seen too")); }
        if enq[f].0 < *res { in_flight += 1; }
    }
    c.desc = format!("{N} slots, {producers} producers of {per_producer}, {} consumers created meanwhile, {seen} of which saw something", looks.len());
    c.count("events", (enq.len() + looks.len()) as u64);
    c.count("consumers_created_while_enqueueing", looks.len() as u64);
    c.count("of_which_got_an_element_in_flight_at_their_creation", in_flight);
    c.key(&[N as u64, order.iter().fold(0, |h, id| (h ^ id).wrapping_mul(0x100000001b3))]);
    Ok(())
}

pub fn c20(ctx: &mut Ctx) {
    let n = ctx.n(16_000, 100_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(40.0, 500.0) { break; }
        if i % 40 == 7 {
            ctx.case(|c| if c.rng.chance(50) { arrivals::<1024>(c) } else { arrivals::<4096>(c) });
            continue;
        }
        ctx.case(|c| {
            let producers = c.rng.range(1, 3) as usize;
            let sharing = match c.rng.below(5) { 0 => vec![1], 1 => vec![1, 2], 2 => vec![1, 1], 3 => vec![1, 3], _ => vec![1, 2, 1] };
            let level = c.rng.below(3);
            let wrapping = c.rng.chance(60);
            if wrapping {
                let per = c.rng.range(20, 250) / producers as u64;
                match c.rng.below(7) {
                    0 => concurrent::<u64, 1>(c, producers, sharing, per, level),
                    1 => concurrent::<u64, 2>(c, producers, sharing, per, level),
                    2 => concurrent::<(u64, [u64; 6]), 3>(c, producers, sharing, per, level),
                    3 => concurrent::<Box<u64>, 4>(c, producers, sharing, per, level),
                    4 => concurrent::<u64, 8>(c, producers, sharing, per, level),
                    5 => concurrent::<String, 5>(c, producers, sharing, per, level),
                    _ => concurrent::<u64, 16>(c, producers, sharing, per, level),
                }
            } else {
                match c.rng.below(2) {
                    0 => { let per = c.rng.range(5, 64 / producers as u64); concurrent::<(u64, [u64; 6]), 64>(c, producers, sharing, per, level) }
                    _ => { let per = c.rng.range(20, 512 / producers as u64); concurrent::<u64, 512>(c, producers, sharing, per, level) }
                }
            }
        });
    }
}

/// consumers driven into overflow while being used: final from the moment it is first reported, never for those who keep up
fn overflowing<const N: usize>(c: &mut Case) -> Result<(), String> {
    let ring = RingBuffer::<u64, N>::new();
    let slow = ring.consumer();
    let fast = ring.consumer();
    let rounds = c.rng.range(1, 4);
    let seed = c.rng.next();
    let sharers = c.rng.range(1, 3);
    let (started, done, fast_taken) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let slow_taken = AtomicU64::new(0);
    let errored = AtomicBool::new(false);
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let fail = |m: String| { failed.lock().unwrap().get_or_insert(m); };
    let mut total = 0u64;
    let (mut errs, mut oks, mut at_edge) = (0u64, 0u64, 0u64);
    for round in 0..rounds {
        // enqueue a few elements less or more than what the slow consumer can stand
        let backlog = total - slow_taken.load(SeqCst).min(total);
        let k = match c.rng.below(4) { 0 => c.rng.range(1, 2 * N as u64 + 2), _ => (N as u64 + 1 + c.rng.below(3)).saturating_sub(backlog.min(N as u64)).max(1) };
        let counts = Mutex::new((0u64, 0u64));
        let start = &Barrier::new(2 + sharers as usize);
        std::thread::scope(|s| {
            let (ring, slow, fast, started, done, fast_taken, slow_taken, errored, fail, counts) = (&ring, &slow, &fast, &started, &done, &fast_taken, &slow_taken, &errored, &fail, &counts);
            
            s.spawn(move || {
                let mut r = Rng::new(seed ^ round);
                start.wait();
                for i in 0..k {
                    // never lets the fast consumer overflow
                    while total + i >= fast_taken.load(SeqCst) + N as u64 { std::hint::spin_loop(); }
                    jitter(&mut r, 1);
                    started.fetch_add(1, SeqCst);
                    ring.enqueue(total + i);
                    done.fetch_add(1, SeqCst);
                }
            });
            s.spawn(move || {
                start.wait();
                let mut n = total;
                while n < total + k {
                    match fast.dequeue() {
                        Ok(Some(e)) => { if *e != n { fail(format!("the consumer that keeps up got {e}, expected {n}")); } n += 1; fast_taken.fetch_add(1, SeqCst); }
                        Ok(None) => std::hint::spin_loop(),
                        Err(e) => { fail(format!("the consumer that keeps up got an error, {} elements behind at most: {e}", N)); fast_taken.fetch_add(1 << 40, SeqCst); return; }
                    }
                }
            });
            for t in 0..sharers {
                s.spawn(move || {
                    let mut r = Rng::new(seed ^ (round << 20) ^ ((t + 1) << 40));
                    start.wait();
                    let tries = r.below(N as u64 + 4);
                    for _ in 0..tries {
                        jitter(&mut r, 1);
                        let before = errored.load(SeqCst);
                        let taken_before = slow_taken.load(SeqCst);
                        let peek = r.chance(20);
                        let res: Result<bool, String> = if peek { slow.peek_all().map(|ch| ch.iter().any(|s| !s.is_empty())).map_err(|e| e.to_string()) } else { slow.dequeue().map(|e| e.is_some()).map_err(|e| e.to_string()) };
                        match res {
                            Ok(some) => {
                                if before { fail(format!("the overflowed consumer, shared by {sharers} threads, {} after having reported the overflow", if peek { "could be peeked" } else if some { "gave an element" } else { "was reported empty" })); }
                                if some && !peek { slow_taken.fetch_add(1, SeqCst); }
                                counts.lock().unwrap().0 += 1;
                            }
                            Err(e) => {
                                errored.store(true, SeqCst);
                                let s = started.load(SeqCst);
                                // (elements given back by up to 'sharers - 1' threads might have been counted)
                                if s + sharers - 1 <= taken_before + N as u64 { fail(format!("a consumer at most {} elements behind got an error: {e}", s - taken_before)); }
                                counts.lock().unwrap().1 += 1;
                            }
                        }
                    }
                });
            }
        });
        total += k;
        let (o, e) = counts.into_inner().unwrap();
        oks += o; errs += e;
        c.desc = format!("{N} slots, {sharers} threads sharing a slow consumer, round {round}: {total} elements enqueued, {} taken by the slow consumer, overflow reported: {}", slow_taken.load(SeqCst), errored.load(SeqCst));
        if let Some(m) = failed.lock().unwrap().take() { return Err(m); }
        let behind = total - slow_taken.load(SeqCst);
        if behind == N as u64 || behind == N as u64 + 1 { at_edge += 1; }
        let must_fail = errored.load(SeqCst) || behind > N as u64;
        for _ in 0..2 {
            let p = slow.peek_all().map(|ch| ch.iter().flat_map(|s| s.iter().copied()).collect::<Vec<u64>>());
            match (p, must_fail) {
                (Err(_), true) => errored.store(true, SeqCst),
                (Ok(v), false) => if v != (total - behind..total).collect::<Vec<u64>>() { return Err(format!("peek yielded {v:?}, {behind} elements behind")); },
                (Err(e), false) => return Err(format!("peek failed on a consumer {behind} elements behind: {e}")),
                (Ok(v), true) => return Err(format!("peek yielded {} elements on an overflowed consumer", v.len())),
            }
            if must_fail && !slow.dequeue().is_err() { return Err("dequeue succeeded on an overflowed consumer".into()); }
        }
        if errored.load(SeqCst) && c.rng.chance(50) { /* keep on trying on the next rounds */ }
    }
    c.evals(oks + errs);
    c.count("concurrent_results_ok", oks);
    c.count("concurrent_overflow_errors", errs);
    c.count("rounds_ended_at_the_capacity_edge", at_edge);
    c.key(&[1 << 50, N as u64, oks, errs, total, at_edge]);
    Ok(())
}
/// many short races, each over a consumer at the very edge of its capacity: threads sharing it while a producer makes it overflow
fn edge_races<const N: usize>(c: &mut Case) -> Result<(), String> {
    const RACES: usize = 48;
    struct Race { arrived: AtomicU64, errored: AtomicBool, taken: AtomicU64 }
    let rings: Vec<RingBuffer<u64, N>> = (0..RACES).map(|_| RingBuffer::new()).collect();
    let consumers: Vec<_> = rings.iter().map(|r| r.consumer()).collect();
    let races: Vec<Race> = (0..RACES).map(|_| Race { arrived: AtomicU64::new(0), errored: AtomicBool::new(false), taken: AtomicU64::new(0) }).collect();
    for r in &rings { for i in 0..N as u64 { r.enqueue(i); } }
    let sharers = c.rng.range(2, 5);
    let extra = c.rng.range(1, 6);
    let seed = c.rng.next();
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let fail = |m: String| { failed.lock().unwrap().get_or_insert(m); };
    let (oks, errs, mixed) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    std::thread::scope(|s| {
        let (rings, consumers, races, fail, oks, errs, mixed) = (&rings, &consumers, &races, &fail, &oks, &errs, &mixed);
        let arrive = move |race: &Race| {
            race.arrived.fetch_add(1, SeqCst);
            let mut spins = 0u32;
            while race.arrived.load(SeqCst) < sharers + 1 { spins += 1; if spins > 2_000 { std::thread::yield_now(); } else { std::hint::spin_loop(); } }
        };
        s.spawn(move || {
            let mut r = Rng::new(seed);
            for t in 0..RACES {
                arrive(&races[t]);
                for i in 0..extra { for _ in 0..r.below(60) { std::hint::spin_loop(); } rings[t].enqueue(1000 + i); }
            }
        });
        for k in 0..sharers {
            s.spawn(move || {
                let mut r = Rng::new(seed ^ ((k + 1) << 32));
                for t in 0..RACES {
                    let race = &races[t];
                    arrive(race);
                    let (mut o, mut e) = (0, 0);
                    for _ in 0..r.range(2, 12) {
                        for _ in 0..r.below(20) { std::hint::spin_loop(); }
                        let before = race.errored.load(SeqCst);
                        let peek = r.chance(25);
                        // (elements aren't looked at: they may be replaced at any time)
                        let res = if peek { consumers[t].peek_all().map(|ch| ch.iter().any(|s| !s.is_empty())) } else { consumers[t].dequeue().map(|e| e.is_some()) };
                        match res {
                            Ok(some) => {
                                if before { fail(format!("the overflowed consumer, shared by {sharers} threads, {} after having reported the overflow", if peek { "could be peeked" } else if some { "gave an element" } else { "was reported empty" })); }
                                if some && !peek { race.taken.fetch_add(1, SeqCst); }
                                o += 1;
                            }
                            Err(_) => { race.errored.store(true, SeqCst); e += 1; }
                        }
                    }
                    oks.fetch_add(o, SeqCst); errs.fetch_add(e, SeqCst);
                    if o > 0 && e > 0 { mixed.fetch_add(1, SeqCst); }
                }
            });
        }
    });
    let (oks, errs, mixed) = (oks.into_inner(), errs.into_inner(), mixed.into_inner());
    c.desc = format!("{RACES} races on rings of {N} slots: {extra} elements enqueued past the capacity while {sharers} threads share the consumer: {oks} results, {errs} errors");
    if let Some(m) = failed.into_inner().unwrap() { return Err(m); }
    for (t, race) in races.iter().enumerate() {
        let taken = race.taken.load(SeqCst);
        let must = race.errored.load(SeqCst) || N as u64 + extra - taken.min(N as u64 + extra) > N as u64;
        if taken > N as u64 + extra { return Err(format!("{taken} elements were given, {} were enqueued", N as u64 + extra)); }
        if must && (consumers[t].dequeue().is_ok() || consumers[t].peek_all().is_ok()) { return Err("an overflowed consumer, at rest, works".into()); }
        if !must { let left = consumers[t].peek_all().map_err(|e| format!("a consumer {} elements behind got an error: {e}", N as u64 + extra - taken))?.iter().map(|s| s.len()).sum::<usize>() as u64; if left != N as u64 + extra - taken { return Err(format!("{left} elements left, should be {}", N as u64 + extra - taken)); } }
    }
    c.evals(oks + errs);
    c.count("edge_races", RACES as u64);
    c.count("edge_races_threads_with_both_outcomes", mixed);
    c.key(&[2 << 50, N as u64, oks, errs, sharers, extra]);
    Ok(())
}
thread_local! { static ON_DROP: std::cell::RefCell<Option<Box<dyn Fn(u64)>>> = const { std::cell::RefCell::new(None) } }
/// tells when it is being dropped, to whom may look at the ring meanwhile
struct Dying(u64, Box<u64>);
impl Drop for Dying { fn drop(&mut self) { ON_DROP.with(|h| if let Some(f) = h.borrow().as_ref() { f(self.0) }) } }

/// consumers used in the middle of an enqueue: while the element being replaced is dropped
fn replacing<const N: usize>(c: &mut Case) -> Result<(), String> {
    use std::cell::{Cell, RefCell};
    use std::rc::Rc;
    struct K<const N: usize> { real: RingBufferConsumer<'static, Dying, N>, head: Cell<u64>, failed: Cell<bool> }
    // outlives the hook, which only this thread runs & which is removed before returning
    let memory = Box::into_raw(Box::new(RingBuffer::<Dying, N>::new()));
    let ring: &'static RingBuffer<Dying, N> = unsafe { &*memory };
    let ks: Rc<RefCell<Vec<K<N>>>> = Rc::default();
    let total = c.rng.range(N as u64 + 1, N as u64 * 4 + 8);
    let wrong: Rc<RefCell<Option<String>>> = Rc::default();
    let (during, refused) = (Rc::new(Cell::new(0u64)), Rc::new(Cell::new(0u64)));
    let seed = c.rng.next();
    {
        let (ks, wrong, during, refused) = (ks.clone(), wrong.clone(), during.clone(), refused.clone());
        let r = RefCell::new(Rng::new(seed));
        ON_DROP.with(|h| *h.borrow_mut() = Some(Box::new(move |id| {
            let p = id + N as u64;       // the element taking the place of this one
            let mut r = r.borrow_mut();
            for (i, k) in ks.borrow().iter().enumerate() {
                if !r.chance(60) { continue }
                let (peek, head) = (r.chance(50), k.head.get());
                let must_fail = head <= id || k.failed.get();
                // elements are only looked at when they are not being replaced
                let got: Result<Vec<u64>, String> = if peek {
                    k.real.peek_all().map_err(|e| e.to_string()).map(|ch| if must_fail { vec![u64::MAX; ch.iter().map(|s| s.len()).sum()] } else { ch.iter().flat_map(|s| s.iter()).map(|e| if *e.1 == e.0 { e.0 } else { u64::MAX }).collect() })
                } else {
                    k.real.dequeue().map_err(|e| e.to_string()).map(|e| e.map(|e| if must_fail { u64::MAX } else { e.0 }).into_iter().collect())
                };
                during.set(during.get() + 1);
                let what = if peek { "peeking" } else { "dequeuing" };
                let fail = |m: String| { wrong.borrow_mut().get_or_insert(format!("{N} slots, element #{p} being enqueued, #{id} being dropped: {what} from consumer #{i}, whose next element is #{head}{}, {m}", if k.failed.get() { ", which has already reported an overflow" } else { "" })); };
                match (got, must_fail) {
                    (Err(_), true) => { k.failed.set(true); refused.set(refused.get() + 1); }
                    (Ok(v), true) => fail(format!("yielded {} elements -- the 1st should be the one being dropped", v.len())),
                    (Err(e), false) => fail(format!("failed: {e}")),
                    (Ok(v), false) => {
                        let all: Vec<u64> = (head..p).collect();
                        if peek { if v != all && v != (head..p + 1).collect::<Vec<u64>>() { fail(format!("yielded {v:?}")) } }
                        else if v.first().copied() != all.first().copied() && v != [p] { fail(format!("yielded {v:?}")) }
                        else { k.head.set(head + v.len() as u64) }
                    }
                }
            }
        })));
    }
    for i in 0..total {
        if ks.borrow().len() < 5 && c.rng.chance(35) { ks.borrow_mut().push(K { real: ring.consumer(), head: Cell::new(i), failed: Cell::new(false) }); }
        // keep some of them at the edge
        for k in ks.borrow().iter() {
            let keep = c.rng.below(N as u64 + 2);
            while !k.failed.get() && i - k.head.get() <= N as u64 && i - k.head.get() > keep { match k.real.dequeue() { Ok(Some(_)) => k.head.set(k.head.get() + 1), _ => break } }
        }
        ring.enqueue(Dying(i, Box::new(i)));
        if wrong.borrow().is_some() { break }
    }
    ON_DROP.with(|h| *h.borrow_mut() = None);
    let problem = wrong.borrow_mut().take();
    if problem.is_none() { for (i, k) in ks.borrow().iter().enumerate() {
        let behind = total - k.head.get();
        if (behind > N as u64 || k.failed.get()) != k.real.dequeue().is_err() { return Err(format!("{N} slots, after {total} elements: consumer #{i}, {behind} elements behind, {} while an element was being replaced: wrong result", if k.failed.get() { "having reported an overflow" } else { "used" })); }
    } }
    ks.borrow_mut().clear();
    unsafe { drop(Box::from_raw(memory)) }
    c.desc = format!("{N} slots of elements looking at the ring when dropped, {total} enqueued, {} results meanwhile, {} errors", during.get(), refused.get());
    if let Some(m) = problem { return Err(m) }
    c.evals(during.get());
    c.count("results_while_an_element_was_being_replaced", during.get());
    c.count("errors_while_an_element_was_being_replaced", refused.get());
    c.key(&[3 << 50, N as u64, total, during.get(), refused.get()]);
    Ok(())
}
pub fn c21(ctx: &mut Ctx) {
    let n = ctx.n(20_000, 400_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 450.0) { break; }
        ctx.case(|c| {
            if i % 7 == 0 { return match c.rng.below(6) { 0 => replacing::<1>(c), 1 => replacing::<2>(c), 2 => replacing::<3>(c), 3 => replacing::<8>(c), 4 => replacing::<13>(c), _ => replacing::<32>(c) }; }
            if i % 3 != 0 { let mut r = c.rng.clone(); let p = positions(c); return with_ring_type!(r, sequential(c, true, &p)); }
            if i % 2 == 0 { return match c.rng.below(5) { 0 => edge_races::<1>(c), 1 => edge_races::<2>(c), 2 => edge_races::<3>(c), 3 => edge_races::<8>(c), _ => edge_races::<16>(c) }; }
            match c.rng.below(5) { 0 => overflowing::<1>(c), 1 => overflowing::<2>(c), 2 => overflowing::<3>(c), 3 => overflowing::<8>(c), _ => overflowing::<32>(c) }
        });
    }
}
