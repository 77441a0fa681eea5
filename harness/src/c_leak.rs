//! C31: once a test is over, or a ring is dropped, nothing of them is left
use crate::c_async::{self, Setup};
use crate::c_crud::any_conf;
use crate::c_hist::{history, HISTORIES};
use crate::infra::*;
use crate::model::*;
use crate::vclock::enable;
use big_o_test::metrics_allocator::ring_buffer::{RingBuffer, RingBufferConsumer};
use big_o_test::runners::crud::analyse_crud_algorithms;
use big_o_test::{test_algorithm, test_crud_algorithms, ALLOC};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};
use std::sync::{Arc, Barrier};

fn used() -> i64 { ALLOC.save_point().metrics.current_used_memory as i64 }
fn threads() -> usize { std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count()) }
fn files() -> usize { std::fs::read_dir("/proc/self/fd").map_or(0, |d| d.count()) }
/// the least value seen for as long as threads that are ending may still be returning what they hold
fn settled(f: impl Fn() -> i64, fine: i64) -> i64 {
    let mut least = f();
    for i in 0..400 {
        if least <= fine { break }
        if i < 50 { std::thread::yield_now() } else { std::thread::sleep(std::time::Duration::from_millis(5)) }
        least = least.min(f());
    }
    least
}

/// the very same tests, over and over again: what is in use doesn't increase with how many of them were made
fn repeated(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    let r = &mut c.fork();
    let seed = r.next();
    let whats: Vec<usize> = if r.chance(60) { vec![r.below(7) as usize] } else { (0..r.range(2, 3)).map(|_| r.below(7) as usize).collect() };
    c.desc = format!("over and over again: {:?}, from seed {seed}", whats.iter().map(|x| HISTORIES[*x]).collect::<Vec<_>>());
    let mut kept = vec![];
    let mut levels: Vec<(u32, i64)> = Vec::with_capacity(16);
    let (mut tests, mut before) = (0u32, (i64::MAX, i64::MAX));
    // (what is kept in growable collections doesn't take more memory each time)
    let marks: &[u32] = if r.chance(12) { &[2, 20, 80, 320] } else { &[2, 4, 8, 16, 32] };
    for &until in marks {
        while tests < until {
            enable(true);
            let r = &mut Rng::new(seed);
            for w in &whats { history(r, *w, &mut kept); }
            enable(false);
            cap.take();
            tests += 1;
        }
        let _ = catch(|| ());       // whatever the harness kept of the last panic
        let level = settled(used, levels.last().map_or(i64::MAX, |l| l.1));
        let now = (settled(|| threads() as i64, before.0), settled(|| files() as i64, before.1));
        if until == 2 { before = now }
        else if now.0 > before.0 { return Err(format!("{} threads are still there after {tests} rounds, when there were {} after 2 of them", now.0, before.0)) }
        else if now.1 > before.1 { return Err(format!("{} files are open after {tests} rounds, when there were {} after 2 of them", now.1, before.1)) }
        levels.push((tests, level));
        // (no need to proceed when nothing is increasing)
        if levels.len() > 1 && levels[levels.len() - 1].1 <= levels[levels.len() - 2].1 { break }
    }
    c.count("rounds_of_tests", tests as u64);
    for w in &whats { c.count(&format!("rounds_of_{}", HISTORIES[*w].replace(' ', "_")), tests as u64); }
    c.key(&[1, seed]);
    if levels.len() == marks.len() && levels.windows(2).all(|w| w[1].1 > w[0].1) {
        return Err(format!("the more tests were made, the more memory is in use: (rounds, bytes) {levels:?}"))
    }
    Ok(())
}

/// what user code holds, counted
struct Owned(Arc<AtomicU64>, Vec<u8>);
impl Owned { fn new(live: &Arc<AtomicU64>) -> Self { live.fetch_add(1, SeqCst); Owned(live.clone(), vec![7; 64]) } fn used(&self) -> u32 { std::hint::black_box(&self.1)[5] as u32 } }
impl Drop for Owned { fn drop(&mut self) { if self.0.fetch_sub(1, SeqCst) == 0 { eprintln!("dropped twice"); std::process::abort() } } }

/// closures that own things: all of them are dropped along with the test, whatever its fate
fn owning(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    let r = &mut c.fork();
    let live = Arc::new(AtomicU64::new(0));
    let own = || Owned::new(&live);
    let fate = r.below(3);      // goes well, fails or panics
    let (tc, at) = (if fate == 1 { 2 } else { 16 }, r.range(1, 6));
    let calls = AtomicU64::new(0);
    let api = r.below(3);
    let step = || { if calls.fetch_add(1, SeqCst) + 1 == at && fate == 2 { panic!("{PLANNED}") } };
    enable(true);
    let (result, what) = match api {
        0 => {
            let (o1, o2, o3) = (own(), own(), own());
            let (payload, retries) = (r.chance(50), r.below(4) as u32);
            let mut k = 0u64;
            (catch_unwind(AssertUnwindSafe(|| test_algorithm("owning", retries,
                { let step = &step; move || { o1.used(); step(); } },
                10, { let (step, live) = (&step, &live); move || { let mine = Owned::new(live); k += 1; step(); if payload && fate == 2 { std::panic::panic_any(mine) } else { crate::vclock::advance(1000); o2.used() } } },
                20, { let step = &step; move || { step(); crate::vclock::advance(if fate == 1 { 1 << 40 } else { 1000 }); o3.used() } },
                CLASSES[tc], CLASSES[16]))).map(|_| ()), "a regular test")
        }
        1 => {
            let conf = any_conf(r, 30, 4);
            let o: [Owned; 5] = std::array::from_fn(|_| own());
            let [o0, o1, o2, o3, o4] = o;
            let (live, step) = (&live, &step);
            let call = move |o: &Owned, op: usize, e: u32| { let mine = Owned::new(live); o.used(); mine.used(); if op < 4 { step() } crate::vclock::advance(if fate == 1 { 1000 << (e / 3).min(30) } else { 1000 }); e ^ op as u32 };
            let t = CLASSES[tc];
            let s = CLASSES[16];
            let n = r.range(1, 3) as u32;
            let (i, th) = (conf.its, conf.th);
            (if r.chance(50) {
                catch_unwind(AssertUnwindSafe(|| { analyse_crud_algorithms("owning", move |e| { call(&o4, 4, e); e }, move |e| call(&o0, 0, e), move |e| call(&o1, 1, e), move |e| call(&o2, 2, e), move |e| call(&o3, 3, e),
                    conf.warm, i[0], i[1], i[2], i[3], th[0], th[1], th[2], th[3]); }))
            } else {
                catch_unwind(AssertUnwindSafe(|| test_crud_algorithms("owning", n, move |e| { call(&o4, 4, e); e }, move |e| call(&o0, 0, e), t, s, move |e| call(&o1, 1, e), t, s, move |e| call(&o2, 2, e), t, s, move |e| call(&o3, 3, e), t, s,
                    conf.warm, i[0], i[1], i[2], i[3], th[0], th[1], th[2], th[3])))
            }, "CRUD tests")
        }
        _ => {
            let mut s = Setup::random(r, "owning");
            s.tc = if fate == 1 { Some(2) } else { None };
            let o = own();
            let live2 = live.clone();
            let nth = AtomicU64::new(0);
            let act = move |_: c_async::Stage, k: usize, p: usize| { let mine = Owned::new(&live2); o.used(); if fate == 2 && nth.fetch_add(1, SeqCst) + 1 == at { panic!("{PLANNED}") } if p == 0 { crate::vclock::advance(mine.used() as u64 * 100 * (k as u64 + 1)) } };
            if r.chance(50) { let (res, _, n) = c_async::run_unguarded(&s, act); if n != 0 { enable(false); return Err(format!("{n} data are still alive after an async test that {}", ["went well", "failed", "panicked"][fate as usize])) } (res, "an async test") }
            else { let polls = r.below(20) as usize; let polled = catch_unwind(AssertUnwindSafe(|| { c_async::run_and_drop(&s, polls, act); })); (polled, "an async test, dropped,") }
        }
    };
    enable(false);
    cap.take();
    let how = if result.is_err() { "failed" } else { "went well" };
    // (what a panic carries is its receiver's)
    drop(result);
    c.desc = format!("{what} whose code owns things: {how}");
    c.key(&[2, api, fate, at, (how == "failed") as u64]);
    c.count("tests_whose_closures_own_things", 1);
    c.count(&format!("{}_{}", what.trim_end_matches(',').replace([' ', ','], "_"), how.replace(' ', "_")), 1);
    let n = settled(|| live.load(SeqCst) as i64, 0);
    if n != 0 { return Err(format!("{n} of the things owned by the code of {what} that {how} are still alive after it")) }
    Ok(())
}

/// how many times each element was dropped
struct Drops(Vec<AtomicU32>);
impl Drops { fn of(&self, id: u64) -> u32 { self.0[id as usize].load(SeqCst) } }
trait Counted: Send + Sync + 'static { fn new(id: u64, d: &Arc<Drops>) -> Self; fn sound(&self, id: u64) -> bool; }
struct Small(u64, Arc<Drops>);
impl Drop for Small { fn drop(&mut self) { self.1.0[self.0 as usize].fetch_add(1, SeqCst); } }
impl Counted for Small { fn new(id: u64, d: &Arc<Drops>) -> Self { Small(id, d.clone()) } fn sound(&self, id: u64) -> bool { self.0 == id } }
/// most of the element is elsewhere
struct Wide([u64; 5], Box<Small>, Vec<String>);
impl Counted for Wide {
    fn new(id: u64, d: &Arc<Drops>) -> Self { Wide([id; 5], Box::new(Small(id, d.clone())), (0..id % 3).map(|x| format!("{id}/{x}")).collect()) }
    fn sound(&self, id: u64) -> bool { self.0 == [id; 5] && self.1.0 == id && self.2.len() as u64 == id % 3 && self.2.iter().all(|s| s.starts_with(&format!("{id}/"))) }
}
/// shared with others
impl Counted for Arc<Small> { fn new(id: u64, d: &Arc<Drops>) -> Self { Arc::new(Small(id, d.clone())) } fn sound(&self, id: u64) -> bool { (**self).0 == id } }
/// enums with niches
impl Counted for Option<Box<Small>> { fn new(id: u64, d: &Arc<Drops>) -> Self { Some(Box::new(Small(id, d.clone()))) } fn sound(&self, id: u64) -> bool { self.as_ref().map_or(false, |x| x.0 == id) } }

/// how a ring ends
const ENDS: [&str; 7] = ["dropped", "dropped in a box", "moved, then dropped", "replaced by a new one", "dropped by another thread", "dropped by the last of its sharers", "dropped while unwinding"];
fn end<T: Counted, const N: usize>(ring: RingBuffer<T, N>, how: usize) {
    match how {
        0 => drop(ring),
        1 => drop(Box::new(ring)),
        2 => { let v = vec![(1u8, ring)]; let (_, ring) = v.into_iter().next().unwrap(); drop(Some(ring)); }
        3 => { let mut ring = ring; std::hint::black_box(&ring); ring = RingBuffer::default(); drop(ring.consumer()); }
        4 => std::thread::spawn(move || drop(ring)).join().unwrap(),
        5 => { let ring = Arc::new(ring); let hs: Vec<_> = (0..4).map(|_| { let ring = ring.clone(); std::thread::spawn(move || { std::hint::black_box(ring.get_buffer_size()); drop(ring) }) }).collect(); drop(ring); for h in hs { h.join().unwrap() } }
        _ => { let _ = catch_unwind(AssertUnwindSafe(move || { let _ring = ring; panic!("{PLANNED}") })); }
    }
}
fn ring<T: Counted, const N: usize>(c: &mut Case) -> Result<(), String> {
    let r = &mut c.fork();
    let producers = if r.chance(60) { 1 } else { r.range(2, 5) };
    let per = match r.below(4) { 0 => r.below(N as u64 + 1), 1 => N as u64 * r.below(4), 2 => r.below(3), _ => r.below(N as u64 * 5 + 20) };
    let total = per * producers;
    let drops = Arc::new(Drops((0..total).map(|_| AtomicU32::new(0)).collect()));
    let ring = RingBuffer::<T, N>::new();
    let how = r.below(ENDS.len() as u64) as usize;
    c.desc = format!("ring of {N} slots of {}, {producers} producer(s) of {per} elements; {}", std::any::type_name::<T>(), ENDS[how]);
    let fine = |kept: &dyn Fn(u64) -> bool, when: String| -> Result<(), String> {
        for id in 0..total { let (n, want) = (drops.of(id), !kept(id) as u32); if n != want { return Err(format!("{when}, element #{id} was dropped {n} times, instead of {want}")) } }
        Ok(())
    };
    {
        let mut ks: Vec<RingBufferConsumer<T, N>> = vec![];
        let first = ring.consumer();
        if producers == 1 {
            for i in 0..total {
                if r.chance(10) { ks.push(ring.consumer()) }
                if r.chance(10) { let n = r.below(ks.len() as u64 + 1) as usize; ks.truncate(n); }
                ring.enqueue(T::new(i, &drops));
                for k in &ks { match r.below(4) { 0 => { let _ = std::hint::black_box(k.dequeue().map(|e| e.map(|_| ()))); } 1 => { let _ = std::hint::black_box(k.peek_all().map(|_| ())); } _ => () } }
                if r.chance(20) || i + 1 == total { fine(&|id| id > i || id + N as u64 > i, format!("after #{i} was enqueued"))? }
            }
            if total <= N as u64 {
                let whole = first.peek_all().map(|ch| ch.iter().flat_map(|s| s.iter()).enumerate().filter(|(i, e)| e.sound(*i as u64)).count() as u64);
                if !matches!(whole, Ok(n) if n == total) { return Err(format!("{whole:?} elements are whole")) }
            }
        } else if total > 0 {
            let start = Barrier::new(producers as usize);
            std::thread::scope(|s| { for p in 0..producers { let (ring, drops, start) = (&ring, &drops, &start); s.spawn(move || {
                let k = ring.consumer();
                start.wait();
                for i in 0..per { ring.enqueue(T::new(p * per + i, drops)); if i % 3 == 0 { let _ = k.dequeue().map(|e| e.is_some()); } }
            }); } });
            let dropped: u64 = (0..total).filter(|id| drops.of(*id) > 0).count() as u64;
            if let Some(id) = (0..total).find(|id| drops.of(*id) > 1) { return Err(format!("element #{id} was dropped {} times, when replaced", drops.of(id))) }
            if dropped != total.saturating_sub(N as u64) { return Err(format!("{dropped} of {total} elements were dropped before the ring was")) }
        }
    }
    end(ring, how);
    fine(&|_| false, format!("once the ring was {}", ENDS[how]))?;
    if Arc::strong_count(&drops) != 1 { return Err("elements are still alive".into()) }
    c.evals(total);
    c.count("elements_given_to_rings", total);
    c.count(&format!("rings_{}", ENDS[how].replace([' ', ','], "_")), 1);
    c.key(&[3, N as u64, producers, per.min(N as u64 + 1), how as u64]);
    Ok(())
}

/// elements without a size are counted here
static UNITS: AtomicU64 = AtomicU64::new(0);
struct Unit;
impl Drop for Unit { fn drop(&mut self) { UNITS.fetch_add(1, SeqCst); } }
fn unit_ring<const N: usize>(c: &mut Case) -> Result<(), String> {
    let n = c.rng.below(N as u64 * 3 + 3);
    c.desc = format!("ring of {N} elements without a size, {n} enqueued");
    let ring = RingBuffer::<Unit, N>::new();
    UNITS.store(0, SeqCst);
    for _ in 0..n { ring.enqueue(Unit); }
    if UNITS.load(SeqCst) != n.saturating_sub(N as u64) { return Err(format!("{} elements were dropped before the ring was", UNITS.load(SeqCst))) }
    drop(ring);
    if UNITS.load(SeqCst) != n { return Err(format!("{} elements were dropped, once the ring was", UNITS.load(SeqCst))) }
    c.evals(n);
    c.count("elements_given_to_rings", n);
    c.key(&[4, N as u64, n]);
    Ok(())
}

pub fn c31(ctx: &mut Ctx) {
    let n = ctx.n(30_000, 300_000);
    let mut cap = Capture::start(1);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 300.0) { break; }
        ctx.case(|c| match i % 12 {
            0 => repeated(c, &mut cap),
            1..=4 => owning(c, &mut cap),
            5 => match c.rng.below(4) { 0 => unit_ring::<1>(c), 1 => unit_ring::<2>(c), 2 => unit_ring::<7>(c), _ => unit_ring::<32>(c) },
            _ => match c.rng.below(12) {
                0 => ring::<Small, 1>(c), 1 => ring::<Small, 2>(c), 2 => ring::<Small, 3>(c), 3 => ring::<Small, 8>(c), 4 => ring::<Wide, 4>(c), 5 => ring::<Wide, 5>(c),
                6 => ring::<Wide, 64>(c), 7 => ring::<Arc<Small>, 7>(c), 8 => ring::<Arc<Small>, 16>(c), 9 => ring::<Option<Box<Small>>, 4>(c), 10 => ring::<Option<Box<Small>>, 100>(c), _ => ring::<Small, 1024>(c),
            },
        });
    }
}
