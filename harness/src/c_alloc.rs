//! C14..C18: the metrics allocator & its save points against shadow ledgers
use crate::infra::*;
use big_o_test::low_level_analysis::{space_analysis::analyse_space_complexity, types::*};
use big_o_test::metrics_allocator::{MetricsAllocator, MetricsAllocatorSavePoint, MetricsAllocatorStatistics};
use std::alloc::{GlobalAlloc, Layout};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::{Barrier, Mutex};

type Stats = MetricsAllocatorStatistics<usize>;

/// what should have been counted
#[derive(Clone, Copy, Default, Debug, PartialEq)]
struct Ledger { allocs: usize, deallocs: usize, zeroed: usize, reallocs: usize, alloc_b: usize, dealloc_b: usize, zeroed_b: usize, orig_b: usize, new_b: usize, current: usize }
impl Ledger {
    fn minus(&self, o: &Ledger) -> Ledger {
        Ledger { allocs: self.allocs - o.allocs, deallocs: self.deallocs - o.deallocs, zeroed: self.zeroed - o.zeroed, reallocs: self.reallocs - o.reallocs, alloc_b: self.alloc_b - o.alloc_b, dealloc_b: self.dealloc_b - o.dealloc_b,
                 zeroed_b: self.zeroed_b - o.zeroed_b, orig_b: self.orig_b - o.orig_b, new_b: self.new_b - o.new_b, current: self.current }
    }
    fn add(&mut self, o: &Ledger) {
        self.allocs += o.allocs; self.deallocs += o.deallocs; self.zeroed += o.zeroed; self.reallocs += o.reallocs; self.alloc_b += o.alloc_b; self.dealloc_b += o.dealloc_b;
        self.zeroed_b += o.zeroed_b; self.orig_b += o.orig_b; self.new_b += o.new_b; self.current = self.current.wrapping_add(o.current);
    }
    fn of(s: &Stats) -> Ledger {
        Ledger { allocs: s.allocations_count, deallocs: s.deallocations_count, zeroed: s.zeroed_allocations_count, reallocs: s.reallocations_count, alloc_b: s.allocated_bytes, dealloc_b: s.deallocated_bytes,
                 zeroed_b: s.zeroed_allocated_bytes, orig_b: s.reallocated_originals_bytes, new_b: s.reallocated_news_bytes, current: s.current_used_memory }
    }
}

struct Block { ptr: *mut u8, layout: Layout }
unsafe impl Send for Block {}
/// performs random requests, keeping the ledger
struct User<'a, const N: usize> { a: &'a MetricsAllocator<'static, N>, blocks: Vec<Block>, ledger: Ledger, refused: u64, log: Vec<String>, vast_too: bool, vast: u64 }
impl<'a, const N: usize> User<'a, N> {
    fn new(a: &'a MetricsAllocator<'static, N>) -> Self { User { a, blocks: vec![], ledger: Ledger::default(), refused: 0, log: vec![], vast_too: roomy(), vast: 0 } }
    fn note(&mut self, s: String) { if self.log.len() > 400 { self.log.drain(..200); } self.log.push(s); }
    fn size(r: &mut Rng) -> usize { match r.below(5) { 0 => r.range(1, 16) as usize, 1 => r.range(1, 300) as usize, 2 => r.logi(1, 200_000) as usize, 3 => 1 << r.below(12), _ => r.range(1, 5000) as usize } }
    /// possible only because it is never touched
    fn vast(r: &mut Rng) -> usize { ((r.range(1, 5) as usize) << 30) + r.logi(1, 1 << 30) as usize }
    fn huge(r: &mut Rng) -> usize { (isize::MAX as usize) - 65536 - r.logi(1, 1 << 61) as usize }
    fn layout(r: &mut Rng, size: usize) -> Layout { Layout::from_size_align(size, 1 << *r.pick(&[0, 0, 1, 2, 3, 3, 4, 5, 6, 9, 12])).unwrap() }
    fn step(&mut self, r: &mut Rng) {
        let refuse = r.chance(8);
        // sizes that don't fit in 32 bits. Greater alignments would have the system's allocator touch the memory
        let vast = self.vast_too && r.below(150) == 0;
        self.vast += (vast && !refuse) as u64;
        match r.below(10) {
            0..=2 => {
                let size = if refuse { Self::huge(r) } else if vast { Self::vast(r) } else { Self::size(r) };
                let l = if vast { Layout::from_size_align(size, 1 << r.below(5)).unwrap() } else { Self::layout(r, size) };
                let p = unsafe { self.a.alloc(l) };
                self.note(format!("alloc({},{}){}", l.size(), l.align(), if p.is_null() { " refused" } else { "" }));
                if p.is_null() { self.refused += 1 } else {
                    self.ledger.allocs += 1; self.ledger.alloc_b += l.size(); self.ledger.current = self.ledger.current.wrapping_add(l.size());
                    self.blocks.push(Block { ptr: p, layout: l });
                }
            }
            3 => {
                let size = if refuse { Self::huge(r) } else if vast { Self::vast(r) } else { Self::size(r) };
                let l = if vast { Layout::from_size_align(size, 1 << r.below(5)).unwrap() } else { Self::layout(r, size) };
                let p = unsafe { self.a.alloc_zeroed(l) };
                self.note(format!("alloc_zeroed({},{}){}", l.size(), l.align(), if p.is_null() { " refused" } else { "" }));
                if p.is_null() { self.refused += 1 } else {
                    self.ledger.zeroed += 1; self.ledger.zeroed_b += l.size(); self.ledger.current = self.ledger.current.wrapping_add(l.size());
                    self.blocks.push(Block { ptr: p, layout: l });
                }
            }
            4..=6 if !self.blocks.is_empty() => {
                let i = r.below(self.blocks.len() as u64) as usize;
                let old = self.blocks[i].layout;
                let new = if refuse { Self::huge(r) } else if vast && old.align() <= 16 { Self::vast(r) } else { match r.below(6) { 0 => old.size(), 1 => (old.size() / 2).max(1), 2 => old.size() + 1, _ => Self::size(r) } };
                let p = unsafe { self.a.realloc(self.blocks[i].ptr, old, new) };
                self.note(format!("realloc({}->{new},{}){}", old.size(), old.align(), if p.is_null() { " refused" } else { "" }));
                if p.is_null() { self.refused += 1 } else {
                    self.ledger.reallocs += 1; self.ledger.orig_b += old.size(); self.ledger.new_b += new; self.ledger.current = self.ledger.current.wrapping_add(new).wrapping_sub(old.size());
                    self.blocks[i] = Block { ptr: p, layout: Layout::from_size_align(new, old.align()).unwrap() };
                }
            }
            _ => if !self.blocks.is_empty() { let i = r.below(self.blocks.len() as u64) as usize; let b = self.blocks.swap_remove(i); self.free(b); }
        }
    }
    fn free(&mut self, b: Block) {
        self.note(format!("dealloc({},{})", b.layout.size(), b.layout.align()));
        unsafe { self.a.dealloc(b.ptr, b.layout) };
        self.ledger.deallocs += 1; self.ledger.dealloc_b += b.layout.size(); self.ledger.current = self.ledger.current.wrapping_sub(b.layout.size());
    }
    fn tail(&self) -> String { self.log[self.log.len().saturating_sub(60)..].join(" ") }
}
impl<const N: usize> Drop for User<'_, N> { fn drop(&mut self) { for b in std::mem::take(&mut self.blocks) { unsafe { self.a.dealloc(b.ptr, b.layout) } } } }

fn same(what: &str, got: &Stats, want: &Ledger) -> Result<(), String> {
    let got = Ledger::of(got);
    if got == *want { Ok(()) } else { Err(format!("{what}: the allocator says {got:?}; performed: {want:?}")) }
}

fn conservation_sequential(c: &mut Case) -> Result<(), String> {
    let a = MetricsAllocator::<64>::new();
    let mut u = User::new(&a);
    let mut points: Vec<(MetricsAllocatorSavePoint<64>, Ledger)> = vec![];
    let steps = c.rng.range(5, 300);
    for _ in 0..steps {
        if points.len() < 30 && c.rng.chance(6) {
            let sp = a.save_point();
            u.note("save_point".into());
            c.desc = u.tail();
            same("save point's own metrics", &sp.metrics, &u.ledger)?;
            points.push((sp, u.ledger));
        }
        u.step(&mut c.rng);
        if c.rng.chance(15) && !points.is_empty() {
            let (sp, at) = c.rng.pick(&points);
            c.desc = u.tail();
            match a.delta_statistics(sp) {
                Ok(s) => { same("delta", &s, &u.ledger.minus(at))?; c.extra(1) }
                Err(e) => return Err(format!("statistics aren't available after {} save points: {e}", points.len())),
            }
        }
    }
    c.desc = u.tail();
    for (sp, at) in &points { same("delta", &a.delta_statistics(sp).map_err(|e| e.to_string())?, &u.ledger.minus(at))?; c.extra(1); }
    c.desc = format!("{steps} requests ({} refused) from 1 thread: {:?}", u.refused, u.ledger);
    c.count("requests", steps); c.count("refused_requests", u.refused); c.count("occasions_for_sizes_beyond_32_bits", u.vast);
    c.key(&[u.ledger.allocs as u64, u.ledger.reallocs as u64, u.ledger.deallocs as u64, u.ledger.zeroed as u64, u.refused, u.ledger.current as u64]);
    Ok(())
}
fn conservation_concurrent(c: &mut Case) -> Result<(), String> {
    let a = MetricsAllocator::<64>::new();
    let mut total = Ledger::default();
    let threads = c.rng.range(2, 6) as usize;
    let rounds = c.rng.range(1, 3);
    let points = Mutex::new(vec![]);
    let seed = c.rng.next();
    let mut left: Vec<Block> = vec![];
    let (mut reqs, mut refused) = (0, 0);
    points.lock().unwrap().push((a.save_point(), total));
    for round in 0..rounds {
        let barrier = Barrier::new(threads);
        let steps = c.rng.range(20, 600);
        let pool = Mutex::new(std::mem::take(&mut left));
        let results: Vec<(Ledger, Vec<Block>, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..threads).map(|t| { let (a, barrier, pool) = (&a, &barrier, &pool); s.spawn(move || {
                let mut r = Rng::new(seed ^ hash(&[round, t as u64]));
                let mut u = User::new(a);
                barrier.wait();
                for _ in 0..steps {
                    u.step(&mut r);
                    // blocks may be freed by other threads
                    if r.chance(10) { let p = pool.lock().unwrap().pop(); if let Some(b) = p { u.free(b) } }
                    if r.chance(10) { if let Some(b) = u.blocks.pop() { pool.lock().unwrap().push(b) } }
                }
                (u.ledger, std::mem::take(&mut u.blocks), u.refused)
            }) }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        left = pool.into_inner().unwrap();
        for (l, b, f) in results { total.add(&l); left.extend(b); refused += f; }
        reqs += steps * threads as u64;
        c.desc = format!("{threads} threads, round {round} of {rounds}, {steps} requests each, {refused} refused so far: {total:?}");
        let now: usize = left.iter().map(|b| b.layout.size()).sum();
        assert_eq!(now, total.current);
        for (sp, at) in points.lock().unwrap().iter() { same("delta after all threads ended", &a.delta_statistics(sp).map_err(|e| e.to_string())?, &total.minus(at))?; c.extra(1); }
        let sp = a.save_point();
        same("save point's own metrics", &sp.metrics, &total)?;
        points.lock().unwrap().push((sp, total));
    }
    for b in left { unsafe { a.dealloc(b.ptr, b.layout) } }
    c.count("requests", reqs); c.count("refused_requests", refused); c.count("concurrent_histories", 1);
    c.key(&[threads as u64, total.allocs as u64, total.reallocs as u64, total.dealloc_b as u64]);
    Ok(())
}
pub fn c14(ctx: &mut Ctx) {
    let n = ctx.n(12_000, 250_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 400.0) { break; }
        ctx.case(|c| if i % 3 == 0 { conservation_concurrent(c) } else { conservation_sequential(c) });
    }
}

/// single-threaded nested save points, possibly outlived
fn nested<const N: usize>(c: &mut Case, outlive: bool) -> Result<(), String> {
    let a = MetricsAllocator::<N>::new();
    let mut u = User::new(&a);
    struct P<'a, const N: usize> { sp: MetricsAllocatorSavePoint<'a, N>, min: usize, max: usize, later: usize, had_error: bool }
    let mut points: Vec<P<N>> = vec![];
    let far = N > 100 && c.rng.chance(25);      // save points followed by hundreds of others
    let steps = if far { c.rng.range(N as u64, 3 * N as u64) } else if N > 16 { c.rng.range(50, 900) } else { c.rng.range(5, 200) };
    let point_chance = if far { 80 } else { *c.rng.pick(&[5u64, 20, 50]) };
    let (mut queries, mut errors, mut deepest) = (0, 0, 0);
    for _ in 0..steps {
        if c.rng.chance(point_chance) {
            let would_outlive = points.iter().any(|p| p.later >= N);
            if would_outlive && !outlive { points.retain(|p| p.later < N); }
            let sp = a.save_point();
            u.note(format!("save_point#{}", points.len()));
            let now = u.ledger.current;
            c.desc = format!("capacity {N}: {}", u.tail());
            if sp.metrics.current_used_memory != now { return Err(format!("a save point was taken with {now} bytes in use, but it says {}", sp.metrics.current_used_memory)); }
            for p in points.iter_mut() { p.later += 1; }
            if points.len() > 80 { let i = c.rng.range(if far { 40 } else { 0 }, points.len() as u64 - 1) as usize; points.remove(i); }
            points.push(P { sp, min: now, max: now, later: 0, had_error: false });
        } else {
            u.step(&mut c.rng);
            let now = u.ledger.current;
            for p in points.iter_mut() { p.min = p.min.min(now); p.max = p.max.max(now); }
        }
        if c.rng.chance(30) && !points.is_empty() {
            let ask = if c.rng.chance(20) { 3 } else { 1 };
            for _ in 0..ask {
                let i = c.rng.below(points.len() as u64) as usize;
                let p = &mut points[i];
                queries += 1;
                u.log.push(format!("statistics?(with {} later)", p.later));
                deepest = deepest.max(p.later);
                let got = a.delta_statistics(&p.sp);
                c.desc = format!("capacity {N}: {}", u.tail());
                match got {
                    Ok(s) => {
                        if p.later > N { return Err(format!("a save point followed by {} others still yields statistics{}", p.later, if p.had_error { ", after having yielded an error" } else { "" })); }
                        let got = (s.current_used_memory, s.min_used_memory, s.max_used_memory);
                        if got != (u.ledger.current, p.min, p.max) { return Err(format!("(current, min, max) reported as {got:?}, but they are {:?} since the save point, which was followed by {} others", (u.ledger.current, p.min, p.max), p.later)); }
                    }
                    Err(e) => { errors += 1; p.had_error = true; if p.later <= N { return Err(format!("a save point followed by {} others yields an error: {e}", p.later)); } }
                }
            }
        }
    }
    c.desc = format!("capacity {N}: {steps} steps, {queries} queries on save points up to {deepest} save points old, {errors} errors; last operations: {}", u.log[u.log.len().saturating_sub(12)..].join(" "));
    c.extra(queries as u64);
    c.count("queries", queries); c.count("errors_as_expected", errors);
    c.key(&[N as u64, queries, errors, deepest as u64, u.ledger.allocs as u64, u.ledger.current as u64]);
    Ok(())
}
macro_rules! with_capacity { ($r: expr, $f: ident ( $($a: expr),* )) => { match $r.below(8) { 0 => $f::<1>($($a),*), 1 => $f::<2>($($a),*), 2 => $f::<3>($($a),*), 3 => $f::<4>($($a),*), 4 => $f::<7>($($a),*), 5 => $f::<16>($($a),*), 6 => $f::<64>($($a),*), _ => $f::<1024>($($a),*) } } }
pub fn c15(ctx: &mut Ctx) {
    let n = ctx.n(40_000, 600_000);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(25.0, 400.0) { break; }
        ctx.case(|c| { let mut r = c.rng.clone(); with_capacity!(r, nested(c, false)) });
    }
}

/// save points being outlived by those of other threads
fn outlived_concurrently<const N: usize>(c: &mut Case) -> Result<(), String> {
    let a = MetricsAllocator::<N>::new();
    let first = a.save_point();
    let threads = c.rng.range(2, 4) as usize;
    let per = c.rng.range(1, N as u64 + 1);
    let taken = AtomicU64::new(0);
    let started = AtomicU64::new(0);
    let failed: Mutex<Option<String>> = Mutex::new(None);
    let barrier = Barrier::new(threads + 1);
    let seed = c.rng.next();
    let mut saw = (0u64, 0u64);
    std::thread::scope(|s| {
        for t in 0..threads { let (a, taken, started, barrier) = (&a, &taken, &started, &barrier); s.spawn(move || {
            let mut r = Rng::new(seed ^ t as u64);
            barrier.wait();
            for _ in 0..per {
                let l = Layout::from_size_align(r.range(1, 4000) as usize, 8).unwrap();
                let p = unsafe { a.alloc(l) };
                started.fetch_add(1, SeqCst);
                let sp = a.save_point();
                taken.fetch_add(1, SeqCst);
                unsafe { a.dealloc(p, l) };
                let _ = a.delta_statistics(&sp);
            }
        }); }
        let (a, taken, started, failed, barrier, first, saw) = (&a, &taken, &started, &failed, &barrier, &first, &mut saw);
        s.spawn(move || {
            barrier.wait();
            let mut had_error = false;
            let total = per * threads as u64;
            loop {
                let before = taken.load(SeqCst);
                let res = a.delta_statistics(first);
                let after = started.load(SeqCst);
                match res {
                    Ok(_) => { saw.0 += 1; if had_error || before > N as u64 { failed.lock().unwrap().get_or_insert(format!("statistics given for a save point outlived by at least {before} others{}", if had_error { " -- after an error" } else { "" })); } }
                    Err(e) => { saw.1 += 1; had_error = true; if after <= N as u64 { failed.lock().unwrap().get_or_insert(format!("error for a save point outlived by at most {after} others: {e}")); } }
                }
                if before >= total { break; }
            }
        });
    });
    c.desc = format!("capacity {N}, {threads} threads taking {per} save points each, statistics of an older one asked meanwhile: {} available, {} errors", saw.0, saw.1);
    if let Some(m) = failed.into_inner().unwrap() { return Err(m); }
    let total = per * threads as u64;
    if a.delta_statistics(&first).is_err() != (total > N as u64) { return Err(format!("statistics of the save point are {}available after {total} others", if total > N as u64 { "" } else { "not " })); }
    c.extra(saw.0 + saw.1); c.count("concurrent_queries", saw.0 + saw.1);
    c.key(&[N as u64, threads as u64, per, (saw.0 > 0) as u64, (saw.1 > 0) as u64]);
    Ok(())
}
pub fn c17(ctx: &mut Ctx) {
    let n = ctx.n(20_000, 400_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(20.0, 300.0) { break; }
        ctx.case(|c| {
            let mut r = c.rng.clone();
            if i % 4 != 0 { return with_capacity!(r, nested(c, true)); }
            match r.below(4) { 0 => outlived_concurrently::<1>(c), 1 => outlived_concurrently::<3>(c), 2 => outlived_concurrently::<16>(c), _ => outlived_concurrently::<64>(c) }
        });
    }
}

/// runners whose passes outlive their own save points
pub fn c17_runner(ctx: &mut Ctx) {
    use big_o_test::{runners::crud::analyse_crud_algorithms, test_algorithm, BigOAlgorithmComplexity::WorseThanExponential as W, ALLOC};
    let n = ctx.n(60, 1200);
    let mut cap = Capture::start(1);
    for _ in 0..n {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            crate::vclock::enable(true);
            let r = &mut c.fork();
            // either pass, both or -- for the sake of comparison -- none
            let points = [*r.pick(&[0u32, 1023, 1024, 1025, 1500, 5000]), *r.pick(&[0u32, 1024, 1025, 3000])];
            let take = |n: u32| for _ in 0..n { drop(ALLOC.save_point()); };
            let kind = r.below(3);
            c.desc = format!("{}: passes taking {points:?} save points", ["test_algorithm()", "analyse_crud_algorithms()", "async test_algorithm()"][kind as usize]);
            c.key(&[kind, points[0] as u64, points[1] as u64]);
            cap.take();
            match kind {
                0 => {
                    test_algorithm("outliving", 0, || {}, 1000, || { take(points[0]); crate::vclock::advance(1000); 1 }, 2000, || { take(points[1]); crate::vclock::advance(1000); 2 }, W, W);
                }
                1 => {
                    let it = r.range(1, 8) as u32;
                    let th = r.range(1, 3) as u32;
                    let f = |e: u32| { take(if e < it { points[0] / it + 1 } else { points[1] / it + 1 }); crate::vclock::advance(1000); e };
                    let (a, b, d, e, report) = analyse_crud_algorithms("outliving", |_| 0, f, f, f, f, *r.pick(&[0, 50, 100]), it, it, it, it, th, th, th, th);
                    if a.is_none() || b.is_none() || d.is_none() || e.is_none() { return Err("some analyses are missing".into()); }
                    for x in [a.unwrap().to_string(), b.unwrap().to_string(), d.unwrap().to_string(), e.unwrap().to_string()] { if !report.contains(&x) { return Err("some analysis is missing from the report".into()); } }
                }
                _ => {
                    #[cfg(any(feature = "cfg_default", feature = "v_async"))]
                    crate::c_async::block_on(async {
                        big_o_test::RegularAsyncAnalyzerBuilder::<_, _, _, _, u32>::new("outliving")
                            .first_pass(1000, |_| async move { take(points[0]); crate::vclock::advance(1000); 1 }).second_pass(2000, |_| async move { take(points[1]); crate::vclock::advance(1000); 2 })
                            .with_time_measurements(W).with_space_measurements(W).test_algorithm().await
                    });
                }
            }
            let text = cap.take();
            if kind != 1 && (!text.contains("outliving") || !text.contains("Time Analysis")) { return Err(format!("no report was issued: {text}")); }
            c.count("passes_that_outlived_their_save_points", points.iter().filter(|p| **p > 1024).count() as u64);
            Ok(())
        });
    }
}

/// concurrent save points: soundness of the (min, max) envelopes
fn envelope(c: &mut Case) -> Result<(), String> {
    let a = MetricsAllocator::<256>::new();
    let threads = c.rng.range(2, 4) as usize;
    let savers = c.rng.range(1, 2) as usize;
    let phases = c.rng.range(2, 6) as usize;
    let steps = c.rng.range(10, 250);
    let max_points = (200 / phases / (savers + threads)) as u64;
    let seed = c.rng.next();
    let style = c.rng.below(4);
    struct P<'a> { sp: MetricsAllocatorSavePoint<'a, 256>, phase: usize, quiescent: bool }
    let points: Mutex<Vec<P>> = Mutex::new(vec![]);
    let barrier = Barrier::new(threads + savers + 1);
    /// one thread's live bytes along a phase
    #[derive(Clone, Copy)] struct Track { min: usize, max: usize, end: usize }
    let tracks: Vec<Mutex<Vec<Track>>> = (0..threads).map(|_| Mutex::new(vec![])).collect();
    let problem: Mutex<Option<String>> = Mutex::new(None);
    let mut checked = 0u64;
    let mut concurrent_points = 0u64;
    let moving = std::sync::atomic::AtomicU64::new(0);
    let setup = format!("{threads} allocating threads, {savers} threads taking save points, {phases} phases of {steps} steps, style {style}");
    std::thread::scope(|s| {
        for t in 0..threads {
            let (a, barrier, tracks, points) = (&a, &barrier, &tracks[t], &points);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64 + 1));
                let mut blocks: Vec<Block> = vec![];
                let mut live = 0usize;
                for phase in 0..phases {
                    barrier.wait();
                    let mut tr = Track { min: live, max: live, end: live };
                    let mut mine = vec![];
                    for _ in 0..steps {
                        let grow = match style { 0 => r.chance(50), 1 => blocks.len() < 3, 2 => r.chance(if phase % 2 == 0 { 80 } else { 20 }), _ => r.chance(50) };
                        if grow || blocks.is_empty() {
                            let size = match style { 1 => [100_000usize, 1, 3_000][blocks.len() % 3], 3 => 1 << (4 * t + r.below(4) as usize), _ => r.logi(1, 50_000) as usize };
                            let l = Layout::from_size_align(size, 8).unwrap();
                            let zero = r.chance(20);
                            let p = unsafe { if zero { a.alloc_zeroed(l) } else { a.alloc(l) } };
                            blocks.push(Block { ptr: p, layout: l }); live += size;
                        } else if r.chance(25) {
                            let i = r.below(blocks.len() as u64) as usize;
                            let new = r.logi(1, 60_000) as usize;
                            let b = &mut blocks[i];
                            b.ptr = unsafe { a.realloc(b.ptr, b.layout, new) };
                            live = live - b.layout.size() + new;
                            b.layout = Layout::from_size_align(new, 8).unwrap();
                        } else {
                            let b = blocks.swap_remove(r.below(blocks.len() as u64) as usize);
                            live -= b.layout.size();
                            unsafe { a.dealloc(b.ptr, b.layout) };
                        }
                        tr.min = tr.min.min(live); tr.max = tr.max.max(live);
                        if (mine.len() as u64) < max_points && r.chance(2) { mine.push(P { sp: a.save_point(), phase, quiescent: false }); }
                    }
                    tr.end = live;
                    tracks.lock().unwrap().push(tr);
                    points.lock().unwrap().extend(mine);
                    barrier.wait();
                }
                barrier.wait();
                for b in blocks { unsafe { a.dealloc(b.ptr, b.layout) } }
            });
        }
        for t in 0..savers {
            let (a, barrier, points, problem, moving) = (&a, &barrier, &points, &problem, &moving);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ ((t as u64 + 1) << 32));
                for phase in 0..phases {
                    barrier.wait();
                    let mut mine = vec![];
                    for _ in 0..r.below(max_points + 1) {
                        for _ in 0..r.below(300) { std::hint::spin_loop(); }
                        mine.push(P { sp: a.save_point(), phase, quiescent: false });
                        // while the others keep going
                        if r.chance(30) {
                            let sp = &mine[r.below(mine.len() as u64) as usize].sp;
                            if let Ok(s) = a.delta_statistics(sp) {
                                let (min, max, at, now) = (s.min_used_memory, s.max_used_memory, sp.metrics.current_used_memory, s.current_used_memory);
                                moving.fetch_add(1, SeqCst);
                                if at < min || at > max || now < min || now > max { problem.lock().unwrap().get_or_insert(format!("while other threads were using the allocator, a save point at {at} reported an usage of {now} within [{min}, {max}]")); }
                            }
                        }
                    }
                    points.lock().unwrap().extend(mine);
                    barrier.wait();
                }
                barrier.wait();
            });
        }
        // the checker works while everybody else waits
        points.lock().unwrap().push(P { sp: a.save_point(), phase: 0, quiescent: true });
        for phase in 0..phases {
            barrier.wait();
            barrier.wait();
            let tr: Vec<Vec<Track>> = tracks.iter().map(|t| t.lock().unwrap().clone()).collect();
            let level = |k: usize| -> usize { tr.iter().map(|t| t[k].end).sum() };
            let check = |p: &P| -> Result<(), String> {
                let s = a.delta_statistics(&p.sp).map_err(|e| format!("statistics aren't available: {e}"))?;
                let (min, max, at, now) = (s.min_used_memory, s.max_used_memory, p.sp.metrics.current_used_memory, s.current_used_memory);
                let env = format!("envelope [{min}, {max}] of a save point taken {} phase {} and read after phase {phase}", if p.quiescent { "right before" } else { "during" }, p.phase);
                if now != level(phase) { return Err(format!("{env}: usage is {}, but the current one is said to be {now}", level(phase))); }
                if at < min || at > max { return Err(format!("{env} doesn't include the usage at the save point, {at}")); }
                if now < min || now > max { return Err(format!("{env} doesn't include the current usage, {now}")); }
                for k in p.phase..=phase {
                    if level(k) < min || level(k) > max { return Err(format!("{env} doesn't include the usage at the end of phase {k}, {}", level(k))); }
                    if k > p.phase || p.quiescent {
                        let (sum_min, sum_max): (usize, usize) = (tr.iter().map(|t| t[k].min).sum(), tr.iter().map(|t| t[k].max).sum());
                        for (i, t) in tr.iter().enumerate() {
                            if sum_min - t[k].min + t[k].max > max { return Err(format!("{env}: thread {i} alone held {} bytes during phase {k}, when the others never held less than {}", t[k].max, sum_min - t[k].min)); }
                            if sum_max - t[k].max + t[k].min < min { return Err(format!("{env}: thread {i} held just {} bytes at some point of phase {k}, when the others never held more than {}", t[k].min, sum_max - t[k].max)); }
                        }
                    }
                }
                let start = |t: &Vec<Track>| if p.phase == 0 { 0 } else { t[p.phase - 1].end };
                let most: usize = tr.iter().map(|t| t[p.phase..=phase].iter().map(|x| x.max).max().unwrap().max(start(t))).sum();
                let least: usize = tr.iter().map(|t| t[p.phase..=phase].iter().map(|x| x.min).min().unwrap().min(start(t))).sum();
                if max > most { return Err(format!("{env}: at most {most} bytes could have been in use")); }
                if min < least { return Err(format!("{env}: at least {least} bytes were in use")); }
                // what the runners do with it
                let pass = BigOSpacePassMeasurements { used_memory_before: at, used_memory_after: now, max_used_memory: max, min_used_memory: min };
                let m = BigOSpaceMeasurements { pass_1_measurements: pass, pass_2_measurements: pass };
                let _ = analyse_space_complexity(&AlgorithmPassesInfo { pass1_n: 10, pass2_n: 20 }, &m);
                let _ = m.to_string().len() + pass.to_string().len();
                Ok(())
            };
            let mut ps = points.lock().unwrap();
            for p in ps.iter() {
                checked += 1;
                if let Err(e) = check(p) { problem.lock().unwrap().get_or_insert(e); }
            }
            concurrent_points = ps.iter().filter(|p| !p.quiescent).count() as u64;
            if phase + 1 < phases { ps.push(P { sp: a.save_point(), phase: phase + 1, quiescent: true }); }
        }
        barrier.wait();
    });
    c.desc = format!("{setup}: {concurrent_points} concurrent save points, {checked} envelopes");
    if let Some(p) = problem.into_inner().unwrap() { return Err(p); }
    c.extra(checked);
    c.count("envelopes_checked", checked); c.count("save_points_taken_concurrently", concurrent_points); c.count("envelopes_read_while_moving", moving.load(SeqCst));
    let ends: Vec<u64> = tracks.iter().flat_map(|t| t.lock().unwrap().iter().map(|x| x.max as u64).collect::<Vec<_>>()).collect();
    c.key(&[threads as u64, savers as u64, concurrent_points, hash(&ends)]);
    Ok(())
}
/// rounds of very few operations racing with a save point: whatever level they leave the usage at has to be in its envelope,
/// after the usage moved away from there
fn duels(c: &mut Case) -> Result<(), String> {
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize};
    let a = MetricsAllocator::<64>::new();
    let mutators = c.rng.range(1, 3) as usize;
    let savers = c.rng.range(0, 2) as usize;
    let rounds = 400u64;
    let jitter = *c.rng.pick(&[1u64, 6, 25, 80]);
    let ops = c.rng.range(1, 3);
    let seed = c.rng.next();
    let workers = mutators + savers;
    let (round, done, over) = (AtomicU64::new(0), AtomicUsize::new(0), AtomicBool::new(false));
    /// what a thread did along a round: its live bytes at the end, at least & at most
    #[derive(Clone, Copy, Default)] struct Did { end: usize, min: usize, max: usize }
    let did: Vec<Mutex<Did>> = (0..mutators).map(|_| Mutex::new(Did::default())).collect();
    let points: Mutex<Vec<(MetricsAllocatorSavePoint<64>, Option<Stats>)>> = Mutex::new(vec![]);
    let mut problem = None;
    let (mut checked, mut raced) = (0u64, 0u64);
    let wait = |cond: &dyn Fn() -> bool| { let mut k = 0u32; while !cond() { k += 1; if k > 3000 { std::thread::yield_now() } else { std::hint::spin_loop() } } };
    std::thread::scope(|s| {
        for t in 0..workers {
            let (a, round, done, over, did, points, wait) = (&a, &round, &done, &over, &did, &points, &wait);
            s.spawn(move || {
                let mut r = Rng::new(seed ^ (t as u64 + 1).wrapping_mul(0x9E37));
                let mut blocks: Vec<Block> = vec![];
                let mut live = 0usize;
                for n in 1.. {
                    wait(&|| round.load(SeqCst) >= n || over.load(SeqCst));
                    if over.load(SeqCst) { break; }
                    for _ in 0..r.below(jitter) { std::hint::spin_loop(); }
                    if t < mutators {
                        let mut d = Did { end: live, min: live, max: live };
                        for _ in 0..ops {
                            let size = r.logi(1, 50_000) as usize;
                            let l = Layout::from_size_align(size, 8).unwrap();
                            match r.below(3) {
                                0 if !blocks.is_empty() => { let b = blocks.swap_remove(r.below(blocks.len() as u64) as usize); live -= b.layout.size(); unsafe { a.dealloc(b.ptr, b.layout) } }
                                1 if !blocks.is_empty() => { let k = r.below(blocks.len() as u64) as usize; let b = &mut blocks[k]; live = live - b.layout.size() + size; b.ptr = unsafe { a.realloc(b.ptr, b.layout, size) }; b.layout = l; }
                                _ if blocks.len() < 6 => { blocks.push(Block { ptr: unsafe { if r.chance(20) { a.alloc_zeroed(l) } else { a.alloc(l) } }, layout: l }); live += size; }
                                _ => { let b = blocks.remove(0); live -= b.layout.size(); unsafe { a.dealloc(b.ptr, b.layout) } }
                            }
                            d.min = d.min.min(live); d.max = d.max.max(live);
                        }
                        d.end = live;
                        *did[t].lock().unwrap() = d;
                    } else {
                        let sp = a.save_point();
                        // sometimes read at once, while the others may still be on their way
                        let s = if r.chance(25) { a.delta_statistics(&sp).ok() } else { None };
                        points.lock().unwrap().push((sp, s));
                    }
                    done.fetch_add(1, SeqCst);
                }
                for b in blocks { unsafe { a.dealloc(b.ptr, b.layout) } }
            });
        }
        let mut r = Rng::new(seed);
        let (mut levels, mut stash, mut held) = (vec![0usize; mutators], vec![] as Vec<Block>, 0usize);
        for n in 1..=rounds {
            let before: usize = levels.iter().sum::<usize>() + held;
            let pre = a.save_point();
            done.store(0, SeqCst);
            round.store(n, SeqCst);
            wait(&|| done.load(SeqCst) == workers);
            let now: Vec<Did> = did.iter().map(|d| *d.lock().unwrap()).collect();
            let after: usize = now.iter().map(|d| d.end).sum::<usize>() + held;
            let (most, least) = (now.iter().map(|d| d.max).sum::<usize>() + held, now.iter().map(|d| d.min).sum::<usize>() + held);
            let taken = std::mem::take(&mut *points.lock().unwrap());
            // moves away from the level the round ended at
            let down = !stash.is_empty() && (stash.len() > 5 || r.chance(50));
            if down { let b = stash.pop().unwrap(); held -= b.layout.size(); unsafe { a.dealloc(b.ptr, b.layout) } }
            else { let l = Layout::from_size_align(r.logi(1, 100_000) as usize, 8).unwrap(); held += l.size(); stash.push(Block { ptr: unsafe { a.alloc(l) }, layout: l }); }
            levels = now.iter().map(|d| d.end).collect();
            let finally: usize = levels.iter().sum::<usize>() + held;
            for (k, (sp, early)) in std::iter::once((pre, None)).chain(taken).enumerate() {
                let s = match a.delta_statistics(&sp) { Ok(s) => s, Err(e) => { problem.get_or_insert(format!("round {n}: statistics aren't available: {e}")); continue; } };
                let (min, max, at, cur) = (s.min_used_memory, s.max_used_memory, sp.metrics.current_used_memory, s.current_used_memory);
                let mut must = vec![("at the save point", at), ("after the round", after), ("when read", finally)];
                if k == 0 { must.push(("before the round", before)); }
                let (top, bottom) = (most.max(finally), least.min(finally));
                checked += 1;
                if at != before && at != after { raced += 1; }
                let mut e = None;
                if cur != finally { e = Some(format!("the usage is said to be {cur}, but it is {finally}")); }
                if max > top || min < bottom { e = Some(format!("the usage was always within [{bottom}, {top}]")); }
                if k == 0 { for (t, d) in now.iter().enumerate() {
                    if least - d.min + d.max > max { e = Some(format!("thread {t} held {} bytes during the round, when there were at least {} others", d.max, least - d.min)); }
                    if most - d.max + d.min < min { e = Some(format!("thread {t} held just {} bytes during the round, when there were at most {} others", d.min, most - d.max)); }
                } }
                for (what, level) in must { if level < min || level > max { e = Some(format!("the usage {what} was {level}")); } }
                if let Some(s) = early { if at < s.min_used_memory || at > s.max_used_memory || s.current_used_memory < s.min_used_memory || s.current_used_memory > s.max_used_memory {
                    e = Some(format!("read during the round, the usage was {} within [{}, {}]", s.current_used_memory, s.min_used_memory, s.max_used_memory));
                } }
                if let Some(e) = e { problem.get_or_insert(format!("round {n}: envelope [{min}, {max}] of a save point at {at}, taken {} a round of {ops} operations by each of {mutators} threads, and read {} bytes {}: {e}",
                    if k == 0 { "before" } else { "during" }, finally.abs_diff(after), if down { "below" } else { "above" })); }
            }
            if problem.is_some() { break; }
        }
        over.store(true, SeqCst);
        for b in stash { unsafe { a.dealloc(b.ptr, b.layout) } }
    });
    c.desc = format!("{mutators} threads doing {ops} operations per round, along with {savers} taking save points; {rounds} rounds, jitter {jitter}");
    if let Some(p) = problem { return Err(p); }
    c.extra(checked);
    c.count("duel_envelopes_checked", checked); c.count("duels_caught_in_the_middle", raced);
    c.key(&[mutators as u64, savers as u64, jitter, raced]);
    Ok(())
}
pub fn c16(ctx: &mut Ctx) {
    let n = ctx.n(20_000, 400_000);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(40.0, 500.0) { break; }
        ctx.case(envelope);
        ctx.case(duels);
    }
}

/// the allocator as such: blocks, contents, refusals
fn transparent(c: &mut Case, steps: u64) -> Result<(), String> {
    let a = MetricsAllocator::<4>::new();
    struct B { ptr: usize, layout: Layout, seed: u8 }
    let mut blocks: Vec<B> = vec![];
    let mut live: BTreeMap<usize, usize> = BTreeMap::new();
    let pattern = |seed: u8, i: usize| (i as u8).wrapping_mul(31).wrapping_add((i >> 8) as u8) ^ seed;
    let fill = |p: usize, n: usize, seed: u8| unsafe { for i in 0..n { *(p as *mut u8).add(i) = pattern(seed, i) } };
    let intact = |p: usize, n: usize, seed: u8| -> Option<usize> { unsafe { (0..n).find(|i| *(p as *const u8).add(*i) != pattern(seed, *i)) } };
    let check_new = |live: &mut BTreeMap<usize, usize>, p: usize, l: Layout| -> Result<(), String> {
        if p % l.align() != 0 { return Err(format!("block {p:#x} isn't aligned to {}", l.align())); }
        if let Some((q, n)) = live.range(..p + l.size()).next_back() { if q + n > p { return Err(format!("block {p:#x}+{} overlaps with {q:#x}+{n}", l.size())); } }
        live.insert(p, l.size());
        Ok(())
    };
    let (mut refused, mut grown, mut shrunk, mut zeroed) = (0u64, 0u64, 0u64, 0u64);
    for _ in 0..steps {
        let r = &mut c.fork();
        let refuse = r.chance(6);
        let size = if refuse { User::<4>::huge(r) } else { match r.below(20) { 0 => r.logi(1, 3_000_000) as usize, 1 => 4096 * r.range(1, 4) as usize, _ => User::<4>::size(r) } };
        let align = 1usize << *r.pick(&[0, 0, 1, 2, 3, 3, 4, 4, 5, 6, 7, 9, 12, 16]);
        let seed = r.next() as u8;
        match r.below(10) {
            op @ 0..=3 => {
                let l = Layout::from_size_align(size, align).unwrap();
                c.desc = format!("{}({size}, align {align})", if op < 2 { "alloc" } else { "alloc_zeroed" });
                let p = unsafe { if op < 2 { a.alloc(l) } else { a.alloc_zeroed(l) } } as usize;
                if p == 0 { refused += 1; if !refuse { return Err("null returned for a reasonable request".into()); } continue; }
                if refuse { return Err("a block was returned for an impossible request".into()); }
                check_new(&mut live, p, l)?;
                if op >= 2 { zeroed += 1; if let Some(i) = unsafe { (0..size).find(|i| *(p as *const u8).add(*i) != 0) } { return Err(format!("byte {i} isn't zero")); } }
                fill(p, size, seed);
                blocks.push(B { ptr: p, layout: l, seed });
            }
            4..=6 if !blocks.is_empty() => {
                let i = r.below(blocks.len() as u64) as usize;
                let b = &mut blocks[i];
                let size = if refuse { size } else { match r.below(5) { 0 => b.layout.size(), 1 => (b.layout.size() / 3).max(1), 2 => b.layout.size() * 2, _ => size } };
                c.desc = format!("realloc({} -> {size}, align {})", b.layout.size(), b.layout.align());
                let p = unsafe { a.realloc(b.ptr as *mut u8, b.layout, size) } as usize;
                if p == 0 {
                    refused += 1;
                    if !refuse { return Err("null returned for a reasonable request".into()); }
                    if let Some(i) = intact(b.ptr, b.layout.size(), b.seed) { return Err(format!("byte {i} of the original block changed, although the request was refused")); }
                    continue;
                }
                if refuse { return Err("a block was returned for an impossible request".into()); }
                live.remove(&b.ptr);
                if let Some(i) = intact(p, size.min(b.layout.size()), b.seed) { return Err(format!("byte {i} wasn't preserved")); }
                if size > b.layout.size() { grown += 1 } else { shrunk += 1 }
                b.layout = Layout::from_size_align(size, b.layout.align()).unwrap();
                check_new(&mut live, p, b.layout)?;
                b.ptr = p; b.seed = seed;
                fill(p, size, seed);
            }
            7 => { if r.chance(20) { let sp = a.save_point(); let _ = a.delta_statistics(&sp); } }
            _ => if !blocks.is_empty() {
                let b = blocks.swap_remove(r.below(blocks.len() as u64) as usize);
                c.desc = format!("dealloc({}, align {})", b.layout.size(), b.layout.align());
                if let Some(i) = intact(b.ptr, b.layout.size(), b.seed) { return Err(format!("byte {i} of a live block changed by itself")); }
                live.remove(&b.ptr);
                unsafe { a.dealloc(b.ptr as *mut u8, b.layout) };
            }
        }
    }
    c.desc = format!("{steps} requests: {refused} refused, {grown} grown, {shrunk} shrunk, {zeroed} zeroed, {} blocks live in the end", blocks.len());
    for b in &blocks {
        if let Some(i) = intact(b.ptr, b.layout.size(), b.seed) { return Err(format!("byte {i} of a live block changed by itself")); }
        unsafe { a.dealloc(b.ptr as *mut u8, b.layout) };
    }
    c.count("requests", steps); c.count("refused_requests", refused); c.count("zeroed_blocks", zeroed); c.count("reallocations", grown + shrunk);
    c.key(&[refused, grown, shrunk, zeroed, blocks.len() as u64]);
    Ok(())
}
/// memory must go back to the system's allocator: in-use bytes stay level along repetitions
fn leaks(c: &mut Case) -> Result<(), String> {
    let a = MetricsAllocator::<4>::new();
    let in_use = || { let m = unsafe { libc::mallinfo2() }; m.uordblks + m.hblkhd };
    let size = c.rng.logi(64, 100_000) as usize;
    let align = 1usize << c.rng.below(10);
    let big = User::<4>::huge(&mut c.rng);
    let l = Layout::from_size_align(size, align).unwrap();
    use std::hint::black_box;   // (or the optimiser gets rid of the requests)
    let round = || unsafe {
        let p = black_box(a.alloc(l)); let q = black_box(a.alloc_zeroed(l));
        assert!(black_box(a.realloc(p, l, big)).is_null(), "case: an impossible request was satisfied");
        let p = black_box(a.realloc(p, l, size * 2));
        let p = black_box(a.realloc(p, Layout::from_size_align(size * 2, align).unwrap(), size / 2));
        a.dealloc(p, Layout::from_size_align(size / 2, align).unwrap());
        a.dealloc(q, l);
        assert!(black_box(a.alloc(Layout::from_size_align(big, align).unwrap())).is_null() && black_box(a.alloc_zeroed(Layout::from_size_align(big, align).unwrap())).is_null(), "case: an impossible request was satisfied");
    };
    for _ in 0..20 { round(); }
    let before = in_use();
    for _ in 0..400 { round(); }
    let after = in_use();
    c.desc = format!("400 repetitions of alloc, alloc_zeroed, refused realloc, growing realloc, shrinking realloc & deallocs of {size} bytes aligned to {align}: {before} bytes in use before, {after} after");
    c.count("leak_loops", 1);
    if after > before + 400 * size / 4 { return Err("memory is being leaked".into()); }
    Ok(())
}
pub fn c18(ctx: &mut Ctx) {
    let valgrind = std::env::var("VERIF_UNDER_VALGRIND").is_ok();
    let n = if valgrind { ctx.n(60, 1500) } else { ctx.n(6_000, 100_000) };
    for i in 0..n {
        if ctx.stopped() || !ctx.within(if valgrind { 60.0 } else { 20.0 }, 300.0) { break; }
        ctx.case(|c| if i % 20 == 19 && !valgrind { leaks(c) } else { let s = if valgrind { 150 } else { 300 }; let s = c.rng.range(20, s); transparent(c, s) });
    }
}
