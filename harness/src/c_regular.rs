//! C05, C08 & C09 on regular (sync) algorithms
use crate::c_analysis::ladder_u2;
use crate::infra::*;
use crate::model::*;
use crate::vclock::{advance, enable, READS, SLEPT};
use big_o_test::low_level_analysis::types::*;
use big_o_test::test_algorithm;
use std::sync::atomic::Ordering::*;
use std::time::Duration;

/// how much each pass of one attempt uses & the classes that must be measured
#[derive(Clone, Debug)]
pub struct Attempt { pub t: (u64, u64), pub s: (u64, u64), pub tc: usize, pub sc: usize }

/// allocates `bytes`, then frees it -- making exactly that peak
pub fn touch(bytes: u64) { if bytes > 0 { std::hint::black_box(Vec::<u8>::with_capacity(bytes as usize)); } }

pub fn word(text: &str, w: &str) -> bool {
    text.match_indices(w).any(|(i, _)| {
        let edge = |c: Option<char>| c.map_or(true, |c| !c.is_alphanumeric() && c != '_');
        edge(text[..i].chars().next_back()) && edge(text[i + w.len()..].chars().next())
    })
}

fn pick_usage(r: &mut Rng, n: (u32, u32), time: bool, accept: impl Fn(usize) -> bool) -> Option<((u64, u64), usize)> {
    let unit = if time { 1e-9 } else { 1.0 };
    for _ in 0..60 {
        let u1 = if time { match r.below(4) { 0 => r.range(0, 50), 1 => r.logi(1_000_000_000, 60_000_000_000_000), _ => r.logi(100, 1_000_000_000_000) } }
                 else { match r.below(4) { 0 => r.below(3), 1 => r.range(2, 40), _ => r.logi(1, 1_000_000) } };
        let f = ladder_u2(r, u1 as f64 * unit, n.0 as f64, n.1 as f64) / unit;
        let max = if time { 1e15 } else { 4e9 };
        let u2 = if f.is_finite() && f <= max { f.round() as u64 } else { r.logi(1, max as u64) };
        let (c, margin) = ladder(u1 as f64 * unit, u2 as f64 * unit, n.0 as f64, n.1 as f64, TOLERANCE);
        if margin > 1e-6 && accept(c) { return Some(((u1, u2), c)); }
    }
    None
}
/// set sizes & the usage of each attempt, the time failing on the first `failing` ones
pub fn plan(r: &mut Rng, attempts: u64, tc: Option<usize>, sc: Option<usize>) -> ((u32, u32), Vec<Attempt>) {
    let n = { let n1 = r.logi(2, 100_000) as u32; let n2 = match r.below(4) { 0 => n1 + 1 + r.below(3) as u32, 1 => n1 * r.range(2, 6) as u32, _ => n1 * 2 }; (n1, n2) };
    let mut v = vec![];
    // some keep mismatching up to the end
    let stubborn = attempts > 3 && r.chance(40);
    for k in 0..attempts {
        let want_time_ok = if k + 1 == attempts { r.chance(60) } else { !stubborn && r.chance(25) };
        let want_space_ok = r.chance(if stubborn { 99 } else { 90 });
        let near = r.chance(50);
        let ok = |c: usize, ceil: Option<usize>, want: bool, near: bool| ceil.map_or(true, |m| (c <= m) == want && (!near || c.abs_diff(m) <= 1));
        let mut get = |time: bool, ceil: Option<usize>, want: bool| pick_usage(r, n, time, |c| ok(c, ceil, want, near)).or_else(|| pick_usage(r, n, time, |c| ok(c, ceil, want, false))).or_else(|| pick_usage(r, n, time, |_| true)).unwrap();
        let (t, c1) = get(true, tc, want_time_ok);
        let (s, c2) = get(false, sc, want_space_ok);
        v.push(Attempt { t, s, tc: c1, sc: c2 });
    }
    (n, v)
}
/// (attempts to be performed, what makes it fail: (resource, ceiling, measured))
pub fn outcome(v: &[Attempt], tc: Option<usize>, sc: Option<usize>) -> (usize, Option<(&'static str, usize, usize)>) {
    for (k, a) in v.iter().enumerate() {
        if let Some(m) = sc { if a.sc > m { return (k + 1, Some(("space", m, a.sc))); } }
        match tc { Some(m) if a.tc > m => if k + 1 == v.len() { return (k + 1, Some(("time", m, a.tc))); }, _ => return (k + 1, None) }
    }
    unreachable!()
}
/// a plan for a test allowed to do far more attempts than the few ones it takes -- or None, if these ceilings can't be met nor failed for good
pub fn plan_of_few(r: &mut Rng, tc: Option<usize>, sc: Option<usize>) -> Option<((u32, u32), Vec<Attempt>)> {
    for _ in 0..20 {
        let attempts = r.range(1, 6);
        let (n, v) = plan(r, attempts, tc, sc);
        if !matches!(outcome(&v, tc, sc).1, Some(("time", ..))) { return Some((n, v)); }
    }
    None
}
pub const HUGE_LIMITS: [u32; 9] = [127, 128, 255, 256, 257, 65_536, i32::MAX as u32 + 1, u32::MAX - 1, u32::MAX];
pub fn judge(result: &Result<(), PanicNote>, want: &Option<(&'static str, usize, usize)>, test_name: &str) -> Result<(), String> {
    match (result, want) {
        (Ok(()), None) => Ok(()),
        (Ok(()), Some((res, ceil, got))) => Err(format!("passed, although {res} was {} -- for a maximum of {}", name(*got), name(*ceil))),
        (Err(n), None) => Err(format!("failed, although the last attempt met the ceilings: {}", n.msg)),
        (Err(n), Some((res, ceil, got))) => {
            // the newest verdict is the one that matters: what comes after "Previous" is about older attempts
            let msg = n.msg.split("Previous").next().unwrap_or("");
            let low = msg.to_lowercase();
            let other = if *res == "time" { "space" } else { "time" };
            if !n.msg.contains(test_name) { return Err(format!("the message doesn't mention the test '{test_name}': {}", n.msg)); }
            if !low.contains(&format!("{res} complexity")) || low.contains(&format!("{other} complexity")) { return Err(format!("the message should blame the {res} complexity: {}", n.msg)); }
            for c in [ceil, got] { if !word(msg, &name(*c)) { return Err(format!("the message should mention {}, for a maximum of {} & a measured {}: {}", name(*c), name(*ceil), name(*got), n.msg)); } }
            Ok(())
        }
    }
}

pub const TEST_NAMES: [&str; 4] = ["my algo", "α-sort {x} 100%", "x", "Quicksort a reversed vec"];

pub fn c05(ctx: &mut Ctx) {
    let n = ctx.n(100_000, 500_000);
    let mut cap = Capture::start(1);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(45.0, 400.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let many = if r.chance(20) { 70 } else { 12 };
            let retries = *r.pick(&[0u32, 0, 1, 2, 3, 5, 8, many]);
            let (tc, sc) = (r.below(17) as usize, if r.chance(60) { 16 - r.below(8) as usize } else { r.below(17) as usize });
            let (mut retries, (mut n, mut attempts)) = (retries, plan(r, retries as u64 + 1, Some(tc), Some(sc)));
            if r.chance(8) { if let Some((a, b)) = plan_of_few(r, Some(tc), Some(sc)) { (n, attempts) = (a, b); retries = *r.pick(&HUGE_LIMITS); c.count("tests_with_huge_limits", 1); } }
            let test_name = r.name(&TEST_NAMES);
            c.desc = format!("test_algorithm('{test_name}', {retries} retries, set sizes {n:?}, maximum time {}, maximum space {}), attempts using {attempts:?}", name(tc), name(sc));
            let (want_attempts, want) = outcome(&attempts, Some(tc), Some(sc));
            // stages as they run: 3*attempt + (0: reset, 1: pass 1, 2: pass 2)
            let log = std::cell::RefCell::new(Vec::<u8>::with_capacity(4096));
            let k = std::cell::Cell::new(usize::MAX);
            let current = |i: usize| attempts.get(i).cloned().unwrap_or(Attempt { t: (1, 1), s: (0, 0), tc: 1, sc: 1 });
            let slept = SLEPT.load(Relaxed);
            enable(true);
            let result = catch(|| test_algorithm(test_name, retries,
                || { log.borrow_mut().push(0); k.set(k.get().wrapping_add(1)); advance(77_777_777); touch(5_000_000) },
                n.0, || { log.borrow_mut().push(1); let a = current(k.get()); touch(a.s.0); advance(a.t.0); 11 },
                n.1, || { log.borrow_mut().push(2); let a = current(k.get()); advance(a.t.1); touch(a.s.1); 22 },
                CLASSES[tc], CLASSES[sc]));
            enable(false);
            let text = cap.take();
            let log = log.into_inner();
            let expected: Vec<u8> = (0..want_attempts).flat_map(|_| [0, 1, 2]).collect();
            if log != expected { return Err(format!("stages (0 = reset, 1 & 2 = passes) ran as {log:?} instead of {expected:?}; it {}", if result.is_ok() { "passed" } else { "failed" })); }
            judge(&result, &want, test_name)?;
            if text.matches("Time Analysis:").count() != want_attempts || text.matches(test_name).count() < want_attempts { return Err(format!("{want_attempts} attempts of '{test_name}' should have been reported:\n{text}")); }
            c.key(&[want_attempts as u64, want.map_or(0, |w| 1 + (w.0 == "time") as u64), tc as u64, sc as u64, attempts[want_attempts - 1].tc as u64]);
            c.count("attempts_monitored", want_attempts as u64);
            c.count("stages_monitored", log.len() as u64);
            c.count(match want { None if want_attempts > 1 => "passed_after_retries", None => "passed_at_once", Some(("space", ..)) => "failed_on_space", _ => "failed_on_time" }, 1);
            c.count("virtual_seconds_slept", (SLEPT.load(Relaxed) - slept) / 1_000_000_000);
            Ok(())
        });
    }
    drop(cap);
    ctx.count("clock_reads", READS.load(Relaxed));
}

/// looks for `label` `time`/`space` as shown while running
pub fn progress<'a>(text: &'a str, label: &str) -> Option<(&'a str, &'a str)> {
    let i = text.find(label)?;
    let rest = text[i + label.len()..].trim_start();
    let (t, rest) = rest.split_once('/')?;
    let end = rest.find(|ch: char| ch == ';' || ch == ',' || ch == ')' || ch.is_whitespace()).unwrap_or(rest.len());
    Some((t, &rest[..end]))
}

pub fn any_time(r: &mut Rng) -> u64 { match r.below(5) { 0 => 0, 1 => r.below(1000), 2 => r.logi(1_000_000_000, 4_000_000_000_000), _ => r.logi(1, 100_000_000_000) } }

/// The time shown for each pass must be the time that went by inside it
pub fn c08(ctx: &mut Ctx) {
    let n = ctx.n(40_000, 400_000);
    let mut cap = Capture::start(1);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(20.0, 200.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let n = (r.logi(2, 10_000) as u32, r.logi(2, 10_000) as u32);
            let n = if n.1 > n.0 { n } else { (n.0, n.0 * 2) };
            let (reset, t1, t2) = (any_time(r), any_time(r), any_time(r));
            let steps = r.range(1, 5);
            c.desc = format!("regular test, set sizes {n:?}: reset took {reset}ns, pass 1 {t1}ns, pass 2 {t2}ns, each in {steps} portions");
            let go = |t: u64| { for i in 0..steps { advance(t / steps + if i == 0 { t % steps } else { 0 }); } };
            enable(true);
            let result = catch(|| test_algorithm("timed", 0, || go(reset), n.0, || { go(t1); 1 }, n.1, || { go(t2); 2 }, CLASSES[16], CLASSES[16]));
            enable(false);
            let text = cap.take();
            if let Err(e) = result { return Err(format!("unexpected failure: {}", e.msg)); }
            let zero = BigOSpacePassMeasurements { used_memory_before: 0, used_memory_after: 0, max_used_memory: 0, min_used_memory: 0 };
            let (d1, d2) = (Duration::from_nanos(t1), Duration::from_nanos(t2));
            let (tc, margin) = ladder(t1 as f64 * 1e-9, t2 as f64 * 1e-9, n.0 as f64, n.1 as f64, TOLERANCE);
            let analysis = &text[text.find("\n\n").unwrap_or(0)..];
            c.key(&[(t1 + 1).ilog2() as u64, (t2 + 1).ilog2() as u64, tc as u64]);
            c.count("pass_times_compared", 4);
            if margin > 1e-6 {
                crate::c_text::check_regular_text(analysis, "timed", (d1, d2), &BigOSpaceMeasurements { pass_1_measurements: zero, pass_2_measurements: zero }, n, (tc, 1)).map_err(|e| format!("{e} -- in:\n{text}"))?;
            }
            for (l, d) in [("Pass 1:", d1), ("Pass 2:", d2), ("Resetting:", Duration::from_nanos(reset))] {
                let Some((t, _)) = progress(&text, l) else { return Err(format!("'{l}' isn't reported:\n{text}")) };
                let Some((ns, _)) = parse_duration(t) else { return Err(format!("'{t}' is not a duration")) };
                if (ns - d.as_nanos() as f64).abs() > 0.5 { return Err(format!("'{l}' reported as {t} -- it took {d:?}:\n{text}")); }
            }
            Ok(())
        });
    }
}

/// a random sequence of heap operations whose levels are all below 1KiB from the start
#[derive(Clone, Debug)]
pub enum Op { Alloc(usize), Free(usize), Realloc(usize, usize) }
#[derive(Clone, Debug, Default)]
pub struct Heap { pub sizes: Vec<usize> }
/// levels relative to the start of the script
#[derive(Clone, Debug, Default)]
pub struct Levels { pub after: i64, pub max: i64, pub min: i64 }
pub const SLOTS: usize = 64;
pub const VAST: i64 = 1 << 34;
/// generates a script for the blocks currently in `heap`, keeping levels within `bound`
pub fn script(r: &mut Rng, heap: &mut Heap, steps: u64, bound: i64) -> (Vec<Op>, Levels) {
    let mut v = vec![];
    let mut l = Levels::default();
    // memory that isn't touched may well be more than there is
    let size = |r: &mut Rng| if bound >= VAST && r.chance(25) { ((r.range(1, 4) as usize) << 30) + r.logi(1, 1 << 30) as usize } else { r.range(1, 300) as usize };
    for _ in 0..steps {
        let op = match r.below(6) {
            0..=2 if heap.sizes.len() < SLOTS => Op::Alloc(size(r)),
            3 if !heap.sizes.is_empty() => Op::Realloc(r.below(heap.sizes.len() as u64) as usize, size(r)),
            _ if !heap.sizes.is_empty() => Op::Free(r.below(heap.sizes.len() as u64) as usize),
            _ => continue,
        };
        let delta = match &op { Op::Alloc(s) => *s as i64, Op::Free(i) => -(heap.sizes[*i] as i64), Op::Realloc(i, s) => *s as i64 - heap.sizes[*i] as i64 };
        if (l.after + delta).abs() > bound { continue; }
        match &op { Op::Alloc(s) => heap.sizes.push(*s), Op::Free(i) => { heap.sizes.swap_remove(*i); }, Op::Realloc(i, s) => heap.sizes[*i] = *s }
        l.after += delta;
        l.max = l.max.max(l.after); l.min = l.min.min(l.after);
        v.push(op);
    }
    (v, l)
}
/// blocks really allocated; never reallocates its own storage
pub struct Blocks(Vec<(*mut u8, usize)>);
unsafe impl Send for Blocks {}
unsafe impl Sync for Blocks {}
impl Blocks {
    pub fn new() -> Self { Blocks(Vec::with_capacity(SLOTS + 1)) }
    pub fn run(&mut self, ops: &[Op]) {
        use std::alloc::*;
        let l = |s: usize| Layout::from_size_align(s, 8).unwrap();
        for op in ops {
            unsafe { match op {
                Op::Alloc(s) => { assert!(self.0.len() <= SLOTS); let p = std::hint::black_box(alloc(l(*s))); assert!(!p.is_null(), "out of address space"); self.0.push((p, *s)) }
                Op::Free(i) => { let (p, s) = self.0.swap_remove(*i); dealloc(p, l(s)) }
                Op::Realloc(i, s) => { let (p, old) = self.0[*i]; let p = std::hint::black_box(realloc(p, l(old), *s)); assert!(!p.is_null(), "out of address space"); self.0[*i] = (p, *s) }
            } }
        }
    }
}
impl Drop for Blocks { fn drop(&mut self) { for (p, s) in &self.0 { unsafe { std::alloc::dealloc(*p, std::alloc::Layout::from_size_align(*s, 8).unwrap()) } } } }

/// what a pass with these levels should measure, for an arbitrary starting usage
pub fn as_measurements(l: &Levels) -> BigOSpacePassMeasurements {
    const B: i64 = 1 << 40;
    BigOSpacePassMeasurements { used_memory_before: B as usize, used_memory_after: (B + l.after) as usize, max_used_memory: (B + l.max) as usize, min_used_memory: (B + l.min) as usize }
}

/// the memory shown for each pass must be what the pass did
pub fn c09(ctx: &mut Ctx) {
    let n = ctx.n(40_000, 400_000);
    let mut cap = Capture::start(1);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(20.0, 200.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let n = { let n1 = r.logi(2, 10_000) as u32; (n1, n1 + r.logi(1, 20_000) as u32) };
            let mut heap = Heap::default();
            let steps = r.range(0, 40);
            let vast = r.chance(4) && roomy();
            let (ops0, l0) = script(r, &mut heap, 60, if vast { VAST } else { 1 << 20 });
            let (ops1, l1) = script(r, &mut heap, steps, if vast { VAST } else { 1000 });
            let (ops2, l2) = script(r, &mut heap, 40 - steps, if vast { VAST } else { 1000 });
            if vast { c.count("tests_using_more_than_4GiB", 1); }
            let noise = r.logi(1, 1 << 24);
            c.desc = format!("regular test, set sizes {n:?}: reset {l0:?} plus {noise} bytes allocated & freed; pass 1 {ops1:?}; pass 2 {ops2:?} -- expected levels, from each start: {l1:?}, {l2:?}");
            let blocks = std::cell::RefCell::new(Blocks::new());
            let result = { enable(true); let r = catch(|| test_algorithm("measured", 0, || { touch(noise); blocks.borrow_mut().run(&ops0) }, n.0, || { blocks.borrow_mut().run(&ops1); advance(1000); 1 }, n.1, || { blocks.borrow_mut().run(&ops2); advance(1000); 2 }, CLASSES[16], CLASSES[16])); enable(false); r };
            let text = cap.take();
            if let Err(e) = result { return Err(format!("unexpected failure: {}", e.msg)); }
            let sp = BigOSpaceMeasurements { pass_1_measurements: as_measurements(&l1), pass_2_measurements: as_measurements(&l2) };
            let (sc, margin) = ladder(l1.max as f64, l2.max as f64, n.0 as f64, n.1 as f64, TOLERANCE);
            let analysis = &text[text.find("\n\n").unwrap_or(0)..];
            if margin > 1e-6 { crate::c_text::check_regular_text(analysis, "measured", (Duration::from_nanos(1000), Duration::from_nanos(1000)), &sp, n, (1, sc)).map_err(|e| format!("{e} -- in:\n{text}"))?; }
            for (label, p) in [("Pass 1:", &sp.pass_1_measurements), ("Pass 2:", &sp.pass_2_measurements)] {
                let Some((_, s)) = progress(&text, label) else { return Err(format!("'{label}' isn't reported:\n{text}")) };
                crate::c_text::check_pass_text(s, p, 1).map_err(|e| format!("{label} {e} -- in:\n{text}"))?;
            }
            c.key(&[l1.max as u64 / 50, l2.max as u64 / 50, (l1.after + 1000) as u64 / 100, (l2.min + 1000) as u64 / 100]);
            c.count("heap_operations", (ops1.len() + ops2.len()) as u64);
            c.count("passes_compared", 2);
            if l1.min < 0 || l2.min < 0 { c.count("passes_freeing_older_blocks", 1); }
            if l1.max > l1.after.max(0) { c.count("passes_with_transient_memory", 1); }
            Ok(())
        });
    }
}
