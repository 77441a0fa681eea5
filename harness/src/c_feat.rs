//! C27: a battery of tests whose outcome is known, run on binaries compiled with different Cargo features
use crate::c_crud::{analyse, cost_of, numbers, texts, Conf, OPS};
use crate::c_regular::{judge, touch};
use crate::infra::*;
use crate::model::*;
use crate::vclock::{advance, enable};
use big_o_test::{metrics_allocator::MetricsAllocator, test_algorithm, ALLOC};
use std::cell::RefCell;
use std::sync::Mutex;
use std::time::Duration;

const NOALLOC: bool = cfg!(feature = "v_noalloc");
const SINK: i32 = if cfg!(any(feature = "cfg_default", feature = "v_stdout")) { 1 } else if cfg!(feature = "v_stderr") { 2 } else { 0 };
const HAS_ASYNC: bool = cfg!(any(feature = "cfg_default", feature = "v_async"));

/// captures both streams
struct Streams { out: Capture, err: Capture }
impl Streams {
    fn start() -> Self { Streams { out: Capture::start(1), err: Capture::start(2) } }
    /// what went to the right stream, or an error if anything went elsewhere
    fn take(&mut self) -> Result<Option<String>, String> {
        let (o, e) = (self.out.take(), self.err.take());
        let wrong = |s: &str, w: &str| Err(format!("written to {w}: {}", s.chars().take(300).collect::<String>()));
        match SINK {
            1 => if e.is_empty() { Ok(Some(o)) } else { wrong(&e, "stderr") },
            2 => if o.is_empty() { Ok(Some(e)) } else { wrong(&o, "stdout") },
            _ => if !o.is_empty() { wrong(&o, "stdout") } else if !e.is_empty() { wrong(&e, "stderr") } else { Ok(None) },
        }
    }
}

pub fn c27(ctx: &mut Ctx) {
    for _ in 0..ctx.n(2_000, 20_000) {
        if ctx.stopped() { break; }
        ctx.case(crate::c_analysis::tolerance_honoured);
    }
    // a verdict for each class/feature-dependent threshold
    let n = ctx.n(3_000, 30_000);
    let mut digest = 0u64;
    let mut tolerance_sensitive = 0;
    for _ in 0..n {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let n = { let n1 = r.logi(2, 10_000) as u32; (n1, n1 * 2) };
            // close to where the two tolerances disagree
            let t1 = r.logi(1_000, 1_000_000_000);
            let base = *r.pick(&rungs(n.0 as f64, n.1 as f64));
            let t2 = (t1 as f64 * base * *r.pick(&[0.7, 0.82, 0.95, 1.0, 1.05, 1.18, 1.3])).round() as u64;
            let (s1, sbase) = (r.logi(1_000, 1_000_000), *r.pick(&rungs(n.0 as f64, n.1 as f64)));
            let s2 = (s1 as f64 * sbase * *r.pick(&[0.7, 0.82, 0.95, 1.0, 1.05, 1.18, 1.3])).round() as u64;
            let (tc, m1) = ladder(t1 as f64 * 1e-9, t2 as f64 * 1e-9, n.0 as f64, n.1 as f64, TOLERANCE);
            let (sc, m2) = if NOALLOC { (1, 1.0) } else { ladder(s1 as f64, s2 as f64, n.0 as f64, n.1 as f64, TOLERANCE) };
            let other = if TOLERANCE == 0.25 { 0.10 } else { 0.25 };
            if ladder(t1 as f64 * 1e-9, t2 as f64 * 1e-9, n.0 as f64, n.1 as f64, other).0 != tc { tolerance_sensitive += 1; c.count("tolerance_sensitive_cases", 1); }
            let (ct, cs) = ((tc as i64 + r.range(0, 2) as i64 - 1).clamp(0, 16) as usize, (sc as i64 + r.range(0, 2) as i64 - (r.chance(30) as i64)).clamp(0, 16) as usize);
            c.desc = format!("tolerance {TOLERANCE}, metrics allocator {}: set sizes {n:?}, times {t1}, {t2}ns, memory {s1}, {s2} bytes, ceilings {}, {}", !NOALLOC, name(ct), name(cs));
            if m1 < 1e-6 || m2 < 1e-6 { return Ok(()); }
            let test_name = r.name(&["featured"]);
            let log = RefCell::new(Vec::<u8>::with_capacity(64));
            let mut st = Streams::start();
            enable(true);
            let result = catch(|| test_algorithm(test_name, 1, || log.borrow_mut().push(0), n.0, || { log.borrow_mut().push(1); touch(s1); advance(t1); 1 }, n.1, || { log.borrow_mut().push(2); touch(s2); advance(t2); 2 }, CLASSES[ct], CLASSES[cs]));
            enable(false);
            let text = st.take();
            drop(st);
            let (attempts, want) = if sc > cs { (1, Some(("space", cs, sc))) } else if tc > ct { (2, Some(("time", ct, tc))) } else { (1, None) };
            if log.borrow().len() != attempts * 3 { return Err(format!("{} attempts instead of {attempts}", log.borrow().len() / 3)); }
            judge(&result, &want, test_name)?;
            if let Some(text) = text? {
                for what in [CLASSES[tc].as_time_pretty_str(), CLASSES[sc].as_space_pretty_str()] { if !text.contains(what) { return Err(format!("the report doesn't show '{what}':\n{text}")); } }
                if text.matches("Time Analysis:").count() != attempts || text.matches(test_name).count() < attempts || !text.contains(&format!("{:?}", Duration::from_nanos(t2))) { return Err(format!("incomplete report:\n{text}")); }
            }
            c.key(&[tc as u64, sc as u64, ct as u64, cs as u64]);
            c.count("regular_tests", 1);
            Ok(())
        });
        // CRUD: results must be the same, whatever the features
        ctx.case(|c| {
            let r = &mut c.fork();
            let its = r.range(2, 30) as u32;
            let conf = Conf { warm: *r.pick(&[0, 50]), its: [its; 4], th: std::array::from_fn(|_| r.range(1, 3) as u32) };
            let (salt, scale) = (r.next(), r.logi(10, 1_000_000_000));
            c.desc = format!("tolerance {TOLERANCE}, metrics allocator {}: CRUD analysis of {conf:?}, costs up to {scale} (salt {salt})", !NOALLOC);
            let test_name = r.name(&["featured"]);
            let log = Mutex::new(Vec::with_capacity(4096));
            let mut st = Streams::start();
            enable(true);
            let a = catch(|| analyse(&conf, test_name, |op, e| { log.lock().unwrap().push((op, e)); touch(64); advance(cost_of(salt, op, e, scale)) }));
            enable(false);
            let shown = st.take();
            drop(st);
            let a = a.map_err(|e| format!("unexpected failure: {}", e.msg))?;
            let nums = numbers(&a);
            let mut h = vec![];
            for (op, x) in nums.iter().enumerate() {
                let (times, space, tc, sc) = x.as_ref().unwrap();
                let (u1, u2) = (times[0].as_secs_f64(), times[1].as_secs_f64());
                let (want, margin) = if op == 0 || op == 3 { resizing(u1, u2, its as f64, TOLERANCE) } else { ladder(u1, u2, its as f64, its as f64 * 2.0, TOLERANCE) };
                if margin > 1e-6 && want != *tc { return Err(format!("operation {op}: {times:?} judged as {} instead of {}", name(*tc), name(want))); }
                if NOALLOC && (*sc != 1 || space.iter().any(|s| s.max_used_memory != 0 || s.used_memory_after != 0 || s.used_memory_before != 0 || s.min_used_memory != 0)) { return Err(format!("operation {op}: memory measured without the allocator: {space:?}")); }
                if !NOALLOC && space.iter().any(|s| s.max_used_memory <= s.used_memory_before) { return Err(format!("operation {op}: no memory was measured: {space:?}")); }
                h.extend([times[0].as_nanos() as u64, times[1].as_nanos() as u64, *tc as u64]);
            }
            let mut calls = log.into_inner().unwrap();
            calls.sort();
            h.extend(calls.iter().map(|(o, e)| hash(&[*o as u64, *e as u64])));
            digest = hash(&[digest, hash(&h)]);
            for t in texts(&a) { if !a.4.contains(t.as_ref().unwrap()) { return Err("an analysis is missing from the returned report".into()); } }
            if let Some(shown) = shown? { if !shown.contains(a.4.trim()) { return Err(format!("the full report wasn't shown:\n{}\n---- shown:\n{shown}", a.4)); } }
            c.key(&[conf.warm as u64, its as u64]);
            c.count("crud_analyses", 1);
            Ok(())
        });
    }
    // CRUD tests: passing, failing on time (with retries) or on memory (where it is measured), panicking & with calls that get a save point forgotten
    for k in 0..ctx.n(300, 3_000) {
        ctx.case(|c| {
            let r = &mut c.fork();
            let its = r.range(4, 20) as u32;
            let conf = Conf { warm: *r.pick(&[0, 50]), its: [its; 4], th: std::array::from_fn(|_| r.range(1, 3) as u32) };
            let (fate, op, retries) = (k % 4, r.below(4) as usize, r.below(3) as u32);
            let mut ceil = [(16, 16); 4];
            match fate { 1 => ceil[op].0 = 1, 2 => ceil[op].1 = 1, _ => () }
            c.desc = format!("tolerance {TOLERANCE}, metrics allocator {}: CRUD test of {conf:?}, {} retries, {}", !NOALLOC, retries, match fate { 1 => format!("{} too slow", OPS[op]), 2 => format!("{} using too much memory", OPS[op]), 3 => format!("{} panicking", OPS[op]), _ => "passing".into() });
            let test_name = r.name(&["featured"]);
            let second: [std::ops::Range<u32>; 4] = std::array::from_fn(|op| conf.phases().into_iter().find(|p| p.0 == op && p.1 == 2).unwrap().2);
            let mut st = Streams::start();
            enable(true);
            let result = catch(|| crate::c_crud::test(&conf, test_name, retries, &ceil, |o, e| {
                if o == 4 { return; }
                if fate == 3 && o == op && e == second[o].start { std::panic::resume_unwind(Box::new("planned")); }
                // (attempts may differ in their number of iterations: usages that keep growing get the same verdict on all of them)
                let steps = e as u64 + 1;
                touch(if o == op && fate == 2 { steps * steps * 1000 } else { 10_000 });
                advance(if o == op && fate == 1 { steps * steps * steps } else { 1000 })
            }));
            enable(false);
            let shown = st.take();
            drop(st);
            let fails = fate == 1 || fate == 3 || fate == 2 && !NOALLOC;
            if result.is_ok() == fails { return Err(format!("wrong verdict: {:?} -- shown: {shown:?}", result.err().map(|e| e.msg))); }
            if let Err(e) = &result { if fate < 3 && (!e.msg.contains(["TIME", "SPACE"][fate as usize - 1]) || !e.msg.contains(OPS[op])) { return Err(format!("wrong failure message: {}", e.msg)); } }
            if let (Some(t), false) = (shown?, fate == 3) { if !fails && t.matches("Time Analysis:").count() != 4 || !t.contains(test_name) { return Err(format!("incomplete report: {t}")); } }
            c.key(&[3000, fate, op as u64, fails as u64, retries as u64, (conf.warm > 0) as u64]);
            c.count(["crud_tests_passing", "crud_tests_failing_on_time", "crud_tests_greedy", "crud_tests_panicking"][fate as usize], 1);
            Ok(())
        });
        ctx.case(|c| {
            let r = &mut c.fork();
            let at = r.below(3) as u8;
            c.desc = format!("test_algorithm panicking in {}", ["reset", "the 1st pass", "the 2nd pass"][at as usize]);
            let test_name = r.name(&["featured"]);
            let stage = |s: u8| { if s == at { std::panic::resume_unwind(Box::new("planned")) } advance(1000); s as u32 };
            let mut st = Streams::start();
            enable(true);
            let result = catch(|| test_algorithm(test_name, 2, || { stage(0); }, 100, || stage(1), 200, || stage(2), CLASSES[16], CLASSES[16]));
            enable(false);
            let shown = st.take();
            drop(st);
            if result.is_ok() { return Err("the panic was swallowed".into()); }
            shown?;
            c.key(&[4000, at as u64]);
            c.count("regular_tests_panicking", 1);
            Ok(())
        });
    }
    // the global allocator
    for i in 0..20u64 {
        ctx.case(|c| {
            let size = 1 << i;
            c.desc = format!("{size} bytes allocated by user code, metrics allocator {}", !NOALLOC);
            let sp = ALLOC.save_point();
            let v = std::hint::black_box(vec![1u8; size]);
            let s = ALLOC.delta_statistics(&sp).map_err(|_| "no statistics".to_string())?;
            drop(v);
            let d = ALLOC.delta_statistics(&sp).map_err(|_| "no statistics".to_string())?;
            let got = (s.allocated_bytes, s.allocations_count, s.max_used_memory - sp.metrics.current_used_memory, d.deallocated_bytes);
            let want = if NOALLOC { (0, 0, 0, 0) } else { (size, 1, size, size) };
            if got != want { return Err(format!("(bytes allocated, allocations, peak, bytes deallocated) were {got:?} instead of {want:?}")); }
            if NOALLOC && (d.current_used_memory, d.max_used_memory, d.min_used_memory) != (0, 0, 0) { return Err(format!("statistics aren't zero: {d}")); }
            // other instances work all the same
            let a = MetricsAllocator::<4>::new();
            let sp = a.save_point();
            let l = std::alloc::Layout::from_size_align(size, 8).unwrap();
            unsafe { use std::alloc::GlobalAlloc; let p = a.alloc(l); a.dealloc(p, l); }
            let s = a.delta_statistics(&sp).map_err(|_| "no statistics".to_string())?;
            if s.max_used_memory != size { return Err("instances other than the global one stopped working".into()); }
            c.key(&[1000 + i]);
            c.count("global_allocator_probes", 1);
            Ok(())
        });
    }
    #[cfg(any(feature = "cfg_default", feature = "v_async"))]
    for k in 0..ctx.n(300, 3_000) {
        ctx.case(|c| {
            use crate::c_async::*;
            let r = &mut c.fork();
            let test_name = r.name(&["featured"]);
            let mut s = Setup::random(r, test_name);
            s.n = (100, 200);
            s.tc = Some(5);
            // it passes, fails on time, fails on memory (where it is measured) or panics
            let fate = k % 4;
            s.sc = (fate == 2 || r.chance(50)).then_some(1);
            s.reattempts = *r.pick(&[None, Some(0), Some(2)]);
            let (slow, greedy, panics) = (fate == 1, fate == 2, fate == 3);
            let all = s.stages();
            let stop = if panics { Some(r.below(all.len() as u64) as usize) } else { None };
            let last = stop.map(|i| all[i]);
            let occurrence = stop.map_or(0, |i| all[..i].iter().filter(|x| **x == all[i]).count());
            c.desc = format!("async test {s:?}, {}", ["linear", "not linear", "using too much memory", "panicking"][fate as usize]);
            let seen = std::sync::atomic::AtomicUsize::new(0);
            let mut st = Streams::start();
            let (result, log, _) = run(&s, move |st, _, p| if p == 0 {
                if last == Some(st) && seen.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == occurrence { std::panic::resume_unwind(Box::new("planned")); }
                touch(match st { Stage::Pass2 if greedy => 900_000, Stage::Pass1 | Stage::Pass2 => 100_000, _ => 0 });
                advance(match st { Stage::Pass2 if slow => 9000, Stage::Pass2 => 2000, _ => 1000 })
            });
            let text = st.take();
            drop(st);
            let fails = slow || panics || greedy && !NOALLOC;
            if result.is_ok() == fails { return Err(format!("wrong verdict: {:?}", result.err().map(|e| e.msg))); }
            let attempts = if slow { 1 + s.reattempts.unwrap_or(0) as usize } else { 1 };
            let events = match stop { Some(i) => 2 * i + 1, None => attempts * 2 * s.stages().len() };
            if s.reattempts.is_some() && log.len() != events { return Err(format!("{} events instead of {events}", log.len())); }
            if let (Some(t), false) = (text?, panics) { if !t.contains("Time Analysis:") || !t.contains(test_name) { return Err(format!("incomplete report: {t}")); } }
            if fails && !panics { if let Err(e) = &result { c.count(if e.msg.contains("SPACE") { "async_failures_on_space" } else { "async_failures_on_time" }, 1); } }
            let bad = fails;
            c.key(&[2000, fate, bad as u64, s.stages().len() as u64]);
            c.count("async_tests", 1);
            Ok(())
        });
    }
    if ctx.thorough || true { ctx.count(&format!("digest:{TOLERANCE}:{digest:016x}"), 1); }
    ctx.count(&format!("variant: sink {SINK}, tolerance {TOLERANCE}, no allocator {NOALLOC}, async {HAS_ASYNC}"), 1);
    let _ = tolerance_sensitive;
}
