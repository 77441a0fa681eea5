//! C07, C08, C09 & C12 on async algorithms
use crate::c_regular::{any_time, as_measurements, judge, outcome, plan, plan_of_few, progress, script, touch, Attempt, Blocks, Heap, HUGE_LIMITS, TEST_NAMES, VAST};
use crate::infra::*;
use crate::model::*;
use crate::vclock::{advance, enable, now};
use big_o_test::low_level_analysis::types::*;
use big_o_test::RegularAsyncAnalyzerBuilder;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicI64, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};
use std::time::Duration;

/// runs on a single threaded runtime, with tokio's clock paused (its sleeps take no time)
pub fn block_on<T>(f: impl Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().expect("runtime").block_on(f)
}

/// threads that may poll a future on behalf of another -- as runtimes whose threads steal work from each other do.
/// Handing them work doesn't touch the heap.
struct Pool { lanes: Arc<Vec<(Mutex<Lane>, Condvar)>>, threads: Vec<std::thread::JoinHandle<()>>, hops: u64 }
#[derive(Default)]
struct Lane { job: Option<Job>, done: Option<std::thread::Result<u64>>, quit: bool }
struct Job(*mut (dyn FnMut() + Send), u64);
unsafe impl Send for Job {}
impl Pool {
    fn new(k: usize) -> Self {
        let lanes: Arc<Vec<(Mutex<Lane>, Condvar)>> = Arc::new((0..k).map(|_| Default::default()).collect());
        let threads = (0..k).map(|i| { let lanes = lanes.clone(); std::thread::spawn(move || {
            let (lane, cv) = &lanes[i];
            let mut l = lane.lock().unwrap();
            loop {
                if let Some(Job(f, clock)) = l.job.take() {
                    drop(l);
                    crate::vclock::set(clock);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { (*f)() })).map(|_| now());
                    l = lane.lock().unwrap();
                    l.done = Some(r);
                    cv.notify_all();
                } else if l.quit { return } else { l = cv.wait(l).unwrap(); }
            }
        }) }).collect();
        let mut pool = Pool { lanes, threads, hops: 0 };
        for i in 0..k { pool.on(i, || ()); }    // all of them are ready
        pool
    }
    /// has thread `i` run `f`
    fn on<T: Send>(&mut self, i: usize, mut f: impl FnMut() -> T + Send) -> T {
        self.hops += 1;
        let mut result = None;
        let mut job = || result = Some(f());
        let job: &mut (dyn FnMut() + Send) = &mut job;
        let (lane, cv) = &self.lanes[i];
        let mut l = lane.lock().unwrap();
        // (it won't be used after we're done here)
        l.job = Some(Job(unsafe { std::mem::transmute::<*mut (dyn FnMut() + Send + '_), *mut (dyn FnMut() + Send + 'static)>(job) }, now()));
        cv.notify_all();
        while l.done.is_none() { l = cv.wait(l).unwrap(); }
        let done = l.done.take().unwrap();
        drop(l);
        match done { Ok(clock) => crate::vclock::set(clock), Err(p) => std::panic::resume_unwind(p) }
        result.unwrap()
    }
}
impl Drop for Pool {
    fn drop(&mut self) {
        for (lane, cv) in self.lanes.iter() { lane.lock().unwrap_or_else(|e| e.into_inner()).quit = true; cv.notify_all(); }
        for t in self.threads.drain(..) { let _ = t.join(); }
    }
}
/// each poll happening on a thread picked at random, among `threads` of them
async fn hopping<T: Send>(f: impl Future<Output = T> + Send, threads: usize, seed: u64) -> T {
    if threads == 0 { return f.await; }
    let (mut pool, mut r) = (Pool::new(threads), Rng::new(seed));
    let h = tokio::runtime::Handle::current();
    for i in 0..threads { pool.on(i, || drop(h.enter())); }
    let mut f = Box::pin(f);
    let result = std::future::poll_fn(|cx| { let i = r.below(threads as u64) as usize; let (w, h) = (cx.waker().clone(), &h); pool.on(i, || { let _in = h.enter(); f.as_mut().poll(&mut Context::from_waker(&w)) }) }).await;
    // (it may also be dropped by any of them)
    let i = r.below(threads as u64) as usize;
    let mut f = Some(f);
    pool.on(i, || drop(f.take()));
    result
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stage { Reset, Warmup, Pass1, Assert1, Pass2, Assert2, Replaced }
use Stage::*;

/// the datum handed along; `live` counts the existing ones
pub struct Datum { pub id: u64, live: Arc<AtomicI64> }
impl Datum { fn new(id: u64, live: &Arc<AtomicI64>) -> Self { live.fetch_add(1, SeqCst); Datum { id, live: live.clone() } } }
impl Drop for Datum { fn drop(&mut self) { self.live.fetch_sub(1, SeqCst); } }
impl std::fmt::Debug for Datum { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "Datum#{}", self.id) } }

struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { if self.0 { Poll::Ready(()) } else { self.0 = true; cx.waker().wake_by_ref(); Poll::Pending } }
}

#[derive(Clone, Debug)]
pub enum Ev { Begin(Stage, Option<u64>), End(Stage, Option<u64>) }
pub struct Shared { log: Mutex<(Vec<Ev>, u64, usize)>, clock: Mutex<Vec<u64>>, live: Arc<AtomicI64>, yields: usize, act: Box<dyn Fn(Stage, usize, usize) + Send + Sync> }
/// portion given to `act` when the closure was called, but its future wasn't polled yet
pub const CALLED: usize = usize::MAX;
impl Shared {
    fn begin(&self, s: Stage, got: Option<u64>) -> usize {
        self.clock.lock().unwrap().push(now());
        let attempt = { let mut l = self.log.lock().unwrap(); l.0.push(Ev::Begin(s, got)); if s == Assert2 { l.2 - 1 } else { l.2 } };
        (self.act)(s, attempt, CALLED);
        attempt
    }
    async fn work(&self, s: Stage, attempt: usize) {
        for i in 0..=self.yields { if i > 0 { Yield(false).await; } (self.act)(s, attempt, i); }
    }
    fn end(&self, s: Stage, returning: bool) -> u64 {
        self.clock.lock().unwrap().push(now());
        let mut l = self.log.lock().unwrap();
        if returning { l.1 += 1; }
        let id = l.1;
        l.0.push(Ev::End(s, returning.then_some(id)));
        if s == Pass2 { l.2 += 1; }
        id
    }
}
#[derive(Clone, Debug)]
pub struct Setup { pub name: String, pub reset: bool, pub warmup: bool, pub a1: bool, pub a2: bool, pub reattempts: Option<u32>, pub n: (u32, u32), pub tc: Option<usize>, pub sc: Option<usize>, pub yields: usize, pub building: Option<u64>, pub threads: usize }
impl Setup {
    pub fn random(r: &mut Rng, name: &str) -> Self {
        let n1 = r.logi(2, 10_000) as u32;
        Setup { name: name.into(), reset: r.chance(60), warmup: r.chance(50), a1: r.chance(50), a2: r.chance(50), reattempts: None, n: (n1, n1 + r.logi(1, 30_000) as u32), tc: None, sc: None, yields: r.below(4) as usize, building: r.chance(60).then(|| r.next()), threads: if r.chance(20) { r.range(1, 3) as usize } else { 0 } }
    }
    pub fn stages(&self) -> Vec<Stage> {
        let mut v = vec![];
        if self.reset { v.push(Reset) }
        if self.warmup { v.push(Warmup); if self.reset { v.push(Reset) } }
        v.push(Pass1);
        if self.a1 { v.push(Assert1) }
        if self.reset { v.push(Reset) }
        v.push(Pass2);
        if self.a2 { v.push(Assert2) }
        v
    }
}
fn shared(s: &Setup, act: impl Fn(Stage, usize, usize) + Send + Sync + 'static) -> Arc<Shared> {
    Arc::new(Shared { log: Mutex::new((Vec::with_capacity(4096), 0, 0)), clock: Mutex::new(Vec::with_capacity(4096)), live: Arc::new(AtomicI64::new(0)), yields: s.yields, act: Box::new(act) })
}
/// the test itself
async fn testing(s: &Setup, sh: &Arc<Shared>) {
    // `$instead`: a stage that another call to the same builder method is to replace, so it should never run
    macro_rules! stage { ($st: expr, $instead: expr) => {{ let sh = sh.clone(); let replaced = $instead; move |d: Option<Datum>| {
        let attempt = sh.begin(if replaced { Replaced } else { $st }, d.as_ref().map(|d| d.id));
        let sh = sh.clone();
        async move { sh.work($st, attempt).await; drop(d); let id = sh.end($st, true); Datum::new(id, &sh.live) }
    } }} }
    macro_rules! assertion { ($st: expr, $instead: expr) => {{ let sh = sh.clone(); let replaced = $instead; move |d: &Datum| {
        let attempt = sh.begin(if replaced { Replaced } else { $st }, Some(d.id));
        let sh = sh.clone();
        async move { sh.work($st, attempt).await; sh.end($st, false); }
    } }} }
    // the builder's methods are called in an order of ours, some of them a first time with what the last call is to replace
    let mut calls: Vec<(usize, bool)> = (0..9).map(|k| (k, false)).collect();
    if let Some(seed) = s.building {
        let mut r = Rng::new(seed);
        for i in (1..calls.len()).rev() { calls.swap(i, r.below(i as u64 + 1) as usize); }
        for k in 0..9 { if r.chance(25) { let to = r.below(calls.iter().position(|c| *c == (k, false)).unwrap() as u64 + 1) as usize; calls.insert(to, (k, true)); } }
    }
    let mut b = RegularAsyncAnalyzerBuilder::new(s.name.clone());
    for (k, instead) in calls {
        match k {
            0 => if s.reset { b = b.with_reset_fn(stage!(Reset, instead)); }
            1 => if s.warmup { b = b.warmup_pass(stage!(Warmup, instead)); }
            2 => if let Some(k) = s.reattempts { b = b.with_max_reattempts(if instead { k.wrapping_add(3) } else { k }); }
            3 => b = b.first_pass(if instead { 7 } else { s.n.0 }, stage!(Pass1, instead)),
            4 => if s.a1 { b = b.first_pass_assertion(assertion!(Assert1, instead)); }
            5 => b = b.second_pass(if instead { 9 } else { s.n.1 }, stage!(Pass2, instead)),
            6 => if s.a2 { b = b.second_pass_assertion(assertion!(Assert2, instead)); }
            7 => if let Some(c) = s.tc { b = b.with_time_measurements(CLASSES[if instead { 16 - c } else { c }]); }
            _ => if let Some(c) = s.sc { b = b.with_space_measurements(CLASSES[if instead { 16 - c } else { c }]); }
        }
    }
    b.test_algorithm().await
}
/// runs the test, returning its outcome, what was called & how many data weren't dropped
pub fn run(s: &Setup, act: impl Fn(Stage, usize, usize) + Send + Sync + 'static) -> (Result<(), PanicNote>, Vec<Ev>, i64) {
    let sh = shared(s, act);
    enable(true);
    let result = catch(|| block_on(hopping(testing(s, &sh), s.threads, s.n.0 as u64)));
    enable(false);
    let log = sh.log.lock().unwrap_or_else(|e| e.into_inner()).0.clone();
    (result, log, sh.live.load(SeqCst))
}
/// an async test -- on borrowed code -- whose passes do just this
pub fn scoped(name: &str, act: impl Fn(u64) + Send + Sync) {
    let act = &act;
    block_on(RegularAsyncAnalyzerBuilder::<_, _, _, _, u32>::new(name)
        .first_pass(10, move |_| async move { act(0); 1 }).second_pass(20, move |_| async move { act(1); 2 }).test_algorithm());
}
/// same as [run()], for when it isn't the only test running
pub fn run_unguarded(s: &Setup, act: impl Fn(Stage, usize, usize) + Send + Sync + 'static) -> (std::thread::Result<()>, Vec<Ev>, i64) {
    let sh = shared(s, act);
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(hopping(testing(s, &sh), s.threads, s.n.0 as u64))));
    let log = sh.log.lock().unwrap_or_else(|e| e.into_inner()).0.clone();
    (result, log, sh.live.load(SeqCst))
}
/// starts the test, dropping it after this many polls. Returns (was it over by then?, events at the drop, events after it, values not dropped, holders of the closures left)
pub fn run_and_drop(s: &Setup, polls: usize, act: impl Fn(Stage, usize, usize) + Send + Sync + 'static) -> (bool, Vec<Ev>, Vec<Ev>, i64, usize) {
    let sh = shared(s, act);
    let (over, at_drop) = block_on(async {
        let mut test = Box::pin(hopping(testing(s, &sh), s.threads, s.n.0 as u64 ^ polls as u64));
        let mut left = polls;
        let over = std::future::poll_fn(|cx| {
            if left == 0 { return Poll::Ready(false); }
            left -= 1;
            let r = test.as_mut().poll(cx);
            if left == 0 { cx.waker().wake_by_ref(); }
            r.map(|_| true)
        }).await;
        let at_drop = sh.log.lock().unwrap().0.clone();
        drop(test);
        // whatever it might have left behind has the chance to run
        for _ in 0..20 { Yield(false).await; }
        tokio::time::sleep(Duration::from_secs(3600)).await;
        (over, at_drop)
    });
    let after = sh.log.lock().unwrap().0[at_drop.len()..].to_vec();
    (over, at_drop, after, sh.live.load(SeqCst), Arc::strong_count(&sh) - 1)
}

/// stages that began & ended, in order and never overlapping, for this many attempts
fn check_order(s: &Setup, log: &[Ev], attempts: usize) -> Result<(), String> {
    let expected: Vec<Stage> = (0..attempts).flat_map(|_| s.stages()).collect();
    let began: Vec<Stage> = log.iter().filter_map(|e| if let Ev::Begin(s, _) = e { Some(*s) } else { None }).collect();
    if began != expected { return Err(format!("stages ran as {began:?} instead of {expected:?}")); }
    for p in log.chunks(2) {
        match p { [Ev::Begin(a, _), Ev::End(b, _)] if a == b => (), _ => return Err(format!("stages overlap: {log:?}")) }
    }
    Ok(())
}
fn check_data(s: &Setup, log: &[Ev]) -> Result<(), String> {
    let per_attempt = s.stages().len();
    let mut last: Option<u64> = None;
    for (i, p) in log.chunks(2).enumerate() {
        let (Ev::Begin(stage, got), Ev::End(_, ret)) = (&p[0], &p[1]) else { return Err("overlapping stages".into()) };
        let retry_without_reset = i > 0 && i % per_attempt == 0 && !s.reset;
        if *got != last && !(retry_without_reset && got.is_none()) { return Err(format!("stage #{i}, {stage:?}, received {got:?} -- the stage before it yielded {last:?}: {log:?}")); }
        if ret.is_some() { last = *ret; }
    }
    Ok(())
}

fn attempts_act(v: Vec<Attempt>, noise: bool) -> impl Fn(Stage, usize, usize) + Send + Sync + 'static {
    move |s, k, portion| {
        if portion != 0 { return; }
        let a = v.get(k).cloned().unwrap_or(Attempt { t: (1, 1), s: (0, 0), tc: 1, sc: 1 });
        match s {
            Pass1 => { touch(a.s.0); advance(a.t.0) }
            Pass2 => { advance(a.t.1); touch(a.s.1) }
            _ => if noise { touch(5_000_000); advance(77_777_777) }
        }
    }
}

pub fn c07(ctx: &mut Ctx) {
    let n = ctx.n(80_000, 600_000);
    let mut cap = Capture::start(1);
    // a ceiling that can be set, but isn't looked at -- a known finding
    for (aux, used) in [(0usize, (0u64, 1000u64)), (1, (1000, 16000)), (5, (1000, 4000))] {
        ctx.case(|c| {
            c.desc = format!("async test on set sizes 1000, 2000 with an auxiliary space maximum of {}, and passes that allocate {} & {} bytes, then free them", name(aux), used.0, used.1);
            enable(true);
            let result = catch(|| block_on(RegularAsyncAnalyzerBuilder::<_, _, _, _, u32>::new("aux")
                .first_pass(1000, move |_| async move { touch(used.0); advance(1000); 1 }).second_pass(2000, move |_| async move { touch(used.1); advance(1000); 2 })
                .with_auxiliary_space_measurements(CLASSES[aux]).test_algorithm()));
            enable(false);
            cap.take();
            c.key(&[aux as u64, 999]);
            c.count("auxiliary_space_ceilings_exceeded", 1);
            if result.is_ok() { c.count("known:auxiliary_space_ceiling_ignored", 1); }
            Ok(())
        });
    }
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(40.0, 400.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let test_name = r.name(&TEST_NAMES);
            let mut s = Setup::random(r, test_name);
            let many = if r.chance(10) { 60 } else { 12 };
            s.reattempts = *r.pick(&[None, Some(0), Some(1), Some(2), Some(5), Some(1), Some(2), Some(many)]);
            s.tc = if r.chance(85) { Some(r.below(17) as usize) } else { None };
            s.sc = if r.chance(75) { Some(if r.chance(60) { 16 - r.below(8) as usize } else { r.below(17) as usize }) } else { None };
            let (mut n, mut v) = plan(r, s.reattempts.unwrap_or(0) as u64 + 1, s.tc, s.sc);
            if r.chance(8) { if let Some(p) = plan_of_few(r, s.tc, s.sc) { (n, v) = p; s.reattempts = Some(*r.pick(&HUGE_LIMITS)); c.count("tests_with_huge_limits", 1); } }
            s.n = n;
            c.desc = format!("{s:?} (ceilings: time {:?}, space {:?}), attempts using {v:?}", s.tc.map(name), s.sc.map(name));
            let (want_attempts, want) = outcome(&v, s.tc, s.sc);
            let (result, log, _) = run(&s, attempts_act(v.clone(), true));
            let text = cap.take();
            let passes = log.iter().filter(|e| matches!(e, Ev::Begin(Pass2, _))).count();
            if passes != want_attempts { return Err(format!("{passes} attempts instead of {want_attempts}; it {}", if result.is_ok() { "passed" } else { "failed" })); }
            check_order(&s, &log, want_attempts)?;
            judge(&result, &want, test_name)?;
            // retries work on what the failed attempt left
            if s.reset { check_data(&s, &log)?; }
            if text.matches("Time Analysis:").count() != want_attempts || text.matches(test_name).count() < want_attempts { return Err(format!("{want_attempts} attempts of '{test_name}' should have been reported:\n{text}")); }
            c.key(&[want_attempts as u64, want.map_or(0, |w| 1 + (w.0 == "time") as u64), s.tc.map_or(99, |x| x as u64), s.sc.map_or(99, |x| x as u64), v[want_attempts - 1].tc as u64]);
            c.count("attempts_monitored", want_attempts as u64);
            c.count(match want { None if want_attempts > 1 => "passed_after_retries", None => "passed_at_once", Some(("space", ..)) => "failed_on_space", _ => "failed_on_time" }, 1);
            if s.tc.is_none() || s.sc.is_none() { c.count("with_unset_ceilings", 1); }
            if s.threads > 1 { c.count("tests_polled_by_several_threads", 1); }
            Ok(())
        });
    }
}

pub fn c12(ctx: &mut Ctx) {
    let n = ctx.n(100_000, 800_000);
    let mut cap = Capture::start(1);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 300.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let mut s = Setup::random(r, "stages");
            if i < 16 { s.reset = i & 1 > 0; s.warmup = i & 2 > 0; s.a1 = i & 4 > 0; s.a2 = i & 8 > 0; }
            // the time mismatches on the first attempts
            let attempts = if r.chance(2) { r.range(5, 40) } else { r.range(1, 4) } as usize;
            s.tc = if attempts > 1 || r.chance(50) { Some(5) } else { None };
            s.reattempts = if attempts > 1 || r.chance(50) { Some(attempts as u32 - 1 + r.below(2) as u32) } else { None };
            s.n = (100, 200);
            // (any set sizes will do, if no class is demanded)
            if s.tc.is_none() { let n = r.logi(1, u32::MAX as u64) as u32; s.n = match r.below(5) { 0 => (n, n), 1 => (n, r.logi(1, u32::MAX as u64) as u32), 2 => (n, n.saturating_add(1)), _ => s.n }; }
            c.desc = format!("{s:?}; the time mismatches on the first {} attempts", attempts - 1);
            // a second pass is good whenever it takes up to twice the first
            let times: Vec<(u64, u64)> = (0..attempts).map(|k| { let t = r.logi(1, 10_000_000_000); (t, if k + 1 < attempts { t * 64 } else if r.chance(40) { r.below(t + 1) } else { r.range(t, 2 * t) }) }).collect();
            let other = any_time(r);
            c.desc += &format!("; times of each attempt's passes: {times:?}");
            let (result, log, live) = run(&s, move |st, k, portion| if portion == 0 { advance(match st { Pass1 => times[k].0, Pass2 => times[k].1, _ => other }) });
            cap.take();
            if let Err(e) = result { return Err(format!("unexpected failure: {}", e.msg)); }
            check_order(&s, &log, attempts)?;
            check_data(&s, &log)?;
            if live != 0 { return Err(format!("{live} values weren't dropped in the end")); }
            c.key(&[s.reset as u64, s.warmup as u64, s.a1 as u64, s.a2 as u64, attempts as u64, s.yields as u64]);
            c.count("stages_monitored", log.len() as u64 / 2);
            if s.threads > 1 { c.count("tests_polled_by_several_threads", 1); }
            c.count("retries_monitored", attempts as u64 - 1);
            Ok(())
        });
    }
}

pub fn c08(ctx: &mut Ctx) {
    let n = ctx.n(30_000, 300_000);
    let mut cap = Capture::start(1);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(20.0, 200.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let s = Setup::random(r, "timed");
            let t: Vec<[u64; 5]> = (0..6).map(|_| [any_time(r), any_time(r), any_time(r), any_time(r), any_time(r)]).collect();
            c.desc = format!("{s:?}; each portion of reset, warm-up, pass 1, assertion 1, pass 2 & assertion 2 takes (ns; the first of each being for creating the future): {t:?}");
            let index = |st: Stage| match st { Reset => 0, Warmup => 1, Pass1 => 2, Assert1 => 3, Pass2 => 4, _ => 5 };
            let total = |st: Stage| Duration::from_nanos(t[index(st)][0] + t[index(st)][1..=s.yields + 1].iter().sum::<u64>());
            let tt = t.clone();
            let (result, _, _) = run(&s, move |st, _, portion| advance(tt[index(st)][if portion == CALLED { 0 } else { portion + 1 }]));
            let text = cap.take();
            if let Err(e) = result { return Err(format!("unexpected failure: {}", e.msg)); }
            let (d1, d2) = (total(Pass1), total(Pass2));
            let (tc, margin) = ladder(d1.as_nanos() as f64 * 1e-9, d2.as_nanos() as f64 * 1e-9, s.n.0 as f64, s.n.1 as f64, TOLERANCE);
            let zero = BigOSpacePassMeasurements { used_memory_before: 0, used_memory_after: 0, max_used_memory: 0, min_used_memory: 0 };
            let analysis = &text[text.find("\n\n").unwrap_or(0)..];
            c.key(&[(d1.as_nanos() as u64 + 1).ilog2() as u64, (d2.as_nanos() as u64 + 1).ilog2() as u64, tc as u64]);
            c.count("async_pass_times_compared", 4);
            if s.threads > 1 { c.count("tests_polled_by_several_threads", 1); }
            if margin > 1e-6 { crate::c_text::check_regular_text(analysis, "timed", (d1, d2), &BigOSpaceMeasurements { pass_1_measurements: zero, pass_2_measurements: zero }, s.n, (tc, 1)).map_err(|e| format!("{e} -- in:\n{text}"))?; }
            for (l, d, present) in [("Pass 1:", d1, true), ("Pass 2:", d2, true), ("Warming up:", total(Warmup), s.warmup), ("Resetting:", total(Reset), s.reset)] {
                if !present { continue; }
                let Some((x, _)) = progress(&text, l) else { return Err(format!("'{l}' isn't reported:\n{text}")) };
                let Some((ns, _)) = parse_duration(x) else { return Err(format!("'{x}' is not a duration")) };
                if (ns - d.as_nanos() as f64).abs() > 0.5 { return Err(format!("'{l}' reported as {x} -- it took {d:?}:\n{text}")); }
            }
            Ok(())
        });
    }
}

pub fn c09(ctx: &mut Ctx) {
    let n = ctx.n(30_000, 300_000);
    let mut cap = Capture::start(1);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(20.0, 200.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let mut s = Setup::random(r, "measured");
            s.yields = s.yields.min(2);
            let mut heap = Heap::default();
            // one script per stage, in the order they'll run
            let stages = s.stages();
            let mut scripts = vec![];
            let vast = r.chance(4) && roomy();
            if vast { c.count("tests_using_more_than_4GiB", 1); }
            for st in &stages {
                let measured = matches!(st, Pass1 | Pass2);
                let steps = r.range(0, 30);
                scripts.push((*st, script(r, &mut heap, steps, if vast { VAST } else if measured { 1000 } else { 1 << 20 })));
            }
            let noise = r.logi(1, 1 << 24);
            c.desc = format!("{s:?}; heap operations of each stage: {scripts:?}");
            let blocks = Mutex::new((Blocks::new(), 0usize));
            let todo = scripts.clone();
            let last = s.yields;
            let (result, log, _) = run(&s, move |st, _, portion| {
                if portion == CALLED { return; }
                let mut b = blocks.lock().unwrap();
                let k = b.1;
                let Some((_, (ops, _))) = todo.get(k) else { return };
                // half of the script in the first poll, the remaining at the last
                if portion == 0 { if !matches!(st, Pass1 | Pass2) { touch(noise); } let h = if last == 0 { ops.len() } else { ops.len() / 2 }; b.0.run(&ops[..h]); }
                if portion == last { if last > 0 { b.0.run(&ops[ops.len() / 2..]); } b.1 += 1; if matches!(st, Pass1 | Pass2) { advance(1000); } }
            });
            let text = cap.take();
            if let Err(e) = result { return Err(format!("unexpected failure: {}", e.msg)); }
            check_order(&s, &log, 1)?;
            let levels = |w: Stage| scripts.iter().find(|(st, _)| *st == w).unwrap().1 .1.clone();
            let (l1, l2) = (levels(Pass1), levels(Pass2));
            let sp = BigOSpaceMeasurements { pass_1_measurements: as_measurements(&l1), pass_2_measurements: as_measurements(&l2) };
            let (sc, margin) = ladder(l1.max as f64, l2.max as f64, s.n.0 as f64, s.n.1 as f64, TOLERANCE);
            let analysis = &text[text.find("\n\n").unwrap_or(0)..];
            if margin > 1e-6 { crate::c_text::check_regular_text(analysis, "measured", (Duration::from_nanos(1000), Duration::from_nanos(1000)), &sp, s.n, (1, sc)).map_err(|e| format!("expected levels {l1:?}, {l2:?}: {e} -- in:\n{text}"))?; }
            for (label, p) in [("Pass 1:", &sp.pass_1_measurements), ("Pass 2:", &sp.pass_2_measurements)] {
                let Some((_, x)) = progress(&text, label) else { return Err(format!("'{label}' isn't reported:\n{text}")) };
                crate::c_text::check_pass_text(x, p, 1).map_err(|e| format!("{label} {e} -- in:\n{text}"))?;
            }
            c.key(&[l1.max as u64 / 50, l2.max as u64 / 50, (l1.after + 1000) as u64 / 100, s.yields as u64]);
            c.count("async_passes_compared", 2);
            if s.threads > 1 { c.count("tests_polled_by_several_threads", 1); }
            if l1.min < 0 || l2.min < 0 { c.count("async_passes_freeing_older_blocks", 1); }
            Ok(())
        });
    }
}

/// how many polls the whole test takes
fn polls_of(s: &Setup) -> usize { let mut k = 0; loop { k += 1; if run_and_drop(s, k, |_, _, _| ()).0 || k > 500 { return k; } } }

/// C29: dropped tests & tests that run in turns
pub fn c29(ctx: &mut Ctx) {
    let n = ctx.n(30_000, 150_000);
    let mut cap = Capture::start(1);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(25.0, 250.0) { break; }
        if i % 3 < 2 { ctx.case(|c| {
            let r = &mut c.fork();
            let mut s = Setup::random(r, "dropped");
            let attempts = r.range(1, 3) as usize;
            s.tc = if attempts > 1 { Some(5) } else { None };
            s.reattempts = Some(attempts as u32 - 1);
            s.n = (100, 200);
            enable(true);
            let act = move |st: Stage, k: usize, portion: usize| if portion == 0 { touch(20_000); advance(match st { Pass1 => 1000, Pass2 if k + 1 < attempts => 64_000, Pass2 => 2000, _ => 500_000 }) };
            let total = if s.yields == 0 { 1 } else { attempts * s.stages().len() * s.yields + attempts };
            let polls = r.below(total as u64 + 1) as usize;
            c.desc = format!("{s:?}, {attempts} attempts, dropped after {polls} polls");
            let (over, began, after, live, holders) = run_and_drop(&s, polls, act);
            enable(false);
            cap.take();
            if !after.is_empty() { return Err(format!("after the test was dropped, its closures did {after:?} -- before that: {began:?}")); }
            if live != 0 { return Err(format!("{live} values weren't dropped along with the test -- events: {began:?}")); }
            if holders != 0 { return Err(format!("{holders} closures or futures weren't dropped along with the test -- events: {began:?}")); }
            // what ran is a prefix of what was to run -- the last stage being, perhaps, incomplete
            let expected: Vec<Stage> = (0..attempts).flat_map(|_| s.stages()).collect();
            let got: Vec<Stage> = began.iter().filter_map(|e| if let Ev::Begin(s, _) = e { Some(*s) } else { None }).collect();
            if !expected.starts_with(&got) { return Err(format!("stages ran as {got:?} -- not how {expected:?} begin")); }
            if polls == 0 && !began.is_empty() { return Err(format!("a test that was never polled did {began:?}")); }
            let complete = began.len() / 2 * 2;
            check_data(&Setup { reset: s.reset, ..s.clone() }, &began[..complete])?;
            if over && got.len() != expected.len() { return Err(format!("it ended after {got:?}")); }
            c.key(&[s.reset as u64, s.warmup as u64, s.a1 as u64, s.a2 as u64, attempts as u64, s.yields as u64, began.len() as u64]);
            if s.threads > 1 { c.count("dropped_tests_polled_by_several_threads", 1); }
            c.count(if over { "not_dropped_before_the_end" } else if began.len() % 2 == 1 { "dropped_within_a_stage" } else { "dropped_between_stages" }, 1);
            Ok(())
        }); continue; }
        // in turns
        ctx.case(|c| {
            let r = &mut c.fork();
            let k = r.range(2, 5) as usize;
            let setups: Vec<Setup> = (0..k).map(|i| { let mut s = Setup::random(r, "in turns"); s.name = format!("in turns {i}"); s.tc = if r.chance(50) { Some(16) } else { None }; s.sc = if r.chance(50) { Some(16) } else { None }; s }).collect();
            let (salt, at_once, threads) = (r.next(), r.chance(50), if r.chance(30) { r.range(1, 3) as usize } else { 0 });
            c.desc = format!("{k} tests polled in turns{}{}: {setups:?}", if threads > 0 { format!(" by {threads} threads") } else { String::new() }, if at_once { "" } else { ", in any order" });
            let shs: Vec<_> = setups.iter().map(|s| shared(s, |_, _, p| if p != CALLED { touch(5000); advance(1000) })).collect();
            enable(true);
            let turns = Mutex::new(0u64);
            let result = catch(|| block_on(async {
                // (in turns among these threads, too)
                let mut pool = (threads > 0).then(|| Pool::new(threads));
                let h = tokio::runtime::Handle::current();
                let mut tests: Vec<_> = setups.iter().zip(&shs).map(|(s, sh)| Some(Box::pin(testing(s, sh)))).collect();
                std::future::poll_fn(|cx| {
                    for j in 0..k {
                        let mut t = turns.lock().unwrap();
                        *t += 1;
                        let i = if at_once { j } else { hash(&[salt, *t]) as usize % k };
                        drop(t);
                        if let Some(x) = &mut tests[i] {
                            let w = cx.waker().clone();
                            let ready = match &mut pool {
                                None => x.as_mut().poll(cx).is_ready(),
                                Some(pool) => { let t = *turns.lock().unwrap(); pool.on(hash(&[salt, t, 7]) as usize % threads, || { let _in = h.enter(); x.as_mut().poll(&mut Context::from_waker(&w)).is_ready() }) }
                            };
                            if ready { tests[i] = None; }
                        }
                    }
                    cx.waker().wake_by_ref();
                    if tests.iter().all(|t| t.is_none()) { Poll::Ready(()) } else { Poll::Pending }
                }).await
            }));
            enable(false);
            let text = cap.take();
            if let Err(e) = result { return Err(format!("unexpected failure: {}", e.msg)); }
            for (s, sh) in setups.iter().zip(&shs) {
                let log = sh.log.lock().unwrap().0.clone();
                check_order(s, &log, 1).map_err(|e| format!("'{}': {e}", s.name))?;
                check_data(s, &log).map_err(|e| format!("'{}': {e}", s.name))?;
                if sh.live.load(SeqCst) != 0 { return Err(format!("'{}': {} values weren't dropped", s.name, sh.live.load(SeqCst))); }
                let Some(at) = text.rfind(&s.name) else { return Err(format!("'{}' wasn't reported", s.name)) };
                // the clock kept going while others were polled
                let clock = sh.clock.lock().unwrap().clone();
                for (i, stage) in s.stages().iter().enumerate() {
                    let pass = match stage { Pass1 => 1, Pass2 => 2, _ => continue };
                    let took = Duration::from_nanos(clock[2 * i + 1] - clock[2 * i]);
                    crate::c_text::check_pass_time(&text[at..], pass, took).map_err(|e| format!("'{}': {e} -- in:\n{text}", s.name))?;
                    c.count("times_of_passes_polled_in_turns", 1);
                }
                c.key(&[99, k as u64, s.stages().len() as u64, s.yields as u64]);
            }
            c.count("tests_polled_in_turns", k as u64);
            if threads > 1 { c.count("tests_polled_in_turns_by_several_threads", k as u64); }
            c.count("turns", *turns.lock().unwrap());
            Ok(())
        });
    }
    // every single point at which a test may be dropped
    for bits in 0..16u64 { for yields in [1usize, 2] {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            let s = Setup { name: "dropped".into(), reset: bits & 1 > 0, warmup: bits & 2 > 0, a1: bits & 4 > 0, a2: bits & 8 > 0, reattempts: None, n: (10, 20), tc: None, sc: None, yields, building: None, threads: 0 };
            enable(true);
            let all = polls_of(&s);
            for polls in 0..=all {
                c.desc = format!("{s:?} dropped after {polls} polls of {all}");
                let (over, began, after, live, holders) = run_and_drop(&s, polls, |_, _, _| ());
                if over != (polls == all) { return Err(format!("over = {over}")); }
                if !after.is_empty() || live != 0 || holders != 0 { return Err(format!("events after the drop: {after:?}; values not dropped: {live}; closures not dropped: {holders}")); }
                c.key(&[bits, yields as u64, polls as u64, began.len() as u64]);
                c.evals(1);
            }
            enable(false);
            cap.take();
            c.count("points_of_drop_enumerated", all as u64 + 1);
            Ok(())
        });
    } }
}
