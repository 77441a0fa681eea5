//! C06, C08..C11 & C24 on CRUD algorithms
use crate::c_regular::{judge, progress};
use crate::infra::*;
use crate::model::*;
use crate::vclock::{advance, enable};
use big_o_test::low_level_analysis::types::*;
use big_o_test::runners::crud::analyse_crud_algorithms;
use big_o_test::test_crud_algorithms;
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Duration;

pub const OPS: [&str; 4] = ["Create", "Read", "Update", "Delete"];
#[derive(Clone, Debug)]
pub struct Conf { pub warm: u32, pub its: [u32; 4], pub th: [u32; 4] }
impl Conf {
    /// iterations per pass of operations that'll run
    pub fn n(&self, op: usize) -> u32 { if self.th[op] == 0 { 0 } else { self.its[op] } }
    pub fn warm_n(&self, op: usize) -> u32 { (self.n(op) as u64 * self.warm as u64 / 100) as u32 }
    /// phases, in order: (operation, pass (0: warm-up, 1 & 2), elements) -- operation 4 is the reset
    pub fn phases(&self) -> Vec<(usize, usize, std::ops::Range<u32>)> {
        let mut v = vec![];
        if self.warm > 0 {
            for op in 0..4 { if self.n(op) > 0 { v.push((op, 0, 0..self.warm_n(op))); } }
            v.push((4, 0, 0..self.warm_n(0)));
        }
        for pass in 1..=2 { for op in 0..3 { if self.n(op) > 0 { v.push((op, pass, self.n(op) * (pass as u32 - 1)..self.n(op) * pass as u32)); } } }
        for pass in [2, 1] { if self.n(3) > 0 { v.push((3, pass, self.n(3) * (pass as u32 - 1)..self.n(3) * pass as u32)); } }
        v
    }
}
pub type Analyses = (Option<BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements<'static>>>, Option<BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements<'static>>>,
                     Option<BigOAlgorithmAnalysis<ConstantSetIteratorAlgorithmMeasurements<'static>>>, Option<BigOAlgorithmAnalysis<SetResizingIteratorAlgorithmMeasurements<'static>>>, String);
/// analyses, `f` being called for each operation (4 = reset)
pub fn analyse(c: &Conf, crud_name: &'static str, f: impl Fn(usize, u32) + Sync) -> Analyses {
    let g = &f;
    analyse_crud_algorithms(crud_name, |e| { g(4, e); e }, |e| { g(0, e); e }, |e| { g(1, e); e ^ 1 }, |e| { g(2, e); e ^ 2 }, |e| { g(3, e); e ^ 3 },
                            c.warm, c.its[0], c.its[1], c.its[2], c.its[3], c.th[0], c.th[1], c.th[2], c.th[3])
}
/// tests, with (time, space) ceilings
pub fn test(c: &Conf, crud_name: &str, attempts: u32, ceil: &[(usize, usize); 4], f: impl Fn(usize, u32) + Sync) {
    let g = &f;
    let k = |op: usize| (CLASSES[ceil[op].0], CLASSES[ceil[op].1]);
    test_crud_algorithms(crud_name, attempts, |e| { g(4, e); e },
                         |e| { g(0, e); e }, k(0).0, k(0).1, |e| { g(1, e); e ^ 1 }, k(1).0, k(1).1, |e| { g(2, e); e ^ 2 }, k(2).0, k(2).1, |e| { g(3, e); e ^ 3 }, k(3).0, k(3).1,
                         c.warm, c.its[0], c.its[1], c.its[2], c.its[3], c.th[0], c.th[1], c.th[2], c.th[3])
}
/// the text of each analysis made
pub fn texts(a: &Analyses) -> [Option<String>; 4] { [a.0.as_ref().map(|x| x.to_string()), a.1.as_ref().map(|x| x.to_string()), a.2.as_ref().map(|x| x.to_string()), a.3.as_ref().map(|x| x.to_string())] }
/// (times, memory, time class, space class) of each analysis made
pub fn numbers(a: &Analyses) -> [Option<([Duration; 2], [BigOSpacePassMeasurements; 2], usize, usize)>; 4] {
    macro_rules! get { ($x: expr) => { $x.as_ref().map(|x| { let m = &x.algorithm_measurements;
        ([m.time_measurements.pass_1_measurements, m.time_measurements.pass_2_measurements], [m.space_measurements.pass_1_measurements, m.space_measurements.pass_2_measurements], rank(x.time_complexity), rank(x.space_complexity)) }) } }
    [get!(a.0), get!(a.1), get!(a.2), get!(a.3)]
}
/// every operation that ran is analysed -- and no other; each analysis shows up once in the report
fn check_sections(c: &Conf, a: &Analyses, crud_name: &str) -> Result<(), String> {
    let t = texts(a);
    let mut ran = 0;
    if !a.4.contains(crud_name) { return Err(format!("the report doesn't mention '{crud_name}': {}", a.4)); }
    for op in 0..4 {
        match (&t[op], c.n(op) > 0) {
            (None, true) => return Err(format!("{} has no analysis, although it was to run", OPS[op])),
            (Some(_), false) => return Err(format!("{} has an analysis, although it was not to run", OPS[op])),
            (Some(t), true) => { ran += 1; if a.4.matches(t.as_str()).count() != 1 { return Err(format!("the analysis of {} should be in the report once -- it is {} times:\n{}", OPS[op], a.4.matches(t.as_str()).count(), a.4)); } }
            (None, false) => if a.4.contains(&format!("'{}'", OPS[op])) { return Err(format!("the report has a section for {}, that was not to run:\n{}", OPS[op], a.4)); },
        }
    }
    if a.4.matches("Time Analysis:").count() != ran { return Err(format!("the report should have {ran} sections:\n{}", a.4)); }
    Ok(())
}

/// the set sizes & repetitions analysed (and reported) are the ones that were run
fn check_sizes(c: &Conf, a: &Analyses) -> Result<(), String> {
    for (op, d) in [(0, a.0.as_ref()), (3, a.3.as_ref())] {
        let Some(d) = d.map(|x| x.algorithm_measurements.passes_info.delta_set_size) else { continue };
        if d != c.n(op) { return Err(format!("{} ran on {} elements per pass, but was analysed as resizing the set by {d}", OPS[op], c.n(op))); }
    }
    for (op, x) in [(1, a.1.as_ref()), (2, a.2.as_ref())] {
        let Some(p) = x.map(|x| &x.algorithm_measurements.passes_info) else { continue };
        if p.repetitions != c.n(op) { return Err(format!("{} ran {} times per pass, but was analysed as having {} repetitions", OPS[op], c.n(op), p.repetitions)); }
        // the number of elements in the set is only known if they are created
        let n = c.n(0);
        if n > 0 && (p.pass_1_set_size, p.pass_2_set_size) != (n, 2 * n) { return Err(format!("{} ran on {n} & {} elements, but was analysed as if on {} & {}", OPS[op], 2 * n, p.pass_1_set_size, p.pass_2_set_size)); }
    }
    Ok(())
}

// C10
//////

/// a contiguous, monotone sequence of calls made by one thread
#[derive(Default)]
struct Run { op: AtomicUsize, epoch: AtomicUsize, tid: AtomicUsize, first: AtomicU64, last: AtomicU64, count: AtomicU64 }
const MAX_RUNS: usize = 200_000;
static RUNS: Mutex<()> = Mutex::new(());
#[derive(Clone, Copy)]
struct Cursor { gen: u64, run: usize, op: usize, epoch: usize, last: u32, upper: bool, dir: i64 }
thread_local! { static CUR: Cell<Cursor> = const { Cell::new(Cursor { gen: 0, run: 0, op: 9, epoch: 0, last: 0, upper: false, dir: 0 }) }; static TID: Cell<usize> = const { Cell::new(0) }; }
static NEXT_TID: AtomicUsize = AtomicUsize::new(1);
static GEN: AtomicU64 = AtomicU64::new(1);
fn tid() -> usize { TID.with(|t| { if t.get() == 0 { t.set(NEXT_TID.fetch_add(1, Relaxed)); } t.get() }) }

struct Recorder { runs: Vec<Run>, next: AtomicUsize, epoch: AtomicUsize, resets: Mutex<Vec<u32>>, gen: u64, n: [u32; 4] }
impl Recorder {
    fn new(c: &Conf, max_runs: usize) -> Self { Recorder { runs: (0..max_runs).map(|_| Run::default()).collect(), next: AtomicUsize::new(0), epoch: AtomicUsize::new(0), resets: Mutex::new(vec![]), gen: GEN.fetch_add(1, SeqCst), n: [c.n(0), c.n(1), c.n(2), c.n(3)] } }
    #[inline(always)]
    fn call(&self, op: usize, e: u32) {
        if op == 4 { self.resets.lock().unwrap().push(e); self.epoch.fetch_add(1, SeqCst); return; }
        CUR.with(|c| {
            let mut cur = c.get();
            let d = e as i64 - cur.last as i64;
            let upper = e >= self.n[op];
            if cur.gen == self.gen && cur.op == op && cur.epoch == self.epoch.load(Relaxed) && cur.upper == upper && (d == 1 || d == -1) && (cur.dir == 0 || cur.dir == d) {
                cur.dir = d; cur.last = e;
                c.set(cur);
                let run = &self.runs[cur.run];
                run.last.store(e as u64, Relaxed);
                run.count.store(run.count.load(Relaxed) + 1, Relaxed);
            } else { self.open(c, op, e, upper); }
        })
    }
    #[cold]
    fn open(&self, c: &Cell<Cursor>, op: usize, e: u32, upper: bool) {
        let i = self.next.fetch_add(1, SeqCst);
        if i >= self.runs.len() { return; }
        let run = &self.runs[i];
        let epoch = self.epoch.load(SeqCst);
        run.op.store(op, Relaxed); run.epoch.store(epoch, Relaxed); run.tid.store(tid(), Relaxed);
        run.first.store(e as u64, Relaxed); run.last.store(e as u64, Relaxed); run.count.store(1, Relaxed);
        c.set(Cursor { gen: self.gen, run: i, op, epoch, last: e, upper, dir: 0 });
    }
}
/// what a pass must look like
fn check_pass(runs: &[&Run], range: &std::ops::Range<u32>, threads: u32, what: &str) -> Result<(), String> {
    let mut v: Vec<(u64, u64, u64, usize)> = runs.iter().map(|r| { let (f, l) = (r.first.load(Relaxed), r.last.load(Relaxed)); (f.min(l), f.max(l), r.count.load(Relaxed), r.tid.load(Relaxed)) }).collect();
    v.sort();
    let show = || format!("runs of consecutive calls, as (first, last, calls, thread): {:?}", &v[..v.len().min(40)]);
    let mut next = range.start as u64;
    for (lo, hi, count, _) in &v {
        if *lo < next { return Err(format!("{what}: element {lo} was visited more than once, or shouldn't be visited at all; {}", show())); }
        if *lo > next { return Err(format!("{what}: element {next} wasn't visited; {}", show())); }
        if hi - lo + 1 != *count { return Err(format!("{what}: harness: inconsistent run {lo}..={hi}: {count} calls")); }
        next = hi + 1;
    }
    if next != range.end as u64 { return Err(format!("{what}: elements visited up to {next} instead of {}; {}", range.end, show())); }
    let mut tids: Vec<usize> = v.iter().map(|x| x.3).collect();
    tids.sort(); tids.dedup();
    if tids.len() > threads as usize { return Err(format!("{what}: {} threads made calls; {threads} were requested; {}", tids.len(), show())); }
    if tids.len() != v.len() { return Err(format!("{what}: some thread's calls aren't a contiguous, monotone run; {}", show())); }
    let longest = v.iter().map(|x| x.2).max().unwrap_or(0);
    let shortest = if (v.len() as u32) < threads { 0 } else { v.iter().map(|x| x.2).min().unwrap_or(0) };
    if longest - shortest > 1 { return Err(format!("{what}: {threads} threads made from {shortest} to {longest} calls; {}", show())); }
    Ok(())
}
fn coverage(c: &mut Case, conf: &Conf) -> Result<(), String> {
    let phases = conf.phases();
    let rec = Recorder::new(conf, if conf.its.iter().any(|n| *n > 1_000_000) { 5_000 } else { MAX_RUNS.min(conf.its.iter().map(|n| *n as usize * 4 + 10).sum::<usize>() + 100) });
    { let rec = &rec; analyse(conf, "coverage", move |op, e| rec.call(op, e)); }
    let _g = RUNS.lock();
    let used = rec.next.load(SeqCst).min(rec.runs.len());
    let runs = &rec.runs[..used];
    let (mut calls, mut split) = (0u64, 0u64);
    let resets = rec.resets.lock().unwrap().len();
    if resets != (conf.warm > 0) as usize { return Err(format!("reset was called {resets} times")); }
    let mut seen = 0;
    for (op, pass, range) in phases.iter().filter(|p| p.0 < 4) {
        let epoch = (conf.warm > 0 && *pass > 0) as usize;
        let mine: Vec<&Run> = runs.iter().filter(|r| r.op.load(Relaxed) == *op && r.epoch.load(Relaxed) == epoch && (*pass == 0 || (r.first.load(Relaxed) >= conf.n(*op) as u64) == (*pass == 2))).collect();
        let what = format!("{} {}", OPS[*op], ["warm-up", "1st pass", "2nd pass"][*pass]);
        check_pass(&mine, range, conf.th[*op], &what)?;
        seen += mine.len();
        calls += range.len() as u64;
        if mine.len() > 1 { split += 1; }
        c.key(&[*op as u64, *pass as u64, conf.th[*op] as u64, (range.len() as u64 % conf.th[*op].max(1) as u64), (range.len() as u64 + 1).ilog2() as u64, (range.len() as u32 <= conf.th[*op]) as u64]);
    }
    if seen != runs.len() { return Err(format!("{} runs of calls don't belong to any pass", runs.len() - seen)); }
    c.count("passes_checked", phases.iter().filter(|p| p.0 < 4).count() as u64);
    c.count("calls_monitored", calls);
    c.count("passes_split_among_threads", split);
    Ok(())
}
pub fn any_conf(r: &mut Rng, max_n: u64, max_threads: u64) -> Conf {
    let mut c = Conf { warm: *r.pick(&[0, 0, 1, 10, 33, 50, 99, 100]), its: [0; 4], th: [0; 4] };
    let same = r.chance(30);
    for op in 0..4 {
        c.its[op] = if same && op > 0 { c.its[0] } else { match r.below(4) { 0 => r.range(1, 12) as u32, _ => r.logi(1, max_n) as u32 } };
        c.th[op] = match r.below(5) { 0 => 1, 1 => r.range(1, max_threads) as u32, _ => r.range(1, 6.min(max_threads)) as u32 };
    }
    c
}
pub fn c10(ctx: &mut Ctx) {
    let mut cap = Capture::start(1);
    // element numbers that don't fit in an i32
    for (i, big) in [(1u32 << 30) + 12_345, (1 << 31) - 5].into_iter().enumerate() {
        if i > 0 && !ctx.thorough { break; }
        ctx.case(|c| {
            // (enough of a warm-up for the product of the percentage and the iterations not to fit an u32 either)
            let mut conf = Conf { warm: 5, its: [0; 4], th: [0; 4] };
            let op = if c.rng.chance(50) { 0 } else { 3 };
            conf.its[op] = big; conf.th[op] = 7 + i as u32;
            c.desc = format!("{} only: {conf:?}", OPS[op]);
            let r = coverage(c, &conf);
            c.count("passes_with_over_a_billion_elements", 2);
            r
        });
        cap.take();
    }
    // exhaustive on small sizes
    for n in 0..=20u32 {
        ctx.case(|c| {
            for th in 1..=(if n < 9 { 12 } else { 6 }) {
                let op = c.rng.below(4) as usize;
                let mut conf = Conf { warm: [0, 50, 100, 37][c.rng.below(4) as usize], its: [0; 4], th: [0; 4] };
                conf.its[op] = n; conf.th[op] = th;
                if op == 1 || op == 2 { conf.its[0] = 3; conf.th[0] = 1; }
                c.desc = format!("{conf:?}");
                c.evals(1);
                coverage(c, &conf)?;
            }
            Ok(())
        });
        cap.take();
    }
    let n = ctx.n(1_500, 20_000);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 300.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let mut conf = if r.chance(97) { any_conf(r, 5_000, 24) } else { any_conf(r, 5_000, 300) };
            if r.chance(20) { let op = r.below(4) as usize; if op > 0 { conf.its[op] = 0; } }
            c.desc = format!("{conf:?}");
            coverage(c, &conf)
        });
        cap.take();
    }
}

// C11
//////

#[derive(Clone, Copy, Debug)]
pub struct Call { pub op: usize, pub e: u32, pub begin: bool }
/// the events of these phases, from the given one on -- returns where they end
fn in_order(phases: &[(usize, usize, std::ops::Range<u32>)], log: &[Call], mut at: usize) -> Result<usize, String> {
    for (op, pass, range) in phases {
        let what = if *op == 4 { format!("reset after the {}", ["warm-up", "1st pass", "failed attempt"][*pass]) } else { format!("{} {}", OPS[*op], ["warm-up", "1st pass", "2nd pass"][*pass]) };
        let calls = if *op == 4 { 1 } else { range.len() };
        let end = at + 2 * calls;
        let Some(mine) = log.get(at..end) else { return Err(format!("{what}: {} calls are missing", calls - (log.len() - at) / 2)) };
        for (j, k) in mine.iter().enumerate() {
            if k.op != *op { return Err(format!("{what}: the {j}th event of it is about {} (element {})", if k.op == 4 { "reset" } else { OPS[k.op] }, k.e)); }
            if *op == 4 { if k.e != range.end { return Err(format!("{what} called with {} instead of {}", k.e, range.end)); } }
            else if !range.contains(&k.e) { return Err(format!("{what}: called for element {} -- expected: {range:?}", k.e)); }
        }
        if mine.iter().filter(|k| k.begin).count() != calls { return Err(format!("{what}: overlaps with another phase")); }
        at = end;
    }
    Ok(at)
}
/// each attempt of a test goes through the very phases of an analysis -- up to the operation that fails it
fn attempts_in_order(c: &mut Case) -> Result<(), String> {
    let r = &mut c.fork();
    let mut conf = any_conf(r, 40, 6);
    for op in 0..4 { if r.chance(15) { if r.chance(50) { conf.its[op] = 0 } else { conf.th[op] = 0 } } }
    let bad = r.below(4) as usize;
    if conf.n(bad) == 0 { conf.its[bad] = r.range(1, 30) as u32; conf.th[bad] = 1; }
    let met_at = if r.chance(60) { conf.th[bad] = 1; r.below(6) as usize } else { usize::MAX };
    let max_attempts = r.range(0, 7) as u32;
    let mut ceil = [(16, 16); 4];
    ceil[bad].0 = 0;
    c.desc = format!("{conf:?}, test of {max_attempts} attempts; all calls take the same time, but {} is required to be better than O(1) -- {}", OPS[bad], if met_at == usize::MAX { "it never is".into() } else { format!("it is from the attempt #{} on", met_at + 1) });
    let log = Mutex::new(Vec::<Call>::with_capacity(32_768));
    let salt = r.next();
    // attempts end with a reset -- which the 1st reset of each one isn't, if there is a warm-up
    let resets = AtomicUsize::new(0);
    let warm = (conf.warm > 0) as usize;
    enable(true);
    let result = catch(|| test(&conf, "ordered", max_attempts, &ceil, |op, e| {
        log.lock().unwrap().push(Call { op, e, begin: true });
        if hash(&[salt, op as u64, e as u64]) % 5 == 0 { std::thread::yield_now(); }
        let attempt = resets.load(SeqCst) / (1 + warm);
        advance(if op == bad && attempt >= met_at { 1_000_000_000_000 >> (3 * e.min(12)) } else { 1000 });
        if op == 4 { resets.fetch_add(1, SeqCst); }
        log.lock().unwrap().push(Call { op, e, begin: false });
    }));
    enable(false);
    let log = log.into_inner().unwrap();
    let attempts = if met_at < max_attempts.max(1) as usize { met_at + 1 } else { max_attempts.max(1) as usize };
    if result.is_ok() != (met_at < attempts) { return Err(format!("wrong verdict: {}", result.map_or_else(|e| e.msg, |_| "passed".into()))); }
    let mut at = 0;
    let mut checked = 0;
    for k in 0..attempts {
        let passes = k == met_at;
        // where this attempt's events end: after its last reset, or at the end of the log
        let mut seen = 0;
        let end = (at..log.len()).find(|i| { if log[*i].op == 4 && !log[*i].begin { seen += 1 } seen == 1 + warm }).map_or(log.len(), |i| i + 1);
        let mine = &log[at..end];
        // the iterations of the attempt, if not the 1st one, are of its own choice: they're told by the elements operated on
        let mut own = conf.clone();
        let tell = |op: usize| mine.iter().filter(|x| x.op == op && x.begin).map(|x| x.e + 1).max().unwrap_or(0);
        if k > 0 {
            for op in 0..4 {
                if conf.n(op) == 0 { continue; }
                let runs = if op == 3 { if bad == 3 || passes { 2 } else { 0 } } else if op <= bad || passes { 2 } else { 1 };
                if runs == 0 { continue; }
                let most = tell(op);
                if most == 0 || most % runs != 0 { return Err(format!("attempt {}: {} went up to the element {most} in {runs} pass(es)", k + 1, OPS[op])); }
                own.its[op] = most / runs;
                if own.its[op] > 2 * conf.its[op] { return Err(format!("attempt {}: {} iterations of {} instead of around {}", k + 1, own.its[op], OPS[op], conf.its[op])); }
            }
        }
        let mut phases = own.phases();
        if !passes {
            let last = phases.iter().position(|p| p.0 == bad && p.1 == if bad == 3 { 1 } else { 2 }).unwrap();
            phases.truncate(last + 1);
            if bad != 3 && k > 0 && conf.n(3) > 0 && warm > 0 {
                // nothing else tells how many elements delete would operate on
                let first = mine.iter().position(|x| x.op == 3).unwrap_or(0);
                let many = mine[first..].iter().take_while(|x| x.op == 3).count() as u32 / 2;
                if many as u64 > 2 * conf.warm_n(3) as u64 + 2 || (many == 0 && conf.warm_n(3) >= 20) { return Err(format!("attempt {}: delete was warmed up with {many} elements, around {} were expected", k + 1, conf.warm_n(3))); }
                for p in &mut phases { if p.0 == 3 && p.1 == 0 { p.2 = 0..many; } }
            }
            if k + 1 < attempts { phases.push((4, 2, 0..2 * own.n(0))); }
        }
        let stopped = in_order(&phases, &mine, 0).map_err(|e| format!("attempt {}, of {:?} iterations: {e}", k + 1, own.its))?;
        if stopped != mine.len() { return Err(format!("attempt {}, of {:?} iterations: unexpected events after the last phase: {:?}", k + 1, own.its, &mine[stopped..mine.len().min(stopped + 8)])); }
        checked += phases.len() as u64;
        at = end;
    }
    if at != log.len() { return Err(format!("{} unexpected events after the last attempt: {:?}", log.len() - at, &log[at..log.len().min(at + 8)])); }
    c.key(&[99, bad as u64, met_at.min(9) as u64, attempts as u64, conf.warm as u64]);
    c.count("phases_checked", checked);
    c.count("attempts_checked", attempts as u64);
    c.count("calls_monitored", log.len() as u64 / 2);
    Ok(())
}
pub fn c11(ctx: &mut Ctx) {
    let mut cap = Capture::start(1);
    let n = ctx.n(7_500, 45_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 300.0) { break; }
        if i % 3 == 2 { ctx.case(attempts_in_order); cap.take(); continue; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let mut conf = any_conf(r, 60, 8);
            // all subsets of operations & ways of leaving them out
            let subset = if i < 96 { (i - i / 3) % 16 } else if r.chance(50) { 15 } else { r.below(16) };
            for op in 0..4 { if subset >> op & 1 == 0 { match r.below(3) { 0 => conf.its[op] = 0, 1 => conf.th[op] = 0, _ => { conf.its[op] = 0; conf.th[op] = 0 } } } }
            c.desc = format!("{conf:?}");
            let log = Mutex::new(Vec::<Call>::with_capacity(8192));
            let salt = r.next();
            let a = analyse(&conf, "ordered", |op, e| {
                log.lock().unwrap().push(Call { op, e, begin: true });
                if hash(&[salt, op as u64, e as u64]) % 5 == 0 { std::thread::yield_now(); }
                log.lock().unwrap().push(Call { op, e, begin: false });
            });
            let out = cap.take();
            let log = log.into_inner().unwrap();
            let phases = conf.phases();
            let at = in_order(&phases, &log, 0)?;
            if at != log.len() { return Err(format!("{} unexpected events after the last phase: {:?}", log.len() - at, &log[at..log.len().min(at + 8)])); }
            check_sections(&conf, &a, "ordered")?;
            if !out.contains(a.4.trim()) { return Err("the report returned isn't what was shown".into()); }
            c.key(&[subset, conf.warm as u64, conf.th.iter().map(|x| (*x > 1) as u64).sum::<u64>(), phases.len() as u64]);
            c.count("phases_checked", phases.len() as u64);
            c.count("calls_monitored", log.len() as u64 / 2);
            c.count("operations_left_out", 4 - subset.count_ones() as u64);
            Ok(())
        });
        cap.take();
    }
}

// C08
//////

pub fn cost_of(salt: u64, op: usize, e: u32, scale: u64) -> u64 { let h = hash(&[salt, op as u64, e as u64]); if h % 7 == 0 { (h >> 8) % (scale * 20) } else { (h >> 8) % scale } }

pub fn c08(ctx: &mut Ctx) {
    let mut cap = Capture::start(1);
    let n = ctx.n(6_000, 20_000);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(20.0, 200.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let conf = if r.chance(98) { any_conf(r, 200, 6) } else { any_conf(r, 600, 130) };
            let conf = Conf { its: conf.its.map(|n| n.max(2)), ..conf };
            let (salt, scale) = (r.next(), r.logi(10, 10_000_000_000));
            c.desc = format!("{conf:?}; each call takes a random time of up to {scale}ns (or 20x that) -- salt {salt}");
            let run = || { enable(true); let a = catch(|| analyse(&conf, "timed", |op, e| advance(cost_of(salt, op, e, scale)))); enable(false); a };
            let a = run().map_err(|e| format!("unexpected failure: {}", e.msg))?;
            let text = cap.take();
            let nums = numbers(&a);
            let ts = texts(&a);
            for op in 0..4 {
                let (times, space, tc, _) = nums[op].as_ref().unwrap();
                for pass in 0..2u32 {
                    let sum: u64 = (conf.n(op) * pass..conf.n(op) * (pass + 1)).map(|e| cost_of(salt, op, e, scale)).sum();
                    let want = sum as f64 / conf.th[op] as f64;
                    let got = times[pass as usize].as_nanos() as f64;
                    if (got - want).abs() > 2.0 + want * 1e-9 { return Err(format!("pass {} of {}: {:?} were attributed to it -- its {} threads' loops took {want}ns in average", pass + 1, OPS[op], times[pass as usize], conf.th[op])); }
                    c.count("pass_times_compared", 1);
                    // the text
                    let shown = ts[op].as_ref().unwrap().lines().filter_map(|l| l.trim_start().strip_prefix(&format!("{})", pass + 1)).and_then(|l| l.split_whitespace().next())).next().unwrap_or("").to_string();
                    if parse_duration(&shown).map_or(true, |(ns, _)| (ns - got).abs() > 1.0 + got * 1e-9) { return Err(format!("pass {} of {}: shown as '{shown}', returned as {:?}", pass + 1, OPS[op], times[pass as usize])); }
                    let label = match (op, pass) { (3, 0) => "1st:".to_string(), (3, 1) => "2nd:".to_string(), _ => format!("{}:", OPS[op].to_lowercase()) };
                    let part = if op == 3 { &text[..] } else if pass == 0 { text.split("Second Pass").next().unwrap() } else { text.split("Second Pass").nth(1).unwrap_or("") };
                    if let Some((t, _)) = progress(part, &label) { if parse_duration(t).map_or(true, |(ns, _)| (ns - got).abs() > 1.0 + got * 1e-9) { return Err(format!("pass {} of {}: progress shows '{t}', returned as {:?}", pass + 1, OPS[op], times[pass as usize])); } }
                }
                let (u1, u2) = (times[0].as_nanos() as f64 * 1e-9, times[1].as_nanos() as f64 * 1e-9);
                let (want, margin) = if op == 0 || op == 3 { resizing(u1, u2, conf.n(op) as f64, TOLERANCE) } else { ladder(u1, u2, conf.n(0) as f64, conf.n(0) as f64 * 2.0, TOLERANCE) };
                if margin > 1e-6 && want != *tc { return Err(format!("{}: times {times:?} judged as {} -- they're {}", OPS[op], name(*tc), name(want))); }
                let _ = space;
                c.key(&[op as u64, want as u64, conf.th[op] as u64]);
            }
            Ok(())
        });
    }
}

// C09
//////

/// system & crate bookkeeping allowed for starting & joining `k` threads
fn slack(k: u32) -> i64 { 8192 + 12_288 * k as i64 }

struct Store { slots: Vec<Mutex<Option<Vec<u8>>>> }
pub fn c09(ctx: &mut Ctx) {
    let mut cap = Capture::start(1);
    let n = ctx.n(2_500, 10_000);
    for _ in 0..n {
        if ctx.stopped() || !ctx.within(20.0, 200.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let vast = r.chance(4) && roomy();
            let its = r.range(2, if vast { 6 } else { 40 }) as u32;
            let conf = Conf { warm: *r.pick(&[0, 10, 50, 100]), its: [its; 4], th: std::array::from_fn(|_| r.range(1, 5) as u32) };
            let (salt, unit) = (r.next(), if vast { 5 << 30 } else { r.logi(1, 200_000) });
            if vast { c.count("tests_using_more_than_4GiB", 1); }
            c.desc = format!("{conf:?}; create retains a block per element, read allocates & frees one, update replaces, delete frees -- of up to {unit} bytes; salt {salt}");
            let size = |op: usize, e: u32| 1 + (hash(&[salt, op as u64, e as u64]) % unit) as usize;
            let store = Store { slots: (0..2 * its).map(|_| Mutex::new(None)).collect() };
            let epoch = AtomicUsize::new(0);
            // [epoch][op][pass]: net change, largest transient, sum of the increases
            let net: Vec<AtomicI64> = (0..2 * 4 * 2 * 3).map(|_| AtomicI64::new(0)).collect();
            let run = || {
                analyse(&conf, "measured", |op, e| {
                    let i = ((epoch.load(SeqCst) * 4 + op.min(3)) * 2 + (e >= its) as usize) * 3;
                    let note = |delta: i64, transient: i64| { net[i].fetch_add(delta, SeqCst); net[i + 1].fetch_max(transient, SeqCst); net[i + 2].fetch_add(delta.max(0), SeqCst); };
                    match op {
                        0 => { let v = Vec::with_capacity(size(0, e)); note(v.capacity() as i64, v.capacity() as i64); *store.slots[e as usize].lock().unwrap() = Some(v); }
                        1 => { let v = std::hint::black_box(Vec::<u8>::with_capacity(size(1, e))); note(0, v.capacity() as i64); }
                        2 => { let mut s = store.slots[e as usize].lock().unwrap(); let v = Vec::with_capacity(size(2, e)); let old = s.as_ref().map_or(0, |o| o.capacity()) as i64; note(v.capacity() as i64 - old, v.capacity() as i64); *s = Some(v); }
                        3 => { let old = store.slots[e as usize].lock().unwrap().take(); note(-(old.as_ref().map_or(0, |o| o.capacity()) as i64), 0); }
                        _ => { for s in &store.slots { s.lock().unwrap().take(); } crate::c_regular::touch(30_000_000); epoch.fetch_add(1, SeqCst); }
                    }
                    advance(1000);
                })
            };
            let start = big_o_test::ALLOC.save_point().metrics.current_used_memory as i64;
            enable(true);
            let a = catch(run);
            enable(false);
            let a = a.map_err(|e| format!("unexpected failure: {}", e.msg))?;
            cap.take();
            let nums = numbers(&a);
            let ep = (conf.warm > 0) as usize;
            let mut level = start;
            for (op, pass) in [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (3, 1), (3, 0)] {
                let m = &nums[op].as_ref().unwrap().1[pass];
                let (before, after, max, min) = (m.used_memory_before as i64, m.used_memory_after as i64, m.max_used_memory as i64, m.min_used_memory as i64);
                let i = ((ep * 4 + op) * 2 + pass) * 3;
                let (delta, transient, grown) = (net[i].load(SeqCst), net[i + 1].load(SeqCst), net[i + 2].load(SeqCst));
                let k = conf.th[op];
                let s = slack(k);
                let what = format!("pass {} of {}, on {k} threads: before {before}, after {after}, max {max}, min {min} -- the process was at {level} when it started (give or take a few KiB); the pass changed it by {delta}, growing {grown} in total & needing {transient} at once", pass + 1, OPS[op]);
                if (before - level).abs() > 65_536 { return Err(format!("{what}: wrong starting memory")); }
                if (after - before - delta).abs() > s { return Err(format!("{what}: wrong memory variation")); }
                if !(min <= before && before <= max && min <= after && after <= max) { return Err(format!("{what}: not an envelope")); }
                let (peak_at_least, peak_at_most) = (delta.max(0).max(if op == 1 || op == 0 || (op == 2 && k == 1) { transient.min(grown + transient) } else { 0 }), grown + transient * k as i64 + s);
                let peak_at_least = if op == 2 { delta.max(0) } else { peak_at_least };
                if max - before < peak_at_least || max - before > peak_at_most { return Err(format!("{what}: the peak should be from {peak_at_least} to {peak_at_most} above the start")); }
                let fall_at_least = (-delta - s).max(0);
                let fall_at_most = (grown - delta) + s;
                if before - min < fall_at_least || before - min > fall_at_most { return Err(format!("{what}: the bottom should be from {fall_at_least} to {fall_at_most} below the start")); }
                level += delta;
                c.count("crud_passes_compared", 1);
                c.key(&[op as u64, pass as u64, k as u64, (unit as f64).log2() as u64]);
            }
            Ok(())
        });
        cap.take();
    }
}

// C24
//////

pub fn c24(ctx: &mut Ctx) {
    let mut cap = Capture::start(1);
    let n = ctx.n(6_000, 15_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(15.0, 150.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let mut conf = any_conf(r, 40, 3);
            let subset = if i < 16 { i } else { r.below(16) };
            for op in 0..4 { if subset >> op & 1 == 0 { conf.its[op] = 0; } }
            let (salt, scale) = (r.next(), r.logi(10, 10_000_000_000));
            let crud_name = r.name(&["Hashmap", "Push & Pop (worst case)", "B-Tree {x} ünï 100%"]);
            c.desc = format!("'{crud_name}': {conf:?}; times of up to {scale}ns, salt {salt}");
            enable(true);
            let a = catch(|| analyse(&conf, crud_name, |op, e| advance(cost_of(salt, op, e, scale))));
            enable(false);
            let a = a.map_err(|e| format!("unexpected failure: {}", e.msg))?;
            let out = cap.take();
            check_sections(&conf, &a, crud_name)?;
            check_sizes(&conf, &a)?;
            if !out.contains(a.4.trim()) { return Err(format!("the report returned isn't what was shown:\n{}\n---- shown:\n{out}", a.4)); }
            c.key(&[subset, conf.warm as u64]);
            c.count("crud_reports_checked", 1);
            Ok(())
        });
        cap.take();
    }
}

// C06
//////

/// how operation `op` behaves on attempt `k`: usage of the elements [0, e) is `c * e^q`
#[derive(Clone, Copy, Debug)]
struct Law { c: f64, q: f64 }
impl Law {
    fn upto(&self, e: u32) -> f64 { if e == 0 { 0.0 } else { self.c * (e as f64).powf(self.q) } }
    fn of(&self, e: u32) -> u64 { (self.upto(e + 1) - self.upto(e)).round() as u64 }
    fn sum(&self, r: std::ops::Range<u32>) -> u64 { r.map(|e| self.of(e)).sum() }
}
/// the exponent that makes the second pass use `ratio` times the first
fn exponent(ratio: f64) -> f64 { (ratio + 1.0).log2() }
fn any_law(r: &mut Rng, op: usize, n: f64, set: f64, first: f64, max_ratio: f64) -> Law {
    let l3 = (3.0 * n).ln() / n.ln();
    let l2 = (2.0 * set).ln() / set.ln();
    let t = TOLERANCE;
    let base = if op == 0 || op == 3 { *r.pick(&[0.5, 1.0 / (1.0 + t), 1.0, 1.0 + t, l3, l3 * (1.0 + t), 3.0 * (1.0 - t), 3.0, 3.0 * (1.0 + t), 5.0]) }
               else { *r.pick(&[0.5, 1.0 - t, 1.0, 1.0 + t, l2, l2 * (1.0 + t), 2.0, 2.0 * (1.0 + t), 2.0 * l2, 2.0 * l2 * 1.12, 3.0, 4.0, 4.0 * (1.0 + t), 6.0, 8.0, 16.0, 18.0, 25.0, 100.0]) };
    let ratio = (base * r.frange(0.93, 1.07)).min(max_ratio);
    let q = exponent(ratio);
    Law { c: first / n.powf(q), q }
}
const UNCERTAIN: f64 = 65_536.0 * 2.0;
/// classes possible for usages that may vary by this much
fn possible(op: usize, u: (f64, f64), n: f64, set: f64, (less, more): (f64, f64)) -> Option<Vec<usize>> {
    let mut v = vec![];
    for (a, b) in [(-less, -less), (-less, more), (more, -less), (more, more)] {
        let (u1, u2) = ((u.0 + a).max(0.0), (u.1 + b).max(0.0));
        let (class, margin) = if op == 0 || op == 3 { resizing(u1, u2, n, TOLERANCE) } else { ladder(u1, u2, set, 2.0 * set, TOLERANCE) };
        if margin < 1e-6 { return None; }
        v.push(class);
    }
    let (lo, hi) = (*v.iter().min().unwrap(), *v.iter().max().unwrap());
    Some((lo..=hi).collect())
}
struct Blk(*mut u8, usize);
unsafe impl Send for Blk {}
fn free_all(v: &Mutex<Vec<Blk>>) { for Blk(p, s) in v.lock().unwrap_or_else(|e| e.into_inner()).drain(..) { unsafe { std::alloc::dealloc(p, std::alloc::Layout::from_size_align_unchecked(s, 16)) } } }

fn verdict(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    let r = &mut c.fork();
    let base = r.range(40, 70) as u32;
    let mut conf = Conf { warm: *r.pick(&[0, 0, 10, 25, 100]), its: [base; 4], th: [1; 4] };
    for op in 0..4 { if r.chance(40) { conf.its[op] = r.range(40, 70) as u32; } conf.th[op] = r.range(1, 3) as u32; }
    for op in 1..4 { if r.chance(12) { if r.chance(50) { conf.its[op] = 0 } else { conf.th[op] = 0 } } }
    if conf.n(1) == 0 && conf.n(2) == 0 && r.chance(30) { conf.its[0] = 0; }
    let crud_name = r.name(&["judged", "Push & Pop (worst case)"]);
    let max_attempts = *r.pick(&[0u32, 1, 2, 3, 5]);
    let attempts = max_attempts.max(1) as usize;
    // laws per [attempt][op]: time (ns), space (bytes)
    let laws: Vec<[(Law, Law); 4]> = (0..attempts).map(|_| std::array::from_fn(|op| {
        let (n, set) = (conf.its[op].max(2) as f64, conf.its[0].max(2) as f64);
        let t1 = r.logf(1e5, 1e11);
        let s1 = r.logf(2e7, 3e8);
        (any_law(r, op, n, set, t1, 300.0), any_law(r, op, n, set, s1, 20.0))
    })).collect();
    // ceilings near what each operation makes -- so the verdict may go either way
    let near = |r: &mut Rng, a: &Law, op: usize, loose: bool| {
        let (n, set) = (conf.its[op].max(2) as f64, conf.its[0].max(2) as f64);
        if loose { return 16; }
        let u = (a.upto(n as u32), a.upto(2 * n as u32) - a.upto(n as u32));
        let class = possible(op, if a.c < 1.0 { u } else { (u.0 * 1e-9, u.1 * 1e-9) }, n, set, (0.0, 0.0)).map_or(5, |v| v[0]) as i64;
        (class + *r.pick(&[-2i64, -1, 0, 0, 0, 1, 2])).clamp(0, 16) as usize
    };
    let mut ceil = [(16, 16); 4];
    for op in 0..4 {
        let (lt, ls) = (r.chance(55), r.chance(65));
        let k = r.below(attempts as u64) as usize;
        ceil[op] = (near(r, &laws[k][op].0, op, lt), near(r, &laws[k][op].1, op, ls));
    }
    c.desc = format!("'{crud_name}', {conf:?}, {max_attempts} attempts, (time, space) ceilings {:?}; usage of the elements up to e is c.e^q ns & bytes, per attempt & operation: {laws:?}", ceil.map(|(a, b)| (name(a), name(b))));

    let epoch = AtomicUsize::new(0);
    let warm = (conf.warm > 0) as usize;
    let kept = Mutex::new(Vec::<Blk>::with_capacity(20_000));
    let log = Mutex::new(Vec::<(usize, usize, u32)>::with_capacity(60_000));    // (epoch, op, element)
    let body = |op: usize, e: u32| {
        let ep = epoch.load(SeqCst);
        log.lock().unwrap().push((ep, op, e));
        if op == 4 { free_all(&kept); advance(123_456_789_000); epoch.fetch_add(1, SeqCst); return; }
        let k = if warm > 0 { ep / 2 } else { ep };
        let Some(l) = laws.get(k) else { return };
        advance(l[op].0.of(e));
        let size = l[op].1.of(e).max(1) as usize;
        let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align(size, 16).unwrap()) };
        if p.is_null() { eprintln!("HARNESS: out of memory: {size}"); std::process::exit(3); }
        kept.lock().unwrap().push(Blk(p, size));
    };
    enable(true);
    let result = catch(|| test(&conf, crud_name, max_attempts, &ceil, body));
    enable(false);
    free_all(&kept);
    let text = cap.take();
    if !text.contains(crud_name) { return Err(format!("'{crud_name}' isn't mentioned in the report:\n{text}")); }
    let log = log.into_inner().unwrap_or_else(|e| e.into_inner());

    // follow the log, attempt by attempt
    let calls = |epoch: usize, op: usize| -> Vec<u32> { let mut v: Vec<u32> = log.iter().filter(|x| x.0 == epoch && x.1 == op).map(|x| x.2).collect(); v.sort(); v };
    let resets: Vec<u32> = log.iter().filter(|x| x.1 == 4).map(|x| x.2).collect();
    let mut expected_resets = vec![];
    let mut previous = std::collections::BTreeMap::<(usize, usize), u32>::new();    // (operation, class) failed by the attempts before the last one
    let mut want: Option<(&'static str, usize, usize, usize)> = None;   // what fails: resource, ceiling, measured, op
    let mut done = 0;
    for k in 0..attempts {
        let ep = if warm > 0 { 2 * k + 1 } else { k };
        done = k + 1;
        // iterations of this attempt, for each operation
        let mut n = [0u32; 4];
        for op in 0..4 {
            if conf.n(op) == 0 { if !calls(ep, op).is_empty() { return Err(format!("attempt {}: {} was called, although it wasn't requested", k + 1, OPS[op])); } continue; }
            let v = calls(ep, op);
            if v.is_empty() { continue; }   // maybe the attempt was over
            n[op] = if op == 3 { v[v.len() - 1] / 2 + 1 } else { v.len() as u32 };
            if op < 3 {
                // one or both passes; starting from 0 & without gaps
                if v.iter().enumerate().any(|(i, e)| *e != i as u32) { return Err(format!("attempt {}: {} wasn't called once for each element: {v:?}", k + 1, OPS[op])); }
            }
        }
        n[0] /= 2;
        if warm > 0 { expected_resets.push((conf.n(0) > 0).then(|| (n[0], conf.warm))); }
        let mut failed = None;
        for op in 0..4 {
            if conf.n(op) == 0 { continue; }
            let v = calls(ep, op);
            if v.is_empty() { return Err(format!("attempt {}: {} wasn't called", k + 1, OPS[op])); }
            let both = v.len() as u32;
            n[op] = both / 2;
            if both % 2 != 0 || n[op] == 0 || v.iter().enumerate().any(|(i, e)| *e != i as u32) { return Err(format!("attempt {}: {} should have been called once per element of both passes: {v:?}", k + 1, OPS[op])); }
            if k == 0 && n[op] != conf.n(op) { return Err(format!("the first attempt made {} iterations of {} per pass instead of {}", n[op], OPS[op], conf.n(op))); }
            if n[op] > 2 * conf.n(op) || n[op] < conf.n(op) / 20 { return Err(format!("attempt {} made {} iterations of {} per pass, when {} were requested", k + 1, n[op], OPS[op], conf.n(op))); }
            let set = if conf.n(0) > 0 { n[0] as f64 } else { 2.0 };
            let (lt, ls) = laws[k][op];
            let th = conf.th[op] as f64;
            let ut = (lt.sum(0..n[op]) as f64 * 1e-9 / th, lt.sum(n[op]..2 * n[op]) as f64 * 1e-9 / th);
            let us = ((0..n[op]).map(|e| ls.of(e).max(1)).sum::<u64>() as f64, (n[op]..2 * n[op]).map(|e| ls.of(e).max(1)).sum::<u64>() as f64);
            let (Some(pt), Some(ps)) = (possible(op, ut, n[op] as f64, set, (1e-9, 1e-9)), possible(op, us, n[op] as f64, set, (0.0, UNCERTAIN))) else { c.count("undecided_too_close_to_a_threshold", 1); return Ok(()) };
            if pt.len() > 1 { c.count("undecided_too_close_to_a_threshold", 1); return Ok(()); }
            if pt[0] > ceil[op].0 { failed = Some(("time", ceil[op].0, pt[0], op)); break; }
            if ps.iter().any(|s| *s > ceil[op].1) {
                if ps.iter().any(|s| *s <= ceil[op].1) || ps.len() > 1 { c.count("undecided_too_close_to_a_threshold", 1); return Ok(()); }
                failed = Some(("space", ceil[op].1, ps[0], op)); break;
            }
            c.count("operations_judged", 1);
        }
        // operations after the failing one don't reach their second pass -- delete doesn't even start
        if let Some((_, _, _, op)) = failed {
            for later in op + 1..4 {
                if conf.n(later) == 0 { continue; }
                let v = calls(ep, later);
                let max = if later == 3 { 0 } else { n[later].max(conf.n(later) * 2) as usize };
                if v.len() > max { return Err(format!("attempt {}: {} should have stopped it, but {} was still called {} times", k + 1, OPS[op], OPS[later], v.len())); }
            }
        }
        match failed {
            None => { want = None; break; }
            Some(("space", a, b, op)) => { want = Some(("space", a, b, op)); break; }
            Some((x, a, b, op)) => { want = Some((x, a, b, op)); if k + 1 < attempts { expected_resets.push(Some((n[0], 200))); *previous.entry((op, b)).or_default() += 1; } }
        }
    }
    if resets.len() != expected_resets.len() { return Err(format!("{done} attempts were expected -- needing {} resets -- {} were done: {resets:?}", expected_resets.len(), resets.len())); }
    for (got, e) in resets.iter().zip(&expected_resets) {
        let want = e.map_or(0, |(n, percent)| (n as u64 * percent as u64 / 100) as u32);
        if *got != want { return Err(format!("resets were given {resets:?} elements -- at the first wrong one, {want} had been created")); }
    }
    let w3 = want.map(|(a, b, c, _)| (a, b, c));
    judge(&result, &w3, want.map_or("", |w| OPS[w.3]))?;
    if let (Err(e), Some((_, _, _, op))) = (&result, want) {
        let msg = e.msg.split("Previous").next().unwrap_or("");
        for other in 0..4 { if other != op && msg.contains(&format!("'{}'", OPS[other])) { return Err(format!("the message blames {} instead of {}: {}", OPS[other], OPS[op], e.msg)); } }
        if want.unwrap().0 == "time" && attempts > 1 {
            let words = |l: &str| l.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect::<Vec<_>>();
            let list: Vec<Vec<String>> = e.msg.split_once("Previous").map_or("", |x| x.1).lines().map(words).filter(|w| OPS.iter().any(|o| w.iter().any(|w| w == o))).collect();
            for ((op, class), count) in &previous {
                let needed = [OPS[*op].to_string(), format!("{:?}", CLASSES[*class]), count.to_string()];
                if !list.iter().any(|w| needed.iter().all(|x| w.contains(x))) { return Err(format!("the message doesn't tell that {count} of the previous attempts had {} measured as {}: {}", OPS[*op], name(*class), e.msg)); }
            }
            if list.len() != previous.len() { return Err(format!("the message tells of {} kinds of previous failures instead of {}: {}", list.len(), previous.len(), e.msg)); }
            c.count("failures_of_previous_attempts_compared", previous.values().map(|x| *x as u64).sum());
        }
    }
    c.key(&[done as u64, want.map_or(0, |w| 1 + (w.0 == "time") as u64), want.map_or(9, |w| w.3 as u64), want.map_or(99, |w| w.2 as u64), warm as u64, attempts as u64]);
    c.count("attempts_monitored", done as u64);
    c.count("calls_monitored", log.len() as u64);
    c.count(match want { None if done > 1 => "passed_after_retries", None => "passed_at_once", Some(("space", ..)) => "failed_on_space", _ => "failed_on_time" }, 1);
    if let Some(w) = want { c.count(&format!("failed_on_{}", OPS[w.3]), 1); }
    Ok(())
}
/// few iterations: attempts mustn't skip operations, whose verdict would be missing -- nor should there be more of them than needed, whatever the limit
fn few_iterations(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    let r = &mut c.fork();
    let mut conf = Conf { warm: *r.pick(&[0, 50]), its: std::array::from_fn(|_| r.range(1, 12) as u32), th: std::array::from_fn(|_| r.range(1, 3) as u32) };
    let mut max_attempts = if r.chance(5) { r.range(18, 50) } else { r.range(0, 17) } as u32;
    let bad = r.below(4) as usize;
    let mut ceil = [(16, 16); 4];
    ceil[bad].0 = 0;
    // the attempt, if any, at which the requirement is met
    let mut met_at = usize::MAX;
    if r.chance(35) {
        met_at = r.below(8) as usize;
        conf.th[bad] = 1;
        max_attempts = if r.chance(50) { *r.pick(&crate::c_regular::HUGE_LIMITS) } else { met_at as u32 + 1 + r.below(3) as u32 };
        c.count("tests_met_at_a_later_attempt", 1);
    }
    c.desc = format!("{conf:?}, {max_attempts} attempts; all calls take the same time, but {} is required to be better than O(1) -- {}", OPS[bad], if met_at == usize::MAX { "it never is".into() } else { format!("it is from the attempt #{} on", met_at + 1) });
    let epoch = AtomicUsize::new(0);
    let log = Mutex::new(Vec::<(usize, usize)>::with_capacity(20_000));
    let attempt_of = |epoch: usize| if conf.warm > 0 { epoch / 2 } else { epoch };
    enable(true);
    let result = catch(|| test(&conf, "few", max_attempts, &ceil, |op, e| {
        let ep = epoch.load(SeqCst);
        log.lock().unwrap().push((ep, op));
        advance(if op == bad && attempt_of(ep) >= met_at { 1_000_000_000_000 >> (3 * e.min(12)) } else { 1000 });
        if op == 4 { epoch.fetch_add(1, SeqCst); }
    }));
    enable(false);
    cap.take();
    let log = log.into_inner().unwrap();
    let attempts = if met_at == usize::MAX { max_attempts.max(1) as usize } else { met_at + 1 };
    match &result {
        Ok(()) if met_at == usize::MAX => return Err(format!("passed, although {} can't be better than O(1)", OPS[bad])),
        Err(n) if met_at != usize::MAX => return Err(format!("failed, although attempt #{attempts} met the ceilings: {}", n.msg)),
        _ => {}
    }
    if let (Err(n), true) = (&result, attempts > 1) {
        // all of the previous attempts failed at the same operation, with the same class
        let told: u64 = n.msg.split_once("Previous").map_or("", |x| x.1).lines().filter(|l| l.contains(OPS[bad]))
            .filter_map(|l| l.split(|c: char| !c.is_alphanumeric()).filter_map(|w| w.parse::<u64>().ok()).last()).sum();
        if told != attempts as u64 - 1 { return Err(format!("the message tells of {told} failures of {} among the {} previous attempts: {}", OPS[bad], attempts - 1, n.msg)); }
        c.count("failures_of_previous_attempts_compared", told);
    }
    for k in 0..attempts {
        let ep = if conf.warm > 0 { 2 * k + 1 } else { k };
        for op in 0..=if k >= met_at { 3 } else { bad } {
            let calls = log.iter().filter(|x| **x == (ep, op)).count();
            if calls < 2 { return Err(format!("attempt {}: {} was called {calls} times, in two passes", k + 1, OPS[op])); }
        }
    }
    let last = log.iter().map(|x| x.0).max().unwrap();
    let expected = if conf.warm > 0 { 2 * attempts - 1 } else { attempts - 1 };
    if last != expected { return Err(format!("{attempts} attempts were expected -- {} resets were made", last)); }
    c.count("attempts_monitored", attempts as u64);
    c.count("tests_with_few_iterations", 1);
    c.key(&[777, bad as u64, max_attempts as u64, conf.its[bad] as u64, met_at.min(99) as u64]);
    Ok(())
}
pub fn c06(ctx: &mut Ctx) {
    unsafe { libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 20); libc::mallopt(libc::M_TRIM_THRESHOLD, 64 << 20); }
    let mut cap = Capture::start(1);
    let n = ctx.n(6_000, 40_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(60.0, 500.0) { break; }
        ctx.case(|c| if i % 8 == 7 { few_iterations(c, &mut cap) } else { verdict(c, &mut cap) });
        cap.take();
    }
}
