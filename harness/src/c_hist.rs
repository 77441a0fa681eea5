//! C28: what a test does & reports doesn't depend on what ran before it -- nor, memory aside, on the tests running meanwhile
use crate::c_async::{self, Setup, Stage};
use crate::c_crud::{analyse, any_conf, numbers, test, Conf};
use crate::c_regular::{plan, script, touch, Attempt, Blocks, Heap, Op};
use crate::infra::*;
use crate::model::*;
use crate::vclock::{advance, enable};
use big_o_test::{test_algorithm, ALLOC};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Barrier, Mutex};

/// the text of a panic
fn said(r: std::thread::Result<()>) -> String {
    match r {
        Ok(()) => "passed".into(),
        Err(p) => format!("failed: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())),
    }
}

/// what a probe -- determined by its seed -- does to time & memory
pub(crate) struct Probe { seed: u64, n: (u32, u32), attempts: Vec<Attempt>, tc: usize, sc: usize, scripts: Vec<(Vec<Op>, Vec<Op>)> }
impl Probe {
    pub(crate) fn new(seed: u64) -> Self {
        let r = &mut Rng::new(seed);
        let (tc, sc) = (r.below(17) as usize, if r.chance(70) { 16 } else { r.below(17) as usize });
        let (n, attempts) = { let k = r.range(1, 4); plan(r, k, Some(tc), Some(sc)) };
        let mut heap = Heap::default();
        let scripts = (0..attempts.len()).map(|_| (script(r, &mut heap, 20, 1000).0, script(r, &mut heap, 20, 1000).0)).collect();
        Probe { seed, n, attempts, tc, sc, scripts }
    }
    fn retries(&self) -> u32 { self.attempts.len() as u32 - 1 }
    fn pass(&self, k: usize, second: bool, blocks: &mut Blocks) {
        let Some(a) = self.attempts.get(k) else { return };
        let s = &self.scripts[k];
        blocks.run(if second { &s.1 } else { &s.0 });
        touch(if second { a.s.1 } else { a.s.0 });
        advance(if second { a.t.1 } else { a.t.0 });
    }
}

/// (calls made, outcome) of a regular test
fn regular(p: &Probe) -> String {
    let log = Mutex::new(Vec::<u8>::with_capacity(256));
    let k = AtomicUsize::new(usize::MAX);
    let blocks = Mutex::new(Blocks::new());
    let r = catch_unwind(AssertUnwindSafe(|| test_algorithm("probe", p.retries(),
        || { log.lock().unwrap().push(0); k.store(k.load(SeqCst).wrapping_add(1), SeqCst); touch(1 << 20); advance(123_456) },
        p.n.0, || { log.lock().unwrap().push(1); p.pass(k.load(SeqCst), false, &mut blocks.lock().unwrap()); p.seed as u32 },
        p.n.1, || { log.lock().unwrap().push(2); p.pass(k.load(SeqCst), true, &mut blocks.lock().unwrap()); (p.seed >> 32) as u32 },
        CLASSES[p.tc], CLASSES[p.sc])));
    format!("{}; stages {:?}", said(r), log.into_inner().unwrap())
}
fn asynchronous(p: &Probe) -> String {
    let mut r = Rng::new(p.seed ^ 77);
    let mut s = Setup::random(&mut r, "probe");
    s.n = p.n; s.reattempts = Some(p.retries()); s.tc = Some(p.tc); s.sc = Some(p.sc);
    let last = s.yields;
    let blocks = Mutex::new(Blocks::new());
    let q = Probe::new(p.seed);
    let (result, log, live) = c_async::run_unguarded(&s, move |st, k, portion| {
        if portion != last { return; }
        match st { Stage::Pass1 | Stage::Pass2 => q.pass(k, st == Stage::Pass2, &mut blocks.lock().unwrap()), _ => { touch(1 << 20); advance(123_456) } }
    });
    format!("{}; {log:?}; {live} values not dropped", said(result))
}
fn crud_conf(p: &Probe) -> Conf { let r = &mut Rng::new(p.seed ^ 99); any_conf(r, 60, 4) }
fn crud_body<'a>(p: &'a Probe, log: &'a Mutex<Vec<(usize, u32)>>, slots: &'a [Mutex<Option<Vec<u8>>>]) -> impl Fn(usize, u32) + Sync + 'a {
    move |op, e| {
        log.lock().unwrap().push((op, e));
        match op {
            0 => *slots[e as usize % slots.len()].lock().unwrap() = Some(Vec::with_capacity(50_000)),
            3 | 4 => { slots[e as usize % slots.len()].lock().unwrap().take(); }
            1 => touch(hash(&[p.seed, e as u64]) % 300_000),
            _ => (),
        }
        advance(1 + hash(&[p.seed, op as u64, e as u64]) % 100_000)
    }
}
/// a CRUD report without what varies with the threads' memory: its amounts -- and the class that results from them
fn masked(report: &str) -> String {
    report.lines().filter(|l| !l.contains("Space")).map(|l| {
        // (in reports, amounts of memory have an unit right after the digits)
        l.split_whitespace().map(|w| w.split('/').map(|x| {
            let t = x.trim_matches(|c: char| !c.is_alphanumeric() && c != '+' && c != '-');
            if parse_memory(t).is_some() { x.replace(t, "#") } else { x.to_string() }
        }).collect::<Vec<_>>().join("/")).collect::<Vec<_>>().join(" ")
    }).collect::<Vec<_>>().join("\n")
}
/// lines of what must match -- the last one being of amounts of memory in which threads have a say
fn crud(p: &Probe) -> String {
    let conf = crud_conf(p);
    let log = Mutex::new(Vec::with_capacity(4096));
    let slots: Vec<_> = (0..256).map(|_| Mutex::new(None)).collect();
    let mut ms = vec![];
    let what = if p.seed % 2 == 0 {
        let r = catch_unwind(AssertUnwindSafe(|| analyse(&conf, "probe", crud_body(p, &log, &slots))));
        match r {
            Ok(a) => format!("{}\n{:?}", masked(&a.4), numbers(&a).map(|x| x.map(|(t, s, tc, _)| { for q in s { ms.push([q.max_used_memory as i64 - q.used_memory_before as i64, q.used_memory_before as i64 - q.min_used_memory as i64, q.used_memory_after as i64 - q.used_memory_before as i64]); } (t, tc) }))),
            Err(_) => "failed".into(),
        }
    } else {
        let r = &mut Rng::new(p.seed ^ 55);
        let ceil: [(usize, usize); 4] = std::array::from_fn(|_| (r.below(17) as usize, 16));
        said(catch_unwind(AssertUnwindSafe(|| test(&conf, "probe", 1 + p.seed as u32 % 3, &ceil, crud_body(p, &log, &slots)))))
    };
    let mut log = log.into_inner().unwrap();
    log.sort();
    format!("{what}; calls {log:?}\u{1}{}", ms.iter().flatten().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
/// outcome of a probe -- with its report, if `cap` is given
pub(crate) fn outcome(kind: u64, p: &Probe, cap: Option<&mut Capture>) -> String {
    let o = match kind { 0 => regular(p), 1 => asynchronous(p), _ => crud(p) };
    let Some(cap) = cap else { return o };
    let text = cap.take();
    if kind < 2 { format!("{o}\n{text}") } else { format!("{}\n{o}", masked(&text)) }
}

/// what runs in the child process
pub fn child(kind: u64, seed: u64) {
    install_hook();
    let mut cap = Capture::start(1);
    enable(true);
    let o = outcome(kind, &Probe::new(seed), Some(&mut cap));
    enable(false);
    drop(cap);
    print!("{o}");
}
fn fresh(kind: u64, seed: u64) -> Result<String, String> {
    let o = std::process::Command::new("/proc/self/exe").args(["--probe", &kind.to_string(), &seed.to_string()]).output().map_err(|e| format!("harness: {e}"))?;
    if !o.status.success() { return Err(format!("in a process of its own, the test made the process end with {}: {}", o.status, String::from_utf8_lossy(&o.stderr))); }
    Ok(String::from_utf8_lossy(&o.stdout).into_owned())
}

const KINDS: [&str; 3] = ["regular", "async", "CRUD"];
pub(crate) const HISTORIES: [&str; 13] = ["test", "async test", "CRUD test", "panicking test", "panicking CRUD", "panicking async test", "dropped async test", "outlived save points", "forgotten save points", "heap growth", "heap shrinkage", "threads using the heap", "the same test"];
pub(crate) fn history(r: &mut Rng, what: usize, kept: &mut Vec<Vec<u8>>) {
    let seed = r.next();
    let quietly = |f: &mut dyn FnMut()| { let _ = catch_unwind(AssertUnwindSafe(f)); };
    match what {
        0 => { regular(&Probe::new(seed)); }
        1 => { asynchronous(&Probe::new(seed)); }
        2 => { crud(&Probe::new(seed)); }
        3 => { let at = r.below(3); quietly(&mut || { test_algorithm("bad", 2, || if at == 0 { panic!("{PLANNED}") }, 10, || if at == 1 { panic!("{PLANNED}") } else { 1 }, 20, || if at == 2 { panic!("{PLANNED}") } else { 2 }, CLASSES[16], CLASSES[16]) }); }
        4 => { let conf = any_conf(r, 40, 6); let at = r.below(4) as usize; let nth = r.below(20) as u32; quietly(&mut || { analyse(&conf, "bad", |op, e| if op == at && e >= nth { panic!("{PLANNED}") }); }); }
        5 => { let mut s = Setup::random(r, "bad"); s.tc = Some(5); let k = r.below(s.stages().len() as u64) as usize; let n = AtomicUsize::new(0); c_async::run_unguarded(&s, move |_, _, p| { if p == 0 && n.fetch_add(1, SeqCst) == k { panic!("{PLANNED}") } }).2; }
        6 => { let mut s = Setup::random(r, "dropped"); s.yields = 3; let polls = r.below(16) as usize; c_async::run_and_drop(&s, polls, |_, _, _| touch(1 << 16)); }
        7 => { let n = 1 + r.below(2000); test_algorithm("outliving", 0, || {}, 10, || { for _ in 0..n { drop(ALLOC.save_point()); } 1 }, 20, || 2, CLASSES[16], CLASSES[16]); }
        8 => for _ in 0..1 + r.below(3000) { let s = ALLOC.save_point(); if r.chance(30) { std::mem::forget(s); } },
        9 => for _ in 0..1 + r.below(20) { kept.push(Vec::with_capacity(r.logi(1, 1 << 24) as usize)); },
        10 => { let n = r.below(kept.len() as u64 + 1) as usize; kept.truncate(n); }
        _ => { let k = r.range(2, 6); /* (joined one by one: scopes don't wait for what threads free when exiting) */ std::thread::scope(|s| { let hs: Vec<_> = (0..k).map(|i| s.spawn(move || { let mut v = vec![]; for j in 0..50 * (i + 1) { v.push(Vec::<u8>::with_capacity((j * 37) as usize)); if j % 5 == 0 { let p = ALLOC.save_point(); v.clear(); std::hint::black_box(p.metrics.current_used_memory); } } })).collect(); for h in hs { h.join().unwrap(); } }); }
    }
}

fn compare(kind: u64, alone: &str, got: &str, threads: u32) -> Result<(), String> {
    let cut = |s: &str| { let (a, b) = s.split_once('\u{1}').unwrap_or((s, "")); (a.to_string(), b.split(',').filter_map(|x| x.parse::<i64>().ok()).collect::<Vec<_>>()) };
    let ((a, am), (b, bm)) = (cut(alone), cut(got));
    let _ = kind;
    if a != b {
        let at = a.char_indices().zip(b.chars()).find(|((_, x), y)| x != y).map_or(a.len().min(b.len()), |((i, _), _)| i);
        let from = |s: &str| s.char_indices().filter(|(i, _)| *i + 60 >= at && *i < at + 200).map(|(_, c)| c).collect::<String>();
        return Err(format!("a probe made after (or along with) other tests differs from the same probe alone in its process, from here on: {:?} -- alone: {:?}", from(&b), from(&a)));
    }
    if am.len() != bm.len() { return Err("different number of analyses".into()); }
    // stacks, handles & the heap used by the user code of distinct threads, at the same time, or not
    let slack = 400_000 * threads as i64 + 16_384;
    for (x, y) in am.iter().zip(&bm) { if (x - y).abs() > slack { return Err(format!("passes measured as (peak, trough, variation) {bm:?} instead of {am:?}")); } }
    Ok(())
}

pub fn c28(ctx: &mut Ctx) {
    let n = ctx.n(6_000, 30_000);
    let mut cap = Capture::start(1);
    let mut kept = vec![];
    for i in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 300.0) { break; }
        // one within another
        if i % 8 == 6 { ctx.case(|c| {
            let r = &mut c.fork();
            let outer = r.below(3);
            // (a runtime can't be started within another)
            let kind = if outer == 1 { *r.pick(&[0, 2]) } else { r.below(3) };
            let mut p = Probe::new(r.next());
            // an outer CRUD test's threads come & go, so memory is left out
            if outer == 2 { p.sc = 16; }
            let at = r.below(4);
            let th: [u32; 4] = std::array::from_fn(|_| r.range(1, 3) as u32);
            c.desc = format!("{} test of seed {} made by the code under {} test{}", KINDS[kind as usize], p.seed, KINDS[outer as usize], if outer == 2 { format!(": {} -- threads: {th:?}", crate::c_crud::OPS[at as usize]) } else { format!(", in pass {}", at % 2 + 1) });
            enable(true);
            let alone = if outer == 2 { outcome(kind, &p, Some(&mut cap)) } else { fresh(kind, p.seed)? };
            let state = Mutex::new((&mut cap, None::<String>, 0u64));
            let inner = || {
                let mut st = state.lock().unwrap();
                st.0.take();
                let t0 = crate::vclock::now();
                let got = outcome(kind, &p, Some(st.0));
                st.2 = crate::vclock::now() - t0;
                st.1 = Some(got);
            };
            let (reported, pass) = match outer {
                0 => (catch(|| test_algorithm("outer", 0, || {}, 10, || { if at % 2 == 0 { inner() } 1 }, 20, || { if at % 2 == 1 { inner() } 2 }, CLASSES[16], CLASSES[16])).map(|_| None), at % 2),
                1 => (catch(|| { let inner = &inner; c_async::scoped("outer", move |pass| if pass == at % 2 { inner() }); None }), at % 2),
                _ => (catch(|| { let a = analyse(&Conf { warm: 0, its: [3; 4], th }, "outer", |op, e| if op == at as usize && e == 1 { inner() }); Some(numbers(&a)[at as usize].as_ref().unwrap().0[0]) }), 0),
            };
            enable(false);
            let (_, got, took) = state.into_inner().unwrap();
            let text = cap.take();
            let reported = reported.map_err(|e| format!("the outer test failed: {}", e.msg))?;
            let Some(got) = got else { return Err("harness: the inner test wasn't made".into()) };
            c.key(&[77, outer, kind, at, p.attempts.len() as u64]);
            c.count("tests_made_within_another", 1);
            let strip = |s: &str| if outer == 2 { masked(s.split('\u{1}').next().unwrap()) } else { s.to_string() };
            compare(kind, &strip(&alone), &strip(&got), if kind == 2 { *crud_conf(&p).th.iter().max().unwrap() } else { 0 })?;
            let took = std::time::Duration::from_nanos(if outer == 2 { took / th[at as usize] as u64 } else { took });
            match reported {
                Some(t) => if t.abs_diff(took).as_nanos() > 2 { return Err(format!("the inner test took {took:?}; the pass it was in, {t:?}")) },
                None => crate::c_text::check_pass_time(&text, pass as u32 + 1, took).map_err(|e| format!("the inner test took {took:?}: {e} -- in:\n{text}"))?,
            }
            Ok(())
        }); continue; }
        // one after the other
        if i % 4 != 3 { ctx.case(|c| {
            let r = &mut c.fork();
            let kind = r.below(3);
            let p = Probe::new(r.next());
            let past: Vec<usize> = (0..r.range(1, 6)).map(|_| r.below(HISTORIES.len() as u64) as usize).collect();
            c.desc = format!("{} test of seed {} (maximum time {}, space {}; attempts {:?}), after {:?}", KINDS[kind as usize], p.seed, name(p.tc), name(p.sc), p.attempts, past.iter().map(|x| HISTORIES[*x]).collect::<Vec<_>>());
            let alone = fresh(kind, p.seed)?;
            enable(true);
            for h in &past { if *h == 12 { outcome(kind, &p, None); } else { history(r, *h, &mut kept); } cap.take(); }
            let got = outcome(kind, &p, Some(&mut cap));
            enable(false);
            for h in &past { c.key(&[kind, *h as u64, *past.last().unwrap() as u64, p.attempts.len() as u64]); }
            c.count("histories_followed_by_a_probe", 1);
            for h in &past { c.count(&format!("after_{}", HISTORIES[*h].replace(' ', "_")), 1); }
            compare(kind, &alone, &got, if kind == 2 { *crud_conf(&p).th.iter().max().unwrap() } else { 0 })
        }); continue; }
        // at the same time -- the heap is shared, so it's left out
        ctx.case(|c| {
            let r = &mut c.fork();
            let k = r.range(2, 5) as usize;
            let probes: Vec<(u64, Probe)> = (0..k).map(|_| { let mut p = Probe::new(r.next()); p.sc = 16; (r.below(3), p) }).collect();
            c.desc = format!("{k} tests running at the same time, of kinds {:?} and seeds {:?}", probes.iter().map(|p| p.0).collect::<Vec<_>>(), probes.iter().map(|p| p.1.seed).collect::<Vec<_>>());
            enable(true);
            let strip = |s: String| s.split('\u{1}').next().unwrap().to_string();
            // (the oracle being the very same probes, one at a time)
            let alone: Vec<String> = probes.iter().map(|(kind, p)| strip(outcome(*kind, p, None))).collect();
            let barrier = Barrier::new(k);
            let got: Vec<String> = std::thread::scope(|s| {
                let hs: Vec<_> = probes.iter().map(|(kind, p)| { let barrier = &barrier; s.spawn(move || { barrier.wait(); strip(outcome(*kind, p, None)) }) }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            enable(false);
            cap.take();
            for ((kind, p), (a, g)) in probes.iter().zip(alone.iter().zip(&got)) {
                compare(*kind, a, g, 0)?;
                c.key(&[9, *kind, k as u64, p.attempts.len() as u64]);
            }
            c.count("tests_run_at_the_same_time", k as u64);
            Ok(())
        });
    }
}
