//! C13: panics in user code
use crate::c_crud::{analyse, any_conf, Call, Conf, OPS};
use crate::infra::*;
use crate::model::*;
use crate::vclock::{advance, enable};
use big_o_test::test_algorithm;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::Mutex;

/// panics in several ways
fn blow(way: u64) {
    struct Own;
    match way % 12 {
        0..=2 => panic!("{PLANNED}"),
        3..=5 => panic!("{PLANNED}: {way}"),
        // neither a &str nor a String -- and not going through the panic hook
        6 => std::panic::resume_unwind(Box::new(way)),
        7 => std::panic::resume_unwind(Box::new(way as i32)),
        8 => std::panic::resume_unwind(Box::new(())),
        9 => std::panic::resume_unwind(Box::new(Own)),
        10 => std::panic::resume_unwind(Box::new(Box::<dyn std::error::Error + Send + Sync>::from("an error"))),
        _ => std::panic::resume_unwind(Box::new(std::io::Error::other("i/o"))),
    }
}

fn regular(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    let r = &mut c.fork();
    let retries = r.below(4) as u32;
    let at_attempt = r.below(retries as u64 + 1) as usize;
    let at_stage = r.below(3) as u8;
    let way = r.next();
    c.desc = format!("test_algorithm with up to {retries} retries, {} panicking on attempt {}; the previous ones mismatching on time", ["reset", "the first pass", "the second pass"][at_stage as usize], at_attempt + 1);
    let log = Mutex::new(Vec::<u8>::new());
    let k = AtomicUsize::new(0);
    let stage = |s: u8| {
        log.lock().unwrap().push(s);
        let attempt = k.load(SeqCst);
        if s == 2 { k.store(attempt + 1, SeqCst); }
        if attempt == at_attempt && s == at_stage { blow(way); }
        advance(if s == 2 { 64_000 } else { 1000 });
        s as u32
    };
    enable(true);
    let result = catch(|| test_algorithm("panicking", retries, || { stage(0); }, 100, || stage(1), 200, || stage(2), CLASSES[5], CLASSES[16]));
    enable(false);
    cap.take();
    let log = log.into_inner().unwrap();
    if result.is_ok() { return Err("it returned normally".into()); }
    let expected: Vec<u8> = (0..at_attempt * 3 + at_stage as usize + 1).map(|i| (i % 3) as u8).collect();
    if log != expected { return Err(format!("stages ran as {log:?} instead of {expected:?}")); }
    c.key(&[0, at_attempt as u64, at_stage as u64, way % 3]);
    c.count("regular_panics", 1);
    Ok(())
}

fn crud(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    let r = &mut c.fork();
    let mut conf: Conf = any_conf(r, 40, 8);
    for op in 1..4 { if r.chance(10) { conf.its[op] = 0; } }
    let through_test = r.chance(50);
    let phases: Vec<_> = conf.phases().into_iter().filter(|p| p.0 == 4 || !p.2.is_empty()).collect();
    let target = r.below(phases.len() as u64) as usize;
    let (op, pass, range) = phases[target].clone();
    // one or several elements make the closure panic
    let several = r.chance(30);
    let element = if op == 4 { range.end } else { match r.below(3) { 0 => range.start, 1 => range.end - 1, _ => r.range(range.start as u64, range.end as u64 - 1) as u32 } };
    let (way, salt) = (r.next(), r.next());
    let bad = |e: u32| e == element || several && hash(&[salt, e as u64]) % 3 == 0;
    c.desc = format!("{}: {conf:?}: {}{} panicking on element {element}{}", if through_test { "test_crud_algorithms" } else { "analyse_crud_algorithms" }, if op == 4 { "reset" } else { OPS[op] }, if op == 4 { String::new() } else { format!(" ({})", ["warm-up", "1st pass", "2nd pass"][pass]) }, if several { " & others" } else { "" });
    let epoch = AtomicUsize::new(0);
    let log = Mutex::new(Vec::<Call>::with_capacity(4096));
    let own = [conf.n(0), conf.n(1), conf.n(2), conf.n(3)];
    let body = |o: usize, e: u32| {
        let ep = epoch.load(SeqCst);
        log.lock().unwrap().push(Call { op: o, e, begin: true });
        if o == 4 { if op == 4 { blow(way); } epoch.store(1, SeqCst); return; }
        let p = if conf.warm > 0 && ep == 0 { 0 } else if e < own[o] { 1 } else { 2 };
        if o == op && p == pass && bad(e) { blow(way); }
        if hash(&[salt, o as u64, e as u64]) % 4 == 0 { std::thread::yield_now(); }
        advance(1000);
    };
    enable(true);
    let result = if through_test { catch(|| crate::c_crud::test(&conf, "panicking", 3, &[(16, 16); 4], body)) } else { catch(|| { analyse(&conf, "panicking", body); }) };
    enable(false);
    cap.take();
    let log = log.into_inner().unwrap_or_else(|e| e.into_inner());
    if result.is_ok() { return Err("it returned normally".into()); }
    // all the phases up to the panicking one -- and nothing after it
    let mut at = 0;
    for (o, p, range) in &phases[..target] {
        let calls = if *o == 4 { 1 } else { range.len() };
        let Some(mine) = log.get(at..at + calls) else { return Err(format!("the {o} phase (pass {p}) is missing")) };
        if mine.iter().any(|k| k.op != *o || *o != 4 && !range.contains(&k.e)) { return Err(format!("calls out of order before the panic: {mine:?}")); }
        at += calls;
    }
    let rest = &log[at..];
    if rest.is_empty() || rest.len() > range.len().max(1) { return Err(format!("{} calls in the panicking phase, of {} elements", rest.len(), range.len())); }
    if let Some(k) = rest.iter().find(|k| k.op != op || op != 4 && !range.contains(&k.e)) { return Err(format!("{} was called (element {}) after the phase that panicked", if k.op == 4 { "reset" } else { OPS[k.op] }, k.e)); }
    c.key(&[1, op as u64, pass as u64, if op == 4 { 1 } else { conf.th[op] as u64 }, several as u64, way % 3, (element == range.start) as u64]);
    c.count("crud_panics", 1);
    if op < 4 && conf.th[op] > 1 { c.count("panics_with_other_threads_running", 1); }
    Ok(())
}

#[cfg(any(feature = "cfg_default", feature = "v_async"))]
fn asynchronous(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    use crate::c_async::*;
    let r = &mut c.fork();
    let mut s = Setup::random(r, "panicking");
    s.tc = Some(5);
    let retries = r.below(3) as usize;
    s.reattempts = Some(retries as u32);
    s.n = (100, 200);
    let stages = s.stages();
    let at_attempt = r.below(retries as u64 + 1) as usize;
    let at_stage = r.below(stages.len() as u64) as usize;
    let portion = if r.chance(30) { CALLED } else { r.below(s.yields as u64 + 1) as usize };
    let way = r.next();
    let target = at_attempt * stages.len() + at_stage;
    c.desc = format!("{s:?}: {:?} (stage #{at_stage}) panicking on attempt {} {}; the previous ones mismatching on time", stages[at_stage], at_attempt + 1, if portion == CALLED { "when called".into() } else { format!("on poll {portion}") });
    let counter = AtomicUsize::new(0);
    let (result, log, live) = run(&s, move |st, _, p| {
        if p == CALLED { counter.fetch_add(1, SeqCst); }
        if counter.load(SeqCst) == target + 1 && p == portion { blow(way); }
        if p == 0 { advance(if st == Stage::Pass2 { 64_000 } else { 1000 }); }
    });
    cap.take();
    if result.is_ok() { return Err("it returned normally".into()); }
    let began: Vec<Stage> = log.iter().filter_map(|e| if let Ev::Begin(s, _) = e { Some(*s) } else { None }).collect();
    let expected: Vec<Stage> = (0..=target).map(|i| stages[i % stages.len()]).collect();
    if began != expected { return Err(format!("stages ran as {began:?} instead of {expected:?}")); }
    if live != 0 { return Err(format!("{live} values weren't dropped")); }
    c.key(&[2, at_attempt as u64, at_stage as u64, way % 3, portion.min(9) as u64, stages.len() as u64]);
    c.count("async_panics", 1);
    Ok(())
}
#[cfg(not(any(feature = "cfg_default", feature = "v_async")))]
fn asynchronous(_: &mut Case, _: &mut Capture) -> Result<(), String> { Ok(()) }

/// a panic on an attempt that follows one that mismatched -- or while resetting to make it
fn crud_retry(c: &mut Case, cap: &mut Capture) -> Result<(), String> {
    let r = &mut c.fork();
    let n = r.range(20, 60) as u32;
    let conf = Conf { warm: *r.pick(&[0, 50]), its: [n; 4], th: std::array::from_fn(|_| r.range(1, 4) as u32) };
    let resets_per_attempt = 1 + (conf.warm > 0) as usize;
    let in_reset = r.chance(40);
    let op = r.below(4) as usize;
    let nth_reset = r.range(1, resets_per_attempt as u64 * 2) as usize;
    let way = r.next();
    c.desc = format!("{conf:?}, 4 attempts, update mismatching on time at all of them; {} panicking", if in_reset { format!("the reset #{nth_reset}") } else { format!("{} after {nth_reset} resets", OPS[op]) });
    let (resets, after, blown) = (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0));
    let mut ceil = [(16, 16); 4];
    ceil[2].0 = 0;
    let body = |o: usize, _: u32| {
        let k = if o == 4 { resets.fetch_add(1, SeqCst) + 1 } else { resets.load(SeqCst) };
        if blown.load(SeqCst) > 0 && o != op { after.fetch_add(1, SeqCst); }
        if in_reset && o == 4 && k == nth_reset || !in_reset && o == op && k == nth_reset { blown.fetch_add(1, SeqCst); blow(way); }
        advance(1000);
    };
    enable(true);
    let result = catch(|| crate::c_crud::test(&conf, "retried", 4, &ceil, body));
    enable(false);
    cap.take();
    if blown.load(SeqCst) == 0 {
        // delete isn't reached unless on the warm-up
        if op == 3 && !in_reset { c.count("unreached", 1); return Ok(()); }
        return Err("harness: the panicking point wasn't reached".into());
    }
    if result.is_ok() { return Err("it returned normally".into()); }
    if resets.load(SeqCst) != nth_reset { return Err(format!("{} resets were made after the panic", resets.load(SeqCst) - nth_reset)); }
    if after.load(SeqCst) > 0 { return Err(format!("{} calls to other operations were made after the panic", after.load(SeqCst))); }
    c.key(&[3, nth_reset as u64, in_reset as u64, op as u64, conf.warm as u64]);
    c.count("crud_retry_panics", 1);
    Ok(())
}

pub fn c13(ctx: &mut Ctx) {
    let mut cap = Capture::start(1);
    let n = ctx.n(6_000, 60_000);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(30.0, 300.0) { break; }
        ctx.case(|c| match i % 6 { 0 => regular(c, &mut cap), 1 => asynchronous(c, &mut cap), 2 => crud_retry(c, &mut cap), _ => crud(c, &mut cap) });
        cap.take();
    }
}
