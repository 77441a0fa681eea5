//! C30: the work of the measured code -- pure code included, whose only effect is what it returns -- is really done, inside of the pass it belongs to.
//! The clock is the real one; what's demanded is that the time measured isn't below what the CPU takes, at the very least, to do the work.
use crate::c_crud::{numbers, Conf, OPS};
use crate::c_regular::progress;
use crate::infra::*;
use crate::model::*;
use big_o_test::test_algorithm;
use std::hint::black_box;
use std::time::{Duration, Instant};

/// each step depends on the one before it, through a multiplication (3 cycles) & a xor (1 cycle)
#[inline(always)]
fn chain(seed: u64, steps: u32) -> u32 {
    let mut x = seed | 1;
    for _ in 0..steps { x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (x >> 29); }
    (x ^ (x >> 32)) as u32
}
/// no CPU makes 2 of these steps in a nanosecond: it would take 8 GHz
const LEAST_NS: f64 = 0.5;
const SILENT: bool = cfg!(feature = "v_noreport");

fn at_least(what: &str, got: Duration, steps: u64) -> Result<(), String> {
    let least = steps as f64 * LEAST_NS;
    if (got.as_nanos() as f64) < least { return Err(format!("{what}: {steps} dependent multiplications were said to take {got:?} -- they can't take less than {least}ns: the code under measurement didn't run, or not inside of the pass")); }
    Ok(())
}
fn reported(text: &str, label: &str, steps: u64) -> Result<(), String> {
    if SILENT { return Ok(()); }
    let Some((t, _)) = progress(text, label) else { return Err(format!("'{label}' isn't reported:\n{text}")) };
    let Some((ns, _)) = parse_duration(t) else { return Err(format!("'{t}' is not a duration")) };
    at_least(&format!("'{label}'"), Duration::from_nanos(ns as u64 + 1), steps)
}

pub fn c30(ctx: &mut Ctx) {
    let n = ctx.n(250, 3_000);
    let mut cap = Capture::start(1);
    for i in 0..n {
        if ctx.stopped() || !ctx.within(25.0, 240.0) { break; }
        ctx.case(|c| match i % 5 {
            0 | 1 => {
                let r = &mut c.fork();
                let (s1, s2) = (r.range(500_000, 6_000_000) as u32, r.range(500_000, 6_000_000) as u32);
                let (a, b) = (r.next(), r.next());
                c.desc = format!("regular test, passes of {s1} & {s2} dependent multiplications");
                let start = Instant::now();
                test_algorithm("pure", 0, || {}, 100, || chain(a, s1), 200, || chain(b, s2), CLASSES[16], CLASSES[16]);
                let total = start.elapsed();
                let text = cap.take();
                reported(&text, "Pass 1:", s1 as u64)?;
                reported(&text, "Pass 2:", s2 as u64)?;
                c.key(&[0, s1 as u64 / 500_000, s2 as u64 / 500_000]);
                c.count("regular_passes_timed", 2);
                at_least("the whole test", total, s1 as u64 + s2 as u64)
            }
            2 => {
                #[cfg(any(feature = "cfg_default", feature = "v_async"))] {
                    let r = &mut c.fork();
                    let (s0, s1, s2) = (r.range(500_000, 3_000_000) as u32, r.range(500_000, 6_000_000) as u32, r.range(500_000, 6_000_000) as u32);
                    let seed = r.next() as u32;
                    c.desc = format!("async test, warm-up & passes of {s0}, {s1} & {s2} dependent multiplications");
                    let start = Instant::now();
                    let go = |steps: u32| move |d: Option<u32>| async move { chain(d.unwrap_or(seed) as u64, steps) };
                    crate::c_async::block_on(big_o_test::RegularAsyncAnalyzerBuilder::new("pure").warmup_pass(go(s0)).first_pass(100, go(s1)).second_pass(200, go(s2))
                        .with_time_measurements(CLASSES[16]).with_space_measurements(CLASSES[16]).test_algorithm());
                    let total = start.elapsed();
                    let text = cap.take();
                    reported(&text, "Warming up:", s0 as u64)?;
                    reported(&text, "Pass 1:", s1 as u64)?;
                    reported(&text, "Pass 2:", s2 as u64)?;
                    c.key(&[1, s1 as u64 / 500_000, s2 as u64 / 500_000]);
                    c.count("async_passes_timed", 3);
                    at_least("the whole test", total, s0 as u64 + s1 as u64 + s2 as u64)?;
                }
                Ok(())
            }
            _ => {
                let r = &mut c.fork();
                let its = r.range(20, 200) as u32;
                let conf = Conf { warm: *r.pick(&[0, 0, 20, 50, 100]), its: [its; 4], th: std::array::from_fn(|_| *r.pick(&[1u32, 1, 1, 2, 3])) };
                let steps: [u32; 4] = std::array::from_fn(|_| r.range(2_000, 20_000) as u32);
                let seed = black_box(r.next());
                c.desc = format!("CRUD analysis of {conf:?}: each create, read, update, delete makes {steps:?} dependent multiplications");
                let start = Instant::now();
                // (not through `analyse()`, whose closures have side effects)
                let f = |op: usize| { let s = steps[op]; move |e: u32| chain(seed ^ e as u64, s) };
                let a = big_o_test::runners::crud::analyse_crud_algorithms("pure", |_| 0, f(0), f(1), f(2), f(3), conf.warm, its, its, its, its, conf.th[0], conf.th[1], conf.th[2], conf.th[3]);
                let total = start.elapsed();
                cap.take();
                // the warm-up's work is real, too
                if let Some((t, _)) = a.4.split_once("warming up [").and_then(|x| x.1.split_once("] ")).and_then(|x| x.1.split_once(',')).and_then(|x| parse_duration(x.0.trim())) {
                    let warmed = (its as u64 * conf.warm as u64 / 100) as f64;
                    let least: f64 = (0..4).map(|op| (warmed / conf.th[op] as f64).floor() * steps[op] as f64).sum();
                    at_least("the warm-up", Duration::from_nanos(t as u64 + 1), least as u64)?;
                    c.count("crud_warm_ups_timed", 1);
                }
                let mut all = 0.0;
                for (op, x) in numbers(&a).iter().enumerate() {
                    let Some((t, ..)) = x else { return Err(format!("{} wasn't analysed", OPS[op])) };
                    // the time shown is the mean among the threads
                    let least = its as u64 * steps[op] as u64 / conf.th[op] as u64;
                    for (k, t) in t.iter().enumerate() { at_least(&format!("pass {} of {}", k + 1, OPS[op]), *t, least - least / 50 - steps[op] as u64)?; }
                    all += least as f64 * (2.0 + conf.warm as f64 / 110.0 - 0.02);
                    c.key(&[2, op as u64, conf.th[op] as u64, conf.warm as u64, its as u64 / 20]);
                }
                c.count("crud_passes_timed", 8);
                at_least("the whole analysis", total, (all * 0.9) as u64)
            }
        });
    }
}
