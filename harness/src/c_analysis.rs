//! C01..C04: the classification functions against the models
use crate::infra::*;
use crate::model::*;
use big_o_test::low_level_analysis::{space_analysis::*, time_analysis::*, types::*};
use big_o_test::BigOAlgorithmComplexity as C;
use std::time::Duration;

fn set_sizes(r: &mut Rng) -> (u32, u32) {
    loop {
        let n1 = match r.below(6) {
            0 => r.range(2, 12) as u32,
            1 => 1u32 << r.range(1, 30),
            2 => r.range(2, u32::MAX as u64 - 1) as u32,
            _ => r.logi(2, 1 << 31) as u32,
        };
        let n2 = match r.below(6) {
            0 => n1 as u64 + r.range(1, 10),
            1 => u32::MAX as u64 - r.below(3),
            2 => n1 as u64 * r.range(2, 10),
            3 => (n1 as f64 * r.logf(1.0001, 1000.0)) as u64,
            _ => n1 as u64 * 2,
        };
        if n2 > n1 as u64 && n2 <= u32::MAX as u64 { return (n1, n2 as u32); }
    }
}
/// relative displacement around a threshold, of any magnitude
pub fn nudge(r: &mut Rng) -> f64 {
    let e = match r.below(4) { 0 => 0.0, 1 => r.logf(1e-8, 1e-3), _ => r.logf(1e-4, 0.7) };
    if r.chance(50) { 1.0 + e } else { 1.0 - e }
}
/// a second usage (in units of f64) near some threshold of the ladder or anywhere
pub fn ladder_u2(r: &mut Rng, u1: f64, n1: f64, n2: f64) -> f64 {
    let t = TOLERANCE;
    match r.below(12) {
        0 => u1,
        1 => 0.0,
        2 => u1 * r.logf(1e-3, 1e6),
        3 => u1.powf(n2 / n1) * *r.pick(&[1.0 - t, 1.0 + t, 1.0]) * nudge(r),
        _ => { let rs = rungs(n1, n2); u1 * *r.pick(&rs) * *r.pick(&[1.0 - t, 1.0 + t, 1.0, 0.95, 1.05]) * nudge(r) }
    }
}
pub fn resizing_u2(r: &mut Rng, u1: f64, n: f64) -> f64 {
    let t = TOLERANCE;
    let l = (3.0 * n).ln() / n.ln();
    match r.below(10) {
        0 => u1,
        1 => 0.0,
        2 => u1 * r.logf(1e-3, 1e4),
        _ => u1 * *r.pick(&[1.0 - t, 1.0 + t, 1.0 / (1.0 + t), l, l * (1.0 + t), 3.0 * (1.0 - t), 3.0 * (1.0 + t), 3.0, 1.0]) * nudge(r),
    }
}

/// which analysis is exercised
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { TimeRegular, SpaceRegular, TimeConstant, SpaceConstant, TimeResizing, SpaceResizing }
use Kind::*;
impl Kind {
    fn time(self) -> bool { matches!(self, TimeRegular | TimeConstant | TimeResizing) }
    /// value of usage `u` (ns or bytes) in the unit the analysis works on: seconds or bytes
    fn unit(self) -> f64 { if self.time() { 1e-9 } else { 1.0 } }
}
fn pass(before: u64, peak: u64) -> BigOSpacePassMeasurements {
    BigOSpacePassMeasurements { used_memory_before: before as usize, used_memory_after: before as usize, max_used_memory: (before + peak) as usize, min_used_memory: before as usize }
}
fn space(p1: BigOSpacePassMeasurements, p2: BigOSpacePassMeasurements) -> BigOSpaceMeasurements { BigOSpaceMeasurements { pass_1_measurements: p1, pass_2_measurements: p2 } }
fn time(u1: u64, u2: u64) -> BigOTimeMeasurements { BigOTimeMeasurements { pass_1_measurements: Duration::from_nanos(u1), pass_2_measurements: Duration::from_nanos(u2) } }
/// runs the analysis on usages given in ns or bytes
fn observe(k: Kind, u1: u64, u2: u64, n1: u32, n2: u32, base: (u64, u64)) -> C {
    let sp = || space(pass(base.0, u1), pass(base.1, u2));
    match k {
        TimeRegular   => analyse_time_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, &time(u1, u2)),
        SpaceRegular  => analyse_space_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, &sp()),
        TimeConstant  => analyse_time_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: 1 + (u1 % 1000) as u32 }, &time(u1, u2)),
        SpaceConstant => analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: 1 + (u1 % 1000) as u32 }, &sp()),
        TimeResizing  => analyse_time_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, &time(u1, u2)),
        SpaceResizing => analyse_space_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, &sp()),
    }
}
const MAX_U: f64 = 9e15;    // exactly representable, both as f64 & as the difference of two of them
fn first_usage(r: &mut Rng, k: Kind) -> u64 {
    match r.below(8) {
        0 => r.below(4),
        1 => r.range(1, 300),
        2 if k.time() => r.logi(1_000_000_000, 100_000_000_000_000),     // > 1s: exponentials are reachable
        _ => r.logi(1, 10_000_000_000_000),
    }
}

/// classes judged by the tolerance this build was compiled for, when the other tolerance would give another class
pub fn tolerance_honoured(c: &mut Case) -> Result<(), String> {
    let other = if TOLERANCE == 0.25 { 0.10 } else { 0.25 };
    for _ in 0..256 {
        let r = &mut c.fork();
        let k = *r.pick(&[TimeRegular, SpaceRegular, TimeConstant, SpaceConstant, TimeResizing, SpaceResizing]);
        let sizes = set_sizes(r);
        // exponentials are reachable with close set sizes
        let (n1, n2) = if r.chance(30) { let n = r.range(2, 1000) as u32; (n, n + 1 + r.below(n as u64 / 2 + 1) as u32) } else { sizes };
        let u1 = first_usage(r, k);
        let resizes = matches!(k, TimeResizing | SpaceResizing);
        // around the thresholds of either tolerance
        let f = (if resizes { resizing_u2(r, u1 as f64 * k.unit(), n1 as f64) } else { ladder_u2(r, u1 as f64 * k.unit(), n1 as f64, n2 as f64) }) / k.unit();
        let u2 = if f.is_finite() && f < MAX_U { f.round() as u64 } else { continue };
        let judge = |t: f64| { let (a, b) = (u1 as f64 * k.unit(), u2 as f64 * k.unit()); if resizes { resizing(a, b, n1 as f64, t) } else { ladder(a, b, n1 as f64, n2 as f64, t) } };
        let ((want, margin), (unwanted, _)) = (judge(TOLERANCE), judge(other));
        if margin < NOISE || want == unwanted { continue; }
        c.desc = format!("{k:?}: usages {u1} -> {u2} ({}), set sizes given as {n1}, {n2}; tolerance {TOLERANCE}", if k.time() { "ns" } else { "bytes" });
        let got = observe(k, u1, u2, n1, n2, (0, 0));
        c.evals(1);
        c.key(&[5000, k as u64, want as u64, unwanted as u64]);
        c.count("classes_depending_on_the_tolerance", 1);
        if rank(got) != want { return Err(format!("classified as {got:?}; the rule says {} for this tolerance, and {} for the other one", name(want), name(unwanted))); }
    }
    Ok(())
}

pub fn c01(ctx: &mut Ctx) {
    let rounds = ctx.n(16_000, 200_000);
    for _ in 0..rounds {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            for _ in 0..256 {
                let r = &mut c.fork();
                let k = *r.pick(&[TimeRegular, SpaceRegular, TimeConstant, SpaceConstant]);
                let (n1, n2) = set_sizes(r);
                let u1 = first_usage(r, k);
                let f = ladder_u2(r, u1 as f64 * k.unit(), n1 as f64, n2 as f64) / k.unit();
                let u2 = if u1 < 2 && r.chance(30) { r.below(5_000) } else if f.is_finite() && f < MAX_U { f.round() as u64 } else { r.logi(1, MAX_U as u64) };
                let base = (r.below(1 << 40), r.below(1 << 40));
                let (want, margin) = ladder(u1 as f64 * k.unit(), u2 as f64 * k.unit(), n1 as f64, n2 as f64, TOLERANCE);
                let swap = matches!(k, TimeConstant | SpaceConstant) && r.chance(50);
                let (a, b) = if swap { (n2, n1) } else { (n1, n2) };
                c.desc = format!("{k:?}: usages {u1} -> {u2} ({}), set sizes given as {a}, {b}; starting memory {base:?}; tolerance {TOLERANCE}", if k.time() { "ns" } else { "bytes" });
                if margin < NOISE { c.count("too_close_to_a_threshold", 1); continue; }
                let got = observe(k, u1, u2, a, b, base);
                c.evals(1);
                c.key(&[k as u64, want as u64, (margin.max(1e-9).log10().floor() as i64 + 20) as u64, (n1 as u64).ilog2() as u64 / 4, ((n2 as f64 / n1 as f64).log2() * 2.0) as u64, swap as u64]);
                c.count(&format!("class_{:02}_{}", want, name(want)), 1);
                if rank(got) != want { return Err(format!("classified as {got:?}; the rule says {}", name(want))); }
            }
            Ok(())
        });
    }
}

pub fn c03(ctx: &mut Ctx) {
    let rounds = ctx.n(20_000, 250_000);
    for _ in 0..rounds {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            for _ in 0..256 {
                let r = &mut c.fork();
                let k = *r.pick(&[TimeResizing, SpaceResizing]);
                let n = match r.below(4) { 0 => r.range(2, 20) as u32, 1 => r.range(2, u32::MAX as u64) as u32, _ => r.logi(2, u32::MAX as u64) as u32 };
                let u1 = first_usage(r, k);
                let u2 = resizing_u2(r, u1 as f64, n as f64).min(MAX_U).round() as u64;
                let base = (r.below(1 << 40), r.below(1 << 40));
                let (want, margin) = resizing(u1 as f64 * k.unit(), u2 as f64 * k.unit(), n as f64, TOLERANCE);
                c.desc = format!("{k:?}: usages {u1} -> {u2} ({}), {n} elements per pass; starting memory {base:?}; tolerance {TOLERANCE}", if k.time() { "ns" } else { "bytes" });
                if margin < NOISE { c.count("too_close_to_a_threshold", 1); continue; }
                let got = observe(k, u1, u2, n, n, base);
                c.evals(1);
                c.key(&[k as u64, want as u64, (margin.max(1e-9).log10().floor() as i64 + 20) as u64, (n as u64).ilog2() as u64]);
                c.count(&format!("class_{:02}_{}", want, name(want)), 1);
                if rank(got) != want { return Err(format!("classified as {got:?}; the rule says {}", name(want))); }
            }
            Ok(())
        });
    }
}

pub fn c02(ctx: &mut Ctx) {
    let rounds = ctx.n(10_000, 120_000);
    for _ in 0..rounds {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            for _ in 0..24 {
                let r = &mut c.fork();
                let k = *r.pick(&[TimeRegular, SpaceRegular, TimeConstant, SpaceConstant, TimeResizing, SpaceResizing]);
                let (n1, n2) = if r.chance(10) { let n = r.range(2, 5) as u32; (n, n + 1) } else { set_sizes(r) };
                let raise_second = r.chance(60);
                let fixed = first_usage(r, k);
                // usages to be tried, including clusters around every threshold
                let mut us: Vec<u64> = vec![0, 1, 2, fixed, fixed + 1, fixed.saturating_sub(1)];
                for _ in 0..24 {
                    let f = fixed as f64 * k.unit();
                    let g = if matches!(k, TimeResizing | SpaceResizing) { resizing_u2(r, f, n1 as f64) } else { ladder_u2(r, f, n1 as f64, n2 as f64) } / k.unit();
                    let g = if raise_second || g == 0.0 { g } else { fixed as f64 * (fixed as f64 / g) };
                    let u = if g.is_finite() && g < MAX_U { g.round() as u64 } else { r.logi(1, MAX_U as u64) };
                    us.extend([u.saturating_sub(1), u, u + 1]);
                }
                us.sort(); us.dedup();
                let swap = matches!(k, TimeConstant | SpaceConstant) && r.chance(50);
                let (a, b) = if swap { (n2, n1) } else { (n1, n2) };
                let mut last: Option<(u64, C)> = None;
                let mut seen = 0u64;
                for u in us {
                    let (u1, u2) = if raise_second { (fixed, u) } else { (u, fixed) };
                    let got = observe(k, u1, u2, a, b, (0, 0));
                    c.evals(1);
                    seen |= 1 << rank(got);
                    if let Some((pu, pc)) = last {
                        let improved = if raise_second { rank(got) < rank(pc) } else { rank(got) > rank(pc) };
                        if improved {
                            c.desc = format!("{k:?}, set sizes {a}, {b}, {} pass usage fixed in {fixed}, the other going from {pu} to {u} (ns or bytes)", if raise_second { "first" } else { "second" });
                            return Err(if raise_second { format!("raising the second pass' usage improved the class from {pc:?} to {got:?}") } else { format!("raising the first pass' usage worsened the class from {pc:?} to {got:?}") });
                        }
                    }
                    last = Some((u, got));
                }
                c.desc = format!("{k:?}, set sizes {a}, {b}, {} pass usage fixed in {fixed}: {} classes seen along the chain", if raise_second { "first" } else { "second" }, seen.count_ones());
                c.key(&[k as u64, seen, raise_second as u64, swap as u64]);
                c.count("chains", 1);
                c.count("class_changes_along_chains", seen.count_ones() as u64 - 1);
            }
            Ok(())
        });
    }
}

pub fn c04(ctx: &mut Ctx) {
    let rounds = ctx.n(10_000, 120_000);
    for _ in 0..rounds {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            for _ in 0..128 {
                let r = &mut c.fork();
                let k = *r.pick(&[SpaceRegular, SpaceConstant, SpaceResizing]);
                let (n1, n2) = set_sizes(r);
                let u1 = if r.chance(15) { 0 } else { first_usage(r, k) };
                let u2 = if r.chance(15) { 0 } else {
                    let g = if k == SpaceResizing { resizing_u2(r, u1 as f64, n1 as f64) } else { ladder_u2(r, u1 as f64, n1 as f64, n2 as f64) };
                    if g.is_finite() && g < MAX_U { g.round() as u64 } else { r.logi(1, MAX_U as u64) }
                };
                let analyse = |m: &BigOSpaceMeasurements| match k {
                    SpaceRegular  => analyse_space_complexity(&AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, m),
                    SpaceConstant => analyse_space_complexity_for_constant_set_iterator_algorithm(&ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: n1 }, m),
                    _             => analyse_space_complexity_for_set_resizing_iterator_algorithm(&SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, m),
                };
                let canonical = space(pass(0, u1), pass(0, u2));
                let want = analyse(&canonical);
                c.key(&[k as u64, rank(want) as u64, (u1 == 0) as u64, (u2 == 0) as u64]);
                c.count(&format!("class_{:02}_{}", rank(want), name(rank(want))), 1);
                if u1 == 0 && u2 == 0 && want != C::O1 {
                    c.desc = format!("{k:?}: two passes that never rise above their start");
                    return Err(format!("classified as {want:?}"));
                }
                // the same peaks, on any other circumstance
                for _ in 0..6 {
                    let mut any = |peak: u64| {
                        let before = match r.below(4) { 0 => 0, 1 => r.below(5000), _ => r.logi(1, 1 << 42) };
                        let min = match r.below(3) { 0 => before, 1 => 0, _ => r.range(0, before) };
                        let max = before + peak;
                        let after = match r.below(5) { 0 => before, 1 => max, 2 => min, _ => r.range(min, max) };
                        BigOSpacePassMeasurements { used_memory_before: before as usize, used_memory_after: after as usize, max_used_memory: max as usize, min_used_memory: min as usize }
                    };
                    let m = space(any(u1), any(u2));
                    let got = analyse(&m);
                    c.evals(1);
                    c.desc = format!("{k:?}, set sizes {n1}, {n2}, peaks of {u1} and {u2} bytes above the start; pass 1 {:?}; pass 2 {:?}", m.pass_1_measurements, m.pass_2_measurements);
                    if got != want { return Err(format!("classified as {got:?}, but as {want:?} when both passes start, end and bottom at zero")); }
                }
            }
            Ok(())
        });
    }
}
