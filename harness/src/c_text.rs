//! C23 & C24: formatted texts, parsed back
use crate::infra::*;
use crate::model::*;
use big_o_test::low_level_analysis::types::*;
use big_o_test::metrics_allocator::MetricsAllocatorStatistics;
use std::sync::atomic::AtomicUsize;
use std::time::Duration;

fn amount(r: &mut Rng) -> u64 {
    match r.below(8) {
        0 => 0,
        1 => r.below(1030),
        2 => { let b = 1u64 << *r.pick(&[10, 20, 30]); if r.chance(40) { b } else { (b + r.below(9)).saturating_sub(4) } }
        3 => { let b = 1u64 << *r.pick(&[10, 20, 30]); b * r.range(1, 1023) + r.below(b) }
        _ => r.logi(1, 1 << 40),
    }
}
fn any_pass(r: &mut Rng) -> BigOSpacePassMeasurements {
    let fall = amount(r);
    let rise = amount(r);
    let min = match r.below(4) { 0 => 0, 1 => r.below(100_000), _ => r.logi(1, 1 << 40) };
    let before = min + fall;
    let max = before + rise;
    let after = match r.below(6) {
        0 => before, 1 => max, 2 => min,
        3 => (before + 1).min(max), 4 => before.saturating_sub(1).max(min),
        _ => r.range(min, max),
    };
    BigOSpacePassMeasurements { used_memory_before: before as usize, used_memory_after: after as usize, max_used_memory: max as usize, min_used_memory: min as usize }
}
fn sign_of(p: &BigOSpacePassMeasurements) -> char { if p.used_memory_after > p.used_memory_before { '+' } else if p.used_memory_after < p.used_memory_before { '-' } else { ' ' } }
fn usage_of(p: &BigOSpacePassMeasurements) -> f64 { (p.max_used_memory - p.used_memory_before).max(p.used_memory_before - p.min_used_memory) as f64 }
pub fn check_pass_text(text: &str, p: &BigOSpacePassMeasurements, n: u32) -> Result<(), String> { check_memory_text(text, sign_of(p), usage_of(p) / n as f64) }

/// "allocated: X; auxiliary used space: Y"
fn check_summary(text: &str, m: &BigOSpaceMeasurements) -> Result<(), String> {
    let net: i128 = [&m.pass_1_measurements, &m.pass_2_measurements].iter().map(|p| p.used_memory_after as i128 - p.used_memory_before as i128).sum();
    let aux: u128 = [&m.pass_1_measurements, &m.pass_2_measurements].iter().map(|p| (p.max_used_memory - p.used_memory_before.max(p.used_memory_after)) as u128).sum();
    let lower = text.to_lowercase();
    let (alloc, freed) = (lower.contains("allocated"), lower.contains("freed"));
    if alloc == freed { return Err(format!("'{text}' should say either allocated or freed")); }
    if net > 0 && freed || net < 0 && alloc { return Err(format!("'{text}': the net change was {net}")); }
    let amounts: Vec<&str> = text.split(|ch: char| ch.is_whitespace() || ch == ';' || ch == ':' || ch == '(' || ch == ')').filter(|w| parse_memory(w).is_some()).collect();
    if amounts.len() != 2 { return Err(format!("'{text}' should show two amounts")); }
    check_memory_text(amounts[0], ' ', net.unsigned_abs() as f64).map_err(|e| format!("net change: {e}"))?;
    check_memory_text(amounts[1], ' ', aux as f64).map_err(|e| format!("auxiliary space: {e}"))
}

pub fn c23(ctx: &mut Ctx) {
    let rounds = ctx.n(12_000, 150_000);
    for _ in 0..rounds {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            for _ in 0..128 {
                let r = &mut c.fork();
                let p = any_pass(r);
                let n = match r.below(4) { 0 => 1, 1 => r.range(2, 100) as u32, _ => r.logi(1, u32::MAX as u64) as u32 };
                let text = if n == 1 && r.chance(50) { p.to_string() } else { p.fmt_over_n(n) };
                c.desc = format!("{p:?} over {n} elements -> '{text}'");
                check_pass_text(&text, &p, n)?;
                let unit = parse_memory(&text).unwrap().2;
                c.key(&[sign_of(&p) as u64, unit as u64, (p.used_memory_after == p.used_memory_before) as u64, (p.max_used_memory - p.used_memory_before > p.used_memory_before - p.min_used_memory) as u64, (n as u64).ilog2() as u64 / 8, (usage_of(&p) + 1.0).log2() as u64]);
                c.count(&format!("unit_{}", match unit as u64 { 1 => "b", 1024 => "KiB", 1048576 => "MiB", _ => "GiB" }), 1);
                c.count(&format!("sign_{}", match sign_of(&p) { '+' => "plus", '-' => "minus", _ => "none" }), 1);
                let m = BigOSpaceMeasurements { pass_1_measurements: p, pass_2_measurements: any_pass(r) };
                let text = m.to_string();
                c.desc = format!("pass 1 {:?}, pass 2 {:?} -> '{text}'", m.pass_1_measurements, m.pass_2_measurements);
                check_summary(&text, &m)?;
                c.evals(2);
            }
            Ok(())
        });
    }
}

/// rung names
const RUNGS: [&str; 8] = ["O(1)", "O(log(n))", "O(n)", "O(n.log(n))", "O(n²)", "O(n³)", "O(n⁴)", "O(kⁿ)"];
fn check_class_text(i: usize, t: &str) -> Result<(), String> {
    let ok = match i {
        0 => t.to_lowercase().contains("better than o(1)"),
        16 => t.to_lowercase().contains("worse than") && t.contains("O(kⁿ)"),
        i if i % 2 == 1 => t == RUNGS[i / 2],
        i => { let (a, b) = (t.find(RUNGS[i / 2 - 1]), t.rfind(RUNGS[i / 2])); t.to_lowercase().contains("worse than") && t.to_lowercase().contains("better than") && a.is_some() && b.is_some() && a < b }
    };
    if ok { Ok(()) } else { Err(format!("'{t}' is presented for {}", name(i))) }
}

fn check_time(text: &str, d: Duration, what: &str) -> Result<(), String> {
    let Some((ns, _)) = parse_duration(text) else { return Err(format!("{what}: '{text}' is not a duration")) };
    if (ns - d.as_nanos() as f64).abs() > d.as_nanos() as f64 * 1e-9 { return Err(format!("{what}: '{text}' is not {d:?}")); }
    Ok(())
}
fn check_average(text: &str, total: Duration, n: u32, what: &str) -> Result<(), String> {
    let want = total.as_nanos() as f64 / n as f64;
    let Some((ns, step)) = parse_duration(text) else { return Err(format!("{what}: '{text}' is not a duration")) };
    if (ns - want).abs() > step * 0.51 + 1.0 + want * 1e-9 { return Err(format!("{what}: '{text}' is not {want}ns")); }
    Ok(())
}
fn row<'a>(text: &'a str, prefix: &str) -> Result<Vec<&'a str>, String> {
    let rows: Vec<&str> = text.lines().filter(|l| l.trim_start().starts_with(prefix)).collect();
    if rows.len() != 1 { return Err(format!("there should be exactly one '{prefix}' line")); }
    Ok(rows[0].trim_start()[prefix.len()..].split_whitespace().collect())
}
/// checks the time in the first line about that pass
pub fn check_pass_time(text: &str, pass: u32, d: Duration) -> Result<(), String> {
    let cols = text.lines().find_map(|l| l.trim_start().strip_prefix(&format!("{pass})"))).ok_or(format!("pass {pass} isn't reported"))?;
    check_time(cols.split_whitespace().next().unwrap_or(""), d, &format!("pass {pass} time"))
}
fn check_number(text: &str, want: impl Into<u64>, what: &str) -> Result<(), String> { let want = want.into(); if text == want.to_string() { Ok(()) } else { Err(format!("{what}: '{text}' is not {want}")) } }

fn check_classes(text: &str, tc: usize, sc: usize) -> Result<(), String> {
    let low: Vec<&str> = text.lines().filter(|l| l.contains("Time Analysis:") || l.contains("Space Analysis:")).collect();
    if low.len() != 2 || !low[0].contains("Time Analysis:") || !low[1].contains("Space Analysis:") { return Err("the time class line should be followed by the space class line".into()); }
    let shown_time = low[0].split_once("Time Analysis:").unwrap().1.trim();
    let shown_space = low[1].split_once("Space Analysis:").unwrap().1.trim();
    if shown_time != CLASSES[tc].as_time_pretty_str() { return Err(format!("time class shown as '{shown_time}' instead of '{}'", CLASSES[tc].as_time_pretty_str())); }
    if !shown_space.starts_with(CLASSES[sc].as_space_pretty_str()) { return Err(format!("space class shown as '{shown_space}' instead of '{}'", CLASSES[sc].as_space_pretty_str())); }
    let rest = &shown_space[CLASSES[sc].as_space_pretty_str().len()..];
    if !rest.trim_start().starts_with('(') { return Err(format!("space class shown as '{shown_space}' instead of '{}'", CLASSES[sc].as_space_pretty_str())); }
    Ok(())
}
fn any_duration(r: &mut Rng) -> Duration { Duration::from_nanos(match r.below(5) { 0 => 0, 1 => r.below(1000), 2 => r.logi(1, 1_000_000_000), _ => r.logi(1, 100_000_000_000_000) }) }
const NAMES: [&str; 6] = ["Quicksort a reversed vec", "x", "Create", "algo with 'quotes' & 100% {braces}", "ção — ünïcode", "Pass 1"];

/// validates the text of a regular algorithm analysis
pub fn check_regular_text(text: &str, name: &str, times: (Duration, Duration), sp: &BigOSpaceMeasurements, n: (u32, u32), classes: (usize, usize)) -> Result<(), String> {
    if !text.contains(name) { return Err("the measurement's name is missing".into()); }
    for (i, t, p, n) in [(1, times.0, &sp.pass_1_measurements, n.0), (2, times.1, &sp.pass_2_measurements, n.1)] {
        let cols = row(text, &format!("{i})"))?;
        if cols.len() != 5 { return Err(format!("line {i} should show time, space, n, space per n & time per n: {cols:?}")); }
        check_time(cols[0], t, &format!("pass {i} time"))?;
        check_pass_text(cols[1], p, 1).map_err(|e| format!("pass {i} space: {e}"))?;
        check_number(cols[2], n, &format!("pass {i} set size"))?;
        check_pass_text(cols[3], p, n).map_err(|e| format!("pass {i} space per element: {e}"))?;
        check_average(cols[4], t, n, &format!("pass {i} time per element"))?;
    }
    check_classes(text, classes.0, classes.1)?;
    check_summary(text.lines().find(|l| l.contains("Space Analysis:")).unwrap().rsplit_once('(').map(|x| x.1).unwrap_or(""), sp)
}

pub fn c24(ctx: &mut Ctx) {
    // class names
    ctx.case(|c| {
        c.desc = "texts of the 17 classes".into();
        for i in 0..17 {
            c.evals(1); c.key(&[i as u64]);
            check_class_text(i, CLASSES[i].as_pretty_str())?;
            for f in [big_o_test::BigOAlgorithmComplexity::as_pretty_str, big_o_test::BigOAlgorithmComplexity::as_time_pretty_str, big_o_test::BigOAlgorithmComplexity::as_space_pretty_str] {
                for j in 0..i { if f(&CLASSES[i]) == f(&CLASSES[j]) { return Err(format!("{} and {} have the same text '{}'", name(i), name(j), f(&CLASSES[i]))); } }
                check_class_text(i, f(&CLASSES[i]))?;
            }
        }
        Ok(())
    });
    let rounds = ctx.n(16_000, 150_000);
    for _ in 0..rounds {
        if ctx.stopped() { break; }
        ctx.case(|c| {
            for _ in 0..16 {
                let r = &mut c.fork();
                let measurement_name = r.name(&NAMES);
                let (tc, sc) = (r.below(17) as usize, r.below(17) as usize);
                let (t1, t2) = (any_duration(r), any_duration(r));
                let tm = || BigOTimeMeasurements { pass_1_measurements: t1, pass_2_measurements: t2 };
                let (p1, p2) = (any_pass(r), any_pass(r));
                let sp = || BigOSpaceMeasurements { pass_1_measurements: p1, pass_2_measurements: p2 };
                let pm = |d: Duration, p| BigOPassMeasurements { time_measurements: d, space_measurements: p, custom_measurements: vec![] };
                let (n1, n2) = (r.logi(1, u32::MAX as u64 / 2) as u32, r.logi(1, u32::MAX as u64) as u32);
                let reps = r.logi(1, u32::MAX as u64) as u32;
                let kind = r.below(3);
                let n1 = if kind == 2 { r.logi(1, u32::MAX as u64) as u32 } else { n1 };
                c.key(&[kind, tc as u64, sc as u64]);
                c.count(["regular_texts", "constant_set_texts", "set_resizing_texts"][kind as usize], 1);
                c.evals(1);
                match kind {
                    0 => {
                        let a = BigOAlgorithmAnalysis { time_complexity: CLASSES[tc], space_complexity: CLASSES[sc], algorithm_measurements: AlgorithmMeasurements {
                            measurement_name, passes_info: AlgorithmPassesInfo { pass1_n: n1, pass2_n: n2 }, time_measurements: tm(), space_measurements: sp(), pass1_measurements: pm(t1, p1), pass2_measurements: pm(t2, p2) } };
                        let text = a.to_string();
                        c.desc = format!("regular analysis of times {t1:?}, {t2:?}, memory {p1:?}, {p2:?}, set sizes {n1}, {n2}, classes {}, {}:\n{text}", name(tc), name(sc));
                        check_regular_text(&text, measurement_name, (t1, t2), &sp(), (n1, n2), (tc, sc))?;
                    }
                    1 => {
                        let a = BigOAlgorithmAnalysis { time_complexity: CLASSES[tc], space_complexity: CLASSES[sc], algorithm_measurements: ConstantSetIteratorAlgorithmMeasurements {
                            measurement_name, passes_info: ConstantSetIteratorAlgorithmPassesInfo { pass_1_set_size: n1, pass_2_set_size: n2, repetitions: reps }, time_measurements: tm(), space_measurements: sp(), pass1_measurements: pm(t1, p1), pass2_measurements: pm(t2, p2) } };
                        let text = a.to_string();
                        c.desc = format!("constant set analysis of times {t1:?}, {t2:?}, memory {p1:?}, {p2:?}, set sizes {n1}, {n2}, {reps} repetitions, classes {}, {}:\n{text}", name(tc), name(sc));
                        if !text.contains(measurement_name) { return Err("the measurement's name is missing".into()); }
                        for (i, t, p, n) in [(1, t1, &p1, n1), (2, t2, &p2, n2)] {
                            let cols = row(&text, &format!("{i})"))?;
                            if cols.len() != 5 { return Err(format!("line {i} should show time, space, n, repetitions & time per repetition: {cols:?}")); }
                            check_time(cols[0], t, &format!("pass {i} time"))?;
                            check_pass_text(cols[1], p, 1).map_err(|e| format!("pass {i} space: {e}"))?;
                            check_number(cols[2], n, &format!("pass {i} set size"))?;
                            check_number(cols[3], reps, &format!("pass {i} repetitions"))?;
                            check_average(cols[4], t, reps, &format!("pass {i} time per element"))?;
                        }
                        check_classes(&text, tc, sc)?;
                    }
                    _ => {
                        let a = BigOAlgorithmAnalysis { time_complexity: CLASSES[tc], space_complexity: CLASSES[sc], algorithm_measurements: SetResizingIteratorAlgorithmMeasurements {
                            measurement_name, passes_info: SetResizingIteratorAlgorithmPassesInfo { delta_set_size: n1 }, time_measurements: tm(), space_measurements: sp() } };
                        let text = a.to_string();
                        c.desc = format!("set resizing analysis of times {t1:?}, {t2:?}, memory {p1:?}, {p2:?}, {n1} elements per pass, classes {}, {}:\n{text}", name(tc), name(sc));
                        if !text.contains(measurement_name) { return Err("the measurement's name is missing".into()); }
                        for (i, t, p, n) in [(1, t1, &p1, n1 as u64), (2, t2, &p2, 2 * n1 as u64)] {
                            let cols = row(&text, &format!("{i})"))?;
                            if cols.len() != 4 { return Err(format!("line {i} should show time, space, n & time per element: {cols:?}")); }
                            check_time(cols[0], t, &format!("pass {i} time"))?;
                            check_pass_text(cols[1], p, 1).map_err(|e| format!("pass {i} space: {e}"))?;
                            check_number(cols[2], n, &format!("pass {i} set size"))?;
                            check_average(cols[3], t, n1, &format!("pass {i} time per element"))?;
                        }
                        check_classes(&text, tc, sc)?;
                    }
                }
            }
            // allocator statistics
            let r = &mut c.fork();
            let mut v = [0usize; 12];
            for (i, x) in v.iter_mut().enumerate() { *x = (r.logi(1, 1 << 50) as usize) * 16 + i; }
            let usizes = MetricsAllocatorStatistics::<usize> {
                allocations_count: v[0], deallocations_count: v[1], zeroed_allocations_count: v[2], reallocations_count: v[3], allocated_bytes: v[4], deallocated_bytes: v[5],
                zeroed_allocated_bytes: v[6], reallocated_originals_bytes: v[7], reallocated_news_bytes: v[8], current_used_memory: v[9], min_used_memory: v[10], max_used_memory: v[11] };
            let a = |i: usize| AtomicUsize::new(v[i]);
            let atomics = MetricsAllocatorStatistics::<AtomicUsize> {
                allocations_count: a(0), deallocations_count: a(1), zeroed_allocations_count: a(2), reallocations_count: a(3), allocated_bytes: a(4), deallocated_bytes: a(5),
                zeroed_allocated_bytes: a(6), reallocated_originals_bytes: a(7), reallocated_news_bytes: a(8), current_used_memory: a(9), min_used_memory: a(10), max_used_memory: a(11) };
            for text in [usizes.to_string(), format!("{usizes:?}"), atomics.to_string(), format!("{atomics:?}")] {
                c.desc = format!("statistics {v:?} (allocations, deallocations, zeroed, reallocations; bytes allocated, deallocated, zeroed, originals, news; current, min, max) -> {text}");
                c.evals(1);
                let keys = ["allocations", "deallocations", "zeroed_allocations", "reallocations", "allocated", "deallocated", "zeroed", "originals", "news", "current_used_memory", "min_used_memory", "max_used_memory"];
                for (k, want) in keys.iter().zip(v) {
                    let found = labelled(&text, k);
                    if found != [want] { return Err(format!("'{k}' shows {found:?} instead of {want}")); }
                }
                c.count("statistics_texts", 1);
            }
            Ok(())
        });
    }
}
/// numbers following `key: `, key being a whole word
fn labelled(text: &str, key: &str) -> Vec<usize> {
    let mut out = vec![];
    for (i, _) in text.match_indices(key) {
        if text[..i].chars().next_back().map_or(false, |ch| ch.is_alphanumeric() || ch == '_') { continue; }
        let Some(rest) = text[i + key.len()..].strip_prefix(':') else { continue };
        let digits: String = rest.trim_start().chars().take_while(|ch| ch.is_ascii_digit()).collect();
        if let Ok(n) = digits.parse() { out.push(n); }
    }
    out
}
