//! C25: values are rendered, read back & compared
use crate::infra::*;
use big_o_test::verif_hooks::*;
use std::time::Duration;

#[derive(Clone, Debug, PartialEq)]
enum Kind { Bytes, BytesPerSecond, Unit(&'static str), UnitPerSecond(&'static str), Time }

/// (suffix, scale) -- largest scale first
fn scales(kind: &Kind) -> Vec<(String, f64)> {
    let v = |p: &str| [("TiB", 40), ("GiB", 30), ("MiB", 20), ("KiB", 10)].iter().map(|(s, e)| (format!("{s}{p}"), (1u64 << e) as f64)).collect::<Vec<_>>();
    match kind {
        Kind::Bytes => { let mut s = v(""); s.push(("b".into(), 1.0)); s }
        Kind::BytesPerSecond => { let mut s = v("/s"); s.extend([("b/s".into(), 1.0), ("b/min".into(), 1.0 / 60.0), ("b/hr".into(), 1.0 / 3600.0)]); s }
        Kind::Unit(u) => vec![(u.to_string(), 1.0)],
        Kind::UnitPerSecond(u) => vec![(format!("{u}/s"), 1.0), (format!("{u}/min"), 1.0 / 60.0), (format!("{u}/hr"), 1.0 / 3600.0)],
        Kind::Time => vec![("s".into(), 1.0), ("ms".into(), 1e-3), ("µs".into(), 1e-6), ("ns".into(), 1e-9)],
    }
}

/// (value, half of the last digit's weight)
fn number(text: &str) -> Option<(f64, f64)> {
    if text.is_empty() || !text.bytes().all(|b| b.is_ascii_digit() || b == b'.' || b == b'e' || b == b'-') { return None; }
    let value: f64 = text.parse().ok()?;
    let (mantissa, exp) = match text.split_once('e') { Some((m, e)) => (m, e.parse::<i32>().ok()?), None => (text, 0) };
    let decimals = mantissa.split_once('.').map_or(0, |(_, d)| d.len()) as i32;
    Some((value, 0.5 * 10f64.powi(exp - decimals)))
}

fn check(kind: &Kind, value: f64, text: &str) -> Result<usize, String> {
    let scales = scales(kind);
    let mut readings: Vec<(usize, f64, f64)> = scales.iter().enumerate().filter_map(|(i, (s, _))| text.strip_suffix(s.as_str()).and_then(number).map(|(v, h)| (i, v, h))).collect();
    let bad = |why: String| Err(format!("{kind:?} {value:e} was rendered as '{text}': {why}"));
    if readings.len() != 1 { return bad(format!("not a number followed by one of {:?}", scales.iter().map(|s| &s.0).collect::<Vec<_>>())); }
    let (i, shown, half) = readings.remove(0);
    let scale = scales[i].1;
    let slack = value * 1e-9 * if *kind == Kind::Time { 1e-5 } else { 1.0 };
    if (shown * scale - value).abs() > half * scale * (1.0 + 1e-9) + slack { return bad(format!("reads as {:e}", shown * scale)); }
    // the largest one not exceeding the value (values just at the border may go either way due to floating point)
    let eps = 1e-12;
    let near = |s: f64| (value / s - 1.0).abs() < eps;
    let best = scales.iter().position(|(_, s)| *s <= value);
    // below all scales, the value's own unit is used
    let ok = match best {
        Some(b) => i == b || (near(scales[b].1) && i == b + 1) || (b > 0 && near(scales[b - 1].1) && i == b - 1),
        None => matches!(kind, Kind::Time) || scale == 1.0 || i == scales.len() - 1,
    };
    // `Duration` values are whole nanoseconds
    let ok = ok || (*kind == Kind::Time && best.map_or(true, |b| (i as i64 - b as i64).abs() == 1 && (value / scales[b.min(i)].1 - 1.0).abs() < 1e-9 / scales[b.min(i)].1 * 1.01));
    // whole bytes, and values below all scales, are shown without decimals
    let coarse = best.is_none() || (*kind == Kind::Bytes && best == Some(scales.len() - 1));
    if !coarse && (shown * scale - value).abs() > value * 0.005_01 + slack { return bad(format!("reads as {:e}, which isn't within 0.5% of it", shown * scale)); }
    if !ok { return bad(format!("'{}' is the scale that should be used", scales[best.unwrap_or(0)].0)); }
    Ok(i)
}

fn unit_name(r: &mut Rng) -> &'static str {
    const FIRST: &[&str] = &["r", "b", "o", "K", "M", "req", "byte", "é", "μ", "foo", "/", "_", "%", "s", "min", "hr"];
    const MORE: &[&str] = &["", "", "q", "s", "/s", "/min", "ops", " done", "ß", "1", "42", "X", "Y", "Z", "-", "_"];
    let mut s = r.pick(FIRST).to_string();
    for _ in 0..r.below(4) { s += *r.pick(MORE); }
    Box::leak(s.into_boxed_str())
}

fn value(r: &mut Rng, kind: &Kind) -> f64 {
    let ss = scales(kind);
    match r.below(10) {
        0 => 0.0,
        1 | 2 => { let s = r.pick(&ss).1; s * *r.pick(&[1.0, 1.0 - 1e-13, 1.0 + 1e-13, 1.0 - 1e-11, 1.0 - 3e-10, 1.0 - 1e-8, 1.0 - 1e-7, 1.0 + 1e-11, 1.0 + 3e-10, 1.0 + 1e-8, 1.0 + 1e-7, 1.0 - 1e-6, 1.0 + 1e-6, 0.999, 1.001, 0.9949, 0.99499, 1.5, 0.5]) }
        3 => r.below(5000) as f64,
        4 => *r.pick(&[99_999.994, 99_999.996, 100_000.0, 99_999.0, 100_001.0, 1023.994, 1023.996, 59.994, 59.996, 999.999]) * r.pick(&ss).1,
        5 => r.frange(0.0, 2.0),
        6 => r.logf(1e-9, 1.0),
        _ => r.logf(1e-6, 1e15),
    }
}
fn build(kind: &Kind, v: f64) -> PresentableMeasurement {
    match kind {
        Kind::Bytes => bytes_measurement(v),
        Kind::BytesPerSecond => bytes_per_second_measurement(v),
        Kind::Unit(u) => custom_unit_measurement(v, u),
        Kind::UnitPerSecond(u) => verif_custom_unit_per_second_measurement(v, u),
        Kind::Time => duration_measurement(Duration::from_nanos((v * 1e9).round() as u64)),
    }
}

/// tests run in several threads: measurements of old & new units are built & rendered by all of them at the same time
fn at_once(c: &mut Case) -> Result<(), String> {
    let r = &mut c.rng;
    let shared: Vec<&'static str> = (0..r.range(1, 40)).map(|_| unit_name(r)).collect();
    let threads: Vec<Vec<(Kind, f64)>> = (0..r.range(2, 8)).map(|_| {
        // equal to those of the others, though elsewhere in memory; the same ones; or its own
        let own: Vec<&'static str> = (0..r.range(1, 40)).map(|_| match r.below(3) {
            0 => { let u = r.pick(&shared).to_string(); Box::leak(u.into_boxed_str()) },
            1 => *r.pick(&shared),
            _ => { let u = format!("{}{:x}", unit_name(r), r.below(1 << 20) as u64); Box::leak(format!("{u}u").into_boxed_str()) },
        }).collect();
        (0..r.range(10, 120)).map(|_| {
            let kind = match r.below(12) { 0 => Kind::Bytes, 1 => Kind::BytesPerSecond, n if n % 2 == 0 => Kind::Unit(r.pick(&own)), _ => Kind::UnitPerSecond(r.pick(&own)) };
            let v = value(r, &kind);
            (kind, v)
        }).collect()
    }).collect();
    let barrier = std::sync::Barrier::new(threads.len());
    let rendered: Vec<std::thread::Result<Vec<(String, String)>>> = std::thread::scope(|s| {
        let handles: Vec<_> = threads.iter().map(|values| { let barrier = &barrier; s.spawn(move || {
            barrier.wait();
            let built: Vec<(PresentableMeasurement, String)> = values.iter().map(|(kind, v)| { let m = build(kind, *v); let text = m.to_string(); (m, text) }).collect();
            // ... and each one sticks to its unit
            built.iter().map(|(m, text)| (text.clone(), m.to_string())).collect()
        }) }).collect();
        handles.into_iter().map(|h| h.join()).collect()
    });
    let mut n = 0;
    c.desc = format!("{} threads: {threads:?}", threads.len());
    for (t, (values, texts)) in threads.iter().zip(rendered).enumerate() {
        let texts = texts.map_err(|e| format!("thread {t} panicked: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))?;
        for ((kind, v), (text, again)) in values.iter().zip(texts) {
            check(kind, *v, &text).map_err(|e| format!("with {} threads rendering at once, {e}", threads.len()))?;
            if text != again { return Err(format!("with {} threads rendering at once, {kind:?} {v:e} was rendered as '{text}', then as '{again}'", threads.len())); }
            n += 1;
        }
    }
    c.key(&[9, threads.len() as u64, (n as u64).ilog2() as u64]);
    c.evals(n);
    c.count("renderings made by several threads at once", n);
    Ok(())
}

pub fn c25(ctx: &mut Ctx) {
    for _ in 0..ctx.n(6_000, 200_000) {
        if ctx.stopped() || !ctx.within(60.0, 300.0) { break; }
        ctx.case(|c| {
            if c.rng.chance(2) { return at_once(c); }
            let r = &mut c.rng;
            // several values of several units, alive together: each must stick to its own unit
            let k = r.range(1, 24) as usize;
            let mut units: Vec<&'static str> = (0..r.range(1, 5)).map(|_| unit_name(r)).collect();
            // some being part of others -- in memory, as well
            if r.chance(30) { let u = *r.pick(&units); for _ in 0..2 { let cut = u.char_indices().map(|(i, _)| i).skip(1).collect::<Vec<_>>(); if !cut.is_empty() { let i = *r.pick(&cut); units.extend([&u[..i], &u[i..]]); } } }
            // some equal, though elsewhere in memory
            if r.chance(20) { let u = r.pick(&units).to_string(); units.push(Box::leak(u.into_boxed_str())); }
            let mut alive = vec![];
            for _ in 0..k {
                let kind = match r.below(7) { 0 => Kind::Bytes, 1 => Kind::BytesPerSecond, 2 | 3 => Kind::Unit(r.pick(&units)), 4 | 5 => Kind::UnitPerSecond(r.pick(&units)), _ => Kind::Time };
                let mut v = value(r, &kind);
                if kind == Kind::Time { v = (v * 1e9).round().min(1e18) as u64 as f64 / 1e9; }
                alive.push((build(&kind, v), kind, v));
            }
            r.shuffle(&mut alive);
            let mut keys = vec![];
            let mut desc = vec![];
            for (m, kind, v) in &alive {
                let text = m.to_string();
                desc.push(format!("{kind:?} {v:e} -> '{text}'"));
                let i = check(kind, *v, &text)?;
                if text != m.to_string() { return Err(format!("{kind:?} {v:e} was rendered as '{text}', then as '{m}'")); }
                let k = match kind { Kind::Bytes => 0, Kind::BytesPerSecond => 1, Kind::Unit(_) => 2, Kind::UnitPerSecond(_) => 3, Kind::Time => 4 };
                keys.push([k, i as u64, if *v == 0.0 { 999 } else { (v.log10() * 8.0).floor() as i64 as u64 }]);
            }
            for k in keys { c.key(&k); }
            c.desc = desc.join(", ");
            c.evals(alive.len() as u64 - 1);
            c.count("renderings", alive.len() as u64);
            for (_, kind, _) in &alive { c.count(match kind { Kind::Bytes => "bytes", Kind::BytesPerSecond => "bytes/s", Kind::Unit(_) => "custom unit", Kind::UnitPerSecond(_) => "custom unit/s", Kind::Time => "duration" }, 1); }
            Ok(())
        });
    }
}
