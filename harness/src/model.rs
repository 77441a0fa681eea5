//! Independent models of what is to be observed
use big_o_test::BigOAlgorithmComplexity as C;

pub const TOLERANCE: f64 = if cfg!(feature = "v_tol25") { 0.25 } else { 0.10 };

pub const CLASSES: [C; 17] = [
    C::BetterThanO1, C::O1, C::BetweenO1AndOLogN, C::OLogN, C::BetweenOLogNAndON, C::ON, C::BetweenONAndONLogN, C::ONLogN,
    C::BetweenONLogNAndON2, C::ON2, C::BetweenON2AndON3, C::ON3, C::BetweenON3AndON4, C::ON4, C::BetweenON4AndOkN, C::OkN, C::WorseThanExponential,
];
/// position of the class in the documented ladder, best first
pub fn rank(c: C) -> usize {
    match c {
        C::BetterThanO1 => 0, C::O1 => 1, C::BetweenO1AndOLogN => 2, C::OLogN => 3, C::BetweenOLogNAndON => 4, C::ON => 5,
        C::BetweenONAndONLogN => 6, C::ONLogN => 7, C::BetweenONLogNAndON2 => 8, C::ON2 => 9, C::BetweenON2AndON3 => 10, C::ON3 => 11,
        C::BetweenON3AndON4 => 12, C::ON4 => 13, C::BetweenON4AndOkN => 14, C::OkN => 15, C::WorseThanExponential => 16,
    }
}
/// name of the class, as in the source (what panics mention)
pub fn name(r: usize) -> String { format!("{:?}", CLASSES[r]) }

/// (class rank, how far -- relatively -- the nearest threshold consulted is)
pub type Verdict = (usize, f64);

/// growth ratios predicted by O(1), O(log n), O(n), O(n log n), O(n²), O(n³), O(n⁴)
pub fn rungs(n1: f64, n2: f64) -> [f64; 7] {
    let n = n2 / n1;
    let l = n2.ln() / n1.ln();
    [1.0, l, n, n * l, n * n, n * n * n, n * n * n * n]
}

/// regular & constant set algorithms
pub fn ladder(u1: f64, u2: f64, n1: f64, n2: f64, t: f64) -> Verdict {
    if u1 == u2 { return (1, 1.0); }
    if u1 == 0.0 { return (16, 1.0); }
    let r = u2 / u1;
    let mut margin = f64::INFINITY;
    for (i, pred) in rungs(n1, n2).into_iter().enumerate() {
        let (lo, hi) = (pred * (1.0 - t), pred * (1.0 + t));
        margin = margin.min((r / lo - 1.0).abs());
        if r < lo { return (2 * i, margin); }
        margin = margin.min((r / hi - 1.0).abs());
        if r <= hi { return (2 * i + 1, margin); }
    }
    // ln(u2 / u1^(n2/n1))
    let x = u2.ln() - (n2 / n1) * u1.ln();
    margin = margin.min((x - (1.0 - t).ln()).abs());
    if x < (1.0 - t).ln() { return (14, margin); }
    margin = margin.min((x - (1.0 + t).ln()).abs());
    if x <= (1.0 + t).ln() { return (15, margin); }
    (16, margin)
}

/// set resizing algorithms -- the average set sizes are 1:3
pub fn resizing(u1: f64, u2: f64, n: f64, t: f64) -> Verdict {
    if u1 == u2 { return (1, 1.0); }
    if u2 == 0.0 { return (0, 1.0); }
    if u1 == 0.0 { return (6, 1.0); }
    let g = u2 / u1;
    let l = (3.0 * n).ln() / n.ln();
    let mut margin = (u1 / u2 / (1.0 + t) - 1.0).abs();
    if u1 / u2 > 1.0 + t { return (0, margin); }
    margin = margin.min((g / (1.0 + t) - 1.0).abs()).min((g / (1.0 - t) - 1.0).abs());
    if (g - 1.0).abs() <= t { return (1, margin); }
    margin = margin.min((g / l - 1.0).abs());
    if g < l { return (2, margin); }
    margin = margin.min((g / (l * (1.0 + t)) - 1.0).abs());
    if g < l * (1.0 + t) { return (3, margin); }
    margin = margin.min((g / (3.0 * (1.0 + t)) - 1.0).abs()).min((g / (3.0 * (1.0 - t)) - 1.0).abs());
    if (g / 3.0 - 1.0).abs() <= t { return (5, margin); }
    if g > 3.0 { (6, margin) } else { (4, margin) }
}

/// margin below which floating point noise might legitimately decide
pub const NOISE: f64 = 1e-9;

/// parses the `Debug` representation of a `Duration`, yielding (nanoseconds, nanoseconds of the last digit shown)
pub fn parse_duration(s: &str) -> Option<(f64, f64)> {
    let (num, unit) = if let Some(n) = s.strip_suffix("ns") { (n, 1.0) }
        else if let Some(n) = s.strip_suffix("µs") { (n, 1e3) }
        else if let Some(n) = s.strip_suffix("ms") { (n, 1e6) }
        else if let Some(n) = s.strip_suffix('s') { (n, 1e9) }
        else { return None };
    let v: f64 = num.parse().ok()?;
    let decimals = num.split_once('.').map_or(0, |(_, d)| d.len());
    Some((v * unit, unit * 10f64.powi(-(decimals as i32))))
}

/// parses `[+|-]number(b|KiB|MiB|GiB)` into (sign, bytes, bytes per unit, decimals shown)
pub fn parse_memory(s: &str) -> Option<(char, f64, f64, usize)> {
    let (sign, rest) = match s.chars().next()? { '+' => ('+', &s[1..]), '-' => ('-', &s[1..]), _ => (' ', s) };
    let (num, unit) = if let Some(n) = rest.strip_suffix("KiB") { (n, 1024.0) }
        else if let Some(n) = rest.strip_suffix("MiB") { (n, 1048576.0) }
        else if let Some(n) = rest.strip_suffix("GiB") { (n, 1073741824.0) }
        else if let Some(n) = rest.strip_suffix('b') { (n, 1.0) }
        else { return None };
    if !num.chars().all(|c| c.is_ascii_digit() || c == '.') { return None; }
    Some((sign, num.parse::<f64>().ok()? * unit, unit, num.split_once('.').map_or(0, |(_, d)| d.len())))
}

/// is `text` a fair representation of `amount` bytes? `sign` is one of '+', '-', ' '
pub fn check_memory_text(text: &str, sign: char, amount: f64) -> Result<(), String> {
    let Some((s, bytes, unit, decimals)) = parse_memory(text) else { return Err(format!("'{text}' is not an amount of memory")) };
    if s != sign { return Err(format!("'{text}' should have the '{sign}' sign")); }
    let expected_unit = if amount > 1073741824.0 { 1073741824.0 } else if amount > 1048576.0 { 1048576.0 } else if amount > 1024.0 { 1024.0 } else { 1.0 };
    // next to a unit, roundings may lead to either side of it -- but whole amounts which any float represents don't suffer from that
    let exact = amount.fract() == 0.0 && (amount < 4194304.0 || amount == 1073741824.0);
    let border = !exact && [1024.0, 1048576.0, 1073741824.0].iter().any(|b| (amount / b - 1.0).abs() < 1e-6);
    if unit != expected_unit && !border { return Err(format!("'{text}': wrong unit for {amount} bytes")); }
    let step = if unit == 1.0 && decimals == 0 { 0.002 } else { 0.006 * unit };
    if (bytes - amount).abs() > step + amount * 1e-6 { return Err(format!("'{text}' doesn't represent {amount} bytes")); }
    Ok(())
}
