//! Case driver, random numbers, verdict recording & output capturing
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// in [lo, hi]
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX { return self.next(); }
        lo + self.next() % (hi - lo + 1)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn frange(&mut self, lo: f64, hi: f64) -> f64 { lo + (hi - lo) * self.f() }
    /// log-uniform in [lo, hi]
    pub fn logf(&mut self, lo: f64, hi: f64) -> f64 { (lo.ln() + (hi.ln() - lo.ln()) * self.f()).exp() }
    /// log-uniform integer in [lo, hi], lo >= 1
    pub fn logi(&mut self, lo: u64, hi: u64) -> u64 { (self.logf(lo as f64, hi as f64 + 1.0) as u64).clamp(lo, hi) }
    pub fn chance(&mut self, percent: u64) -> bool { self.below(100) < percent }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len() as u64) as usize] }
    /// a name an user may give: one of the usual `names` or any text without digits, colons & line breaks, so it can't be taken for other parts of reports
    pub fn name(&mut self, names: &[&'static str]) -> &'static str {
        if self.chance(50) { return *self.pick(names); }
        const CHARS: [&str; 24] = ["a", "b", "e", "i", "n", "S", "T", "Q", " ", " ", "_", "-", "{", "}", "{}", "%", "'", "\"", "\\", "é", "ß", "→", "算", "🦀"];
        let len = if self.chance(90) { self.logi(1, 100) } else { self.logi(100, 3000) };
        let plain = self.chance(40);
        let text: String = (0..len).map(|_| CHARS[if plain { self.below(8) } else { self.below(24) } as usize]).collect();
        Box::leak(text.into_boxed_str())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { let j = self.below(i as u64 + 1) as usize; v.swap(i, j); } }
}

pub fn hash(words: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for w in words { h = (h ^ w).wrapping_mul(0x0000_0100_0000_01B3); h ^= h >> 29; h = h.wrapping_mul(0xBF58_476D_1CE4_E5B9); }
    h
}
pub fn hash_str(s: &str) -> u64 { hash(&s.bytes().map(|b| b as u64).collect::<Vec<_>>()) }

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}

#[derive(Clone, Debug)]
pub struct PanicNote { pub msg: String, pub file: String, pub line: u32 }
static LAST_PANIC: Mutex<Option<PanicNote>> = Mutex::new(None);
/// the first panic since the last call to [catch()]
static FIRST_PANIC: Mutex<Option<PanicNote>> = Mutex::new(None);
/// payload text of panics made on purpose by the workloads
pub const PLANNED: &str = "planned user panic";

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.payload().downcast_ref::<&str>().map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "<non-string payload>".into());
        let (file, line) = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let note = PanicNote { msg, file, line };
        let mut first = FIRST_PANIC.lock().unwrap_or_else(|e| e.into_inner());
        if first.is_none() { *first = Some(note.clone()); }
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(note);
    }));
}
fn is_harness_file(f: &str) -> bool { f.starts_with("src/") || f.contains("/verif/") }

/// Runs `f`, returning the panic note of the innermost caught panic, if any
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, PanicNote> {
    *LAST_PANIC.lock().unwrap() = None;
    *FIRST_PANIC.lock().unwrap() = None;
    catch_unwind(AssertUnwindSafe(f)).map_err(|payload| {
        let payload_msg = payload.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| payload.downcast_ref::<String>().cloned());
        let last = LAST_PANIC.lock().unwrap().clone();
        let mut note = last.unwrap_or(PanicNote { msg: "<unknown panic>".into(), file: String::new(), line: 0 });
        if let Some(m) = payload_msg { note.msg = m; }
        // what a scope says when one of its threads panicked isn't informative: what they said first is
        if note.msg == "a scoped thread panicked" { if let Some(first) = FIRST_PANIC.lock().unwrap().clone() { if !is_harness_file(&first.file) { note = first; } } }
        note
    })
}
/// a panic raised by harness code, other than the planned ones, means the harness is broken
pub fn harness_bug(note: &PanicNote) -> bool {
    let first = FIRST_PANIC.lock().unwrap().clone();
    if first.as_ref().map_or(false, |f| !is_harness_file(&f.file) && f.file == note.file && f.line == note.line) { return false; }
    let bad = |n: &PanicNote| is_harness_file(&n.file) && !n.msg.starts_with(PLANNED) && !n.msg.starts_with("case:");
    bad(note) || first.as_ref().map_or(false, bad)
}

pub struct Ctx {
    pub check: String, pub seed: u64, pub thorough: bool, only: Option<u64>,
    events: File, progress: File,
    pub idx: u64, pub evals: u64, distinct: HashSet<u64>, samples: Vec<String>, counters: BTreeMap<String, u64>,
    violations: u64, t0: u64,
}
pub struct Case { pub rng: Rng, pub idx: u64, pub desc: String, keys: Vec<u64>, counts: Vec<(String, u64)>, extra_evals: u64 }
impl Case {
    /// declares that the case reached a non-trivial situation identified by these words
    pub fn key(&mut self, words: &[u64]) { self.keys.push(hash(words)); }
    pub fn count(&mut self, name: &str, n: u64) { self.counts.push((name.to_string(), n)); }
    /// a new, independent source of random numbers
    pub fn fork(&mut self) -> Rng { Rng::new(self.rng.next()) }
    pub fn evals(&mut self, n: u64) { self.extra_evals += n; }
    pub fn extra(&mut self, n: u64) { self.extra_evals += n; }
}

fn real_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// CPU time used by the calling thread so far
pub fn thread_cpu_s() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_THREAD_CPUTIME_ID, &mut ts); }
    ts.tv_sec as f64 + ts.tv_nsec as f64 / 1e9
}

impl Ctx {
    pub fn new(check: &str, seed: u64, thorough: bool, dir: &str, only: Option<u64>) -> Self {
        install_hook();
        let events = File::create(format!("{dir}/events.jsonl")).expect("events file");
        let progress = File::create(format!("{dir}/progress")).expect("progress file");
        if !crate::vclock::self_test() { eprintln!("HARNESS: virtual clock is not effective"); std::process::exit(3); }
        Ctx { check: check.into(), seed, thorough, only, events, progress, idx: 0, evals: 0, distinct: HashSet::new(), samples: vec![], counters: BTreeMap::new(), violations: 0, t0: real_ns() }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 { if self.thorough { thorough } else { quick } }
    pub fn elapsed_s(&self) -> f64 { (real_ns() - self.t0) as f64 / 1e9 }
    /// false once the time reserved for the workload is over
    pub fn within(&self, quick_s: f64, thorough_s: f64) -> bool { self.only.is_some() || self.elapsed_s() < if self.thorough { thorough_s } else { quick_s } }
    pub fn count(&mut self, name: &str, n: u64) { *self.counters.entry(name.into()).or_insert(0) += n; }
    fn event(&mut self, json: String) { let _ = self.events.write_all((json + "\n").as_bytes()); let _ = self.events.flush(); }

    /// Runs the next case. `f` returns `Err(what)` when the oracle refutes the property.
    pub fn case(&mut self, f: impl FnOnce(&mut Case) -> Result<(), String>) {
        let idx = self.idx;
        self.idx += 1;
        if self.only.map_or(false, |o| o != idx) { return; }
        if self.violations >= 3 { return; }
        let mut case = Case { rng: Rng::new(hash(&[self.seed, hash_str(&self.check), idx])), idx, desc: String::new(), keys: vec![], counts: vec![], extra_evals: 0 };
        { use std::os::unix::fs::FileExt; let _ = self.progress.write_all_at(format!("{idx:>20}\n").as_bytes(), 0); }
        let r = catch(|| f(&mut case));
        crate::vclock::enable(false);
        let r = match r {
            Ok(r) => r,
            Err(note) => {
                if harness_bug(&note) {
                    if note.msg.starts_with("case:") { Err(note.msg.clone()) } else {
                        self.event(format!("{{\"harness_error\":{}}}", json_str(&format!("case {idx}: panic in the harness at {}:{}: {} -- {}", note.file, note.line, note.msg, case.desc))));
                        std::process::exit(3);
                    }
                } else { Err(format!("unexpected panic at {}:{}: {}", note.file, note.line, note.msg)) }
            }
        };
        self.evals += 1 + case.extra_evals;
        for k in &case.keys { if self.distinct.len() < 4_000_000 { self.distinct.insert(*k); } }
        for (n, c) in case.counts.drain(..) { *self.counters.entry(n).or_insert(0) += c; }
        if self.samples.len() < 6 && !case.desc.is_empty() && (idx < 3 || idx % 97 == 0) { self.samples.push(case.desc.clone()); }
        if let Err(what) = r {
            self.violations += 1;
            let j = format!("{{\"violation\":{{\"case\":{idx},\"seed\":{},\"check\":{},\"what\":{},\"input\":{}}}}}", self.seed, json_str(&self.check), json_str(&what), json_str(&case.desc));
            self.event(j);
        }
    }
    pub fn stopped(&self) -> bool { self.violations >= 3 }
    pub fn finish(&mut self) {
        let counters = self.counters.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",");
        let samples = self.samples.iter().map(|s| json_str(&s.chars().take(600).collect::<String>())).collect::<Vec<_>>().join(",");
        let j = format!("{{\"done\":{{\"evaluations\":{},\"distinct\":{},\"violations\":{},\"counters\":{{{counters}}},\"samples\":[{samples}]}}}}", self.evals, self.distinct.len(), self.violations);
        self.event(j);
    }
}

/// Redirects a file descriptor to memory, so what is written there may be examined
pub struct Capture { fd: i32, mem: File, saved: i32 }
impl Capture {
    pub fn start(fd: i32) -> Self {
        let _ = std::io::stdout().flush();
        unsafe {
            let m = libc::memfd_create(b"cap\0".as_ptr() as *const _, 0);
            assert!(m >= 0, "memfd");
            let saved = libc::dup(fd);
            libc::dup2(m, fd);
            libc::fcntl(m, libc::F_SETFL, libc::O_APPEND);
            libc::fcntl(fd, libc::F_SETFL, libc::O_APPEND);
            Capture { fd, mem: File::from_raw_fd(m), saved }
        }
    }
    /// everything written since the last call
    pub fn take(&mut self) -> String {
        use std::os::unix::fs::FileExt;
        let _ = std::io::stdout().flush();
        let len = self.mem.metadata().unwrap().len() as usize;
        let mut v = vec![0u8; len];
        self.mem.read_exact_at(&mut v, 0).unwrap();
        unsafe { libc::ftruncate(self.mem.as_raw_fd(), 0); }
        String::from_utf8_lossy(&v).into_owned()
    }
}
impl Drop for Capture {
    fn drop(&mut self) { let _ = std::io::stdout().flush(); unsafe { libc::dup2(self.saved, self.fd); libc::close(self.saved); } }
}

/// whether there is address space for tens of GiB that never get touched
pub fn roomy() -> bool {
    static R: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *R.get_or_init(|| {
        if std::env::var_os("TSAN_OPTIONS").is_some() || std::env::var_os("VERIF_UNDER_VALGRIND").is_some() { return false; }
        let l = std::alloc::Layout::from_size_align(6 << 30, 8).unwrap();
        // (not through big-o-test's allocator)
        use std::alloc::{GlobalAlloc, System};
        let all: Vec<*mut u8> = (0..12).map(|_| unsafe { System.alloc(l) }).collect();
        for p in &all { if !p.is_null() { unsafe { System.dealloc(*p, l) } } }
        all.iter().all(|p| !p.is_null())
    })
}
