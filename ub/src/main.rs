//! Usage: `bigo-ub <workload> <seed> <repetitions> <size>` -- run by /verif/check.py under Miri and ThreadSanitizer.
//!
//! Only safe calls on the crate (plus the well-formed `GlobalAlloc` requests) are made, and the threads share nothing but what the
//! documentation asks from users: who overwrites a slot makes sure nobody looks at it any longer. No producer -> consumer
//! synchronisation exists besides the ring's own.
use big_o_test::metrics_allocator::{ring_buffer::{RingBuffer, RingBufferConsumer}, MetricsAllocator};
use std::alloc::{GlobalAlloc, Layout};
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::*};
use std::sync::{mpsc, Arc, Barrier, Mutex};

#[derive(Clone)]
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB); z ^ (z >> 31) }
    fn below(&mut self, n: u64) -> u64 { self.next() % n }
    fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
}

/// what the monitors found wrong -- distinguished from harness problems by the driver
macro_rules! violated { ($($a: tt)*) => { { eprintln!("VIOLATED: {}", format!($($a)*)); std::process::exit(1) } } }

/// the state of each element ever created by the current repetition: 0 = not created, 1 = alive, 2 = dropped
struct Lives(Vec<AtomicU8>);
impl Lives { fn new(n: u64) -> Arc<Self> { Arc::new(Lives((0..n).map(|_| AtomicU8::new(0)).collect())) } }

trait Elem: Send + Sync + Sized + 'static {
    fn make(id: u64, lives: &Arc<Lives>) -> Self;
    /// the id, or a description of what's wrong with it
    fn look(&self) -> Result<u64, String>;
}
impl Elem for u64 { fn make(id: u64, _: &Arc<Lives>) -> Self { id } fn look(&self) -> Result<u64, String> { Ok(*self) } }
impl Elem for (u8, u64, [u16; 5]) {
    fn make(id: u64, _: &Arc<Lives>) -> Self { (id as u8, id, [id as u16; 5]) }
    fn look(&self) -> Result<u64, String> { if self.0 == self.1 as u8 && self.2 == [self.1 as u16; 5] { Ok(self.1) } else { Err(format!("torn element {self:?}")) } }
}
impl Elem for Box<u64> { fn make(id: u64, _: &Arc<Lives>) -> Self { Box::new(id) } fn look(&self) -> Result<u64, String> { Ok(**self) } }
impl Elem for String { fn make(id: u64, _: &Arc<Lives>) -> Self { format!("{id}") } fn look(&self) -> Result<u64, String> { self.parse().map_err(|_| format!("torn element {self:?}")) } }
/// has a niche: `Option`s of it use the inner reference
struct Tracked { id: u64, lives: Arc<Lives>, text: String }
impl Elem for Tracked {
    fn make(id: u64, lives: &Arc<Lives>) -> Self { lives.0[id as usize].store(1, Relaxed); Tracked { id, lives: lives.clone(), text: format!("t{id}") } }
    fn look(&self) -> Result<u64, String> {
        if self.lives.0[self.id as usize].load(Relaxed) != 1 { return Err(format!("element {} isn't alive", self.id)); }
        if self.text != format!("t{}", self.id) { return Err(format!("torn element {}, {}", self.id, self.text)); }
        Ok(self.id)
    }
}
impl Drop for Tracked { fn drop(&mut self) { if self.lives.0[self.id as usize].swap(2, Relaxed) != 1 { violated!("element {} was dropped when not alive", self.id) } } }
/// zero-sized, with a destructor
struct Nothing(Counted);
struct Counted;
static NOTHINGS: AtomicU64 = AtomicU64::new(0);
impl Drop for Counted { fn drop(&mut self) { if NOTHINGS.fetch_sub(1, Relaxed) == 0 { violated!("more zero-sized elements dropped than created") } } }
impl Elem for Nothing { fn make(_: u64, _: &Arc<Lives>) -> Self { NOTHINGS.fetch_add(1, Relaxed); Nothing(Counted) } fn look(&self) -> Result<u64, String> { let _ = &self.0; Ok(u64::MAX) } }

fn see<T: Elem>(e: &T) -> u64 { match e.look() { Ok(id) => id, Err(m) => violated!("{m}") } }
fn pause(r: &mut Rng) { match r.below(12) { 0 => std::thread::yield_now(), 1 | 2 => for _ in 0..r.below(20) { std::hint::spin_loop() }, _ => {} } }

/// more slots than elements: nothing is ever overwritten; consumers come & go and peek, references are kept until the end
fn ring_fresh<T: Elem, const N: usize>(r: &mut Rng, size: u64) -> u64 {
    let producers = r.range(1, 3);
    let per = (size.min(N as u64) / producers).max(1);
    let lives = Lives::new(producers * per);
    let ring = RingBuffer::<T, N>::new();
    let shared = ring.consumer();
    let sharers = r.range(1, 2);
    let total = producers * per;
    let looks = AtomicU64::new(0);
    std::thread::scope(|s| {
        for p in 0..producers {
            let (ring, lives, mut r) = (&ring, &lives, Rng(r.next()));
            s.spawn(move || for i in 0..per { pause(&mut r); ring.enqueue(T::make(p * per + i, lives)); });
        }
        for _ in 0..sharers {
            let (shared, looks, mut r) = (&shared, &looks, Rng(r.next()));
            s.spawn(move || {
                let mut kept = vec![];
                let mut tries = 0;
                while tries < 40 * total && (kept.len() as u64) < total {
                    tries += 1;
                    match r.below(4) {
                        0 => for chunk in shared.peek_all().unwrap_or_else(|e| violated!("{e}")) { for e in chunk { see(e); looks.fetch_add(1, Relaxed); } },
                        _ => match shared.dequeue() { Ok(Some(e)) => { see(e); looks.fetch_add(1, Relaxed); kept.push(e) } Ok(None) => std::thread::yield_now(), Err(e) => violated!("{e}") },
                    }
                }
                for e in kept { see(e); }
            });
        }
        let (ring, looks, mut r) = (&ring, &looks, Rng(r.next()));
        s.spawn(move || for _ in 0..4 {
            pause(&mut r);
            let k = ring.consumer();
            for _ in 0..r.below(6) {
                if let Ok(Some(e)) = k.dequeue() { see(e); looks.fetch_add(1, Relaxed); }
                if let Ok(chunks) = k.peek_all() { for e in chunks.concat_refs() { see(e); looks.fetch_add(1, Relaxed); } }
            }
        });
    });
    looks.into_inner()
}
trait ConcatRefs<'a, T> { fn concat_refs(self) -> Vec<&'a T>; }
impl<'a, T> ConcatRefs<'a, T> for [&'a [T]; 2] { fn concat_refs(self) -> Vec<&'a T> { self[0].iter().chain(self[1].iter()).collect() } }

/// slots are reused over & over by a single producer, which waits until all consumers are done with the element to be replaced
fn ring_laps<T: Elem, const N: usize>(r: &mut Rng, size: u64) -> u64 {
    let total = size.max(2);
    let lives = Lives::new(total);
    let ring = RingBuffer::<T, N>::new();
    let sharing: Vec<u64> = match r.below(4) { 0 => vec![1], 1 => vec![2], 2 => vec![1, 1], _ => vec![2, 1] };
    let consumers: Vec<RingBufferConsumer<T, N>> = sharing.iter().map(|_| ring.consumer()).collect();
    // written by consumers & read by the producer only: orders 'done looking' before 'replaced'
    let taken: Vec<AtomicU64> = sharing.iter().map(|_| AtomicU64::new(0)).collect();
    let busy: Vec<Vec<AtomicU64>> = sharing.iter().map(|k| (0..*k).map(|_| AtomicU64::new(u64::MAX)).collect()).collect();
    let floor = || (0..taken.len()).map(|c| { let t = taken[c].load(SeqCst); busy[c].iter().map(|b| b.load(SeqCst)).fold(t, u64::min) }).min().unwrap();
    let looks = AtomicU64::new(0);
    std::thread::scope(|s| {
        let (ring, lives, floor, mut rp) = (&ring, &lives, &floor, Rng(r.next()));
        s.spawn(move || for i in 0..total {
            while i >= floor() + N as u64 { std::thread::yield_now(); }
            pause(&mut rp);
            ring.enqueue(T::make(i, lives));
        });
        for (c, k) in sharing.iter().enumerate() { for t in 0..*k as usize {
            let (consumer, taken, busy, looks, mut r, alone) = (&consumers[c], &taken[c], &busy[c][t], &looks, Rng(r.next()), *k == 1);
            s.spawn(move || while taken.load(SeqCst) < total {
                pause(&mut r);
                busy.store(taken.load(SeqCst), SeqCst);
                // if shared, other threads could be done with -- and have replaced -- elements being peeked
                if alone && r.below(4) == 0 { match consumer.peek_all() { Ok(ch) => for e in ch.concat_refs() { see(e); looks.fetch_add(1, Relaxed); }, Err(e) => violated!("{e}") } }
                match consumer.dequeue() {
                    Ok(Some(e)) => { see(e); looks.fetch_add(1, Relaxed); taken.fetch_add(1, SeqCst); }
                    Ok(None) => std::thread::yield_now(),
                    Err(e) => violated!("{e}"),
                }
                busy.store(u64::MAX, SeqCst);
            });
        } }
    });
    looks.into_inner()
}

/// rounds in which several producers replace the elements all consumers were done with in the former round, as the new ones are consumed
fn ring_rounds<T: Elem, const N: usize>(r: &mut Rng, size: u64) -> u64 {
    let producers = r.range(2, 3);
    let rounds = (size / N as u64).clamp(2, 8);
    let per = (N as u64 / producers).max(1);
    let (producers, in_round) = if per * producers > N as u64 { (N as u64, N as u64) } else { (producers, per * producers) };
    let lives = Lives::new(in_round * rounds);
    let ring = RingBuffer::<T, N>::new();
    let consumers = [ring.consumer(), ring.consumer()];
    let sharing = [1, r.range(1, 2)];
    let barrier = Barrier::new((producers + sharing[0] + sharing[1]) as usize);
    let taken: Vec<AtomicU64> = (0..2).map(|_| AtomicU64::new(0)).collect();
    let looks = AtomicU64::new(0);
    std::thread::scope(|s| {
        for p in 0..producers {
            let (ring, lives, barrier, mut r) = (&ring, &lives, &barrier, Rng(r.next()));
            s.spawn(move || for round in 0..rounds {
                for i in 0..per { pause(&mut r); ring.enqueue(T::make(round * in_round + p * per + i, lives)); }
                barrier.wait();
            });
        }
        for c in 0..2 { for _ in 0..sharing[c] {
            let (consumer, barrier, taken, looks, mut r) = (&consumers[c], &barrier, &taken[c], &looks, Rng(r.next()));
            s.spawn(move || for round in 1..=rounds {
                while taken.load(Relaxed) < round * in_round {
                    pause(&mut r);
                    if r.below(4) == 0 { match consumer.peek_all() { Ok(ch) => for e in ch.concat_refs() { see(e); looks.fetch_add(1, Relaxed); }, Err(e) => violated!("{e}") } }
                    match consumer.dequeue() {
                        Ok(Some(e)) => { see(e); looks.fetch_add(1, Relaxed); taken.fetch_add(1, Relaxed); }
                        Ok(None) => std::thread::yield_now(),
                        Err(e) => violated!("{e}"),
                    }
                }
                barrier.wait();
            });
        } }
    });
    looks.into_inner()
}

/// producers running free, each overwriting what others have just written; nobody looks until they're done
fn ring_stampede<T: Elem, const N: usize>(r: &mut Rng, size: u64) -> u64 {
    let producers = r.range(2, 4);
    let per = (size / producers).max(2);
    let lives = Lives::new(producers * per + N as u64);
    let ring = RingBuffer::<T, N>::new();
    let outdated = ring.consumer();
    std::thread::scope(|s| for p in 0..producers {
        let (ring, lives, mut r) = (&ring, &lives, Rng(r.next()));
        s.spawn(move || for i in 0..per { pause(&mut r); ring.enqueue(T::make(p * per + i, lives)); });
    });
    if producers * per > N as u64 && outdated.dequeue().is_ok() { violated!("{} elements behind on {N} slots without an overflow", producers * per) }
    let k = ring.consumer();
    for i in 0..N as u64 { ring.enqueue(T::make(producers * per + i, &lives)); }
    let mut looks = 0;
    match k.peek_all() { Ok(ch) => for e in ch.concat_refs() { see(e); looks += 1 }, Err(e) => violated!("{e}") }
    looks + producers * per
}

/// consumers are left behind, at rest, then used by several threads at once; other consumers keep up
fn ring_overflow<T: Elem, const N: usize>(r: &mut Rng, size: u64) -> u64 {
    let n = r.range(1, N as u64 + 3).min(size + 1);
    let lives = Lives::new(4 * n + 4);
    let ring = RingBuffer::<T, N>::new();
    let mut next = 0;
    let mut looks = 0;
    let slow = ring.consumer();
    let fast = ring.consumer();
    for _ in 0..r.range(1, 3) {
        for _ in 0..n { ring.enqueue(T::make(next, &lives)); next += 1; if let Ok(Some(e)) = fast.dequeue() { looks += 1; see(e); } }
        let _ = ring.consumer().peek_all();
        let seeds: Vec<u64> = (0..2).map(|_| r.next()).collect();
        looks += std::thread::scope(|s| seeds.iter().map(|seed| { let slow = &slow; s.spawn(move || {
            let mut r = Rng(*seed);
            let mut looks = 0;
            for _ in 0..r.range(1, 4) {
                match r.below(3) {
                    0 => if let Ok(chunks) = slow.peek_all() { for e in chunks.concat_refs() { looks += 1; see(e); } },
                    _ => if let Ok(Some(e)) = slow.dequeue() { looks += 1; see(e); },
                }
            }
            looks
        }) }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).sum::<u64>());
    }
    looks
}

thread_local! { static ON_DROP: std::cell::RefCell<Option<Box<dyn Fn(u64)>>> = const { std::cell::RefCell::new(None) } }
/// looks at the ring when dropped
struct Dying { id: u64, text: String }
impl Drop for Dying { fn drop(&mut self) { ON_DROP.with(|h| if let Some(f) = h.borrow().as_ref() { f(self.id) }); if self.text != format!("d{}", self.id) { violated!("torn element {}, {}", self.id, self.text) } } }

/// consumers used in the middle of an enqueue: while the element being replaced is dropped
fn ring_replacing<const N: usize>(r: &mut Rng, size: u64) -> u64 {
    // (they outlive the hook)
    let ring_memory = Box::into_raw(Box::new(RingBuffer::new()));
    let ring: &'static RingBuffer<Dying, N> = unsafe { &*ring_memory };
    let ks_memory = Box::into_raw(Box::new([ring.consumer(), ring.consumer(), ring.consumer()]));
    let ks: &'static [RingBufferConsumer<'static, Dying, N>; 3] = unsafe { &*ks_memory };
    let looks = std::rc::Rc::new(std::cell::Cell::new(0));
    let hook_looks = looks.clone();
    let look = move |r: &mut Rng, gone: u64| {
        for k in ks {
            let seen: Vec<&Dying> = match r.below(4) { 0 => k.dequeue().ok().flatten().into_iter().collect(), 1 | 2 => k.peek_all().map(|ch| ch.concat_refs()).unwrap_or_default(), _ => vec![] };
            for e in seen {
                if e.id < gone { violated!("element {} was given after having been replaced", e.id) }
                if e.text != format!("d{}", e.id) { violated!("torn element {}, {}", e.id, e.text) }
                hook_looks.set(hook_looks.get() + 1);
            }
        }
    };
    let seed = r.next();
    {
        let (r, look) = (std::cell::RefCell::new(Rng(seed)), look.clone());
        ON_DROP.with(|h| *h.borrow_mut() = Some(Box::new(move |id| look(&mut r.borrow_mut(), id + 1))));
    }
    for i in 0..size.max(N as u64 * 2) {
        // (consumers kept at the edge: an element behind each time)
        if i >= N as u64 { for k in ks { if r.below(4) != 0 { let _ = k.dequeue(); } } }
        ring.enqueue(Dying { id: i, text: format!("d{i}") });
        if i >= N as u64 { look(r, i + 1 - N as u64) }
    }
    ON_DROP.with(|h| *h.borrow_mut() = None);
    drop(look);
    unsafe { drop(Box::from_raw(ks_memory)); drop(Box::from_raw(ring_memory)); }
    looks.get()
}

/// tells, of concrete types, which may be sent to & shared with other threads
struct Probe<T>(std::marker::PhantomData<T>);
trait NotSync { const SYNC: bool = false; }
impl<T> NotSync for Probe<T> {}
struct IsSend<T>(std::marker::PhantomData<T>);
trait NotSend { const SEND: bool = false; }
impl<T> NotSend for IsSend<T> {}
#[allow(dead_code)] impl<T: Send> IsSend<T> { const SEND: bool = true; }
#[allow(dead_code)] impl<T: Sync> Probe<T> { const SYNC: bool = true; }
/// elements that can't be used by several threads at once aren't, whatever the safe code using the rings
fn kept_within_their_threads() -> u64 {
    use std::{cell::Cell, rc::Rc, sync::MutexGuard};
    let mut probed = 0;
    let mut check = |allowed: bool, what: &str| { probed += 1; if allowed { violated!("{what}") } };
    check(Probe::<RingBuffer<Rc<u8>, 4>>::SYNC, "rings of elements that can't be sent nor shared (Rc) may be shared with other threads");
    check(Probe::<RingBuffer<Cell<u8>, 4>>::SYNC, "rings of elements that can't be shared (Cell) may be shared with other threads, which would share the elements");
    check(Probe::<RingBuffer<MutexGuard<'static, u8>, 4>>::SYNC, "rings of elements that can't be sent (MutexGuard) may be shared with other threads, which would drop the elements they replace");
    check(Probe::<RingBuffer<*mut u8, 4>>::SYNC, "rings of elements that can't be sent nor shared (pointers) may be shared with other threads");
    check(IsSend::<RingBuffer<Rc<u8>, 4>>::SEND, "rings of elements that can't be sent nor shared (Rc) may be sent to other threads");
    check(Probe::<RingBufferConsumer<'static, Rc<u8>, 4>>::SYNC, "consumers of elements that can't be sent nor shared (Rc) may be shared with other threads");
    check(IsSend::<RingBufferConsumer<'static, Rc<u8>, 4>>::SEND, "consumers of elements that can't be sent nor shared (Rc) may be sent to other threads");
    check(Probe::<RingBufferConsumer<'static, Cell<u8>, 4>>::SYNC, "consumers of elements that can't be shared (Cell) may be shared with other threads");
    check(IsSend::<RingBufferConsumer<'static, Cell<u8>, 4>>::SEND, "consumers of elements that can't be shared (Cell) may be sent to other threads");
    probed
}

struct Block(*mut u8, Layout);
unsafe impl Send for Block {}
/// threads requesting, resizing & freeing memory -- each other's too -- while save points are taken and examined
fn allocator<const N: usize>(r: &mut Rng, size: u64) -> u64 {
    let a = MetricsAllocator::<N>::new();
    let threads = r.range(2, 3) as usize;
    let barrier = Barrier::new(threads);
    let (mut txs, mut rxs) = (vec![], vec![]);
    for _ in 0..threads { let (t, r) = mpsc::channel::<Block>(); txs.push(t); rxs.push(Some(r)); }
    let shared_point = a.save_point();
    let ops = std::thread::scope(|s| (0..threads).map(|t| {
        let (a, barrier, shared_point, rx, txs, mut r) = (&a, &barrier, &shared_point, rxs[t].take().unwrap(), txs.clone(), Rng(r.next()));
        s.spawn(move || {
            let mut mine: Vec<Block> = vec![];
            let mut points = vec![];
            barrier.wait();
            for _ in 0..size {
                match r.below(9) {
                    0 | 1 => { let l = Layout::from_size_align(r.range(1, 200) as usize, 1 << r.below(7)).unwrap(); let p = unsafe { a.alloc(l) }; if !p.is_null() { unsafe { p.write_bytes(0x5A, l.size()) }; check_aligned(p, l); mine.push(Block(p, l)); } }
                    2 => { let l = Layout::from_size_align(r.range(1, 200) as usize, 1 << r.below(7)).unwrap(); let p = unsafe { a.alloc_zeroed(l) }; if !p.is_null() { for i in 0..l.size() { if unsafe { *p.add(i) } != 0 { violated!("memory isn't zeroed") } unsafe { *p.add(i) = 0x5A } } check_aligned(p, l); mine.push(Block(p, l)); } }
                    3 => if !mine.is_empty() {
                        let i = r.below(mine.len() as u64) as usize;
                        let (Block(p, l), new) = (mine.swap_remove(i), r.range(1, 300) as usize);
                        let q = unsafe { a.realloc(p, l, new) };
                        let nl = Layout::from_size_align(new, l.align()).unwrap();
                        for i in 0..l.size().min(new) { if unsafe { *q.add(i) } != 0x5A { violated!("contents lost by the reallocation") } }
                        unsafe { q.write_bytes(0x5A, new) };
                        check_aligned(q, nl);
                        mine.push(Block(q, nl));
                    },
                    4 => if !mine.is_empty() { let b = mine.swap_remove(0); let to = r.below(txs.len() as u64) as usize; if let Err(e) = txs[to].send(b) { mine.push(e.0) } },
                    5 => while let Ok(b) = rx.try_recv() { unsafe { a.dealloc(b.0, b.1) } },
                    6 => { points.push(a.save_point()); if points.len() > 3 { points.remove(0); } }
                    7 => { if let Some(p) = points.last() { let _ = a.delta_statistics(p).map(|s| s.to_string()); } }
                    _ => { let _ = a.delta_statistics(shared_point); }
                }
            }
            drop(txs);
            for b in mine { unsafe { a.dealloc(b.0, b.1) } }
            (size, rx)
        })
    }).collect::<Vec<_>>().into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>());
    drop(txs);
    let n = ops.iter().map(|o| o.0).sum();
    for (_, rx) in ops { while let Ok(b) = rx.try_recv() { unsafe { a.dealloc(b.0, b.1) } } }
    if let Ok(s) = a.delta_statistics(&shared_point) { if s.allocated_bytes + s.zeroed_allocated_bytes + s.reallocated_news_bytes != s.deallocated_bytes + s.reallocated_originals_bytes { violated!("bytes don't add up: {s}") } }
    n
}
fn check_aligned(p: *mut u8, l: Layout) { if p as usize % l.align() != 0 { violated!("{p:?} isn't aligned to {}", l.align()) } }

macro_rules! pick { ($r: expr, $($e: expr),* $(,)?) => { { let mut fs: Vec<(&'static str, Box<dyn FnMut(&mut Rng) -> u64>)> = vec![$((stringify!($e), Box::new($e))),*]; let i = $r.below(fs.len() as u64) as usize; let (n, f) = &mut fs[i]; let n = *n; (n, f($r)) } } }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (workload, seed, reps, size): (&str, u64, u64, u64) = (&a[1], a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let mut r = Rng(seed ^ 0xBEEF);
    let summary = Mutex::new(std::collections::BTreeMap::<String, (u64, u64)>::new());
    let probed = kept_within_their_threads();
    summary.lock().unwrap().insert("kept_within_their_threads".into(), (1, probed));
    for rep in 0..reps {
        let s = size;
        let (name, looks) = match workload {
            "fresh" => pick!(&mut r, |r: &mut Rng| ring_fresh::<u64, 64>(r, s), |r: &mut Rng| ring_fresh::<Box<u64>, 64>(r, s), |r: &mut Rng| ring_fresh::<Tracked, 64>(r, s), |r: &mut Rng| ring_fresh::<String, 48>(r, s), |r: &mut Rng| ring_fresh::<(u8, u64, [u16; 5]), 64>(r, s), |r: &mut Rng| ring_fresh::<Nothing, 64>(r, s)),
            "laps" => pick!(&mut r, |r: &mut Rng| ring_laps::<u64, 2>(r, s), |r: &mut Rng| ring_laps::<Box<u64>, 1>(r, s), |r: &mut Rng| ring_laps::<Tracked, 2>(r, s), |r: &mut Rng| ring_laps::<Tracked, 3>(r, s), |r: &mut Rng| ring_laps::<String, 4>(r, s), |r: &mut Rng| ring_laps::<(u8, u64, [u16; 5]), 5>(r, s), |r: &mut Rng| ring_laps::<Box<u64>, 8>(r, s), |r: &mut Rng| ring_laps::<Nothing, 2>(r, s)),
            "rounds" => pick!(&mut r, |r: &mut Rng| ring_rounds::<u64, 4>(r, s), |r: &mut Rng| ring_rounds::<Tracked, 6>(r, s), |r: &mut Rng| ring_rounds::<Box<u64>, 3>(r, s), |r: &mut Rng| ring_rounds::<String, 16>(r, s), |r: &mut Rng| ring_rounds::<Tracked, 2>(r, s)),
            "stampede" => pick!(&mut r, |r: &mut Rng| ring_stampede::<u64, 1>(r, s), |r: &mut Rng| ring_stampede::<Tracked, 1>(r, s), |r: &mut Rng| ring_stampede::<Tracked, 2>(r, s), |r: &mut Rng| ring_stampede::<Box<u64>, 3>(r, s), |r: &mut Rng| ring_stampede::<(u8, u64, [u16; 5]), 2>(r, s), |r: &mut Rng| ring_stampede::<Nothing, 2>(r, s)),
            "overflow" => pick!(&mut r, |r: &mut Rng| ring_overflow::<u64, 2>(r, s), |r: &mut Rng| ring_overflow::<Tracked, 1>(r, s), |r: &mut Rng| ring_overflow::<Tracked, 3>(r, s), |r: &mut Rng| ring_overflow::<Box<u64>, 4>(r, s), |r: &mut Rng| ring_overflow::<String, 8>(r, s)),
            "replacing" => pick!(&mut r, |r: &mut Rng| ring_replacing::<1>(r, s), |r: &mut Rng| ring_replacing::<2>(r, s), |r: &mut Rng| ring_replacing::<3>(r, s), |r: &mut Rng| ring_replacing::<5>(r, s)),
            "allocator" => pick!(&mut r, |r: &mut Rng| allocator::<16>(r, s), |r: &mut Rng| allocator::<4>(r, s), |r: &mut Rng| allocator::<1024>(r, s)),
            other => { eprintln!("unknown workload {other}"); std::process::exit(3) }
        };
        let _ = rep;
        let name = name.split("(r, s)").next().unwrap().rsplit("Rng| ").next().unwrap().to_string();
        let mut m = summary.lock().unwrap();
        let e = m.entry(name).or_default();
        e.0 += 1; e.1 += looks;
    }
    for (n, (runs, looks)) in summary.into_inner().unwrap() { println!("RAN {n}\t{runs}\t{looks}"); }
}
