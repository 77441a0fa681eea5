//! C26: random measurers, whose steps are recorded & the trace checked
use crate::infra::*;
use big_o_test::{verif_hooks::*, BigOAlgorithmComplexity as B};
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex, atomic::{AtomicI64, Ordering::*}};
use std::task::{Context, Poll, Wake, Waker};

struct NoWake;
impl Wake for NoWake { fn wake(self: Arc<Self>) {} }
fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(NoWake));
    let mut cx = Context::from_waker(&w);
    for _ in 0..100_000 { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
    panic!("{PLANNED}: never completes")
}
/// drives a future a few times, then drops it
fn abandon<F: Future>(f: F, polls: u64) -> bool {
    let mut f = Box::pin(f);
    let w = Waker::from(Arc::new(NoWake));
    let mut cx = Context::from_waker(&w);
    for _ in 0..polls { if f.as_mut().poll(&mut cx).is_ready() { return true; } }
    false
}

#[derive(Clone, Debug, PartialEq)]
enum E { Before(usize, u64, Option<u64>), BeforeDone(usize, u64), After(usize, u64, Option<u64>), AfterDone(usize, u64) }
type Trace = Arc<Mutex<Vec<E>>>;

/// pending a few times, then logs & yields
struct Slow<T> { polls: u32, out: Option<T>, log: Trace, e: E }
impl<T: Unpin> Future for Slow<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        if self.polls > 0 { self.polls -= 1; cx.waker().wake_by_ref(); return Poll::Pending; }
        let e = self.e.clone();
        self.log.lock().unwrap().push(e);
        Poll::Ready(self.out.take().expect("case: polled after completion"))
    }
}

/// the value a 'before' step produces
struct Token { id: u64, live: Arc<AtomicI64> }
impl Token { fn new(id: u64, live: &Arc<AtomicI64>) -> Self { live.fetch_add(1, SeqCst); Token { id, live: live.clone() } } }
impl Drop for Token { fn drop(&mut self) { self.live.fetch_sub(1, SeqCst); } }

const CLASSES: [B; 9] = [B::BetterThanO1, B::O1, B::OLogN, B::ON, B::ONLogN, B::ON2, B::ON3, B::OkN, B::WorseThanExponential];

struct Measurer { name: String, descr: String, class: usize, unit: &'static str }

fn executor(i: usize, m: &Measurer, kind: u64, polls: u32, log: &Trace, live: &Arc<AtomicI64>, seq: &Arc<AtomicI64>) -> Box<dyn CustomMeasurerExecutor<u64> + Send> {
    let (l1, l2, live, seq, unit) = (log.clone(), log.clone(), live.clone(), seq.clone(), m.unit);
    let class = CLASSES[m.class];
    match kind {
        // values with destructors
        0 => Box::new(CustomMeasurer::new(m.name.clone(), class, m.descr.clone(),
            move |d: Option<&u64>| { let id = seq.fetch_add(1, SeqCst) as u64; l1.lock().unwrap().push(E::Before(i, id, d.copied())); Slow { polls, out: Some(Token::new(id, &live)), log: l1.clone(), e: E::BeforeDone(i, id) } },
            move |d: Option<&u64>, t: Token| { l2.lock().unwrap().push(E::After(i, t.id, d.copied())); Slow { polls, out: Some(custom_unit_measurement(t.id as f64, unit)), log: l2.clone(), e: E::AfterDone(i, t.id) } })),
        // plain values
        1 => Box::new(CustomMeasurer::new(m.name.clone(), class, m.descr.clone(),
            move |d: Option<&u64>| { let id = seq.fetch_add(1, SeqCst) as u64; l1.lock().unwrap().push(E::Before(i, id, d.copied())); Slow { polls, out: Some(id), log: l1.clone(), e: E::BeforeDone(i, id) } },
            move |d: Option<&u64>, id: u64| { l2.lock().unwrap().push(E::After(i, id, d.copied())); Slow { polls, out: Some(custom_unit_measurement(id as f64, unit)), log: l2.clone(), e: E::AfterDone(i, id) } })),
        // strings
        _ => Box::new(CustomMeasurer::new(m.name.clone(), class, m.descr.clone(),
            move |d: Option<&u64>| { let id = seq.fetch_add(1, SeqCst) as u64; l1.lock().unwrap().push(E::Before(i, id, d.copied())); Slow { polls, out: Some(id.to_string()), log: l1.clone(), e: E::BeforeDone(i, id) } },
            move |d: Option<&u64>, s: String| { let id: u64 = s.parse().unwrap(); l2.lock().unwrap().push(E::After(i, id, d.copied())); Slow { polls, out: Some(custom_unit_measurement(id as f64, unit)), log: l2.clone(), e: E::AfterDone(i, id) } })),
    }
}

pub fn c26(ctx: &mut Ctx) {
    for _ in 0..ctx.n(20_000, 400_000) {
        if ctx.stopped() || !ctx.within(60.0, 300.0) { break; }
        ctx.case(|c| {
            let r = &mut c.fork();
            let (log, live, seq) = (Trace::default(), Arc::new(AtomicI64::new(0)), Arc::new(AtomicI64::new(1)));
            let k = if r.chance(75) { r.range(0, 7) } else { r.range(8, 40) } as usize;
            let ms: Vec<Measurer> = (0..k).map(|i| Measurer {
                // names & descriptions may be repeated, or empty
                name: if r.chance(10) { String::new() } else { format!("m{}", if r.chance(20) { 0 } else { i }) }, descr: if r.chance(20) { String::new() } else { format!("d{}", r.below(5)) }, class: r.below(9) as usize, unit: *r.pick(&["a", "b", "c"]),
            }).collect();
            let kinds: Vec<(u64, u32)> = (0..k).map(|_| (r.below(3), if r.chance(50) { 0 } else { r.below(4) as u32 })).collect();
            let mut xs: Vec<_> = (0..k).map(|i| executor(i, &ms[i], kinds[i].0, kinds[i].1, &log, &live, &seq)).collect();
            let take = || std::mem::take(&mut *log.lock().unwrap());
            // the value each 'before' step last produced
            let mut held: Vec<Option<u64>> = vec![None; k];
            let events = r.range(1, 8);
            let mut story = vec![];
            let mut counts = [0u64; 5];
            for ev in 0..events {
                let data = if r.chance(30) { None } else { Some(r.next()) };
                let what = match r.below(10) { 0 => 1, 1 => 2, 2 => 3, 3 => 4, _ => 0 };
                counts[what] += 1;
                story.push(["event", "'before' only", "abandoned 'before'", "'after' without 'before'", "individually called"][what]);
                c.desc = format!("{k} measurers of kinds/pending polls {kinds:?}: {}", story.join(", "));
                let fail = |m: String| Err(format!("event #{ev} ({}): {m}", story.last().unwrap()));
                // drops what isn't paired, so the next 'after' will be paired with nothing
                match what {
                    0 | 1 => {
                        block_on(measure_all_before_event(data.as_ref(), &mut xs));
                        let t = take();
                        let mut want = vec![];
                        let first = t.first().and_then(|e| if let E::Before(_, id, _) = e { Some(*id) } else { None }).unwrap_or(0);
                        for (n, i) in (0..k).rev().enumerate() { let id = first + n as u64; want.extend([E::Before(i, id, data), E::BeforeDone(i, id)]); held[i] = Some(id); }
                        if t != want { return fail(format!("the 'before' steps were {t:?} instead of {want:?}")); }
                        if what == 1 { continue; }
                        let data2 = if r.chance(20) { None } else { Some(r.next()) };
                        let res = block_on(measure_all_after_event(data2.as_ref(), &mut xs));
                        let t = take();
                        let want: Vec<E> = (0..k).flat_map(|i| { let id = held[i].unwrap(); [E::After(i, id, data2), E::AfterDone(i, id)] }).collect();
                        if t != want { return fail(format!("the 'after' steps were {t:?} instead of {want:?}")); }
                        if res.len() != k { return fail(format!("{} results", res.len())); }
                        for (i, m) in res.iter().enumerate() {
                            let shown = m.measured_data.to_string();
                            let want = custom_unit_measurement(held[i].unwrap() as f64, ms[i].unit).to_string();
                            if (m.name.as_str(), m.description.as_str(), m.expected_complexity, &shown) != (&ms[i].name, &ms[i].descr, CLASSES[ms[i].class], &want) {
                                return fail(format!("result #{i} is ('{}', '{}', {:?}, {shown}) instead of ('{}', '{}', {:?}, {want})", m.name, m.description, m.expected_complexity, ms[i].name, ms[i].descr, CLASSES[ms[i].class]));
                            }
                        }
                        held.iter_mut().for_each(|h| *h = None);
                    }
                    2 => {
                        // the event is cancelled while its 'before' steps run: those may or may not have been completed
                        let done = abandon(measure_all_before_event(data.as_ref(), &mut xs), r.range(0, 6));
                        let t = take();
                        for e in &t { if let E::BeforeDone(i, id) = e { held[*i] = Some(*id); } }
                        // whether an interrupted step discards the value of the previous event isn't specified: start it over
                        for i in (0..k).filter(|i| t.iter().any(|e| matches!(e, E::Before(j, _, _) if j == i)) && !t.iter().any(|e| matches!(e, E::BeforeDone(j, _) if j == i))) {
                            block_on(xs[i].measure_before_event(data.as_ref()));
                            let t = take();
                            let [E::Before(a, id, _), E::BeforeDone(b, _)] = t[..] else { return fail(format!("measurer #{i} did {t:?}")) };
                            if (a, b) != (i, i) { return fail(format!("measurer #{i} did {t:?}")); }
                            held[i] = Some(id);
                        }
                        if done && k > 0 && held.iter().any(|h| h.is_none()) { return fail("a 'before' step was left behind".into()); }
                    }
                    3 => {
                        // each measurer that has no 'before' value must panic -- and only these
                        for i in 0..k {
                            let before = held[i].take();
                            let res = catch(|| block_on(xs[i].measure_after_event(data.as_ref())));
                            let t = take();
                            match (before, res) {
                                (None, Ok(m)) => return fail(format!("measurer #{i} yielded {m} out of nothing, steps {t:?}")),
                                (None, Err(_)) => if !t.is_empty() { return fail(format!("measurer #{i} was asked {t:?}")); },
                                (Some(_), Err(e)) => return fail(format!("measurer #{i} panicked: {}", e.msg)),
                                (Some(id), Ok(_)) => if t != [E::After(i, id, data), E::AfterDone(i, id)] { return fail(format!("measurer #{i} was asked {t:?}, 'before' value being #{id}")); },
                            }
                        }
                    }
                    _ => {
                        // interleaved, nested events of individual measurers
                        for i in 0..k {
                            block_on(xs[i].measure_before_event(data.as_ref()));
                            let t = take();
                            let [E::Before(a, id, d), E::BeforeDone(b, id2)] = t[..] else { return fail(format!("measurer #{i} did {t:?}")) };
                            if (a, b, d) != (i, i, data) || id != id2 { return fail(format!("measurer #{i} did {t:?}")); }
                            held[i] = Some(id);
                        }
                        let mut order: Vec<usize> = (0..k).collect();
                        r.shuffle(&mut order);
                        for i in order {
                            let m = block_on(xs[i].measure_after_event(data.as_ref()));
                            let (t, id) = (take(), held[i].take().unwrap());
                            if t != [E::After(i, id, data), E::AfterDone(i, id)] { return fail(format!("measurer #{i}, 'before' value #{id}, did {t:?}")); }
                            let cm = xs[i].as_custom_measurement(m);
                            if cm.name != ms[i].name || cm.measured_data.to_string() != custom_unit_measurement(id as f64, ms[i].unit).to_string() { return fail(format!("measurer #{i} yielded '{}' {}", cm.name, cm.measured_data)); }
                        }
                    }
                }
                let tokens = (0..k).filter(|i| kinds[*i].0 == 0 && held[*i].is_some()).count() as i64;
                if live.load(SeqCst) != tokens { return fail(format!("{} 'before' values are alive instead of {tokens}", live.load(SeqCst))); }
            }
            drop(xs);
            if live.load(SeqCst) != 0 { return Err(format!("{} 'before' values left alive", live.load(SeqCst))); }
            c.evals(events - 1);
            for (i, n) in counts.iter().enumerate() { c.count(["complete_events", "events_without_after", "cancelled_events", "afters_without_before", "nested_events"][i], *n); }
            let mut key = vec![k as u64]; key.extend(counts); key.extend(kinds.iter().map(|k| k.0 * 10 + k.1 as u64));
            c.key(&key);
            Ok(())
        });
    }
}
