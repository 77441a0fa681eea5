import json
A_CLK="time is virtual: clock_gettime/nanosleep are interposed (self-tested at each start), so a pass takes exactly what the workload says"
A_MODEL="the oracle's thresholds are re-derived from the statement; usages within 1e-6 (relative) of a threshold may go either way"
A_ALLOC="heap usage is produced through the real global metrics allocator by blocks the workload sizes itself"
A_X86="interleavings are those 8 x86-64 cores produce, with random pauses; weaker memory orders are only covered by Miri (C22)"
R={}
def r(i,rule,*a): R[i]={'rule':rule,'assumptions':list(a)}
r('C01',"measurements are built with set sizes log-uniform in [2,2^31], usages at, around and far from each rung's thresholds; time and space analyses are compared with an independent ladder. Distinct: (class, set-size magnitude, ratio bucket) reached",A_MODEL,"n1>=2, n2>n1")
r('C02',"chains of measurements in which the 2nd usage is raised or the 1st lowered; the class may never improve along a chain. Distinct: (measurement kind, class pair, magnitude)",A_MODEL)
r('C03',"set-resizing measurements with n in [2,2^31] and usages around every threshold of the documented rules, judged by an independent model. Distinct: (class, n magnitude, ratio bucket)",A_MODEL)
r('C04',"pairs of memory histories that differ only in the base, the retained/freed amount and the trough, judged by one another and by the ladder/resizing model. Distinct: (kind, class)",A_MODEL)
r('C05',"test_algorithm is run with closures that take chosen (virtual) times and memory on each attempt, for all ceilings and retry counts; stage order, number of attempts, verdict and panic text are compared with a model. Distinct: (measured classes, ceilings, attempts)",A_CLK,A_ALLOC,A_MODEL)
r('C06',"test_crud_algorithms with costs per operation, element & attempt, for random iterations/threads/ceilings/attempts; the monitor recomputes the classes from the calls it saw and follows the attempts to the verdict. Distinct: (verdict, failing operation & resource, attempts, shape)",A_CLK,A_ALLOC,"attempts whose classes are within rounding of a threshold may go either way; the panic text may name any failing item of the same rank")
r('C07',"async tests with random subsets of stages and ceilings, per-attempt costs; verdict, attempts and panic text are compared with a model. Distinct: (classes, ceilings set, attempts, verdict)",A_CLK,A_ALLOC,A_MODEL,"known finding: auxiliary-space & custom ceilings are accepted but never enforced")
r('C08',"each stage of regular, CRUD and async runs takes its own (virtual) time; returned times, printed times and times implied by the verdict must be those of the pass alone (mean over threads for iterators). Distinct: (stage costs' magnitudes, threads)",A_CLK)
r('C09',"each stage of regular, CRUD and async runs performs its own random allocations/frees, on blocks it made or older ones; before/after/max/min must equal the pass' ledger (bounded per-thread bookkeeping for iterators). Distinct: (shape of the pass' memory history)",A_ALLOC)
r('C10',"CRUD analyses with random iterations, threads and warm-up percentages; every call's (operation, element, thread) is recorded and each pass' coverage, runs and thread counts are checked. Distinct: (iterations, threads, warm-up) shapes",A_CLK)
r('C11',"as C10, with entry/exit of each call recorded by a global logical clock: phases in order, none overlapping, absent operations absent. CRUD tests failing on time for some attempts: each attempt followed through all phases. Distinct: shapes",A_CLK)
r('C12',"async tests whose stages transform a token; the sequence of stages and what each was given are compared with a model, over retries. Distinct: (stages set, attempts)",A_CLK,"on retries without a reset the first stage may get either nothing or the previous value (unspecified)")
r('C13',"a chosen call of a chosen stage/operation/thread panics; the API must panic, with no retry and no closure started after that stage. Distinct: (API, stage, thread count, call position)",A_CLK)
r('C14',"random requests (some refused) from 1..6 threads; statistics since random save points vs. the ledger at quiescent points. Distinct: ledgers",A_X86)
r('C15',"single-threaded request histories with nested save points; exact peak/trough/current for every live save point after random steps. Distinct: (peaks, number of save points)")
r('C16',"threads request, free and take save points at the same time; the envelope inequalities are checked, at save points and at quiescent points, against the levels the ledgers prove were held. Distinct: (threads, save points, levels)",A_X86)
r('C17',"histories around the capacity: availability must change exactly when N+1 later save points were taken, for ever; runners whose pass outlives its save point must return. Distinct: (capacity, distance, outcome)")
r('C18',"random requests whose blocks are filled with patterns: alignment, disjointness, zeroing, contents after reallocation, refusals & leaks; again under valgrind memcheck. Distinct: (request kinds & sizes)","valgrind's memcheck for out-of-bounds & leaks of the library's own accesses")
r('C19',"random single-threaded histories over 14 (element, capacity) pairs against an unbounded log, at the start of the ring's life & around 2^8..2^17 enqueues -- and, in an optimised build, along 2^32 enqueues. Distinct: (capacity, numbers of operations, laps)")
r('C20',"concurrent histories with unique elements, recorded at the call boundary by a global logical clock and checked offline: exactly once, one order common to all consumers and consistent with real time, emptiness and peeks consistent. Distinct: (orders observed)",A_X86,"producers wait until all consumers are done with the slot to be replaced, so no overflow can occur")
r('C21',"sequential histories in which consumers fall behind by any number, and concurrent ones driven across the capacity edge: errors exactly when due, final, and nobody else's. Distinct: (capacity, outcomes)",A_X86)
r('C22',"safe-call workloads (see ub/src/main.rs) interpreted by Miri -- stacked & tree borrows, weak memory emulation, random preemption -- and run under ThreadSanitizer, std instrumented too; element drops are counted. Distinct: (tool, workload, seed) runs that looked at elements","Miri's & TSan's models; leaks are not judged; references aren't held across an overwrite (documented as racy)")
r('C23',"measurements with random memory before/after/max/min at every magnitude; the printed sign, number and unit are read back and compared. Distinct: (sign, unit, magnitude, position in the text)")
r('C24',"analyses with random values are printed and each value searched for in its place; class texts are compared pairwise; CRUD runs' reports must have each analysis once. Distinct: (kind, class, units)",A_CLK)
r('C25',"values at & around every scale, in random units that live together, are rendered, read back and compared. Distinct: (kind, scale, magnitude)","hook: cfg(verif_hooks)","durations up to 1e9 s")
r('C26',"random sets of measurers through complete, incomplete, cancelled and nested events; the trace of steps, values handed over, results and value drops are compared with a model. Distinct: (measurers, event kinds)","hook: cfg(verif_hooks)")
r('C27',"the same battery runs on binaries compiled with 8 feature combinations; sink, tolerance, allocator effects judged by a model and results compared among binaries. Distinct: (classes, ceilings) per binary",A_CLK)
r('C28',"random histories of uses of the library (12 kinds) precede a probe test whose calls, report & message must be those it has in a process of its own; 2 to 5 probes at the same time must match their sequential selves, memory aside. Distinct: (kind of probe, kinds of history, attempts)",A_CLK,A_ALLOC,"times are virtual, and per thread, so they don't depend on the load")
r('C29',"async tests dropped after any number of polls (random ones, and all of them for small tests) and several tests polled in turns; the events logged before & after, and the live values and closures are judged. Distinct: (stages, attempts, events until the drop)",A_CLK)
r('C30',"release builds (with & without reports) run pure chains of dependent multiplications, through all APIs, and what is measured is compared with the least time any CPU takes; the workloads of C05..C13 & C27 run again on the release build, under the same oracles. Distinct: (API, amount of work) & those of each workload","a dependent 64-bit multiplication + xor takes at least 0.5ns (4 cycles at 8 GHz)","the real clock is used for the chains; load may only make them take longer")
r('C31',"the same tests (passed, failed, retried, panicking or dropped; the three APIs, mixed) over & over: live bytes, threads and open files mustn't increase from each mark to the next; closures, data and panic payloads that own counted things; rings over 12 (element, capacity) pairs & elements without a size, by 1..5 producers, ended in 7 ways, with the drops of each element counted; the workloads of C22 again under Miri, with its leak check on. Distinct: (histories repeated), (API, fate, panicking call), (capacity, producers, elements, ending)",A_CLK,A_ALLOC,"elements' drops don't panic")
json.dump(R,open('/verif/lib/rules.json','w'),indent=1)
kf={"findings":[{"property":"C07","signature":"known:auxiliary_space_ceiling_ignored","what":"AsyncRegularAnalyzer's auxiliary-space ceiling (with_auxiliary_space_measurements) and custom measurement ceilings (add_custom_measurement) are accepted but never enforced: a test with auxiliary-space ceiling O(1) whose passes use linear auxiliary memory completes normally"}],
"fixed":[
"fixed: property=C01 823daac two equal usages (two zeros included) were classified as worse than exponential instead of O(1)",
"fixed: property=C03 823daac two zero usages of a set-resizing measurement were classified as worse than exponential instead of O(1)",
"fixed: property=C04 823daac passes that never rise above their starting usage were classified as worse than exponential instead of O(1)",
"fixed: property=C22 6753e0d consumers read slots of elements whose publication they hadn't synchronised with (data race)",
"fixed: property=C20 6753e0d consumers could be given slots not visible to them yet",
"fixed: property=C22 a8b26fd enqueueing dropped uninitialised slots and created aliasing mutable references to the buffer (undefined behaviour)",
"fixed: property=C21 a6aa790 the overflow of a consumer was forgotten by its next dequeue, which then yielded an element",
"fixed: property=C14 defdf21 requests refused by the system were counted as used memory",
"fixed: property=C16 f12bd64 save points taken while other threads use the allocator yielded current usages out of [min,max], panicking the space analysis",
"fixed: property=C10 af120a7 elements left over by the division of the iterations among threads were never visited",
"fixed: property=C11 d82dffc operations with 0 threads panicked with a division by zero",
"fixed: property=C06 563e495 tests with 0 retry attempts passed without running anything",
"fixed: property=C06 48391fd retries of tests with few iterations skipped the operation, passing without testing it",
"fixed: property=C06 c316181 reset was given a wrong number of created elements on retries",
"fixed: property=C10 33cccd7 the number of warm-up elements overflowed with many iterations",
"fixed: property=C12 f64b57d the reset that follows the warm-up wasn't given the warm-up's data",
"fixed: property=C23 8be9c42 small variations on processes using lots of memory were shown with the wrong sign",
"fixed: property=C17 208b46e presenting a pass that outlived its save point overflowed (panic)",
"fixed: property=C21 63c2da1 threads sharing a consumer that had just overflowed could still be given elements",
"fixed: property=C16 ef13d34 statistics read while other threads use the allocator reported a current usage out of their own [min,max]",
"fixed: property=C28 ef13d34 tests panicked with 'attempt to subtract with overflow' when other threads allocated at the end of a pass",
"fixed: property=C06 f6c04dc CRUD tests given a huge number of retry attempts aborted the process, for lack of memory",
"fixed: property=C19 423f028 ring-buffers stopped working after 2^32 enqueues (panic in debug; endless loop or misplaced elements in release)",
"fixed: property=C24 45cd355 presenting set-resizing measurements of 2^31 elements or more overflowed (panic in debug; wrong sum of elements in release)",
"fixed: property=C21 94ec039 peeking in the middle of an enqueue (e.g. while the replaced element is being dropped), by a consumer exactly a ring behind, handed out the element being replaced instead of an overflow error (undefined behaviour: C22)",
"fixed: property=C31 d71a15e elements still in a ring-buffer were never dropped when the ring-buffer was (leak)",
"fixed: property=C25 9a870e0 custom units used by tests running in several threads raced for their cache (crash, endless loop or another unit's name)"]}
json.dump(kf,open('/verif/known_findings.json','w'),indent=1)
L="Held on the executions explored, which the evidence file counts; nothing is claimed for executions not produced."
T={'C31':'live-memory & drop-count monitors + Miri leak check','C30':'timing oracle on release builds + the trace monitors of other properties','C28':'differential monitor against fresh processes','C22':'Miri + ThreadSanitizer on safe-call workloads','C18':'shadow-ledger monitor under stress + valgrind memcheck','C20':'offline checker over recorded concurrent histories','C26':'trace monitor over hooked measurers','C25':'read-back oracle over hooked renderings'}
D='runtime monitor with a reference-model oracle'
checks=[]
for i in R:
    t=T.get(i, 'trace monitor under a virtual clock' if any('virtual' in a for a in R[i]['assumptions']) else ('concurrent stress with invariant monitors' if A_X86 in R[i]['assumptions'] else D))
    checks.append(dict(property=i,quick_cmd=f'python3 check.py {i} --tier quick',thorough_cmd=f'python3 check.py {i} --tier thorough',technique=t,level='exploration',level_note=L+(' Assumes: '+'; '.join(R[i]['assumptions']) if R[i]['assumptions'] else '')))
json.dump(dict(version=1,setup_cmd='python3 check.py --setup',hooks=dict(guard='cfg(verif_hooks)',enable='RUSTFLAGS="--cfg verif_hooks" (only /verif/hooks, checks C25 & C26, is built so)',source_commits=['f5dda557f945007c04ee5afdcc2854491b90da44']),checks=checks,not_applicable=[]),open('/verif/MANIFEST.json','w'),indent=1)
