#!/usr/bin/env python3
"""Decides one property: builds the monitors against /repo's current tree, runs the workloads & judges what the monitors saw.

  check.py <property> [--tier quick|thorough] [--seed N]      (defaults: $VERIF_TIER, $VERIF_SEED)
  check.py --setup                                            builds everything
  check.py --replay <replay file>                             runs a reported case again

exit 0: held on everything explored; 1: violated (VIOLATION lines); anything else: no verdict.
"""
import sys, os, json, time, subprocess, hashlib, shutil, signal, tempfile, concurrent.futures as cf, threading, re

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('BIGO_REPO', '/repo')   # (informative only: the harness crates depend on /repo)
TARGET = os.path.join(VERIF, 'target')
REPLAYS = os.path.join(VERIF, 'replays')
ENV = dict(os.environ)
ENV['PATH'] = '/usr/local/bin:/root/.cargo/bin:' + ENV.get('PATH', '/usr/bin:/bin')
ENV['CARGO_NET_OFFLINE'] = 'true'
ENV['XDG_CACHE_HOME'] = os.path.join(TARGET, 'cache')     # where Miri's sysroot is built
ENV['CARGO_TERM_COLOR'] = 'never'
for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'MIRIFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'): ENV.pop(k, None)
TSAN_TRIPLE = 'x86_64-unknown-linux-gnu'

# ---------------------------------------------------------------- what is built
class Variant:
    def __init__(self, name, crate='harness', features=None, rustflags=None, nightly=False, build_std=False, miri=False, binary='bigo-mon', release=False):
        self.__dict__.update(locals())
    def dir(self): return os.path.join(TARGET, self.name)
    def exe(self): return os.path.join(self.dir(), *( [TSAN_TRIPLE] if self.build_std else []), 'release' if self.release else 'debug', self.binary)

VARIANTS = {v.name: v for v in [
    Variant('main'),
    Variant('tol25', features='cfg_custom,v_stderr,v_tol25,v_async'),
    Variant('stderr10', features='cfg_custom,v_stderr,v_tol10'),
    Variant('silent', features='cfg_custom,v_noreport,v_async'),
    Variant('bare', features='cfg_custom'),
    Variant('noalloc', features='cfg_custom,v_stdout,v_noalloc,v_async'),
    Variant('noalloc25', features='cfg_custom,v_stderr,v_tol25,v_noalloc'),
    Variant('stdout25', features='cfg_custom,v_stdout,v_tol25'),
    Variant('release', release=True),
    Variant('release_silent', features='cfg_custom,v_noreport,v_async', release=True),
    Variant('hooks', crate='hooks', rustflags='--cfg verif_hooks', binary='bigo-mon-hooks'),
    Variant('ub_tsan', crate='ub', rustflags='-Zsanitizer=thread', nightly=True, build_std=True, binary='bigo-ub'),
    Variant('mon_tsan', crate='harness', rustflags='-Zsanitizer=thread', nightly=True, build_std=True),
    Variant('miri', crate='ub', nightly=True, miri=True, binary='bigo-ub'),
]}
SETUP = ['main', 'tol25', 'stderr10', 'silent', 'bare', 'noalloc', 'noalloc25', 'stdout25', 'release', 'release_silent', 'hooks', 'ub_tsan', 'miri', 'mon_tsan']

# ---------------------------------------------------------------- what each property's check runs: (variant, sub-check[, environment])
PARTS = {
    'C01': [('main', 'C01'), ('tol25', 'C01')],
    'C02': [('main', 'C02'), ('tol25', 'C02')],
    'C03': [('main', 'C03'), ('tol25', 'C03')],
    'C04': [('main', 'C04'), ('tol25', 'C04')],
    'C05': [('main', 'C05')],
    'C06': [('main', 'C06')],
    'C07': [('main', 'C07')],
    'C08': [('main', 'C08r'), ('main', 'C08c'), ('main', 'C08a')],
    'C09': [('main', 'C09r'), ('main', 'C09c'), ('main', 'C09a')],
    'C10': [('main', 'C10')],
    'C11': [('main', 'C11')],
    'C12': [('main', 'C12')],
    'C13': [('main', 'C13')],
    'C14': [('main', 'C14')],
    'C15': [('main', 'C15')],
    'C16': [('main', 'C16')],
    'C17': [('main', 'C17'), ('main', 'C17r')],
    'C18': [('main', 'C18'), ('main:valgrind', 'C18')],
    'C19': [('release', 'C19L'), ('main', 'C19')],
    'C20': [('main', 'C20')],
    'C21': [('release', 'C21L'), ('main', 'C21')],
    'C22': [],
    'C23': [('main', 'C23')],
    'C24': [('main', 'C24'), ('main', 'C24c')],
    'C25': [('hooks', 'C25')],
    'C26': [('hooks', 'C26')],
    'C27': [(v, 'C27') for v in ('main', 'tol25', 'stderr10', 'silent', 'bare', 'noalloc', 'noalloc25', 'stdout25')],
    'C28': [('main', 'C28')],
    'C29': [('main', 'C29')],
    'C31': [('main', 'C31')],
    'C30': [('release', 'C30'), ('release_silent', 'C30')] + [('release', x) for x in ('C05', 'C06', 'C07', 'C08r', 'C08c', 'C08a', 'C09r', 'C09c', 'C09a', 'C10', 'C11', 'C12', 'C13', 'C27')],
}
# calls, verdicts & measurements don't depend on optimisations
RELEASE_TOO = ['C01', 'C02', 'C03', 'C04', 'C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21', 'C23', 'C24', 'C28', 'C29', 'C31']
THOROUGH_EXTRA = {
    'C05': [('tol25', 'C05'), ('silent', 'C05')],
    'C06': [('tol25', 'C06')],
    'C07': [('tol25', 'C07')],
    'C22': [('mon_tsan', 'C20'), ('mon_tsan', 'C16'), ('mon_tsan', 'C14'), ('mon_tsan', 'C10')],
}
for x in RELEASE_TOO: THOROUGH_EXTRA.setdefault(x, []).append(('release', x))
# workloads that use several threads: fewer of them at a time
PARALLEL = {'C10': 3, 'C11': 3, 'C13': 3, 'C14': 3, 'C16': 2, 'C17': 3, 'C20': 2, 'C21': 2, 'C22': 8, 'C06': 4, 'C28': 3, 'C30': 4, 'C31': 3}
SANITIZED = {'ub_tsan', 'mon_tsan'}

RULES = json.load(open(os.path.join(VERIF, 'lib', 'rules.json')))

class NoVerdict(Exception): pass

# ---------------------------------------------------------------- building
def tree_hash(crate):
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'), os.path.join(VERIF, crate)] + ([os.path.join(VERIF, 'harness', 'src')] if crate == 'hooks' else [])
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            if '/target/' in f: continue
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

def run(cmd, cwd, env, timeout):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout)
    return p.returncode, p.stdout

def build(name):
    v = VARIANTS[name]
    env = dict(ENV)
    env['CARGO_TARGET_DIR'] = v.dir()
    if v.rustflags: env['RUSTFLAGS'] = v.rustflags
    cargo = ['cargo'] + (['+nightly'] if v.nightly else [])
    crate = os.path.join(VERIF, v.crate)
    os.makedirs(v.dir(), exist_ok=True)
    stamp, now = os.path.join(v.dir(), '.tree'), tree_hash(v.crate)
    old = open(stamp).read() if os.path.exists(stamp) else ''
    if old and old != now:
        # cargo goes by modification times, which say nothing about trees that were copied here: have the crate rebuilt
        for d, dirs, _ in os.walk(v.dir()):
            if os.path.basename(d) == '.fingerprint':
                for x in list(dirs):
                    if x.startswith(('big-o-test-', 'bigo-')): shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                dirs[:] = []
    if os.path.exists(stamp): os.remove(stamp)
    feats = ['--no-default-features', '--features', v.features] if v.features else []
    if v.miri:
        rc, out = run(cargo + ['miri', 'setup'], crate, env, 900)
        if rc: raise NoVerdict(f'{name}: Miri could not be set up:\n{out[-3000:]}')
        # (what Miri runs is built by the first run)
        env['MIRIFLAGS'] = '-Zmiri-ignore-leaks'
        rc, out = run(cargo + ['miri', 'run', '-q', '--', 'fresh', '1', '0', '1'], crate, env, 900)
        # (what goes wrong in the program itself is for its runs to report)
        if re.search(r"^(RAN |VIOLATED: |error: Undefined Behavior|thread '.*' .*panicked at )", out, re.M): rc = 0
    else:
        rc, out = run(cargo + ['build'] + (['--release'] if v.release else []) + feats + (['-Zbuild-std', '--target', TSAN_TRIPLE] if v.build_std else []), crate, env, 1200)
    if rc: raise NoVerdict(f'{name}: the build failed:\n{out[-6000:]}')
    with open(stamp, 'w') as f: f.write(now)

def build_all(names, jobs=3):
    with cf.ThreadPoolExecutor(jobs) as ex:
        for _ in ex.map(build, names): pass

# ---------------------------------------------------------------- running
def cpu_and_states(pid):
    ticks, states = 0, []
    try:
        for t in os.listdir(f'/proc/{pid}/task'):
            s = open(f'/proc/{pid}/task/{t}/stat').read().rsplit(')', 1)[1].split()
            ticks += int(s[11]) + int(s[12]); states.append(s[0])
    except OSError: pass
    return ticks / os.sysconf('SC_CLK_TCK'), states

STOP = threading.Event()
CHILDREN = set()

def read(path, limit=None):
    try:
        with open(path, errors='replace') as f:
            s = f.read()
            return s if limit is None else s[-limit:]
    except OSError: return ''

def monitor(part, seed, tier, case=None, budget=840):
    """Runs a workload of the harness; returns (violations, done) -- violations being dicts(what, input, case)"""
    variant, sub = part[0], part[1]
    name, _, wrap = variant.partition(':')
    v = VARIANTS[name]
    out = tempfile.mkdtemp(prefix=f'{sub}-{name}-{seed}-', dir=os.path.join(TARGET, 'run'))
    env = dict(ENV)
    cmd = [v.exe(), sub, str(seed), tier, out] + ([str(case)] if case is not None else [])
    if wrap == 'valgrind':
        env['VERIF_UNDER_VALGRIND'] = '1'
        cmd = ['valgrind', '-q', '--error-exitcode=9', '--leak-check=full', '--errors-for-leak-kinds=definite', '--show-leak-kinds=definite'] + cmd
    if name in SANITIZED: env['TSAN_OPTIONS'] = 'halt_on_error=0 exitcode=66 history_size=4'
    t0 = time.time()
    so, se = open(os.path.join(out, 'stdout'), 'wb'), open(os.path.join(out, 'stderr'), 'wb')
    p = subprocess.Popen(cmd, cwd=out, env=env, stdout=so, stderr=se, stdin=subprocess.DEVNULL, start_new_session=True)
    CHILDREN.add(p.pid)
    last, last_at, last_cpu, hung = None, time.time(), 0.0, None
    while True:
        try: p.wait(0.3); break
        except subprocess.TimeoutExpired: pass
        pr = read(os.path.join(out, 'progress')).strip()
        cpu, states = cpu_and_states(p.pid)
        if pr != last: last, last_at, last_cpu = pr, time.time(), cpu
        stuck = time.time() - last_at
        if last and stuck > 150 and cpu - last_cpu > 120:
            hung = f'no progress after {cpu - last_cpu:.0f}s of CPU time spent on a single case (which takes milliseconds): livelock'
        elif last and stuck > 150 and cpu - last_cpu < 1 and states and all(s == 'S' for s in states):
            hung = f'all {len(states)} threads have been waiting for {stuck:.0f}s, on a case in which time is virtual: deadlock'
        if hung or time.time() - t0 > budget or STOP.is_set():
            os.killpg(p.pid, signal.SIGKILL); p.wait(); break
    CHILDREN.discard(p.pid)
    rc = p.returncode
    events = []
    for line in read(os.path.join(out, 'events.jsonl')).splitlines():
        try: events.append(json.loads(line))
        except ValueError: pass
    violations = [e['violation'] for e in events if 'violation' in e]
    errors = [e['harness_error'] for e in events if 'harness_error' in e]
    done = next((e['done'] for e in events if 'done' in e), None)
    err = read(os.path.join(out, 'stderr'), 20000)
    case_at = int(last) if (last or '').isdigit() else (int(x) if (x := read(os.path.join(out, 'progress')).strip()).isdigit() else None)
    if errors: raise NoVerdict(f'{part} seed {seed}: {errors[0]}')
    if name in SANITIZED and 'WARNING: ThreadSanitizer' in read(os.path.join(out, 'stderr')):
        violations.append({'what': 'ThreadSanitizer: ' + tsan_digest(read(os.path.join(out, 'stderr'))), 'input': f'{sub}, seed {seed}', 'case': None})
    elif hung: violations.append({'what': hung, 'input': f'case {case_at}', 'case': case_at})
    elif done is None and rc is not None and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
        violations.append({'what': f'the process was killed by {signal.Signals(-rc).name}: {err[-600:]}', 'input': f'case {case_at}', 'case': case_at})
    elif wrap == 'valgrind' and rc == 9:
        violations.append({'what': 'valgrind: ' + ' '.join(l.split('==')[-1].strip() for l in err.splitlines() if '==' in l)[:1500], 'input': f'seed {seed}', 'case': None})
    elif not violations and (done is None or rc != 0):
        raise NoVerdict(f'{part} seed {seed}: no verdict -- exit code {rc} after {time.time()-t0:.0f}s at case {case_at}: {err[-1500:]}')
    for x in violations: x.update(variant=variant, sub=sub, seed=seed, tier=tier)
    shutil.rmtree(out, ignore_errors=True)
    return violations, done or {'evaluations': 0, 'distinct': 0, 'counters': {}, 'samples': []}

def tsan_digest(text):
    blocks = text.split('==================')
    b = next((b for b in blocks if 'WARNING: ThreadSanitizer' in b), text)
    lines = [l.strip() for l in b.splitlines()]
    keep = [l for l in lines if l.startswith(('WARNING', 'Write', 'Read', 'Previous', 'Atomic')) or '/repo/' in l]
    return ' | '.join(keep)[:1500]

# ---------------------------------------------------------------- C22: Miri & ThreadSanitizer
UB_WORKLOADS = ['fresh', 'laps', 'rounds', 'stampede', 'overflow', 'replacing', 'allocator']
def ub_run(tool, workload, seed, reps, size, timeout, leaks=False):
    env = dict(ENV)
    v = VARIANTS['miri' if tool == 'miri' else 'ub_tsan']
    args = [workload, str(seed), str(reps), str(size)]
    if tool == 'miri':
        env['CARGO_TARGET_DIR'] = v.dir()
        # borrows are tracked by one aliasing model or the other; weak memory & preemptions are simulated
        env['MIRIFLAGS'] = ('' if leaks else '-Zmiri-ignore-leaks ') + f'-Zmiri-seed={seed} -Zmiri-preemption-rate={[0.01, 0.05, 0.2][seed % 3]}' + (' -Zmiri-tree-borrows' if seed % 4 == 3 else '')
        cmd = ['cargo', '+nightly', 'miri', 'run', '-q', '--'] + args
    else:
        env['TSAN_OPTIONS'] = 'halt_on_error=0 exitcode=66 history_size=4'
        cmd = [v.exe()] + args
    p = subprocess.Popen(cmd, cwd=os.path.join(VERIF, 'ub'), env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try: out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, err = p.communicate()
        return [], {}, None if leaks else f'{tool} {args}: timed out'
    viol = []
    inp = f'{tool}: workload {workload}, seed {seed}, {reps} repetitions of size {size}' + (f' (MIRIFLAGS {env["MIRIFLAGS"]})' if tool == 'miri' else '')
    def add(what): viol.append(dict(what=what, input=inp, case=None, variant=tool, sub=workload, seed=seed, tier=f'{reps}x{size}'))
    if leaks:
        # the rest is C22's
        if 'RAN ' in out and (m := re.search(r'^error: memory leaked: .*', err, re.M)): add(f'Miri: {m.group(0)} ' + ' '.join(l.strip() for l in err[m.start():].splitlines() if '-->' in l or '/repo/' in l)[:600])
        if p.returncode: return viol, {}, None
    elif (m := re.search(r'^error: Undefined Behavior:.*', err, re.M)): add(f'Miri: {m.group(0)} ' + ' '.join(l.strip() for l in err[m.start():].splitlines() if '-->' in l or '/repo/' in l)[:600])
    elif 'WARNING: ThreadSanitizer' in err: add('ThreadSanitizer: ' + tsan_digest(err))
    elif (m := re.search(r'^VIOLATED: .*', err, re.M)): add(m.group(0))
    elif (m := re.search(r"^thread '.*' .*panicked at (/repo/.*)", err, re.M)): add(f'panic in the library: {err[m.start():m.start()+500]}')
    elif p.returncode < 0 and -p.returncode in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS): add(f'killed by signal {-p.returncode}: {err[-400:]}')
    elif (m := re.search(r'^error: (deadlock|the evaluated program deadlocked).*', err, re.M)): add(f'Miri: {m.group(0)}')
    elif p.returncode != 0: return [], {}, f'{tool} {args}: exit code {p.returncode}: {err[-1500:]}'
    seen = {}
    for l in out.splitlines():
        if l.startswith('RAN '):
            n, runs, looks = l[4:].split('\t'); seen[n] = (int(runs), int(looks))
    return viol, seen, None

def c22_jobs(seed, quick):
    jobs = []
    for k in range(6 if quick else 120):
        for w in UB_WORKLOADS:
            s = seed * 100_003 + k
            jobs.append(('miri', w, s, 8 if quick else 12, 8 + 4 * (k % 4), 500))
    for k in range(2 if quick else 40):
        for w in UB_WORKLOADS: jobs.append(('tsan', w, seed * 100_003 + 50_000 + k, 1500 if quick else 4000, 60, 500))
    return jobs

def c22(seed, tier, leaks=False):
    quick = tier == 'quick'
    jobs = []
    if leaks:
        # rings & allocators that must leave nothing behind
        for k in range(2 if quick else 40):
            for w in UB_WORKLOADS: jobs.append(('miri', w, seed * 100_003 + 70_000 + k, 8 if quick else 12, 8 + 4 * (k % 4), 500, True))
    else: jobs = c22_jobs(seed, quick)
    viol, notes, counters, evals, looks_all, distinct = [], [], {}, 0, 0, 0
    deadline = time.time() + ((90 if quick else 300) if leaks else 420 if quick else 720)
    samples = []
    def one(j):
        if time.time() > deadline or len(viol) >= 3: return None
        return j, ub_run(*j)
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(one, jobs):
            if r is None: counters['jobs skipped for lack of time'] = counters.get('jobs skipped for lack of time', 0) + 1; continue
            j, (v, seen, note) = r
            viol += v
            if note: notes.append(note)
            for n, (runs, looks) in seen.items():
                key = f'{j[0]}: {n}'
                counters[key + ' executions'] = counters.get(key + ' executions', 0) + runs
                counters[key + ' element looks / allocator requests'] = counters.get(key + ' element looks / allocator requests', 0) + looks
                evals += runs; distinct += 1 if looks else 0
            if len(samples) < 6: samples.append(f'{j[0]} {j[1]} seed {j[2]}, {j[3]} executions of size {j[4]}: {seen}')
    if notes and not viol: raise NoVerdict('; '.join(notes[:3]))
    return viol, dict(evaluations=evals, distinct=distinct, counters=counters, samples=samples)

# ---------------------------------------------------------------- the check
def merge(total, done, prefix):
    total['evaluations'] += done['evaluations']; total['distinct'] += done['distinct']
    for k, n in done['counters'].items(): total['counters'][f'{prefix}{k}'] = total['counters'].get(f'{prefix}{k}', 0) + n
    total['samples'] += done['samples'][:3]

def check(prop, seed, tier):
    t0 = time.time()
    parts = [(p, seed + i * 1000) for i in range(1 if tier == 'quick' else 4) for p in PARTS[prop] + (THOROUGH_EXTRA.get(prop, []) if tier != 'quick' else [])]
    build_all(sorted({p[0].partition(':')[0] for p, _ in parts} | ({'ub_tsan', 'miri'} if prop == 'C22' else {'miri'} if prop == 'C31' else set())))
    os.makedirs(os.path.join(TARGET, 'run'), exist_ok=True)
    total = dict(evaluations=0, distinct=0, counters={}, samples=[])
    violations, digests = [], {}
    if prop == 'C22':
        v, done = c22(seed, tier)
        violations += v; merge(total, done, '')
    if prop == 'C31':
        v, done = c22(seed, tier, leaks=True)
        violations += v; merge(total, done, 'Miri, leaks: ')
    errors = []
    with cf.ThreadPoolExecutor(PARALLEL.get(prop, 8)) as ex:
        futs = {ex.submit(monitor, p, s, tier): (p, s) for p, s in parts}
        for f in cf.as_completed(futs):
            p, s = futs[f]
            try: v, done = f.result()
            except NoVerdict as e: errors.append(str(e)); continue
            violations += v
            merge(total, done, f'{p[0]}/{p[1]}: ' if len({q for q, _ in parts}) > 1 else '')
            for k in done['counters']:
                if k.startswith('digest:'):
                    _, tol, h = k.split(':'); digests.setdefault((s, tol), {}).setdefault(h, []).append(p[0])
    for (s, tol), by in digests.items():
        if len(by) > 1: violations.append(dict(what=f'results depend on features that should not matter: with tolerance {tol}, variants {list(by.values())} returned different results', input=f'seed {s}: {by}', case=None, variant='main', sub='C27', seed=s, tier=tier))
    if errors and not violations: raise NoVerdict('; '.join(errors))
    if not violations and (total['evaluations'] == 0 or total['distinct'] == 0): raise NoVerdict('the monitors observed nothing')
    # findings already known, listed with the very thing that fails
    for finding in json.load(open(os.path.join(VERIF, 'known_findings.json')))['findings']:
        if finding['property'] == prop and any(k.endswith(finding['signature']) and n for k, n in total['counters'].items()):
            print(f"KNOWN-FINDING: property={prop} {finding['what']}")
    wall = time.time() - t0
    rule = RULES[prop]
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(wall, 2), violations=len(violations),
        coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=total['distinct'], rule=rule['rule'], samples=total['samples'][:8] or ['(none)'], observed=total['counters']),
        assumptions=rule['assumptions'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(VERIF, 'evidence', f'{prop}.json')
    with open(path + '.tmp', 'w') as f: json.dump(evidence, f, indent=1)
    os.replace(path + '.tmp', path)
    if not violations:
        print(f"OK property={prop} {total['evaluations']} evaluations, {total['distinct']} distinct situations, {wall:.0f}s")
        return 0
    os.makedirs(REPLAYS, exist_ok=True)
    for i, v in enumerate(violations[:3]):
        r = os.path.join(REPLAYS, f'{prop}-{seed}-{i}.json')
        with open(r, 'w') as f: json.dump(dict(property=prop, **v, replay=f'{VERIF}/check.py --replay {r}'), f, indent=1)
        print(f"VIOLATION property={prop} replay={r}")
        print(f"  {v['what']}\n  input: {v['input']}"[:3000])
    return 1

def replay(path):
    r = json.load(open(path))
    if r['variant'] in ('miri', 'tsan'):
        build('miri' if r['variant'] == 'miri' else 'ub_tsan')
        reps, size = r['tier'].split('x')
        v, _, note = ub_run(r['variant'], r['sub'], r['seed'], int(reps), int(size), 900, r['property'] == 'C31')
        if note: raise NoVerdict(note)
    else:
        build(r['variant'].partition(':')[0])
        os.makedirs(os.path.join(TARGET, 'run'), exist_ok=True)
        v, _ = monitor((r['variant'], r['sub']), r['seed'], r['tier'], r['case'])
    for x in v: print(f"{x['what']}\n  input: {x['input']}")
    print('reproduced' if v else 'NOT reproduced (the case depends on the interleaving, or the tree has changed)')
    return 1 if v else 0

def cleanup():
    STOP.set()
    for pid in list(CHILDREN):
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass

def main(a):
    if '--setup' in a: build_all(SETUP, 2); print('built'); return 0
    if '--replay' in a: return replay(a[a.index('--replay') + 1])
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    tier = opt('--tier', os.environ.get('VERIF_TIER') or 'quick')
    seed = int(opt('--seed', os.environ.get('VERIF_SEED') or '1'))
    return check(a[0], seed, tier)

if __name__ == '__main__':
    signal.signal(signal.SIGTERM, lambda *_: (cleanup(), os._exit(4)))
    try: rc = main(sys.argv[1:])
    except NoVerdict as e: print(f'NO VERDICT: {e}', file=sys.stderr); rc = 3
    except subprocess.TimeoutExpired as e: print(f'NO VERDICT: {e}', file=sys.stderr); rc = 3
    finally: cleanup()
    sys.exit(rc)
