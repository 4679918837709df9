#!/usr/bin/env python3
"""Decides one property of email-parser by running the real code under monitors.

    check.py <property> [quick|thorough]     run the check (VERIF_SEED, VERIF_TIER are honoured)
    check.py replay <file>                   run again the case of a violation

Everything is rebuilt from /repo's working tree into /verif/target (ignored by git)."""
import json, os, resource, shutil, signal, struct, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(VERIF, 'target')
sys.path.insert(0, os.path.join(VERIF, 'tools'))

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORES = os.cpu_count() or 4

# variant -> (cargo features, profile, toolchain, RUSTFLAGS, more)
VARIANTS = {
    'full': ('full,world', 'chk', None, '', {}),
    'dflt': ('dflt,world', 'chk', None, '', {}),
    'compat': ('fullc', 'chk', None, '', {}),
    'dbg': ('full', 'dbg', None, '', {}),
    'rel': ('full', 'release', None, '', {}),
    # the library counts the edges of its control flow
    'cov': ('full,cov', 'chk', None, '', {'wrapper': True}),
    'asan': ('full', 'asan', 'nightly', '-Zsanitizer=address', {'std': True}),
    'msan': ('full', 'asan', 'nightly', '-Zsanitizer=memory -Zsanitizer-memory-track-origins', {'std': True}),
    'tsan': ('full', 'asan', 'nightly', '-Zsanitizer=thread', {'std': True}),
}
SANITIZER_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=1',
    'MSAN_OPTIONS': 'abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1',
    'VH_BOX': '1',
}

RULE = ('cases are generated from the seed by the grammar-directed generator, the growth dimensions and the enumerations '
        'of the harness; a case is non-trivial when the oracle states an expectation for it; distinct counts different inputs')

# property -> what to run: (variant, share of the processes)
PLANS = {}
for p in 'C04 C05 C06 C07 C08 C10 C12 C13 C15 C16 C17 C20 C22 C23'.split():
    PLANS[p] = [('full', 8)]
for p in 'C09 C11 C14 C19'.split():
    PLANS[p] = [('full', 6), ('dflt', 2)]
PLANS['C02'] = [('full', 3), ('rel', 2), ('dflt', 1), ('dbg', 2)]
PLANS['C21'] = [('full', 4), ('dflt', 1), ('rel', 1), ('tsan', 2)]

# a process that dies is a violation of the property itself, except where the workload is about refusing inputs
DEATH_LEFT_TO_C02 = {'C20'}


class Run:
    """What a check found."""

    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        # the features of the variants that are not in VARIANTS
        self.features = {}
        self.evaluations = 0
        self.hashes = set()
        self.events = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.known = {}
        self.complete = {}
        self.notes = []
        self.extra = {}

        self.suspects = []

    def event(self, k, n=1):
        self.events[k] = self.events.get(k, 0) + n

    def merge(self, name, d, hashes, total):
        self.evaluations += d['evaluations']
        self.hashes |= hashes
        for k, v in d['events'].items():
            self.event(f'{name}: {k}', v)
        for k, v in d['known'].items():
            self.known[k] = self.known.get(k, 0) + v
        for s in d['samples']:
            if len(self.samples) < 24:
                self.samples.append(f'{name} {s[:1500]}')
        for v in d['violations']:
            v['variant'] = name
            self.violations.append(v)
        for i in d['inconclusive']:
            if len(self.inconclusive) < 20:
                self.inconclusive.append(f'{name} {i[:800]}')
        self.suspects += [(name, x) for x in d.get('suspects', [])]
        for s in d['complete']:
            k = f'{name}: {s}'
            self.complete[k] = self.complete.get(k, 0) + 1
            self.extra.setdefault('shards', {})[k] = total


def log(*a):
    print(*a, flush=True)


def build(variant, features=None, profile=None, tag=None):
    """Builds a variant of the harness against /repo's working tree. Returns (binary or None, compiler output)."""
    f, p, tc, flags, more = VARIANTS.get(variant, (features, 'chk', None, '', {}))
    f = features if features is not None else f
    p = profile or p
    target = os.path.join(TARGET, tag or variant)
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    cmd = ['cargo'] + ([f'+{tc}'] if tc else []) + ['build', '--offline', '--quiet', '--profile', p, '--no-default-features', '--features', f]
    if flags:
        env['RUSTFLAGS'] = flags + ' -Awarnings'
        cmd += ['--target', 'x86_64-unknown-linux-gnu']
    if more.get('std'):
        cmd += ['-Zbuild-std']
    if more.get('wrapper'):
        env['RUSTC_WRAPPER'] = os.path.join(VERIF, 'tools', 'covrustc')
    r = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    d = os.path.join(target, 'x86_64-unknown-linux-gnu') if flags else target
    b = os.path.join(d, 'debug' if p == 'dev' else p, 'vharness')
    if r.returncode != 0:
        return None, r.stdout
    return b, r.stdout


def mine():
    """Hints for the workloads: numbers and words of the source."""
    import mine as m
    out = os.path.join(TARGET, 'dict')
    subprocess.run([sys.executable, os.path.join(VERIF, 'tools', 'mine.py'), os.path.join(REPO, 'email-parser', 'src'), out], check=True)
    return out


def limits(cpu, mem):
    def f():
        os.setsid()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    return f


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()


def job(variant, binary, n):
    """How to run n processes of a variant."""
    sanitized = variant in ('asan', 'msan', 'tsan')
    return {'name': variant, 'cmd': [binary], 'n': n, 'env': SANITIZER_ENV if sanitized else {}, 'mem': 0 if sanitized else 3 << 30, 'cwd': None, 'slack': 75}


def run_shards(run, jobs, secs, dictionary, extra_args=(), prop=None):
    """Runs the workload of the property in all the processes of the jobs."""
    prop = prop or run.prop
    work = os.path.join(TARGET, 'work', run.prop)
    os.makedirs(work, exist_ok=True)
    procs = []
    for j in jobs:
        for i in range(j['n']):
            base = os.path.join(work, f'{j["name"]}-{i}')
            for e in ('.json', '.json.hashes', '.cur', '.again.json'):
                if os.path.exists(base + e):
                    os.remove(base + e)
            args = j['cmd'] + [prop, '--seed', str(SEED), '--shard', str(i), '--shards', str(j['n']), '--secs', str(secs), '--tier', run.tier,
                               '--out', base + '.json', '--cur', base + '.cur', '--dict', dictionary] + list(extra_args)
            p = subprocess.Popen(args, stdout=open(base + '.log', 'w'), stderr=subprocess.STDOUT, env=dict(os.environ, **j['env']), cwd=j['cwd'],
                                 preexec_fn=limits(int(secs * 3 + 120 + j['slack']), j['mem']))
            procs.append((j, i, base, p))
    start = time.time()
    for j, i, base, p in procs:
        try:
            rc = p.wait(max(0.1, start + secs + j['slack'] - time.time()))
        except subprocess.TimeoutExpired:
            kill(p)
            rc = 'timeout'
        out = None
        if rc in (0, 1):
            try:
                out = json.load(open(base + '.json'))
            except (OSError, ValueError):
                pass
        if out is not None:
            h = open(base + '.json.hashes', 'rb').read()
            run.merge(j['name'], out, set(struct.unpack(f'<{len(h) // 8}Q', h)), j['n'])
            continue
        death(run, j, prop, base, rc, dictionary, extra_args)


def death(run, j, prop, base, rc, dictionary, extra_args):
    """A process died or did not end: runs its last case alone, to find out whether the library is the reason."""
    name = j['name']
    try:
        b = open(base + '.cur', 'rb').read()
        case, sub = struct.unpack('<Q', b[:8])[0], b[8:].rstrip(b'\0').decode()
    except (OSError, struct.error, UnicodeDecodeError):
        text = open(base + '.log', errors='replace').read()[-1500:]
        run.notes.append(f'{name}: a process ended with {rc} before its first case: {text}')
        run.event('processes lost', 1)
        return
    run.event(f'{name}: processes that died', 1)
    if sum(v['what'].startswith('no answer') for v in run.violations) >= 2:
        # more of the same takes long
        return
    if os.path.exists(base + '.again.json'):
        os.remove(base + '.again.json')
    args = j['cmd'] + [prop, '--seed', str(SEED), '--only', f'{sub}:{case}', '--dict', dictionary, '--tier', run.tier, '--out', base + '.again.json'] + list(extra_args)
    p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, **j['env']), cwd=j['cwd'], preexec_fn=limits(60 + j['slack'], j['mem']))
    try:
        text, _ = p.communicate(timeout=75 + j['slack'])
        again = p.returncode
    except subprocess.TimeoutExpired:
        kill(p)
        text, again = b'', 'timeout'
    if again in (0, 1) and os.path.exists(base + '.again.json'):
        out = json.load(open(base + '.again.json'))
        if again == 1:
            run.merge(name, out, set(), 1)
            return
        # with what came before: the process alone decides whether that matters
        run.notes.append(f'{name}: a process ended with {rc} in {sub}#{case}, which passes alone: not counted')
        return
    text = text.decode('utf8', 'replace')
    tail = [l.strip() for l in text.split('\n') if any(w in l for w in ('ERROR', 'error:', 'SUMMARY', 'overflow', 'panick', 'abort', 'Undefined', 'WARNING', 'Invalid', 'uninitialised'))][:6]
    what = f'no answer: the process ended with {again} ({"; ".join(tail) or "no message"})'
    if run.prop in DEATH_LEFT_TO_C02:
        run.notes.append(f'{name}: {sub}#{case}: {what} (left to C02)')
        run.inconclusive.append(f'{name} {sub}#{case}: {what}')
        return
    run.violations.append({'variant': name, 'sub': sub, 'case': case, 'what': what, 'input': '', 'text': '', 'args': list(extra_args)})


def known_findings(prop):
    """The findings listed in known-findings.txt for a property: {signature: description}."""
    out = {}
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            l = l.strip()
            if l.startswith('finding: '):
                f = dict(x.split('=', 1) for x in l[len('finding: '):].split(' ', 2)[:2])
                if f.get('property') == prop:
                    out[f['signature']] = l.split(' ', 3)[3]
    except OSError:
        pass
    return out


def finish(run, start, level, exhaustive=False, rule=RULE, assumptions=()):
    known = known_findings(run.prop)
    # what is listed is known; anything else is a violation
    for k in sorted(run.known):
        if k in known:
            log(f'KNOWN-FINDING: property={run.prop} {k}: {known[k]} (seen {run.known[k]} times)')
        else:
            run.violations.append({'variant': '', 'sub': '', 'case': 0, 'what': f'finding {k} is not listed', 'input': '', 'text': ''})
    cov = {
        'evaluations': run.evaluations,
        'distinct_nontrivial': len(run.hashes),
        'rule': rule,
        'samples': run.samples[:24] or ['none'],
        'events': dict(sorted(run.events.items())),
        'enumerations_completed': sorted(k for k, v in run.complete.items() if v == run.extra.get('shards', {}).get(k)),
        'inconclusive': run.inconclusive,
        'notes': run.notes,
    }
    cov.update({k: v for k, v in run.extra.items() if k != 'shards'})
    if exhaustive:
        cov['exhaustive'] = True
    ev = {
        'property': run.prop,
        'tier': run.tier,
        'seed': SEED,
        'level': level,
        'coverage': cov,
        'assumptions': list(assumptions),
        'wall_s': round(time.time() - start, 2),
        'violations': len(run.violations),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', run.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
        f.write('\n')
    for n in run.notes:
        log('note:', n[:600])
    if run.inconclusive:
        log(f'inconclusive: {len(run.inconclusive)}, first: {run.inconclusive[0][:600]}')
    log(f'{run.prop} {run.tier}: {run.evaluations} evaluations, {len(run.hashes)} distinct, {len(run.violations)} violations, {ev["wall_s"]} s')
    if not run.violations:
        return 0
    replays = os.path.join(VERIF, 'replays')
    os.makedirs(replays, exist_ok=True)
    for i, v in enumerate(run.violations[:3]):
        path = os.path.join(replays, f'{run.prop}-{i}.json')
        with open(path, 'w') as f:
            json.dump({'property': run.prop, 'seed': SEED, 'tier': run.tier, 'features': run.features.get(v['variant']), **v}, f, indent=1)
        log(f'  {v["variant"]} {v["sub"]}#{v["case"]}: {v["what"][:1200]}')
        if v.get('text'):
            log(f'    input: {v["text"][:1200]}')
        log(f'VIOLATION property={run.prop} replay={path}')
    return 1


def seconds(tier, prop=None):
    s = {'quick': 24, 'thorough': 420}[tier]
    if prop == 'C16' and tier == 'quick':
        s = 45  # every short sequence of delimiter pieces
    return float(os.environ.get('VERIF_SECS', s))


def builds(run, names, required):
    """Builds variants in parallel. A variant that cannot be built is noted; a required one ends the check without an answer."""
    out, text = {}, {}

    def one(v):
        out[v], text[v] = build(v)
    ts = [threading.Thread(target=one, args=(v,)) for v in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for v in names:
        if out[v] is None:
            log(f'the harness does not build with the variant {v}:\n' + '\n'.join(text[v].split('\n')[-40:]))
            if v in required:
                sys.exit(2)
            run.notes.append(f'variant {v} does not build')
    return out


def plan_jobs(plan, bins):
    return [job(v, bins[v], max(1, n * CORES // 8)) for v, n in plan if bins.get(v)]


def generic(run):
    plan = PLANS[run.prop]
    names = [v for v, _ in plan]
    bins = builds(run, names, names[:1])
    d = mine()
    run_shards(run, plan_jobs(plan, bins), seconds(run.tier, run.prop), d)


# ---------------------------------------------------------------------------------------------------------------------
# C01: memory, under several sanitizers

MIRI_ENV = {
    'MIRIFLAGS': '-Zmiri-tree-borrows -Zmiri-disable-isolation',
    'MIRI_SYSROOT': os.path.join(TARGET, 'miri-sysroot'),
    'CARGO_TARGET_DIR': os.path.join(TARGET, 'miri'),
    'RUSTFLAGS': '-Awarnings',
}
MIRI = ['cargo', '+nightly', 'miri', 'run', '--quiet', '--offline', '--no-default-features', '--features', 'full', '--']


def miri_job(n):
    return {'name': 'miri', 'cmd': MIRI, 'n': n, 'env': MIRI_ENV, 'mem': 0, 'cwd': HARNESS, 'slack': 120}


def miri_build():
    """Prepares the interpreter; False when it cannot be used."""
    env = dict(os.environ, **MIRI_ENV)
    if not os.path.isdir(MIRI_ENV['MIRI_SYSROOT']):
        r = subprocess.run(['cargo', '+nightly', 'miri', 'setup'], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            return False, r.stdout
    empty = os.path.join(TARGET, 'empty')
    open(empty, 'w').close()
    r = subprocess.run(MIRI + ['C01', '--rounds', '1', '--secs', '1', '--feed', empty], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def corpus(run, binary, secs, dictionary):
    """Inputs that together take every edge of the library that the workloads take, as few and short as possible."""
    out = os.path.join(TARGET, 'corpus')

    def entries(path):
        b = open(path, 'rb').read()
        i, l = 0, []
        while i < len(b):
            n = struct.unpack('<I', b[i + 1:i + 5])[0]
            l.append(b[i:i + 5 + n])
            i += 5 + n
        return l

    base = [binary, 'CORPUS', '--seed', str(SEED), '--secs', str(secs), '--dict', dictionary, '--tier', run.tier]
    n = CORES
    ps = [subprocess.Popen(base + ['--corpus', f'{out}.{i}', '--shard', str(i), '--shards', str(n)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits(int(secs * 3 + 60), 3 << 30)) for i in range(n)]
    for p in ps:
        try:
            p.wait(secs + 60)
        except subprocess.TimeoutExpired:
            kill(p)
    l = []
    for i in range(n):
        if os.path.exists(f'{out}.{i}'):
            l += entries(f'{out}.{i}')
            os.remove(f'{out}.{i}')
    l.sort(key=lambda e: (len(e), e))
    with open(out + '.all', 'wb') as f:
        f.write(b''.join(l))
    try:
        r = subprocess.run(base + ['--feed', out + '.all', '--corpus', out + '.min', '--out', out + '.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=secs + 60)
    except subprocess.TimeoutExpired:
        return None
    if r.returncode != 0:
        return None
    d = json.load(open(out + '.json'))
    run.extra['edges of the library reached'] = d['events'].get('edges reached', 0)
    run.extra['edges of the library and its dependency'] = d['events'].get('edges in all', 0)
    l = entries(out + '.min')
    # in an order that does not depend on the length
    import random
    random.Random(SEED).shuffle(l)
    with open(out + '.min', 'wb') as f:
        f.write(b''.join(l))
    run.extra['inputs that cover them'] = len(l)
    return out + '.min'


def c01(run, start):
    quick = run.tier == 'quick'
    plan = [('full', 2), ('rel', 1), ('dflt', 1), ('asan', 2), ('msan', 1)] + ([] if quick else [('compat', 1)])
    ok = []
    t = threading.Thread(target=lambda: ok.append(miri_build()))
    t.start()
    bins = builds(run, [v for v, _ in plan] + ['cov'], ['full'])
    t.join()
    d = mine()
    secs = seconds(run.tier) * (1 if quick else 0.5)
    jobs = plan_jobs(plan, bins)
    if shutil.which('valgrind'):
        j = job('memcheck', bins['full'], 1)
        j['cmd'] = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', bins['full']]
        j['mem'] = 0
        jobs.append(j)
    else:
        run.notes.append('valgrind is not available')
    run_shards(run, jobs, secs, d)
    if run.violations:
        return finish(run, start, 'exploration')
    feed = corpus(run, bins['cov'], 6 if quick else 40, d) if bins['cov'] else None
    if feed and ok and ok[0][0]:
        run_shards(run, [miri_job(CORES)], 40 if quick else max(60, secs), d, ['--feed', feed])
    else:
        run.notes.append('Miri was not run: ' + (ok[0][1][-500:] if ok and not ok[0][0] else 'no inputs'))
    return finish(run, start, 'exploration')


# ---------------------------------------------------------------------------------------------------------------------
# C03: cost

def callgrind(binary, run, case, scale, dictionary, end):
    """Instructions executed by the library for one case (0: unknown)."""
    out = os.path.join(TARGET, 'work', f'callgrind-{case.replace(":", "-")}-{scale}')
    cmd = ['valgrind', '--tool=callgrind', f'--callgrind-out-file={out}', '--toggle-collect=vh_measured', binary, 'C03', '--seed', str(SEED), '--tier', run.tier,
           '--dict', dictionary, '--only', case, '--scale', str(scale)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=max(1, min(240, end - time.time())))
    except subprocess.TimeoutExpired:
        return 0, 0
    size = work = 0
    for l in r.stdout.split('\n'):
        if l.startswith('length '):
            size = int(l.split()[1])
        if 'Collected' in l:
            work = int(l.split(':')[1].split()[0])
    return size, work


def c03(run, start):
    bins = builds(run, ['cov', 'full'], ['full'])
    d = mine()
    plan = [('cov', 6), ('full', 2)] if bins['cov'] else [('full', 8)]
    run_shards(run, plan_jobs(plan, bins), seconds(run.tier, run.prop), d)
    # the suspects, several at once, for a limited time; one that is confirmed is enough
    cases = []
    for name, case in run.suspects:
        if case not in cases:
            cases.append(case)
    end = time.time() + (300 if run.tier == 'quick' else 1500)
    lock = threading.Lock()

    def worker():
        while True:
            with lock:
                if not cases or time.time() > end or run.violations:
                    return
                case = cases.pop(0)
            # the largest one can take very long when it is not linear
            m = [callgrind(bins['full'], run, case, k, d, end) for k in (1, 2, 8)]
            if all(w for _, w in m) and time.time() < end:
                big = callgrind(bins['full'], run, case, 32, d, min(end, time.time() + 90))
                if big[1]:
                    m = m[1:] + [big]
            with lock:
                run.event('suspects measured by counting instructions', 1)
                if any(w == 0 for _, w in m):
                    run.notes.append(f'{case}: could not be measured')
                    continue
                a, b, c = [w / n for n, w in m]
                text = f'{case}: (input size, instructions): {m}: {a:.1f}, {b:.1f} then {c:.1f} per byte'
                if c > 2.2 * a and b > 1.1 * a and c > 1.4 * b:
                    sub, n = case.split(':')
                    run.violations.append({'variant': 'full', 'sub': sub, 'case': int(n), 'what': 'the number of instructions is not linear: ' + text, 'input': '', 'text': ''})
                else:
                    run.notes.append('slow for its size, but linear: ' + text)
    if not run.violations:
        ts = [threading.Thread(target=worker) for _ in range(min(CORES, 6))]
        [t.start() for t in ts]
        [t.join() for t in ts]
    if cases:
        run.event('suspects left out', len(cases))
    return finish(run, start, 'exploration')


# ---------------------------------------------------------------------------------------------------------------------
# C18: configurations

HEADERS = 'to cc bcc date from sender reply-to message-id in-reply-to references subject comments keywords trace'.split()
OTHERS = 'mime content-disposition unrecognized-headers benchmarking compatibility-fixes'.split()
IMPLIES_MIME = {'content-disposition', 'unrecognized-headers', 'benchmarking'}


def configurations(n):
    """Sets of features such that every triple of features appears in the eight possible ways, when n is large enough."""
    import itertools
    import random
    r = random.Random(SEED * 1000 + 7)
    allf = HEADERS + OTHERS

    def close(s):
        return frozenset(s | ({'mime'} if s & IMPLIES_MIME else set()))

    def triples(s):
        return set(itertools.combinations([(f, f in s) for f in allf], 3))
    out = [frozenset(), close(set(allf) - {'compatibility-fixes'}), frozenset(HEADERS + ['compatibility-fixes']), frozenset(['mime'])]
    covered = set()
    for s in out:
        covered |= triples(s)
    while len(out) < n:
        best = max((close({f for f in allf if r.random() < r.choice([0.3, 0.5, 0.7])}) for _ in range(60)), key=lambda s: len(triples(s) - covered))
        covered |= triples(best)
        if best not in out:
            out.append(best)
    return out, len(covered)


def c18(run, start):
    import queue
    quick = run.tier == 'quick'
    chosen, triples = configurations(32 if quick else 64)
    run.event('states of three features that were run', triples)
    d = mine()
    # the library alone, in many more configurations
    import random
    r = random.Random(SEED)
    allf = HEADERS + OTHERS
    more = [frozenset([f]) for f in allf] + [frozenset(set(allf) - {f}) for f in allf] + [frozenset(set(HEADERS) - {f} | {'mime'}) for f in HEADERS]
    while len(more) < (90 if quick else 500):
        more.append(frozenset(f for f in allf if r.random() < 0.5))
    q = queue.Queue()
    for s in chosen:
        q.put(('build', s))
    for s in more:
        q.put(('check', s))
    lock = threading.Lock()
    bins = {}

    def worker(k):
        while True:
            try:
                kind, s = q.get_nowait()
            except queue.Empty:
                return
            f = ','.join(sorted(s))
            if kind == 'build':
                tag = f'cfg{chosen.index(s)}'
                b, text = build('', features=f, profile='dev', tag='cfg/' + tag)
                with lock:
                    if b is None:
                        bins[s] = None
                        compile_error(run, f, text, 'harness')
                    else:
                        bins[s] = b
            else:
                env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(TARGET, 'cfg', f'check{k}'), CARGO_NET_OFFLINE='true')
                env['RUSTFLAGS'] = '-Awarnings'
                p = subprocess.run(['cargo', 'check', '--offline', '--quiet', '--no-default-features', '--features', f], cwd=os.path.join(VERIF, 'probe'), env=env,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                with lock:
                    run.event('configurations compiled', 1)
                    if p.returncode != 0:
                        compile_error(run, f, p.stdout, 'library')
    ts = [threading.Thread(target=worker, args=(k,)) for k in range(CORES)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if all(b is None for b in bins.values()) or run.events.get('library builds that failed', 0) * 2 > len(more):
        log('the configurations cannot be built: ' + '; '.join(run.notes)[:2000])
        sys.exit(2)
    run.extra['configurations run'] = [','.join(sorted(s)) or 'none' for s in chosen if bins.get(s)]
    jobs = []
    for i, s in enumerate(chosen):
        if bins.get(s):
            j = job(f'cfg{i}', bins[s], 1)
            run.features[f'cfg{i}'] = ','.join(sorted(s))
            jobs.append(j)
    secs = seconds(run.tier)
    for k in range(0, len(jobs), CORES):
        run_shards(run, jobs[k:k + CORES], secs if quick else secs / 4, d)
    return finish(run, start, 'exploration')


def compile_error(run, features, text, what):
    """A configuration that does not compile is a violation when the library is at fault."""
    import re
    blocks = re.split(r'\n(?=(?:error|warning)\b)', '\n' + text)
    errors = [b.strip() for b in blocks if b.strip().startswith('error')]
    mine_ = [b for b in errors if 'email-parser/src' in b]
    if not mine_:
        # the harness or the tools: nothing is known about the library
        run.notes.append(f'the {what} does not build with the features {features or "none"}: {" ".join(errors)[:400] or text[-400:]}')
        run.event(f'{what} builds that failed', 1)
        return
    if sum(v['sub'] == 'build' for v in run.violations) < 5:
        run.violations.append({'variant': '', 'sub': 'build', 'case': 0, 'what': f'the library does not build with the features "{features}": {mine_[0][:600]}', 'input': '', 'text': ''})


# ---------------------------------------------------------------------------------------------------------------------
# C24: the compatibility fixes, against the same messages read without them

def records(path):
    """What a build read: {case: (no odd dots, is a message, hash of the input, hash of Email::parse, [(is unrecognized, hash)])}."""
    b = open(path, 'rb').read()
    out, i = {}, 0
    while i < len(b):
        n = struct.unpack_from('<I', b, i + 1)[0]
        r = b[i + 5:i + 5 + n]
        i += 5 + n
        case, plain, status, h, e = struct.unpack_from('<QBBQQ', r)
        out[case] = (plain, status, h, e, [struct.unpack_from('<BQ', r, k) for k in range(26, len(r), 9)])
    return out


def subsequence(a, b):
    it = iter(b)
    return all(x in it for x in a)


def compare_records(a, b):
    """None, or what is wrong with b (with the fixes) given a (without)."""
    if a[2] != b[2] or a[0] != b[0]:
        return ''
    if a[0]:
        if a[1:] != b[1:]:
            return 'a message where every dot is followed by an atom is read differently with and without the compatibility fixes'
        return None
    if a[1] and not b[1]:
        return 'a message that is understood without the compatibility fixes is refused with them'
    if not a[1]:
        # a message may be refused because a header is neither understood nor a plain text (its last line is blank, say)
        return None
    if not subsequence([f for f in a[4] if not f[0]], [f for f in b[4] if not f[0]]):
        return 'a header that is understood without the compatibility fixes is read differently with them'
    if not subsequence([f for f in b[4] if f[0]], [f for f in a[4] if f[0]]):
        return 'a header that is not understood is reported differently with the compatibility fixes'
    return None


def c24_pairs(run, bins, d, secs):
    n = CORES // 2 or 1
    work = os.path.join(TARGET, 'work', 'C24')
    os.makedirs(work, exist_ok=True)
    ps = []
    for v in ('full', 'compat'):
        for i in range(n):
            c = os.path.join(work, f'pairs-{v}-{i}')
            if os.path.exists(c):
                os.remove(c)
            ps.append(subprocess.Popen([bins[v], 'C24P', '--seed', str(SEED), '--shard', str(i), '--shards', str(n), '--secs', str(secs), '--rounds', '400000', '--tier', run.tier, '--dict', d,
                                        '--corpus', c, '--out', c + '.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits(int(secs * 3 + 60), 3 << 30)))
    for p in ps:
        try:
            p.wait(secs + 60)
        except subprocess.TimeoutExpired:
            kill(p)
    for i in range(n):
        try:
            a, b = (records(os.path.join(work, f'pairs-{v}-{i}')) for v in ('full', 'compat'))
        except (OSError, struct.error):
            run.notes.append(f'pairs: the records of the processes {i} are incomplete')
            continue
        for case in sorted(a.keys() & b.keys()):
            run.evaluations += 1
            run.hashes.add(a[case][2])
            run.event('pairs: compared, ' + ('without odd dots' if a[case][0] else 'with odd dots'))
            if not a[case][0] and a[case][4] != b[case][4]:
                run.event('pairs: with odd dots, read differently')
            what = compare_records(a[case], b[case])
            if what == '':
                run.event('pairs: not the same input')
            elif what and sum(v['variant'] == 'pairs' for v in run.violations) < 5:
                run.violations.append({'variant': 'pairs', 'sub': 'pairs', 'case': case, 'what': what, 'input': '', 'text': ''})


def c24(run, start):
    bins = builds(run, ['full', 'compat'], ['full', 'compat'])
    d = mine()
    secs = seconds(run.tier)
    run_shards(run, plan_jobs([('compat', 6), ('full', 2)], bins), secs * 0.7, d)
    if run.violations:
        return finish(run, start, 'exploration')
    c24_pairs(run, bins, d, secs * 0.3)
    return finish(run, start, 'exploration')


def c24_replay(r):
    bins = {v: build(v)[0] for v in ('full', 'compat')}
    d = mine()
    got = []
    for v in ('full', 'compat'):
        c = os.path.join(TARGET, f'replay-{v}')
        print(v, flush=True)
        subprocess.run([bins[v], 'C24P', '--seed', str(r['seed']), '--tier', r['tier'], '--only', f'pairs:{r["case"]}', '--dict', d, '--corpus', c])
        got.append(records(c)[r['case']])
    what = compare_records(*got)
    print(what or 'no difference')
    return int(bool(what))


SPECIAL = {'C01': c01, 'C03': c03, 'C18': c18, 'C24': c24}


def replay(path):
    r = json.load(open(path))
    os.environ['VERIF_SEED'] = str(r['seed'])
    v = r['variant'] if r['variant'] in VARIANTS else 'full'
    os.makedirs(TARGET, exist_ok=True)
    if r['variant'] == 'pairs':
        return c24_replay(r)
    if r.get('features') is not None:
        b, text = build('', features=r['features'], profile='dev', tag='cfg/replay')
    else:
        b, text = build(v)
    if b is None:
        print(text)
        return 2
    d = mine()
    args = (['valgrind', '-q', '--error-exitcode=99'] if r['variant'] == 'memcheck' else []) + [b, r['property'], '--seed', str(r['seed']), '--tier', r['tier'], '--only', f'{r["sub"]}:{r["case"]}', '--dict', d] + r.get('args', [])
    return int(subprocess.run(args, env=dict(os.environ, **(SANITIZER_ENV if v.endswith('san') else {}))).returncode != 0)


def main():
    if sys.argv[1] == 'replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    start = time.time()
    os.makedirs(TARGET, exist_ok=True)
    run = Run(prop, tier)
    if prop in SPECIAL:
        return SPECIAL[prop](run, start)
    generic(run)
    return finish(run, start, 'exploration')


if __name__ == '__main__':
    sys.exit(main())
