"""Shared machinery of all checks.

A check module (checks/<pid>.py) contains one or more *properties*: functions
decorated with @prop that take one generated case (a JSON-able value drawn from a
Hypothesis strategy) and a Ctx.  The function drives the real dedop code with that
case and compares it with an explicit oracle through ctx.require / ctx.close.

Outcomes of a case
  * returns normally            -> the property held on that case
  * raises Violation            -> the oracle disagreed
  * raises any other exception whose traceback reaches into the code under test
                                -> the code failed on an input it has to accept
  * any other exception         -> an error of this machinery: exit 2, no VIOLATION

Every random choice is made by Hypothesis, seeded from VERIF_SEED, so a run is a
pure function of the code and the seed.  A failing case is shrunk by Hypothesis,
written as a JSON replay file and re-run once without Hypothesis to confirm it.
"""
import contextlib
import hashlib
import importlib
import io
import json
import math
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """the oracle and the code under test disagree"""


class HarnessError(Exception):
    """something is wrong with the check itself"""


class Stop(BaseException):
    """leave Hypothesis (time budget or shrink budget used up)"""


class Stuck(BaseException):
    """a case has used far more processor time than any case needs"""


CASE_CPU = 90.0         # seconds of processor time; the slowest case of any check takes a few
CASE_WALL = 300.0       # and of time, for one that waits for something that never happens
MEMORY = 5 << 30        # bytes a process running cases may allocate


def _stuck(signum, frame):
    raise Stuck()


def off():
    signal.setitimer(signal.ITIMER_PROF, 0)
    signal.setitimer(signal.ITIMER_REAL, 0)


class Ctx:
    """what a property function uses to talk to the harness"""

    def __init__(self, run):
        self._run = run
        self._labels = set()
        self.nontrivial = False
        self._tmp = None

    def label(self, *names):
        self._labels.update(str(n) for n in names)

    def mark(self, cond=True):
        """declare the case non-trivial (by the rule stated with the property)"""
        if cond:
            self.nontrivial = True

    def fail(self, msg, *args):
        raise Violation(msg % args if args else msg)

    def require(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def equal(self, actual, expected, what):
        if not (type(actual) == type(expected) or not isinstance(expected, str)) or not _eq(actual, expected):
            raise Violation('%s: got %s, expected %s' % (what, short(actual), short(expected)))

    def close(self, actual, expected, what, rtol=1e-9, atol=0.0, equal_nan=True):
        import numpy as np
        try:
            a = np.asarray(actual)
            if a.dtype == object:
                a = a.astype(complex)
        except (TypeError, ValueError) as e:
            raise Violation('%s: value %s is not numeric (%s)' % (what, short(actual), e))
        e = np.asarray(expected)
        if a.shape != e.shape:
            if a.size == e.size and (a.ndim == 0 or e.ndim == 0):
                a = a.reshape(e.shape)
            else:
                raise Violation('%s: shape %s, expected %s' % (what, a.shape, e.shape))
        with np.errstate(all='ignore'):
            ok = np.isclose(a, e, rtol=rtol, atol=atol, equal_nan=equal_nan)
        if not np.all(ok):
            bad = np.argwhere(~ok)
            i = tuple(bad[0])
            av = a[i] if a.ndim else a[()]
            ev = e[i] if e.ndim else e[()]
            raise Violation('%s: got %r, expected %r at %s (%d of %d values differ)' % (
                what, av.item() if hasattr(av, 'item') else av, ev.item() if hasattr(ev, 'item') else ev,
                list(map(int, i)), len(bad), a.size))

    def tmpdir(self):
        """a scratch directory that disappears with the case"""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case-', dir=os.environ['TMPDIR'])
        return self._tmp

    def raises(self, exc_types, func, what):
        """func() must raise one of exc_types; returns the exception"""
        try:
            result = func()
        except exc_types as e:
            return e
        raise Violation('%s: expected %s, but the call returned %s' % (
            what, '/'.join(t.__name__ for t in (exc_types if isinstance(exc_types, tuple) else (exc_types,))),
            short(result)))

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, True)


def _eq(a, b):
    try:
        r = a == b
        if hasattr(r, 'all'):
            import numpy as np
            return np.shape(a) == np.shape(b) and bool(r.all())
        if r:
            return True
        if isinstance(a, float) and isinstance(b, float):
            return math.isnan(a) and math.isnan(b)
        return bool(r)
    except Exception:
        return False


def short(value, limit=300):
    r = repr(value)
    return r if len(r) <= limit else r[:limit] + '...'


class Prop:
    def __init__(self, func, name, strategy, quick, thorough, rule, shards, weight):
        self.func = func
        self.name = name
        self.strategy = strategy
        self.examples = {'quick': quick, 'thorough': thorough}
        self.rule = rule
        self.shards = shards


def prop(strategy, quick=200, thorough=None, rule='every case', name=None, shards=(1, 8), weight=1.0):
    """declare a property; `strategy` may be a Hypothesis strategy or a function returning one"""

    def deco(func):
        return Prop(func, name or func.__name__, strategy, quick,
                    thorough if thorough is not None else quick * 20, rule, shards, weight)

    return deco


def load(pid):
    # pid C01 -> module checks.c01
    module = importlib.import_module('checks.' + pid.lower())
    props = [p for p in vars(module).values() if isinstance(p, Prop)]
    only = os.environ.get('VERIF_ONLY')
    if only:
        props = [p for p in props if p.name in only.split(',')]
    if not props:
        raise HarnessError('no properties in checks.' + pid.lower())
    return module, props


def reaches_code_under_test(tb):
    root = os.path.join(REPO, 'dedop') + os.sep
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(root):
            return True
        tb = tb.tb_next
    return False


def where(exc):
    last = ''
    root = os.path.join(REPO, 'dedop') + os.sep
    for fs in traceback.extract_tb(exc.__traceback__):
        if fs.filename.startswith(root):
            last = ' in %s (%s)' % (fs.name, os.path.relpath(fs.filename, REPO))
    return last


def describe(exc):
    last = where(exc)
    text = str(exc)
    child = getattr(exc, 'child', None)
    if child is not None:
        text += ' <- %s: %s' % (type(child).__name__, child)
    return '%s: %s%s' % (type(exc).__name__, short(text), last)


class Run:
    """one (shard of a) property run"""

    def __init__(self, p, seed, max_examples, budget, shrink_budget):
        self.p = p
        self.seed = seed
        self.max_examples = max_examples
        self.budget = budget
        self.shrink_budget = shrink_budget
        self.evaluations = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.failure = None     # (case, message)
        self.first_failure_at = None
        self.harness_error = None
        self.t0 = time.time()
        self.truncated = False
        self.slowest = 0.0

    def execute(self, case):
        """run one case; returns None or the violation message"""
        ctx = Ctx(self)
        out = io.StringIO()
        t0 = time.process_time()
        before = [(n, signal.signal(n, _stuck)) for n in (signal.SIGPROF, signal.SIGALRM)]
        try:
            # (again and again, in case the code under test swallows it)
            signal.setitimer(signal.ITIMER_PROF, CASE_CPU, 1.0)
            signal.setitimer(signal.ITIMER_REAL, CASE_WALL, 1.0)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                    import numpy as np
                    with np.errstate(all='ignore'):
                        self.p.func(case, ctx)
            return None, ctx
        except Violation as e:
            return str(e), ctx
        except Stuck as e:
            off()
            if reaches_code_under_test(e.__traceback__):
                self.shrink_budget = 0
                return 'the code did not finish in %d s%s' % (CASE_CPU, where(e)), ctx
            raise HarnessError('the case did not finish in %d s' % CASE_CPU)
        except Exception as e:
            if type(e).__module__.split('.')[0] == 'hypothesis':
                raise
            if reaches_code_under_test(e.__traceback__):
                if os.environ.get('VERIF_DEBUG'):
                    traceback.print_exc()
                return 'the code raised ' + describe(e), ctx
            raise
        finally:
            off()
            for n, handler in before:
                signal.signal(n, handler)
            self.slowest = max(self.slowest, time.process_time() - t0)
            ctx.cleanup()

    def go(self):
        import hypothesis
        from hypothesis import given, settings, HealthCheck, Phase

        strategy = self.p.strategy() if callable(self.p.strategy) else self.p.strategy

        def body(case):
            now = time.time()
            if self.first_failure_at is not None:
                if now - self.first_failure_at > self.shrink_budget:
                    raise Stop()
            elif now - self.t0 > self.budget:
                self.truncated = True
                raise Stop()
            try:
                msg, ctx = self.execute(case)
            except Exception as e:
                if type(e).__module__.split('.')[0] == 'hypothesis':
                    raise
                self.harness_error = 'case %s\n%s' % (short(case, 2000), traceback.format_exc())
                raise Stop()
            if self.failure is None:
                self.evaluations += 1
                for name in ctx._labels:
                    self.labels[name] = self.labels.get(name, 0) + 1
                if ctx.nontrivial:
                    h = case_hash(case)
                    if h not in self.hashes:
                        self.hashes.add(h)
                        n = len(self.hashes)
                        if n <= 2 or (n & (n - 1)) == 0:
                            self.samples.append(json.loads(dump(case)))
            if msg is not None:
                if self.first_failure_at is None:
                    self.first_failure_at = time.time()
                if self.failure is None or len(dump(case)) <= len(dump(self.failure[0])):
                    self.failure = (json.loads(dump(case)), msg)
                raise Violation(msg)

        test = hypothesis.seed(self.seed)(settings(
            max_examples=self.max_examples, database=None, deadline=None, print_blob=False,
            suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
            phases=(Phase.generate, Phase.shrink))(given(strategy)(body)))
        sink = io.StringIO()
        try:
            with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
                test()
        except Stop:
            pass
        except BaseException:
            if self.failure is None and self.harness_error is None:
                self.harness_error = traceback.format_exc()

    def result(self):
        return {
            'name': self.p.name, 'evaluations': self.evaluations, 'hashes': sorted(self.hashes),
            'labels': self.labels, 'samples': self.samples[-3:], 'failure': self.failure,
            'harness_error': self.harness_error, 'truncated': self.truncated, 'slowest': self.slowest,
            'wall_s': time.time() - self.t0,
        }


def _default(o):
    import numpy as np
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    if isinstance(o, bytes):
        return {'__bytes__': o.hex()}
    raise TypeError(type(o))


def dump(case):
    return json.dumps(case, sort_keys=True, default=_default)


def case_hash(case):
    return hashlib.sha1(dump(case).encode()).hexdigest()[:16]


# ---------------------------------------------------------------------------------------------------------------

def derive_seed(base, name, shard):
    h = hashlib.sha256(('%d/%s/%d' % (base, name, shard)).encode()).digest()
    return int.from_bytes(h[:6], 'big') + 1


def run_shard(args):
    """child process: one property, one shard; prints a JSON result on fd 1"""
    pid, name, seed, n, budget, shrink = args[0], args[1], int(args[2]), int(args[3]), float(args[4]), float(args[5])
    _, props = load(pid)
    p = [q for q in props if q.name == name][0]
    r = Run(p, seed, n, budget, shrink)
    r.go()
    with open(args[6], 'w') as f:
        json.dump(r.result(), f, default=_default)
    return 0


def main(argv):
    resource.setrlimit(resource.RLIMIT_DATA, (MEMORY, resource.getrlimit(resource.RLIMIT_DATA)[1]))
    if argv and argv[0] == '--shard':
        return run_shard(argv[1:])
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    replay = None
    i = 1
    while i < len(argv):
        if argv[i] == '--tier':
            tier = argv[i + 1]
            i += 2
        elif argv[i] == '--replay':
            replay = argv[i + 1]
            i += 2
        else:
            raise SystemExit('unknown argument ' + argv[i])
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import dedop
    where = os.path.dirname(os.path.abspath(dedop.__file__))
    if where != os.path.join(REPO, 'dedop'):
        print('error: dedop imported from %s' % where)
        return 2
    try:
        module, props = load(pid)
    except Exception:
        # the imports of a check reach only public modules: an import that fails inside dedop itself is a build error
        traceback.print_exc()
        return 2

    if replay:
        return do_replay(pid, props, replay)

    scale = float(os.environ.get('VERIF_SCALE', '1'))
    jobs = []
    budget = 240.0 if tier == 'quick' else 3000.0
    shrink = float(os.environ.get('VERIF_SHRINK', 40.0 if tier == 'quick' else 200.0))
    workdir = os.environ['VERIF_WORK']
    for p in props:
        n = max(1, int(p.examples[tier] * scale))
        shards = p.shards[0 if tier == 'quick' else 1]
        shards = max(1, min(shards, n))
        for s in range(shards):
            k = n // shards + (1 if s < n % shards else 0)
            jobs.append((p, s, derive_seed(seed, p.name, s), k))
    results = run_jobs(pid, jobs, budget, shrink, workdir)

    rc = 0
    merged = {}
    for p in props:
        merged[p.name] = {'evaluations': 0, 'hashes': set(), 'labels': {}, 'samples': [], 'rule': p.rule,
                          'truncated': False, 'slowest': 0.0}
    failures = []
    errors = []
    for (p, s, sd, k), res in zip(jobs, results):
        if res is None:
            errors.append('%s shard %d: no result' % (p.name, s))
            continue
        m = merged[p.name]
        m['evaluations'] += res['evaluations']
        m['hashes'].update(res['hashes'])
        for a, b in res['labels'].items():
            m['labels'][a] = m['labels'].get(a, 0) + b
        m['samples'].extend(res['samples'][:max(1, 3 // max(1, p.shards[0]))])
        m['truncated'] |= res['truncated']
        m['slowest'] = max(m['slowest'], res['slowest'])
        if res['harness_error']:
            errors.append('%s: %s' % (p.name, res['harness_error']))
        if res['failure']:
            failures.append((p, res['failure']))

    reported = set()
    known = 0
    for p, (case, msg) in failures:
        if p.name in reported:
            continue
        # confirm outside Hypothesis, from the saved JSON, before saying anything
        fresh = Run(p, 0, 1, 0, 0)
        try:
            again, _ = fresh.execute(json.loads(dump(case)))
        except Exception:
            errors.append('%s: replay of %s raised\n%s' % (p.name, short(case), traceback.format_exc()))
            continue
        if again is None:
            errors.append('%s: failure did not reproduce from its replay: %s (%s)' % (p.name, msg, short(case, 1500)))
            continue
        reported.add(p.name)
        path = write_replay(pid, p.name, case, again, seed, tier)
        print('%s: %s' % (p.name, again))
        print('  case: %s' % short(case, 1500))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1

    # findings recorded (not repaired): the module reproduces each against the real code
    for line in known_lines(pid, module):
        print(line)
        known += 1

    wall = time.time() - t0
    write_evidence(pid, tier, seed, merged, props, wall, len(reported), known, module)
    for name in merged:
        m = merged[name]
        print('%s: %d cases, %d distinct non-trivial%s' % (
            name, m['evaluations'], len(m['hashes']), ' (time budget reached)' if m['truncated'] else ''))
    if rc == 0 and errors:
        for e in errors:
            print('harness error: ' + e)
        return 2
    for e in errors:
        print('note (harness error in another property): ' + e[:2000])
    return rc


def run_jobs(pid, jobs, budget, shrink, workdir):
    results = [None] * len(jobs)
    outs = [os.path.join(workdir, 'result-%d.json' % i) for i in range(len(jobs))]
    limit = int(os.environ.get('VERIF_SHARDS', '0')) or os.cpu_count() or 4
    limit = min(limit, 8)
    if len(jobs) == 1:
        p, s, sd, k = jobs[0]
        r = Run(p, sd, k, budget, shrink)
        r.go()
        return [json.loads(json.dumps(r.result(), default=_default))]
    pending = list(range(len(jobs)))
    # long jobs first
    pending.sort(key=lambda i: -jobs[i][3])
    running = {}
    logs = {}
    while pending or running:
        while pending and len(running) < limit:
            i = pending.pop(0)
            p, s, sd, k = jobs[i]
            logs[i] = open(os.path.join(workdir, 'log-%d.txt' % i), 'w')
            running[i] = subprocess.Popen(
                [sys.executable, '-B', os.path.join(VERIF, 'run.py'), '--shard', pid, p.name, str(sd), str(k),
                 str(budget), str(shrink), outs[i]], stdout=logs[i], stderr=logs[i])
        time.sleep(0.05)
        for i in list(running):
            if running[i].poll() is not None:
                del running[i]
                logs[i].close()
                if os.path.exists(outs[i]):
                    with open(outs[i]) as f:
                        results[i] = json.load(f)
                else:
                    with open(os.path.join(workdir, 'log-%d.txt' % i)) as f:
                        print('shard %s failed:\n%s' % (jobs[i][0].name, f.read()[-3000:]))
    return results


def do_replay(pid, props, path):
    with open(path) as f:
        data = json.load(f)
    p = [q for q in props if q.name == data['check']][0]
    msg, _ = Run(p, 0, 1, 0, 0).execute(data['case'])
    if msg is None:
        print('replay %s: the property holds on this case' % path)
        return 0
    print('%s: %s' % (p.name, msg))
    print('VIOLATION property=%s replay=%s' % (pid, path))
    return 1


def write_replay(pid, name, case, msg, seed, tier):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (pid, name))
    with open(path, 'w') as f:
        json.dump({'property': pid, 'check': name, 'message': msg, 'seed': seed, 'tier': tier,
                   'replay_with': 'python3 run.py %s --replay %s' % (pid, path),
                   'case': json.loads(dump(case))}, f, indent=1)
    return path


def known_lines(pid, module):
    """KNOWN-FINDING lines for findings of this property listed in known_findings.json"""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return
    with open(path) as f:
        entries = json.load(f)['findings']
    for e in entries:
        if e['property'] != pid:
            continue
        probe = getattr(module, e['probe'])
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            still = probe()
        if still:
            yield 'KNOWN-FINDING: property=%s %s' % (pid, e['what'])


def write_evidence(pid, tier, seed, merged, props, wall, violations, known, module):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    samples = []
    for p in props:
        for s in merged[p.name]['samples'][:2]:
            samples.append({'check': p.name, 'case': shrink_sample(s)})
    evidence = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(m['evaluations'] for m in merged.values()),
            'distinct_nontrivial': sum(len(m['hashes']) for m in merged.values()),
            'rule': ' | '.join('%s: %s' % (p.name, p.rule) for p in props),
            'samples': samples,
            'per_check': {n: {'evaluations': m['evaluations'], 'distinct_nontrivial': len(m['hashes']),
                              'labels': dict(sorted(m['labels'].items())), 'truncated': m['truncated'], 'slowest_case_cpu_s': round(m['slowest'], 2)}
                          for n, m in merged.items()},
            'known_findings': known,
        },
        'assumptions': list(getattr(module, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': violations,
    }
    tmp = os.path.join(d, '.%s.json.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(evidence, f, indent=1, default=_default)
    os.replace(tmp, os.path.join(d, '%s.json' % pid))


def shrink_sample(s):
    text = dump(s)
    return s if len(text) < 3000 else text[:3000] + '...'
