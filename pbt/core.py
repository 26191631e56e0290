"""Case runner: drives generated inputs through an oracle, shrinks, re-verifies, reports.

A *subtest* is a pair (strategy of JSON-able cases, check(case, ctx)).  check() raises on
disagreement with the oracle; every exception that leaves check() is a failure of the property
except HarnessError.  The deciding search is done by Hypothesis in several forked worker
processes; every source of randomness is a function of VERIF_SEED and of the case itself.
"""
import hashlib
import json
import mmap
import os
import random
import resource
import signal
import sys
import time
import traceback
import zlib

import boot


class HarnessError(Exception):
    """The harness could not do its job; says nothing about the property."""


class Violation(AssertionError):
    """The oracle disagrees with the code under test."""


class NonTermination(Exception):
    """A case burned CPU_LIMIT seconds of CPU time."""


class _StopShrinking(KeyboardInterrupt):
    pass


CPU_LIMIT = float(os.environ.get('PBT_CPU_LIMIT', '60'))
QUICK = 2.5             # the quick tier runs this many times the cases the subtests name
SHRINK_SECONDS = float(os.environ.get('PBT_SHRINK_SECONDS', '30'))


def require(cond, msg='', *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx:
    """Per-case observations (classification of what the generator produced)."""
    __slots__ = ('labels', 'nontrivial')

    def __init__(self):
        self.labels = []
        self.nontrivial = False

    def label(self, *names):
        self.labels.extend(names)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True


class Subtest:
    def __init__(self, name, strategy, check, quick, thorough=None, shards=None, explicit=(),
                 rule=''):
        self.name = name
        self.strategy = strategy      # function tier -> strategy
        self.check = check            # function (case, ctx)
        self.n = {'quick': quick, 'thorough': thorough if thorough is not None else quick * 20}
        self.shards = shards
        self.explicit = list(explicit)
        self.rule = rule


def case_json(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def _alarm(signum, frame):
    raise NonTermination(f'the case did not finish within {CPU_LIMIT:.0f} s of CPU time')


def run_case(sub, case, ctx=None):
    """Run one case from a clean, case-determined random state."""
    ctx = ctx or Ctx()
    seed = zlib.crc32(case_json(case).encode())
    random.seed(seed)
    try:
        import numpy as np
        np.random.seed(seed)
    except ImportError:
        pass
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT, 1)       # again, should a callback swallow it
    try:
        sub.check(json.loads(case_json(case)), ctx)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    return ctx


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f'{os.path.relpath(f.filename, boot.REPO)}:{f.lineno}' for f in tb
             if f.filename.startswith(boot.REPO + '/')]
    s = f'{type(exc).__name__}: {exc}'
    if len(s) > 1500:
        s = s[:1500] + '...'
    if where:
        s += f'  [at {where[-1]}]'
    return s


def derive_seed(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], 'big')


class CaseRecord:
    """The case a worker is in, in memory it shares with its parent: outlives the worker."""
    SIZE = 1 << 21

    def __init__(self):
        self.map = mmap.mmap(-1, self.SIZE)

    def set(self, js):
        data = js.encode()
        self.map[:8] = bytes(8)
        if len(data) <= self.SIZE - 8:
            self.map[8:8 + len(data)] = data
            self.map[:8] = len(data).to_bytes(8, 'little')

    def get(self):
        n = int.from_bytes(self.map[:8], 'little')
        return json.loads(bytes(self.map[8:8 + n])) if n else None


# Signals the code under test can only have brought on itself (SIGKILL is the sandbox's)
CRASHES = {-int(getattr(signal, s)): s
           for s in ('SIGSEGV', 'SIGBUS', 'SIGFPE', 'SIGILL', 'SIGABRT')}


def crashes(fn, *args, times=1):
    """Does fn(*args) end a forked process with such a signal?  The signal's name, or None."""
    import multiprocessing as mp

    def quiet():
        sys.stdout = sys.stderr = open(os.devnull, 'w')
        try:
            fn(*args)
        except BaseException:  # noqa: B902 - not a crash
            pass
        finally:
            os._exit(0)
    for _ in range(times):
        p = mp.get_context('fork').Process(target=quiet)
        p.start()
        p.join()
        if p.exitcode in CRASHES:
            return CRASHES[p.exitcode]
    return None


def run_shard(sub, tier, seed, shard, n, run_explicit, record=None):
    """Executed in a worker process.  Returns a JSON-able report."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    stats = {'evaluations': 0, 'labels': {}, 'nontrivial': [], 'samples': [], 'failure': None,
             'harness_error': None}
    seen = set()
    first_failure = [None]
    best = [None]                     # (size, json, description)

    def one(case):
        if first_failure[0] is not None and time.monotonic() - first_failure[0] > SHRINK_SECONDS:
            raise _StopShrinking()
        js = case_json(case)
        if record is not None:
            record.set(js)
        ctx = Ctx()
        try:
            run_case(sub, case, ctx)
        except HarnessError:
            raise
        except Exception as e:
            if first_failure[0] is None:
                first_failure[0] = time.monotonic()
            key = (len(js), js, describe(e))
            if best[0] is None or key[:2] < best[0][:2]:
                best[0] = key
            raise
        finally:
            if first_failure[0] is None:
                stats['evaluations'] += 1
                for l in ctx.labels:
                    stats['labels'][l] = stats['labels'].get(l, 0) + 1
                if ctx.nontrivial:
                    h = zlib.crc32(js.encode()) | (zlib.adler32(js.encode()) << 32)
                    if h not in seen:
                        seen.add(h)
                        if len(stats['samples']) < 2 and len(js) < 1500:
                            stats['samples'].append(case)

    try:
        if run_explicit:
            for case in sub.explicit:
                try:
                    one(case)
                except HarnessError:
                    raise
                except Exception:
                    break
        if best[0] is None and n > 0:
            test = given(sub.strategy(tier))(one)
            test = settings(
                max_examples=n, database=None, deadline=None, print_blob=False,
                report_multiple_bugs=False, derandomize=False,
                phases=(Phase.generate, Phase.shrink),
                suppress_health_check=(HealthCheck.too_slow, HealthCheck.data_too_large,
                                       HealthCheck.large_base_example))(test)
            test = hypothesis.seed(derive_seed(seed, sub.name, shard, tier))(test)
            devnull = open(os.devnull, 'w')
            old = sys.stdout
            sys.stdout = devnull
            try:
                test()
            finally:
                sys.stdout = old
    except HarnessError as e:
        stats['harness_error'] = f'{type(e).__name__}: {e}'
    except BaseException as e:  # noqa: B902 - classified below
        if best[0] is None:
            stats['harness_error'] = ''.join(traceback.format_exception(e))[-3000:]
    if best[0] is not None:
        case = json.loads(best[0][1])
        desc, reproduced = best[0][2], False
        try:
            run_case(sub, case)
        except HarnessError:
            pass
        except Exception as e:
            desc, reproduced = describe(e), True
        stats['failure'] = {'case': case, 'description': desc, 'reproduced': reproduced}
    stats['nontrivial'] = sorted(seen)
    return stats


# ---------------------------------------------------------------------------------------------
# parent process

MEMORY = 3 << 30        # a case that needs more gets a MemoryError; eight workers share 32 GB without swap


def _worker(conn, sub, tier, seed, shard, n, explicit, record):
    try:
        with open('/proc/self/statm') as f:
            limit = MEMORY + int(f.read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
        report = run_shard(sub, tier, seed, shard, n, explicit, record)
    except BaseException as e:  # noqa: B902
        report = {'evaluations': 0, 'labels': {}, 'nontrivial': [], 'samples': [],
                  'failure': None, 'harness_error': ''.join(traceback.format_exception(e))[-3000:]}
    try:
        conn.send(report)
        conn.close()
    finally:
        os._exit(0)


def run_property(prop, tier, seed, time_budget):
    """prop: module with ID, TITLE, RULE, SUBTESTS and optionally KNOWN (list of probes)."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    mpc = mp.get_context('fork')
    ncpu = min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    jobs = []
    for sub in prop.SUBTESTS:
        n = int(sub.n[tier] * (QUICK if tier == 'quick' else 1) * float(os.environ.get('PBT_SCALE', '1')))
        shards = sub.shards or ncpu
        shards = max(1, min(shards, n or 1))
        for k in range(shards):
            # the first case of a search is the simplest one, hence one more
            jobs.append((sub, k, n // shards + (1 if k < n % shards else 0) + 1, k == 0))
    # long jobs of different subtests are interleaved by shard number
    jobs.sort(key=lambda j: j[1])
    pending = list(reversed(jobs))
    running = {}
    reports = []
    harness_errors = []
    failure = None
    while pending or running:
        while pending and len(running) < ncpu and failure is None:
            sub, k, n, ex = pending.pop()
            r, w = mpc.Pipe(False)
            record = CaseRecord()
            p = mpc.Process(target=_worker, args=(w, sub, tier, seed, k, n, ex, record))
            p.start()
            w.close()
            running[r] = (p, sub, k, n, ex, record)
        if failure is not None:
            pending = []
        left = time_budget - (time.monotonic() - t0)
        if left <= 0:
            harness_errors.append(f'time budget of {time_budget}s exceeded: inconclusive')
            break
        if not running:
            break
        for r in wait(list(running), timeout=min(left, 5)):
            p, sub, k, n, ex, record = running.pop(r)
            try:
                rep = r.recv()
            except EOFError:
                rep = None
            p.join()
            if rep is None:
                case = record.get() if p.exitcode in CRASHES else None
                if case is None:
                    harness_errors.append(f'{sub.name}/{k}: worker died (exit {p.exitcode})')
                    continue
                rep = {'evaluations': 0, 'labels': {}, 'nontrivial': [], 'samples': [],
                       'harness_error': None, 'failure': {
                           'case': case, 'crash': True,
                           'description': f'the process died of {CRASHES[p.exitcode]}',
                           'reproduced': crashes(run_case, sub, case, times=3) is not None}}
            rep['sub'], rep['shard'], rep['n'], rep['explicit'] = sub.name, k, n, ex
            reports.append(rep)
            if rep['harness_error']:
                harness_errors.append(f"{sub.name}/{k}: {rep['harness_error']}")
            if rep['failure'] and (failure is None or rep['failure']['reproduced']):
                if failure is None or not failure['failure']['reproduced']:
                    failure = rep
        if failure is not None and failure['failure']['reproduced']:
            break
    for r, (p, *_rest) in list(running.items()):
        p.kill()
        p.join()
    return reports, failure, harness_errors, time.monotonic() - t0


def write_json(path, obj):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f'.tmp{os.getpid()}'
    with open(tmp, 'w') as f:
        json.dump(obj, f, indent=1, sort_keys=True)
        f.write('\n')
    os.replace(tmp, path)
