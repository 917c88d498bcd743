"""Runner: drives sub-checks with Hypothesis, counts what was generated,
shrinks failures to a replay file and writes the evidence."""
import hashlib
import importlib
import io
import json
import os
import pickle
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import env

import hypothesis
from hypothesis import HealthCheck, Phase, settings
from hypothesis import strategies as st     # noqa: F401  (re-exported)


def _fewer_mutations():
    """Hypothesis spends most of its budget on near copies of earlier cases
    (repeated sub-structures); keep that for every sixth case only, so that the
    budget goes to independent cases."""
    try:
        from hypothesis.internal.conjecture import engine
        orig = engine.ConjectureRunner.generate_mutations_from
    except (ImportError, AttributeError):
        return
    count = [0]

    def generate_mutations_from(self, data):
        count[0] += 1
        if count[0] % 6 == 0:
            return orig(self, data)
    engine.ConjectureRunner.generate_mutations_from = generate_mutations_from


_fewer_mutations()

CLEANUP = []      # scratch directories removed before the process ends


def scratch(prefix):
    d = tempfile.mkdtemp(prefix=prefix)
    CLEANUP.append(d)
    return d


def cleanup():
    while CLEANUP:
        shutil.rmtree(CLEANUP.pop(), True)


REPLAYS = os.path.join(env.VERIF, 'replays')


class Violation(Exception):
    """The code under test broke the property."""


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def through_repo(exc):
    """Did the exception originate in (or below) the code under test?"""
    pre = os.path.join(env.REPO, 'wcxf') + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(pre):
            return True
        tb = tb.tb_next
    return False


def call(f, *a, **k):
    """Run code under test where no exception is expected."""
    try:
        return f(*a, **k)
    except Violation:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:       # also SystemExit
        raise Violation('unexpected %s: %s' % (type(e).__name__, str(e)[:300]))


def outcome(f, *a, **k):
    """('ok', value) or ('error', exception)"""
    try:
        return 'ok', f(*a, **k)
    except (KeyboardInterrupt, MemoryError, Violation):
        raise
    except BaseException as e:
        return 'error', e


def evaluate(sub, case):
    """the labels of one case; raises Violation"""
    try:
        return sub.prop(case) or {}
    except (Violation, hypothesis.errors.HypothesisException):
        raise
    except Exception as e:
        if through_repo(e):
            raise Violation('unexpected %s: %s'
                            % (type(e).__name__, str(e)[:300]))
        if environmental(e):
            raise
        # what the code returned could not even be inspected
        tb = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation('result not usable: %s: %s (at %s:%d)'
                        % (type(e).__name__, str(e)[:300],
                           os.path.basename(tb.filename), tb.lineno))


def environmental(exc):
    """Trouble of the sandbox (disk, processes, memory), not of a value"""
    if isinstance(exc, io.UnsupportedOperation):
        return False
    return isinstance(exc, (OSError, MemoryError, ImportError,
                            subprocess.SubprocessError))


class Sub(object):
    """One executable sub-check.

    prop(case) -> raises Violation; may return a dict of labels (counted)
    nontrivial(case, labels) -> bool;  rule: text of that criterion
    explicit(case) -> equivalent case with the key 'x' (dict) for ddmin
    """

    def __init__(self, name, strategy, prop, quick, thorough, rule,
                 nontrivial=None, explicit=None, setup=None, describe=None):
        self.name, self.strategy, self.prop = name, strategy, prop
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.nontrivial = nontrivial or (lambda case, labels: True)
        self.explicit = explicit
        self.setup = setup
        self.describe = describe


class Enough(BaseException):
    """a failure was shrunk for long enough"""


SHRINK = 60         # seconds


def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True, default=repr)
                        .encode('utf8', 'surrogatepass')).hexdigest()


class Run(object):
    def __init__(self, sub):
        self.sub = sub
        self.evals = 0
        self.digests = set()
        self.labels = {}
        self.samples = []
        self.failure = None         # (case, message)

    def execute(self, case):
        self.evals += 1
        if self.failure is not None and time.time() - self.since > SHRINK:
            raise Enough()
        try:
            labels = evaluate(self.sub, case)
        except Violation as e:
            if self.failure is None:
                self.since = time.time()
            # a check may know a smaller case with the same failure
            self.failure = (getattr(e, 'case', case), str(e))
            raise
        for k, v in labels.items():
            if v:
                self.labels[k] = self.labels.get(k, 0) + (v if isinstance(v, int) and not isinstance(v, bool) else 1)
        if self.sub.nontrivial(case, labels):
            d = _digest(case)
            if d not in self.digests:
                self.digests.add(d)
                if len(self.samples) < 3:
                    s = json.dumps(case, default=repr, ensure_ascii=True)
                    self.samples.append('%s: %s' % (self.sub.name, s[:400]))


def _seed_for(pid, sub, shard):
    h = hashlib.sha256(('%s/%s/%d/%d' % (pid, sub.name, env.SEED, shard))
                       .encode()).digest()
    return int.from_bytes(h[:8], 'big')


def cases(pid, sub):
    """number of cases of a sub-check in this tier"""
    n = int(sub.quick * importlib.import_module('checks.registry')
            .FACTOR.get(pid, 1))
    if sub.quick <= 2:          # complete sweeps
        n = sub.quick
    if env.THOROUGH:
        n = max(n, sub.thorough)
    return n


SHARDS = 8


def shards(n):
    """split n cases into independently seeded jobs; the split does not depend
    on the machine"""
    k = max(1, min(SHARDS, n // 15))
    return [n // k + (i < n % k) for i in range(k)]


def run_sub(pid, sub, n, shard):
    r = Run(sub)
    if sub.setup:
        sub.setup()

    def body(case):
        r.execute(case)
    test = hypothesis.given(sub.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink],
                    )(test)
    test = hypothesis.seed(_seed_for(pid, sub, shard))(test)
    try:
        test()
    except (Violation, Enough):
        pass
    except hypothesis.errors.HypothesisException:
        if r.failure is None:
            raise
    except BaseException as e:
        # exception groups of Hypothesis around flaky failures
        if r.failure is None or type(e).__name__ == 'KeyboardInterrupt':
            raise
    if r.failure is not None and sub.explicit is not None:
        r.failure = ddmin(sub, r.failure)
    return r


def ddmin(sub, failure):
    """Reduce a dense case to the smallest explicit input found."""
    case, msg = failure
    t0 = time.time()

    def test(c):
        try:
            evaluate(sub, c)
        except Violation as e:
            return str(e)
        except Exception:
            return None
        return None
    try:
        c = sub.explicit(case)
        m = test(c)
        if m is None:
            return failure
        msg = m
        items = list(c['x'].items())
        n = 2
        while len(items) >= 2 and time.time() - t0 < 60:
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                rest = items[:i] + items[i + size:]
                m = test(dict(c, x=dict(rest)))
                if m is not None:
                    items, msg, n = rest, m, max(n - 1, 2)
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return dict(c, x=dict(items)), msg
    except Exception:
        return failure


# ---------------------------------------------------------------------------
def load_check(pid):
    man = importlib.import_module('checks.registry')
    return importlib.import_module('checks.' + man.MODULES[pid]).CHECKS[pid]


class Check(object):
    def __init__(self, pid, subs, known=None, extra=None, parallel=True):
        self.pid, self.subs, self.parallel = pid, subs, parallel
        self.known = known or []    # callables -> finding text or None
        self.extra = extra or []


def known_findings(pid):
    with open(os.path.join(env.VERIF, 'known_findings.json')) as f:
        return {d['id']: d['what'] for d in json.load(f)['findings']
                if d['property'] == pid}


class Crash(Exception):
    """a worker ended with an exception"""


def _job(pid, sub, n, shard, w):
    """run one job in a forked process and send what it found"""
    del CLEANUP[:]              # those of the parent
    t = time.time()
    try:
        r = run_sub(pid, sub, n, shard)
        ans = ('ok', dict(evals=r.evals, digests=r.digests, labels=r.labels,
                          samples=r.samples, failure=r.failure),
               time.time() - t)
    except BaseException as e:
        ans = ('error', isinstance(e, Exception) and through_repo(e),
               traceback.format_exc())
    try:
        cleanup()
        data = pickle.dumps(ans)
        with os.fdopen(w, 'wb') as f:
            f.write(data)
        sys.stdout.flush()
        sys.stderr.flush()
    finally:
        os._exit(0)


def _ended(status, data):
    if data:
        return pickle.loads(data)
    sig = os.WTERMSIG(status) if os.WIFSIGNALED(status) else 0
    text = 'a job ended without an answer (status %d)' % status
    # the interpreter crashed (as opposed to being killed from outside)
    return 'error', sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS,
                            signal.SIGFPE, signal.SIGILL), text


def run_all(pid, chk):
    """all sub-checks, split into jobs that run in parallel processes; the
    result does not depend on the number of processes"""
    jobs = [(sub, n, i) for sub in chk.subs
            for i, n in enumerate(shards(cases(pid, sub)) if chk.parallel
                                  else [cases(pid, sub)])]
    jobs.sort(key=lambda j: j[0].quick > 2)     # the long ones first
    limit = len(os.sched_getaffinity(0)) if chk.parallel else 1
    todo, running, done = list(range(len(jobs))), {}, {}
    bad = None                  # first job that failed

    def stop(j):
        fd, pid_ = running.pop(j)[:2]
        try:
            os.killpg(pid_, signal.SIGKILL)
        except OSError:
            pass
        os.close(fd)
        os.waitpid(pid_, 0)
    try:
        while todo or running:
            while todo and len(running) < limit and bad is None:
                j = todo.pop(0)
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                p = os.fork()
                if p == 0:
                    os.setpgid(0, 0)
                    os.close(r)
                    _job(pid, jobs[j][0], jobs[j][1], jobs[j][2], w)
                try:
                    os.setpgid(p, p)
                except OSError:
                    pass
                os.close(w)
                running[j] = (r, p, [])
            if bad is not None:
                todo = []
                for j in [j for j in running if j > bad]:
                    stop(j)
                if not running:
                    break
            fds = {v[0]: j for j, v in running.items()}
            for fd in select.select(list(fds), [], [])[0]:
                j = fds[fd]
                chunk = os.read(fd, 1 << 20)
                if chunk:
                    running[j][2].append(chunk)
                    continue
                _, p, data = running.pop(j)
                os.close(fd)
                done[j] = _ended(os.waitpid(p, 0)[1], b''.join(data))
                if done[j][0] == 'error' or done[j][1]['failure']:
                    bad = j if bad is None else min(j, bad)
    finally:
        for j in list(running):
            stop(j)
    out = []
    for sub in chk.subs:
        r, wall, any_ = Run(sub), 0., False
        for j in sorted(done):
            if jobs[j][0] is not sub or (bad is not None and j > bad):
                continue
            if done[j][0] == 'error':
                e = Crash(done[j][2])
                e.repo = done[j][1]
                raise e
            d, any_ = done[j][1], True
            wall += done[j][2]
            r.evals += d['evals']
            r.digests |= d['digests']
            for k, v in d['labels'].items():
                r.labels[k] = r.labels.get(k, 0) + v
            if len(r.samples) < 3:
                r.samples += d['samples'][-1:]
            r.failure = r.failure or d['failure']
        if any_:
            out.append((sub, r, wall))
    return out


def run_check(pid):
    t0 = time.time()
    chk = load_check(pid)
    runs, viol, lines = [], 0, []
    for sub, r, w in run_all(pid, chk):
        runs.append((sub, r, w))
        if r.failure is not None:
            viol += 1
            case, msg = r.failure
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, '%s-%s.json' % (pid, sub.name))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'sub': sub.name, 'case': case,
                           'message': msg, 'seed': env.SEED}, f, indent=1,
                          default=repr)
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            print('  %s/%s: %s' % (pid, sub.name, msg[:600]))
            break
    known = []
    if not viol:
        listed = known_findings(pid)
        for k in chk.known:
            t = k()                 # None or the identifier of the finding
            if not t:
                continue
            if t in listed:
                known.append('%s: %s' % (t, listed[t]))
                print('KNOWN-FINDING: property=%s %s' % (pid, listed[t]))
            else:
                viol += 1
                os.makedirs(REPLAYS, exist_ok=True)
                path = os.path.join(REPLAYS, '%s-%s.json' % (pid, t))
                with open(path, 'w') as f:
                    json.dump({'property': pid, 'finding': t}, f)
                print('  %s: %s' % (pid, t))
                lines.append('VIOLATION property=%s replay=%s' % (pid, path))
    write_evidence(pid, runs, viol, time.time() - t0, known)
    for l in lines:
        print(l)
    return 1 if viol else 0


def write_evidence(pid, runs, viol, wall, known):
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {
        'property': pid, 'tier': env.TIER, 'seed': env.SEED,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(r.evals for _, r, _ in runs),
            'distinct_nontrivial': sum(len(r.digests) for _, r, _ in runs),
            'rule': '; '.join('%s: %s' % (s.name, s.rule) for s, _, _ in runs),
            'samples': [x for _, r, _ in runs for x in r.samples][:30],
            'sub_checks': [
                {'name': s.name, 'evaluations': r.evals,
                 'distinct_nontrivial': len(r.digests),
                 'labels': r.labels, 'cpu_s': round(w, 2)}
                for s, r, w in runs],
            'known_findings': known,
        },
        'wall_s': round(wall, 2), 'violations': viol,
    }
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    chk = load_check(d.get('property', pid))
    for sub in chk.subs:
        if sub.name == d['sub']:
            if sub.setup:
                sub.setup()
            try:
                evaluate(sub, d['case'])
            except Violation as e:
                print('  ' + str(e)[:2000])
                print('VIOLATION property=%s replay=%s' % (pid, path))
                return 1
            print('no violation')
            return 0
    print('unknown sub-check %s' % d['sub'])
    return 2


def main(argv):
    # everything temporary, of this process and of its jobs (also of those
    # that are stopped), lies in one directory that is removed at the end
    top = tempfile.mkdtemp(prefix='vf-')
    tempfile.tempdir = os.environ['TMPDIR'] = top
    try:
        return _main(argv)
    finally:
        cleanup()
        shutil.rmtree(top, True)


def _main(argv):
    if not argv:
        print('usage: run.py ID [--replay FILE]')
        return 2
    pid = argv[0]
    try:
        if '--replay' in argv:
            return replay(pid, argv[argv.index('--replay') + 1])
        return run_check(pid)
    except SystemExit:
        raise
    except BaseException as e:
        # an import-time failure of the code under test is a violation of
        # every property: nothing can be relied upon
        traceback.print_exc()
        if e.repo if isinstance(e, Crash) else (
                isinstance(e, Exception) and through_repo(e)):
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, pid + '-crash.txt')
            with open(path, 'w') as f:
                traceback.print_exc(file=f)
            write_evidence(pid, [], 1, 0., [])
            print('VIOLATION property=%s replay=%s' % (pid, path))
            return 1
        return 2
