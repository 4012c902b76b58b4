"""Check infrastructure: violations, the context of a case, parts of a check,
the generate-and-shrink driver, the parallel runner and the evidence file.
"""
import contextlib
import hashlib
import json
import os
import resource
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import time
import traceback

from . import env

QUICK_FACTOR = 2            # examples of Gen parts in the quick tier, in multiples of what they name
NSHARDS = int(os.environ.get('BPV_SHARDS', '8'))
BLOCKED_LIMIT = 90           # seconds one single case may wait without using the CPU
CASE_CPU_LIMIT = 90          # CPU seconds one single case may take (normal: < 1)
SHARD_MEM = 6 << 30          # address space of one shard


UNJUDGEABLE = (AttributeError, TypeError, LookupError, ValueError, ArithmeticError, AssertionError, struct.error)


class Violation(Exception):
    """The code under test broke the property on this case (or, for cases that
    stand for a whole search, on ``case``, which the part decides alone)."""

    def __init__(self, message='', case=None):
        Exception.__init__(self, message)
        self.case = case


class Hang(BaseException):
    """A single case used more CPU time than any sane execution could."""


class HarnessError(Exception):
    """The machinery, not the code under test, is at fault."""


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(x, n=160):
    r = repr(x)
    return r if len(r) <= n else '%s...(%d chars)' % (r[:n], len(r))


def expect_eq(got, want, what):
    if got != want:
        extra = ''
        if isinstance(got, bytes) and isinstance(want, bytes):
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                     min(len(got), len(want)))
            extra = ' (lengths %d/%d, first difference at %d)' % (len(got), len(want), k)
        raise Violation('%s: got %s, expected %s%s' % (what, short(got), short(want), extra))


@contextlib.contextmanager
def must_succeed(what):
    """Anything the code under test raises in here is a violation."""
    try:
        yield
    except (Violation, HarnessError, Hang, KeyboardInterrupt):
        raise
    except BaseException as e:
        if is_api_drift(e):
            raise HarnessError('%s: %s' % (what, traceback.format_exc()))
        raise Violation('%s unexpectedly raised %s: %s\n%s' % (
            what, type(e).__name__, str(e)[:300], tb_tail(e)))


def tb_tail(e, n=3):
    return ''.join(traceback.format_list(traceback.extract_tb(e.__traceback__)[-n:]))


def is_api_drift(e):
    """True if the exception came from the harness using a name that the code
    under test does not (any longer) offer, not from the code itself."""
    if in_sut(e):
        return False
    if isinstance(e, (ImportError, NameError)):
        return True
    if isinstance(e, TypeError) and any(t in str(e) for t in (
            'unexpected keyword argument', 'required positional', 'required keyword', 'positional argument')):
        return True
    if isinstance(e, AttributeError):
        obj = getattr(e, 'obj', None)
        if obj is None:
            return False
        name = obj.__name__ if isinstance(obj, type(sys)) else \
            getattr(obj if isinstance(obj, type) else type(obj), '__module__', '')
        return str(name).startswith('bloscpack')
    return False


def in_sut(e):
    """True if any frame of the traceback lies in the code under test."""
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.abspath(fn).startswith(env.SUT_DIR + os.sep):
            return True
        tb = tb.tb_next
    return False


class refused(object):
    """``with refused('what', ValueError) as r`` -- the body must raise one of
    the given exceptions (default: any Exception, including those of bloscpack
    that derive from BaseException)."""

    def __init__(self, what, *excs):
        self.what = what
        self.excs = excs
        self.exception = None

    def __enter__(self):
        return self

    def __exit__(self, et, e, tb):
        if et is None:
            raise Violation('%s: accepted, expected %s' % (
                self.what, '/'.join(x.__name__ for x in self.excs) or 'an error'))
        if issubclass(et, (Violation, HarnessError, Hang, KeyboardInterrupt, SystemExit)):
            return False
        if is_api_drift(e):
            raise HarnessError('%s: %s' % (self.what, ''.join(
                traceback.format_exception(et, e, tb))))
        self.exception = e
        if self.excs and not issubclass(et, self.excs):
            raise Violation('%s: raised %s (%s), expected %s\n%s' % (
                self.what, et.__name__, str(e)[:200],
                '/'.join(x.__name__ for x in self.excs), tb_tail(e)))
        return True


class Ctx(object):
    """What a check may use while it decides one case."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.reset()

    def reset(self):
        self.labels = set()
        self.is_nontrivial = False
        self.executed = 1           # inputs decided by this case
        self.counts = {}            # label -> how many of them

    def label(self, *names):
        for n in names:
            if n:
                self.labels.add(n)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def path(self, name):
        return os.path.join(self.scratch, name)

    def clean(self):
        for n in os.listdir(self.scratch):
            p = os.path.join(self.scratch, n)
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p, ignore_errors=True)
            else:
                os.unlink(p)


class Gen(object):
    """A part of a check whose cases are generated by a Hypothesis strategy."""

    def __init__(self, name, strategy, check, quick, thorough, rule):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.rule = quick, thorough, rule


class Enum(object):
    """A part of a check whose cases are enumerated completely."""

    def __init__(self, name, cases, check, rule, tier=None):
        self.name, self.cases, self.check, self.rule = name, cases, check, rule
        self.tier = tier


def case_hash(part, case):
    return hashlib.blake2b((part + json.dumps(case, sort_keys=True)).encode(),
                           digest_size=8).hexdigest()


class Stats(object):
    def __init__(self):
        self.evaluations = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = {}
        self.parts = {}

    def record(self, part, case, ctx):
        self.evaluations += ctx.executed
        self.parts[part] = self.parts.get(part, 0) + ctx.executed
        for l, k in ctx.counts.items():
            self.labels[part + ':' + l] = self.labels.get(part + ':' + l, 0) + k
        for l in ctx.labels:
            l = part + ':' + l
            self.labels[l] = self.labels.get(l, 0) + 1
        if ctx.is_nontrivial:
            h = case_hash(part, case)
            if h not in self.nontrivial:
                self.nontrivial.add(h)
                s = self.samples.setdefault(part, [])
                if len(s) < 3:
                    s.append(case)


def scratch_base():
    for d in ('/dev/shm', '/tmp'):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (2 << 30):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


class Shard(object):
    """Runs its share of a check's cases in this process."""

    def __init__(self, prop_id, mod, tier, seed, index, nshards, workdir):
        self.prop_id, self.mod, self.tier, self.seed = prop_id, mod, tier, seed
        self.index, self.nshards, self.workdir = index, nshards, workdir
        self.stats = Stats()
        self.current = open(os.path.join(workdir, 'current.%d' % index), 'w')
        scratch = os.path.join(workdir, 'scratch.%d' % index)
        os.mkdir(scratch)
        self.ctx = Ctx(scratch)
        self.failure = None
        self.failed_once = False

    def note_current(self, part, case):
        # the parent reads this if the process dies or hangs in the case
        self.current.seek(0)
        self.current.write(json.dumps({'part': part, 'case': case}))
        self.current.truncate()
        self.current.flush()

    def one(self, part, case):
        self.note_current(part.name, case)
        run_case(self.prop_id, self.mod, part, case, self.ctx)

    def fail(self, part, case, e):
        case = case if getattr(e, 'case', None) is None else e.case
        self.failure = {'part': part.name, 'case': case, 'message': str(e)}

    def run(self):
        for part in self.mod.PARTS:
            if isinstance(part, Enum):
                if part.tier and part.tier != self.tier:
                    continue
                self.run_enum(part)
            else:
                self.run_gen(part)
            if self.failure:
                break
        self.ctx.clean()

    def run_enum(self, part):
        cases = part.cases(self.tier) if callable(part.cases) else part.cases
        for i, case in enumerate(cases):
            if i % self.nshards != self.index:
                continue
            self.ctx.reset()
            try:
                self.one(part, case)
            except Violation as e:
                self.fail(part, case, e)
                return
            self.stats.record(part.name, case, self.ctx)

    def run_gen(self, part):
        import hypothesis
        from hypothesis import settings, HealthCheck, Phase, given, seed
        try:
            import hypothesis.internal.conjecture.engine as eng
            eng.MAX_SHRINKING_SECONDS = 45
        except Exception:
            pass
        total = part.quick * QUICK_FACTOR if self.tier == 'quick' else part.thorough
        n = total // self.nshards + (1 if self.index < total % self.nshards else 0)
        if n == 0:
            return
        shard = self
        part_seed = int(hashlib.sha256(('%s/%s/%d/%d' % (
            self.prop_id, part.name, self.seed, self.index)).encode()).hexdigest()[:12], 16)
        last = {}

        @seed(part_seed)
        @settings(max_examples=n, database=None, deadline=None,
                  suppress_health_check=list(HealthCheck),
                  report_multiple_bugs=False, print_blob=False,
                  phases=(Phase.generate, Phase.shrink))
        @given(part.strategy)
        def test(case):
            shard.ctx.reset()
            try:
                shard.one(part, case)
            except Violation as e:
                if 'first' not in last:
                    last['first'] = (case, e)
                last['case'], last['e'] = case, e
                raise
            finally:
                if not last:
                    shard.stats.record(part.name, case, shard.ctx)
        try:
            test()
        except Violation:
            self.fail(part, last['case'], last['e'])
        except HarnessError:
            raise
        except (hypothesis.errors.Flaky, BaseException) as e:
            if last:
                # the oracle did see a violation; prefer the first case if the
                # shrunk one turned out not to be reproducible
                self.fail(part, last['first'][0], last['first'][1])
            else:
                raise e


def run_case(prop_id, mod, part, case, ctx):
    """Decides one case; every failure of the code under test is a Violation."""
    old = signal.getsignal(signal.SIGPROF)

    def on_prof(signum, frame):
        raise Hang()
    signal.signal(signal.SIGPROF, on_prof)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        part.check(case, ctx)
    except (Violation, HarnessError):
        raise
    except Hang:
        raise Violation('did not finish within %d CPU seconds' % CASE_CPU_LIMIT)
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if in_sut(e):
            raise Violation('unexpected %s from the code under test: %s\n%s' % (
                type(e).__name__, str(e)[:300], tb_tail(e, 5)))
        if isinstance(e, UNJUDGEABLE) and not is_api_drift(e):
            # what came out does not even have the form the oracle can look at
            raise Violation('the outcome could not be judged, %s: %s\n%s' % (
                type(e).__name__, str(e)[:300], tb_tail(e, 5)))
        raise HarnessError('%s in part %s\ncase: %s\n%s' % (
            type(e).__name__, part.name, json.dumps(case)[:2000], traceback.format_exc()))
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
        ctx.clean()


def load(prop_id):
    import importlib
    return importlib.import_module('bpv.props.%s' % prop_id.lower())


def child_limits():
    resource.setrlimit(resource.RLIMIT_AS, (SHARD_MEM, SHARD_MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def shard_main(prop_id, tier, seed, index, nshards, workdir):
    child_limits()
    out = {'ok': False}
    try:
        os.environ['VERIF_SEED'] = str(seed)
        mod = load(prop_id)
        sh = Shard(prop_id, mod, tier, seed, index, nshards, workdir)
        sh.run()
        st = sh.stats
        out = {'ok': True, 'failure': sh.failure, 'evaluations': st.evaluations,
               'nontrivial': sorted(st.nontrivial), 'labels': st.labels,
               'samples': st.samples, 'parts': st.parts}
    except BaseException:
        out['error'] = traceback.format_exc()
    tmp = os.path.join(workdir, 'out.%d.tmp' % index)
    with open(tmp, 'w') as fp:
        json.dump(out, fp)
    os.rename(tmp, os.path.join(workdir, 'out.%d' % index))
    return 0 if out['ok'] else 3


def tree_cpu(pid):
    """CPU seconds used by one of our own shard processes and its descendants
    (from the public stat files)."""
    parents, used = {}, {}
    for name in os.listdir('/proc'):
        if name.isdigit():
            try:
                with open('/proc/%s/stat' % name) as fp:
                    f = fp.read().rsplit(')', 1)[1].split()
                parents.setdefault(int(f[1]), []).append(int(name))
                used[int(name)] = sum(map(int, f[11:15]))
            except (OSError, IndexError, ValueError):
                pass
    todo, total = [pid], 0
    while todo:
        p = todo.pop()
        total += used.get(p, 0)
        todo += parents.get(p, [])
    return total / os.sysconf('SC_CLK_TCK')


def cpu_of(pid):
    """CPU seconds used by one of our own shard processes (public stat file)."""
    try:
        with open('/proc/%d/stat' % pid) as fp:
            f = fp.read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return None


class Blocked(object):
    """Notices that a process waits for something that never comes: the same
    case is at work all the time and neither the process nor any descendant
    uses the CPU.  Time is counted in looks, so that a suspended machine does
    not count."""

    def __init__(self, pid):
        self.pid, self.case, self.cpu, self.idle, self.last = pid, None, 0, 0, time.time()

    def look(self, case):
        now = time.time()
        step, self.last = min(now - self.last, 15), now
        cpu = tree_cpu(self.pid)
        if case is None or case != self.case or abs(cpu - self.cpu) > 0.05:
            self.case, self.cpu, self.idle = case, cpu, 0
        else:
            self.idle += step
        return self.idle > BLOCKED_LIMIT


def parent(prop_id, tier, seed):
    t0 = time.time()
    mod = load(prop_id)
    workdir = tempfile.mkdtemp(prefix='bpv.%s.' % prop_id, dir=scratch_base())
    procs = []
    harness_errors = []
    failure = None
    results = {}
    try:
        for i in range(NSHARDS):
            procs.append(subprocess.Popen(
                [sys.executable, os.path.join(env.VERIF, 'run.py'), prop_id, '--tier', tier,
                 '--seed', str(seed), '--shard', str(i), '--nshards', str(NSHARDS),
                 '--workdir', workdir],
                stdin=subprocess.DEVNULL, start_new_session=True,
                stdout=open(os.path.join(workdir, 'log.%d' % i), 'w'),
                stderr=subprocess.STDOUT, env=child_env()))
        live = dict(enumerate(procs))
        watch = {}
        while live and failure is None and not harness_errors:
            time.sleep(0.02)
            for i, p in list(live.items()):
                rc = p.poll()
                if rc is None:
                    hung = check_hang(i, p, workdir, watch)
                    if hung is not None:
                        failure = hung
                        break
                    continue
                del live[i]
                path = os.path.join(workdir, 'out.%d' % i)
                if os.path.exists(path):
                    r = json.load(open(path))
                    results[i] = r
                    if r.get('failure'):
                        failure = r['failure']
                    elif not r['ok']:
                        harness_errors.append(r['error'])
                else:
                    failure, err = crashed(prop_id, i, rc, workdir)
                    if err:
                        harness_errors.append(err)
                if failure:
                    break
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
            p.wait()
        shutil.rmtree(workdir, ignore_errors=True)
    wall = time.time() - t0
    write_evidence(prop_id, mod, tier, seed, results, failure, wall)
    if failure is not None:
        path = write_replay(prop_id, tier, seed, failure)
        print(failure['message'])
        print('case: %s' % json.dumps(failure['case'])[:4000])
        print('VIOLATION property=%s replay=%s' % (prop_id, path))
        return 1
    if harness_errors:
        print('HARNESS ERROR in the check of %s' % prop_id)
        print(harness_errors[0])
        return 2
    for line in known_findings(prop_id):
        print('KNOWN-FINDING: property=%s %s' % (prop_id, line))
    ev = sum(r['evaluations'] for r in results.values())
    print('%s: held on %d cases (%.1f s)' % (prop_id, ev, wall))
    return 0


def child_env():
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = '0'
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    return e


def read_current(workdir, i):
    try:
        return json.loads(open(os.path.join(workdir, 'current.%d' % i)).read())
    except (OSError, ValueError):
        return None


def check_hang(i, p, workdir, watch):
    """A case that blocks outside the interpreter cannot be interrupted by the
    in-process timer; judge it by the CPU time of the process."""
    now = time.time()
    last_look, last_case, cpu0 = watch.get(i, (0, None, 0))
    if now - last_look < 10:
        return None
    cur = read_current(workdir, i)
    if watch.setdefault(('blocked', i), Blocked(p.pid)).look(cur):
        return {'part': cur['part'], 'case': cur['case'],
                'message': 'waited for more than %d seconds without doing anything' % BLOCKED_LIMIT}
    cpu = cpu_of(p.pid) or 0
    if cur is None or cur != last_case:
        watch[i] = (now, cur, cpu)
        return None
    watch[i] = (now, last_case, cpu0)
    if cpu - cpu0 > 2 * CASE_CPU_LIMIT:
        return {'part': cur['part'], 'case': cur['case'],
                'message': 'did not finish within %d CPU seconds' % (2 * CASE_CPU_LIMIT)}
    return None


def crashed(prop_id, i, rc, workdir):
    """A shard died without an answer: confirm that its last case kills it."""
    cur = read_current(workdir, i)
    log = open(os.path.join(workdir, 'log.%d' % i)).read()[-2000:]
    if cur is None or rc not in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGABRT,
                                 -signal.SIGFPE, -signal.SIGILL):
        return None, 'shard %d of %s ended with status %s\n%s' % (i, prop_id, rc, log)
    msg = 'the process was killed by signal %d in this case\n%s' % (-rc, log)
    return {'part': cur['part'], 'case': cur['case'], 'message': msg}, None


def write_replay(prop_id, tier, seed, failure):
    d = os.path.join(env.VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop_id, case_hash(failure['part'], failure['case'])))
    with open(path, 'w') as fp:
        json.dump({'property': prop_id, 'part': failure['part'], 'case': failure['case'],
                   'message': failure['message'], 'tier': tier, 'seed': seed,
                   'how': 'cd /verif && /opt/venv/bin/python run.py %s --replay %s' % (prop_id, path)},
                  fp, indent=1)
        fp.write('\n')
    return path


def known_findings(prop_id):
    out = []
    path = os.path.join(env.VERIF, 'KNOWN_FINDINGS.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property=%s ' % prop_id):
                out.append(line.split(' ', 2)[2].strip())
    return out


def trim(x, n=400):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + '...'


def write_evidence(prop_id, mod, tier, seed, results, failure, wall):
    nontrivial = set()
    labels, samples, parts = {}, {}, {}
    for r in results.values():
        nontrivial.update(r.get('nontrivial', ()))
        for k, v in r.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r.get('parts', {}).items():
            parts[k] = parts.get(k, 0) + v
        for k, v in r.get('samples', {}).items():
            s = samples.setdefault(k, [])
            s.extend(v[:max(0, 3 - len(s))])
    ev = {'property': prop_id, 'tier': tier, 'seed': seed,
          'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {
              'evaluations': sum(parts.values()),
              'distinct_nontrivial': len(nontrivial),
              'rule': '; '.join('%s: %s' % (p.name, p.rule) for p in mod.PARTS),
              'samples': [{'part': k, 'case': trim(c)} for k, v in sorted(samples.items()) for c in v],
              'cases_per_part': parts,
              'class_counts': dict(sorted(labels.items())),
              'shards_reporting': len(results)},
          'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2),
          'violations': 1 if failure else 0}
    d = os.path.join(env.VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, '%s.json' % prop_id), 'w') as fp:
        json.dump(ev, fp, indent=1)
        fp.write('\n')


def replay(prop_id, path):
    mod = load(prop_id)
    rec = json.load(open(path))
    part = next(p for p in mod.PARTS if p.name == rec['part'])
    scratch = tempfile.mkdtemp(prefix='bpv.replay.', dir=scratch_base())
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        rc = 3
        try:
            os.setpgid(0, 0)
            child_limits()
            rc = replay_child(prop_id, mod, part, rec['case'], scratch)
        except BaseException:
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
    blocked, t = Blocked(pid), time.time()
    try:
        while True:
            done, status = os.waitpid(pid, os.WNOHANG)
            if done:
                break
            time.sleep(0.02)
            if time.time() - t > 10:
                t = time.time()
                if blocked.look(path):
                    print('waited for more than %d seconds without doing anything' % BLOCKED_LIMIT)
                    status = None
                    break
    finally:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        shutil.rmtree(scratch, ignore_errors=True)
    if status is not None and os.WIFEXITED(status) and os.WEXITSTATUS(status) != 1:
        if os.WEXITSTATUS(status) == 0:
            print('%s: the case passes' % prop_id)
        return os.WEXITSTATUS(status)
    if status is not None and os.WIFSIGNALED(status):
        print('the process was killed by signal %d in this case' % os.WTERMSIG(status))
    print('VIOLATION property=%s replay=%s' % (prop_id, path))
    return 1


def replay_child(prop_id, mod, part, case, scratch):
    try:
        run_case(prop_id, mod, part, case, Ctx(scratch))
    except Violation as e:
        print(str(e))
        return 1
    return 0
