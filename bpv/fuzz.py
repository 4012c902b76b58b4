"""Coverage-guided campaign for C08, run as a process of its own:

    python -m bpv.fuzz OPS RUNS SEED WORKDIR MAX_SECONDS

atheris (libFuzzer) instruments bloscpack; inputs are files, changed by
libFuzzer's own mutators and by the field-aware ones of C08.  What escapes as
something other than an ordinary exception ends the process, and libFuzzer
leaves the input in WORKDIR/artifacts.  The number of inputs executed, and of
those accepted by an operation, is kept in WORKDIR/count."""
import os
import random
import resource
import struct
import sys
import mmap

from . import env  # noqa: F401  (paths)

OPS, RUNS, SEED, WORK, SECONDS = sys.argv[1:6]

# bloscpack is imported afresh under instrumentation
for name in [n for n in sys.modules if n == 'bloscpack' or n.startswith('bloscpack.')]:
    del sys.modules[name]
import atheris  # noqa: E402
with atheris.instrument_imports(include=['bloscpack']):
    import bloscpack  # noqa: F401

from . import guard  # noqa: E402
from .props import c08  # noqa: E402

MAX = 2000


class Escaped(BaseException):
    pass


def main():
    corpus = os.path.join(WORK, 'corpus')
    arte = os.path.join(WORK, 'artifacts')
    os.makedirs(corpus, exist_ok=True)
    os.makedirs(arte, exist_ok=True)
    for i, raw in enumerate(c08.seed_files()):
        with open(os.path.join(corpus, 'seed%d' % i), 'wb') as fp:
            fp.write(raw)
    with open(os.path.join(WORK, 'count'), 'wb') as fp:
        fp.write(bytes(16))
    fp = open(os.path.join(WORK, 'count'), 'r+b')
    shm = mmap.mmap(fp.fileno(), 16)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (guard.MEM_LIMIT, guard.MEM_LIMIT))
    ops = OPS.split(',')
    n = [0, 0]
    tmp = os.path.join(WORK, 'tmp')
    os.makedirs(tmp, exist_ok=True)

    def path(name):
        return os.path.join(tmp, name)

    def note(text):
        pass

    def one(data):
        n[0] += 1
        ok = []
        v = c08.run_ops(data, ops, note, path, ok)
        n[1] += bool(ok)
        struct.pack_into('<qq', shm, 0, n[0], n[1])
        if v:
            raise Escaped(v)

    def mutator(data, max_size, seed):
        r = random.Random(seed)
        if r.random() < 0.5:
            return atheris.Mutate(data, max_size)
        muts = []
        for _ in range(r.choice((1, 1, 2, 3))):
            if r.random() < 0.7:
                muts.append({'m': 'field', 'f': r.choice(c08.FIELDS), 'k': r.randrange(4),
                             'v': r.randrange(41) if r.random() < 0.8 else r.randrange(-2 ** 63, 2 ** 63),
                             'rel': r.choice((None, None, None, -1, 1, 16, -16, 8))})
            else:
                muts.append({'m': r.choice(('flip', 'set', 'insert', 'delete', 'dup', 'trunc', 'zero', 'extend')),
                             'at': r.randrange(5000), 'v': r.randrange(2 ** 32)})
        return c08.mutate(bytes(data), muts)[:max_size]

    guard.quiet_stdio()
    atheris.Setup([sys.argv[0], '-runs=%s' % RUNS, '-seed=%d' % (int(SEED) % 2 ** 31 + 1), '-max_len=%d' % MAX,
                   '-timeout=20', '-rss_limit_mb=0', '-max_total_time=%s' % SECONDS, '-artifact_prefix=%s/' % arte,
                   '-verbosity=0', '-len_control=0', '-mutate_depth=2', corpus], one, custom_mutator=mutator)
    atheris.Fuzz()


if __name__ == '__main__':
    main()
