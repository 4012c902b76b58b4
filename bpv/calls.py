"""API calls as data: described by plain JSON, made with shared or fresh
argument objects, with results that can be compared and sent through a pipe."""
import copy
import io
import json
import os
import pickle
import random
import signal
import sys
import threading

from hypothesis import strategies as st

from . import api, env, gen, guard, ndgen, ref
from .core import HarnessError, Violation

import blosc
import numpy as np

# ------------------------------------------------------------ descriptions


@st.composite
def pools(draw):
    """Argument objects shared by the calls of one history."""
    some = lambda s, n=2: draw(st.lists(s, min_size=1, max_size=n))   # noqa: E731
    return {'blosc': some(gen.blosc_spec()), 'bp': some(gen.bloscpack_spec()), 'margs': some(gen.metadata_args_spec()),
            'meta': some(st.one_of(st.none(), st.sampled_from([{'v': {}}, {'v': {'a': [1, {'b': None}]}}, {'v': [1, 2]},
                                                               {'v': 'text'}, {'v': [0] * 60}]),
                                   gen.metadata_spec(allow_none=False))),
            'data': some(st.integers(0, 2500).flatmap(gen.data_of_size), 3),
            'arrays': some(ndgen.array_spec(max_items=200, depth=1).map(unpadded))}


def unpadded(spec):
    """Padding bytes have arbitrary values once numpy has copied an array."""
    return dict(spec, dtype={'s': '<f8'}) if ndgen.has_padding(ndgen.make_dtype(spec['dtype'])) else spec


@st.composite
def call(draw, failing=True):
    kinds = ['pack', 'pack', 'pack nd', 'unpack', 'unpack nd', 'append', 'rewrite']
    if failing:
        kinds += ['bad pack', 'bad unpack', 'bad unpack', 'bad append']
    k = draw(st.sampled_from(kinds))
    ix = lambda: draw(st.integers(0, 2))   # noqa: E731
    c = {'call': k, 'data': ix(), 'blosc': ix(), 'bp': ix(), 'margs': ix(), 'meta': ix(), 'array': ix(),
         'chunk': draw(st.sampled_from([None, 100, 700, 2500, '1K', 64, 4096, 1])), 'pick': draw(st.integers(0, 10 ** 6)),
         'cs': draw(st.integers(40, 900))}
    return c


def get(pool, key, i):
    return pool[key][i % len(pool[key])]


class Args(object):
    """The argument objects of a pool, made once."""

    def __init__(self, pool):
        self.pool = pool
        self.blosc = [gen.make_blosc_args(s) for s in pool['blosc']]
        self.bp = [gen.make_bloscpack_args(s) for s in pool['bp']]
        self.margs = [gen.make_metadata_args(s) for s in pool['margs']]
        self.meta = [copy.deepcopy(gen.make_metadata(s)) for s in pool['meta']]
        self.data = [gen.make_data(s) for s in pool['data']]
        self.arrays = [ndgen.make_array(s) for s in pool['arrays']]
        self.dicts = [dict(gen.effective_blosc(s)) for s in pool['blosc']]
        self.partial = [{'typesize': None, 'clevel': d['clevel'], 'shuffle': None, 'cname': d['cname']}
                        for d in self.dicts]

    def change(self, how):
        """The caller changes one of its objects."""
        what, v = how['what'], how['value']
        objs = getattr(self, what)
        i = how['i'] % len(objs)
        o = objs[i]
        if what == 'arrays':
            while isinstance(o.base, np.ndarray):
                o = o.base
            if o.flags.writeable and o.flags.c_contiguous and o.size and not o.dtype.hasobject:
                flat = o.reshape(-1).view(np.uint8)
                flat ^= np.uint8(1 + v % 255)
        elif o is None:
            objs[i] = self.new(what, v)
        elif what == 'blosc':
            field = ['clevel', 'shuffle', 'typesize', 'cname'][v % 4]
            o[field] = {'clevel': v // 4 % 10, 'shuffle': v // 4 % 3, 'typesize': 1 + v // 4 % 16,
                        'cname': ['lz4', 'zlib', 'blosclz', 'zstd', 'lz4hc'][v // 4 % 5]}[field]
        elif what == 'bp':
            field = ['checksum', 'offsets', 'max_app_chunks'][v % 3]
            o[field] = {'checksum': gen.CHECKSUMS[v // 3 % 9], 'offsets': bool(v // 3 % 2), 'max_app_chunks': v // 3 % 40}[field]
        elif what == 'margs':
            field = ['meta_level', 'meta_checksum', 'meta_codec', 'max_meta_size'][v % 4]
            o[field] = {'meta_level': v // 4 % 10, 'meta_checksum': gen.CHECKSUMS[v // 4 % 9],
                        'meta_codec': ['None', 'zlib'][v // 4 % 2], 'max_meta_size': 300 + v // 4 % 4000}[field]
        elif what == 'meta' and isinstance(o, dict):
            o['changed'] = v
            for k in list(o):
                if isinstance(o[k], list):
                    o[k].append(v)
        elif what == 'meta' and isinstance(o, list):
            o[:] = [v] + o
        else:
            objs[i] = {'replaced': v}

    def new(self, what, v):
        return {'blosc': api.bp.BloscArgs, 'bp': api.bp.BloscpackArgs, 'margs': api.bp.MetadataArgs,
                'meta': dict}[what]()

    def state(self):
        """Everything a caller could notice about the objects."""
        def obj(o):
            return None if o is None else sorted((k, repr(v) if not callable(v) else id(v)) for k, v in vars(o).items())

        def arr(a):
            return (a.dtype.str, repr(a.dtype), a.shape, a.strides, str(a.flags), ndgen.bits(a))
        return {'BloscArgs': [obj(o) for o in self.blosc], 'BloscpackArgs': [obj(o) for o in self.bp],
                'MetadataArgs': [obj(o) for o in self.margs], 'metadata': [repr(m) for m in self.meta],
                'data': list(self.data), 'arrays': [arr(a) for a in self.arrays],
                'blosc_args dict': [sorted(d.items()) for d in self.dicts],
                'partial blosc_args dict': [sorted(d.items(), key=str) for d in self.partial]}


def changes(before, after):
    return [k for k in before if before[k] != after[k]]


# ------------------------------------------------------------ packed inputs (without the code under test)

def stored(pool, c, meta_ix=True, checksum=None, offsets='exact'):
    data = gen.make_data(get(pool, 'data', c['data']))
    n, cs, last = ref.partition(len(data), c['cs'])
    blosc.set_nthreads(1)
    bl = gen.effective_blosc(get(pool, 'blosc', c['blosc']))
    chunks = [blosc.compress(data[i * cs:(i + 1) * cs], **bl) for i in range(n)]
    m = gen.make_metadata(get(pool, 'meta', c['meta']))
    meta = None if m is None else {'raw': json.dumps(m).encode(), 'codec': 'zlib', 'checksum': 'crc32', 'reserve': 900}
    return ref.encode_file(chunks, checksum=checksum or gen.CHECKSUMS[c['pick'] % 9], offsets=offsets,
                           max_app=20 if offsets else 0, chunk_size=cs, last_chunk=last, meta=meta)


def stored_nd(pool, c):
    items = len(gen.make_data(get(pool, 'data', c['data']))) // 4 + 1
    data = gen.rnd_bytes(c['pick'], items * 4)
    n, cs, last = ref.partition(len(data), c['cs'] * 4)
    blosc.set_nthreads(1)
    chunks = [blosc.compress(data[i * cs:(i + 1) * cs], typesize=4) for i in range(n)]
    meta = {'dtype': "'<i4'", 'shape': [items], 'order': 'C', 'container': 'numpy'}
    return ref.encode_file(chunks, checksum='adler32', max_app=3, chunk_size=cs, last_chunk=last, typesize=4,
                           meta={'raw': json.dumps(meta).encode()})


# ------------------------------------------------------------ making one call

class Sub(object):
    """A part of the scratch directory for one call."""

    def __init__(self, base, name):
        self.base, self.name = base, name

    def path(self, n):
        return os.path.join(self.base, '%s.%s' % (self.name, n))


def make(c, args, sub):
    """Makes the call; returns a comparable result."""
    try:
        return make_(c, args, sub)
    except BaseException as e:
        if isinstance(e, (HarnessError, Violation, KeyboardInterrupt)):
            raise
        return ('error', type(e).__name__)


def make_(c, args, sub):
    k, pool = c['call'], args.pool
    bl, bpa, ma = (getattr(args, n)[c[n] % len(getattr(args, n))] for n in ('blosc', 'bp', 'margs'))
    meta, data, a = args.meta[c['meta'] % len(args.meta)], args.data[c['data'] % len(args.data)], \
        args.arrays[c['array'] % len(args.arrays)]
    kw = {} if c['chunk'] is None else {'chunk_size': c['chunk']}
    if c.get('as') and not isinstance(c['chunk'], str):
        kw['chunk_size'] = {'float': float, 'bool': bool, 'numpy': np.int64}[c['as']](c['chunk'])
    pick = c['pick']
    if k == 'pack':
        w = sorted(api.WRITERS)[pick % len(api.WRITERS)]
        return ('packed', api.WRITERS[w](sub, data, metadata=meta, blosc_args=bl, bloscpack_args=bpa,
                                         metadata_args=ma, **kw))
    if k == 'pack nd':
        w = sorted(api.ND_WRITERS)[pick % len(api.ND_WRITERS)]
        kw = {'chunk_size': a.itemsize * (1 + pick % 90)} if pick % 3 else {}
        return ('packed nd', api.ND_WRITERS[w](sub, a, blosc_args=bl, bloscpack_args=bpa, metadata_args=ma, **kw))
    if k == 'unpack':
        r = sorted(api.READERS)[pick % len(api.READERS)]
        out, m = api.READERS[r](sub, stored(pool, c))
        res = ('data', bytes(out), json.dumps(m, sort_keys=False), type(m).__name__)
        spoil(m)
        return res
    if k == 'unpack nd':
        r = sorted(api.ND_READERS)[pick % len(api.ND_READERS)]
        out = api.ND_READERS[r](sub, stored_nd(pool, c))
        res = ('array', out.dtype.str, out.shape, out.tobytes())
        out.fill(0)
        return res
    if k == 'append':
        raw = stored(pool, c)
        b = [None, bl, args.dicts[c['blosc'] % len(args.dicts)], args.partial[c['blosc'] % len(args.partial)]][pick % 4]
        if pick % 3:
            fp = io.BytesIO(raw)
            n = api.append_mod.append_fp(fp, io.BytesIO(data), len(data), b)
            return ('appended', fp.getvalue(), n)
        api.write_file(sub.path('o.blp'), raw)
        api.write_file(sub.path('new'), data)
        api.append_mod.append(sub.path('o.blp'), sub.path('new'), b)
        return ('appended', api.read_file(sub.path('o.blp')), None)
    if k == 'rewrite':
        if get(pool, 'meta', c['meta']) is None:
            pool = dict(pool, meta=[{'v': {'some': 'thing'}}])
        fp = io.BytesIO(stored(pool, c))
        api.append_mod._seek_to_metadata(fp)
        new = args.meta[(c['meta'] + 1) % len(args.meta)]
        api.append_mod._rewrite_metadata_fp(fp, new)
        return ('rewritten', fp.getvalue())
    if k == 'bad pack':
        how = pick % 6
        if how == 0:
            api.bp.pack_bytes_to_bytes(b'x' * 10, chunk_size=0, metadata=meta, blosc_args=bl, bloscpack_args=bpa)
        elif how == 1:
            api.bp.pack_bytes_to_bytes(data, metadata={'a': {1, 2}}, blosc_args=bl, bloscpack_args=bpa,
                                       metadata_args=ma)
        elif how == 2:
            api.bp.pack_ndarray_to_bytes(np.array([None, 1]), blosc_args=bl, bloscpack_args=bpa)
        elif how == 3:
            api.bp.pack_ndarray_to_bytes(np.arange(10), chunk_size=9, blosc_args=bl, bloscpack_args=bpa)
        elif how == 4:
            api.bp.pack_bytes_to_bytes(data, blosc_args=api.bp.BloscArgs(cname='nope'), bloscpack_args=bpa,
                                       metadata=meta, metadata_args=ma)
        else:
            api.bp.pack_bytes_to_bytes(b'abc', metadata=list(range(500)), blosc_args=bl, bloscpack_args=bpa,
                                       metadata_args=api.bp.MetadataArgs(max_meta_size=3))
        return ('accepted',)
    if k == 'bad unpack':
        raw = bytearray(stored(pool, c, checksum='sha1'))
        how = pick // 7 % 5
        if how == 0:
            raw[-1] ^= 1
        elif how == 1:
            raw = raw[:len(raw) - 1 - pick % 60]
        elif how == 2:
            raw[4] = 2
        elif how == 3 and get(pool, 'meta', c['meta']) is not None:
            # the metadata or its digest
            raw[64 + pick % int.from_bytes(raw[52:56], 'little')] ^= 1 + pick % 255
        else:
            raw[32 + pick % (len(raw) - 32)] ^= 1 + pick % 255
        r = sorted(api.READERS)[pick % len(api.READERS)]
        api.READERS[r](sub, bytes(raw))
        return ('accepted',)
    if k == 'bad append':
        raw = stored(pool, c, offsets=None if pick % 3 == 0 else 'exact')
        fp = io.BytesIO(raw)
        b = args.dicts[c['blosc'] % len(args.dicts)]
        if pick % 3 == 1:
            b = {'typesize': 8}
        api.append_mod.append_fp(fp, io.BytesIO(b'z' * 40000), 40000, b)
        return ('accepted',)
    raise HarnessError(k)


def spoil(m):
    """What a caller may do with the metadata it got."""
    if isinstance(m, dict):
        m.clear()
        m['spoiled'] = True
    elif isinstance(m, list):
        m.append('spoiled')


def logical(r):
    """What must not depend on the number of threads."""
    if r[0] not in ('packed', 'packed nd', 'appended', 'rewritten'):
        return r
    try:
        f = ref.parse(r[1], strict=False)
    except ref.RefError as e:
        return ('nonconforming', str(e))
    return (r[0], f.raw[:f.offsets_pos], f.parts, [(c.version, c.flags, c.typesize, c.nbytes, c.blocksize)
                                                   for c in f.chunks]) + tuple(r[2:])


# ------------------------------------------------------------ in children

def forked(fn):
    """The (picklable) result of fn() computed in a forked child."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.setitimer(signal.ITIMER_PROF, 0)
            signal.signal(signal.SIGPROF, signal.SIG_DFL)
            import resource
            resource.setrlimit(resource.RLIMIT_CPU, (60, 62))
            guard.quiet_stdio()
            try:
                out = ('ok', fn())
            except Violation as e:
                out = ('violation', str(e))
            except BaseException:
                import traceback
                out = ('harness', traceback.format_exc())
            with os.fdopen(w, 'wb') as fp:
                pickle.dump(out, fp)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as fp:
        raw = fp.read()
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGKILL:
            raise HarnessError('a child was killed')
        raise Violation('the process was killed by signal %d' % os.WTERMSIG(status))
    try:
        kind, out = pickle.loads(raw)
    except Exception as e:
        raise HarnessError('no result from a child: %r' % e)
    if kind == 'violation':
        raise Violation(out)
    if kind == 'harness':
        raise HarnessError(out)
    return out


# ------------------------------------------------------------ scheduled threads

class Scheduler(object):
    """Lets exactly one thread run at a time and decides, at every line that a
    thread executes inside the code under test, whether another one continues.
    The decisions come from a seed, so a schedule can be repeated. After 2000
    switches the threads finish one after the other."""

    def __init__(self, nthreads, seed, density):
        self.rnd = random.Random(seed)
        self.density = density
        self.sem = [threading.Semaphore(0) for _ in range(nthreads)]
        self.live = set(range(nthreads))
        self.free = False      # the schedule was given up (something blocked)
        self.switches = 0

    def trace(self, me):
        def line(frame, event, arg):
            if event == 'line':
                self.maybe_switch(me)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(env.SUT_DIR) else None
        return call

    def maybe_switch(self, me):
        if self.free or self.switches >= 2000 or len(self.live) < 2 or self.rnd.random() >= self.density:
            return
        other = self.rnd.choice(sorted(self.live - {me}))
        self.switches += 1
        self.sem[other].release()
        self.wait(me)

    def wait(self, me):
        if not self.free and not self.sem[me].acquire(timeout=5):
            self.give_up()

    def give_up(self):
        self.free = True
        for s in self.sem:
            s.release()

    def run(self, jobs):
        out = [None] * len(jobs)

        def body(i):
            self.wait(i)
            sys.settrace(self.trace(i))
            try:
                out[i] = jobs[i]()
            except BaseException as e:
                out[i] = ('error', type(e).__name__, str(e))
            finally:
                sys.settrace(None)
                self.live.discard(i)
                if self.live and not self.free:
                    self.sem[min(self.live)].release()
        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(jobs))]
        for t in ts:
            t.start()
        self.sem[0].release()
        for t in ts:
            t.join()
        return out


def pausing(job, pause):
    """The result of job(); pause((file, line)) is called before every line
    inside the code under test."""
    def line(frame, event, arg):
        if event == 'line':
            pause((frame.f_code.co_filename, frame.f_lineno))
        return line

    def call(frame, event, arg):
        return line if frame.f_code.co_filename.startswith(env.SUT_DIR) else None
    sys.settrace(call)
    try:
        return job()
    finally:
        sys.settrace(None)
