"""C26: every call closes what it opened, leaves nothing else behind, and never
closes the file objects of its caller."""
import gc
import io
import os
import warnings

import blosc
import numpy as np
from hypothesis import strategies as st

from .. import api, faults, gen, words
from ..core import Enum, Gen, HarnessError, expect, is_api_drift, must_succeed

ASSUMPTIONS = ['open files are those listed in /proc/self/fd while the result or the exception is still held',
               'an interpreter with reference counting: what is collected only by chance counts as not closed']

bp, fio, nio, aio = api.bp, api.file_io, api.numpy_io, api.abstract_io

# name: (what it needs, call).  f: names of the files, k: keyword arguments
BY_NAME = {
    'pack_file_to_file': ('pack', lambda f, d, k: bp.pack_file_to_file(f['in'], f['out'], **k)),
    'pack_file': ('pack', lambda f, d, k: bp.pack_file(f['in'], f['out'], **k)),
    'pack_bytes_to_file': ('pack', lambda f, d, k: bp.pack_bytes_to_file(d, f['out'], **k)),
    'pack_bytes_file': ('pack', lambda f, d, k: bp.pack_bytes_file(d, f['out'], **k)),
    'pack_ndarray_to_file': ('array', lambda f, d, k: bp.pack_ndarray_to_file(d, f['out'], **k)),
    'pack_ndarray_file': ('array', lambda f, d, k: bp.pack_ndarray_file(d, f['out'], **k)),
    'unpack_file_from_file': ('unpack', lambda f, d, k: bp.unpack_file_from_file(f['blp'], f['out'])),
    'unpack_file': ('unpack', lambda f, d, k: bp.unpack_file(f['blp'], f['out'])),
    'unpack_bytes_from_file': ('unpack', lambda f, d, k: bp.unpack_bytes_from_file(f['blp'])),
    'unpack_bytes_file': ('unpack', lambda f, d, k: bp.unpack_bytes_file(f['blp'])),
    'unpack_ndarray_from_file': ('unpack array', lambda f, d, k: bp.unpack_ndarray_from_file(f['blp'])),
    'unpack_ndarray_file': ('unpack array', lambda f, d, k: bp.unpack_ndarray_file(f['blp'])),
    'append': ('append', lambda f, d, k: api.append_mod.append(f['blp'], f['new'], **k)),
    'pack_bytes_to_bytes': ('pack', lambda f, d, k: bp.pack_bytes_to_bytes(d, **k)),
    'unpack_bytes_from_bytes': ('unpack', lambda f, d, k: bp.unpack_bytes_from_bytes(f['raw'])),
    'pack_ndarray_to_bytes': ('array', lambda f, d, k: bp.pack_ndarray_to_bytes(d, **k)),
    'unpack_ndarray_from_bytes': ('unpack array', lambda f, d, k: bp.unpack_ndarray_from_bytes(f['raw'])),
}


def core_pack(f, d, k):
    n, cs, last = api.calculate_nchunks(len(d), k.pop('chunk_size', '1M'))
    return aio.pack(fio.PlainFPSource(f['in']), fio.CompressedFPSink(f['out']), n, cs, last, **k)


def core_unpack(f, d, k):
    return aio.unpack(fio.CompressedFPSource(f['blp']), fio.PlainFPSink(f['out']))


def core_unpack_counted(f, d, k):
    source = fio.CompressedFPSource(f['blp'])
    return aio.unpack(source, fio.PlainFPSink(f['out'], nchunks=len(source)))


def core_recompress(f, d, k):
    # through chunks in memory: every kind of source and sink over files, used by hand
    source, mem = fio.CompressedFPSource(f['blp']), []
    for chunk in source:
        mem.append(chunk)
    again = fio.CompressedFPSource(io.BytesIO(f['raw']))
    sink = fio.PlainFPSink(f['out'], len(mem))
    for chunk, _ in again:
        sink.put(chunk)


# the same, f: file objects
BY_OBJECT = {
    'pack': ('pack', core_pack),
    'unpack counted': ('unpack', core_unpack_counted),
    'by hand': ('unpack', core_recompress),
    'unpack': ('unpack', core_unpack),
    'pack_ndarray': ('array', lambda f, d, k: nio.pack_ndarray(d, fio.CompressedFPSink(f['out']), **k)),
    'unpack_ndarray': ('unpack array', lambda f, d, k: nio.unpack_ndarray(fio.CompressedFPSource(f['blp']))),
    'append_fp': ('append', lambda f, d, k: api.append_mod.append_fp(f['blp'], f['new'], f['size'], **k)),
    'memory': ('unpack', lambda f, d, k: aio.unpack(fio.CompressedFPSource(f['blp']), api.memory_io.PlainMemorySink())),
}

WHY = {'pack': ['fine', 'missing', 'directory', 'no directory', 'arguments', 'operation', 'operation'],
       'array': ['fine', 'no directory', 'arguments', 'object', 'operation', 'operation'],
       'unpack': ['fine', 'missing', 'directory', 'no directory', 'damaged', 'damaged', 'operation', 'operation'],
       'unpack array': ['fine', 'missing', 'directory', 'damaged', 'damaged', 'no array', 'operation', 'operation'],
       'append': ['fine', 'missing', 'missing new', 'directory new', 'directory', 'damaged', 'arguments', 'no room', 'no offsets',
                  'operation', 'operation']}
BAD = [{'chunk_size': 'x'}, {'chunk_size': 0}, {'chunk_size': -1}, {'chunk_size': 2 ** 31}, {'chunk_size': '1.5'},
       {'blosc': {'typesize': 0}}, {'blosc': {'cname': 'nope'}}, {'blosc': {'clevel': 10}}, {'bp': {'checksum': 'nope'}},
       {'bp': {'max_app_chunks': -1}}, {'metadata': object()}, {'metadata': {1: object()}}, {'metadata': {'a': {3}}},
       {'margs': {'max_meta_size': 3}, 'metadata': {'a': 'b' * 20}}, {'margs': {'meta_codec': 'nope'}, 'metadata': {}},
       {'margs': {'meta_checksum': 'nope'}, 'metadata': {}}, {'margs': {'magic_format': b'nope'}, 'metadata': {}}]


@st.composite
def cases(draw):
    objects = draw(st.integers(0, 3)) == 0
    calls = BY_OBJECT if objects else BY_NAME
    call = draw(st.sampled_from(sorted(calls)))
    cs = draw(st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(60, 5000), st.integers(60, 5000),
                        st.integers(5000, 300000)))
    n = draw(st.integers(1, 5))
    return {'objects': objects, 'call': call, 'why': draw(st.sampled_from(WHY[calls[call][0]])),
            'cs': cs, 'size': cs * (n - 1) + draw(st.integers(0, cs)), 'pick': draw(st.integers(0, 10 ** 6)),
            'checksum': draw(st.sampled_from(gen.CHECKSUMS)), 'meta': draw(st.booleans()),
            'kind': draw(st.sampled_from(sorted(faults.KINDS))), 'old': draw(st.booleans()),
            'real': draw(st.booleans())}


def grid(tier):
    k = 0
    for objects, calls in ((False, BY_NAME), (True, BY_OBJECT)):
        for call in sorted(calls):
            for why in sorted(set(WHY[calls[call][0]])):
                # (large files may be treated in other ways)
                if why not in ('missing', 'missing new', 'directory', 'directory new', 'no directory', 'arguments', 'object'):
                    for pick in range(6):
                        k += 1
                        yield {'objects': objects, 'call': call, 'why': why, 'cs': [70000, 400000][k % 2],
                               'size': [200000, 1300000][k % 7 == 0], 'pick': pick * 2 + k % 2,
                               'checksum': gen.CHECKSUMS[k % len(gen.CHECKSUMS)], 'meta': k % 2 == 0,
                               'kind': sorted(faults.KINDS)[k % len(faults.KINDS)], 'old': k % 3 == 0, 'real': k % 5 < 2}
                for pick in range(17 if why == 'arguments' else 12 if why in ('damaged', 'operation') else 2):
                    k += 1
                    yield {'objects': objects, 'call': call, 'why': why, 'cs': 7, 'size': [20, 0, 21][k % 3], 'pick': pick,
                           'checksum': gen.CHECKSUMS[k % len(gen.CHECKSUMS)], 'meta': k % 2 == 0,
                           'kind': sorted(faults.KINDS)[k % len(faults.KINDS)],
                           'old': k % 3 == 0, 'real': k % 5 < 2}


def counts(tier):
    """Successful calls over many chunks and of many sizes."""
    k = 0
    for n in words.spread(words.around(1, 3000 if tier == 'quick' else 40000), 40):
        for objects, calls in ((False, BY_NAME), (True, BY_OBJECT)):
            for call in sorted(calls):
                k += 1
                yield {'objects': objects, 'call': call, 'why': 'fine', 'cs': [1, n][k % 2], 'size': n, 'pick': 0,
                       'checksum': gen.CHECKSUMS[k % len(gen.CHECKSUMS)], 'meta': k % 3 == 0, 'kind': 'EIO',
                       'old': False, 'real': k % 4 == 0}


def open_files():
    r = {}
    for fd in os.listdir('/proc/self/fd'):
        try:
            r[fd] = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            pass
    return r


class Watched(io.BytesIO):
    """Notices being closed, by anyone and in whatever way."""
    closings = 0

    def close(self):
        self.closings += 1
        io.BytesIO.close(self)


def damage(raw, c):
    p, n = c['pick'], len(raw)
    return [raw[:p * 7 % n], raw[:p * 7 % n] + bytes([raw[p * 7 % n] ^ (1 + p % 255)]) + raw[p * 7 % n + 1:],
            b'', raw[:4] + b'\x09' + raw[5:], gen.rnd_bytes(p, 200), raw[:-1 - p % 5]][p % 6]


def prepare(c, ctx):
    """-> files by name, contents by name, plain data, keyword arguments, files that may appear or change"""
    blosc.set_nthreads(1)
    kind = (BY_OBJECT if c['objects'] else BY_NAME)[c['call']][0]
    why = c['why']
    cwd = api.workdir(ctx)
    items = c['size'] // 4 + 1
    arr = np.frombuffer(gen.rnd_bytes(c['pick'], items * 4), '<i4')
    data = gen.rnd_bytes(c['pick'] + 1, c['size'])
    chunk = max(4, c['cs'] // 4 * 4)
    with must_succeed('packing'):
        if kind == 'unpack array' and why != 'no array':
            raw = bp.pack_ndarray_to_bytes(arr, chunk_size=chunk, bloscpack_args=bp.BloscpackArgs(checksum=c['checksum']))
        else:
            raw = bp.pack_bytes_to_bytes(data, chunk_size=c['cs'], metadata={'a': 1} if c['meta'] else None,
                                         bloscpack_args=bp.BloscpackArgs(
                                             checksum=c['checksum'], max_app_chunks=3,
                                             offsets=why != 'no offsets' and (kind == 'append' or c['pick'] % 3 > 0)))
    content = {'in': data, 'new': gen.rnd_bytes(3, max(1, min(2 * c['cs'], 3000))), 'blp': raw}
    kw = {}
    if kind == 'pack':
        kw['chunk_size'] = c['cs']
        if c['meta']:
            kw['metadata'] = {'a': [1]}
    if kind == 'array':
        kw['chunk_size'] = chunk
        data = arr
        if why == 'object':
            data = np.array([None, 1], dtype=object)
    if why == 'no room':
        content['new'] = bytes(c['cs'] * 4 + 1 + (2 ** 20 * 4 if not c['size'] else 0))
    if why == 'damaged':
        content['blp'] = damage(raw, c)
    if why == 'arguments':
        bad = BAD[c['pick'] % len(BAD)]
        for k, cls in (('blosc', bp.BloscArgs), ('bp', bp.BloscpackArgs), ('margs', bp.MetadataArgs)):
            if k in bad:
                try:
                    kw[{'blosc': 'blosc_args', 'bp': 'bloscpack_args', 'margs': 'metadata_args'}[k]] = cls(**bad[k])
                except Exception:
                    pass
        if 'chunk_size' in bad:
            kw['chunk_size'] = bad['chunk_size']
        if 'metadata' in bad:
            kw['metadata'] = bad['metadata']
        if kind == 'array':
            kw.pop('metadata', None)
        if kind == 'append':
            kw = {'blosc_args': {'typesize': 1}}
    return kind, cwd, content, data, kw


def call_it(c, fn, f, data, kw, fault, names):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always', ResourceWarning)
        result = error = None
        try:
            with faults.faulty_open(fault, names), faults.faulty_codec(fault):
                result = fn(f, data, dict(kw))
        except BaseException as e:
            if isinstance(e, HarnessError) or is_api_drift(e):
                raise HarnessError('%s: %r' % (c['call'], e))
            error = e
        after = open_files()
        where = repr(error)[:200]
        failed = error is not None
        del error, result
        gc.collect(1)
        late = [str(x.message) for x in w if issubclass(x.category, ResourceWarning)]
    return failed, where, after, late


def check_names(c, ctx):
    kind, cwd, content, data, kw = prepare(c, ctx)
    why = c['why']
    f = dict((n, os.path.join(cwd, n + ('' if n != 'blp' else '.blp'))) for n in ('in', 'out', 'new', 'blp'))
    present = set(['in', 'blp', 'new'])
    main = 'in' if kind == 'pack' else 'blp'
    if why == 'missing':
        present.discard(main)
    if why in ('missing new', 'directory new'):
        present.discard('new')

    def build():
        for n in ('in', 'blp', 'new'):
            if n in present:
                api.write_file(f[n], content[n])
        if why == 'directory':
            os.unlink(f[main])
            os.mkdir(f[main])
        if why == 'directory new':
            os.mkdir(f['new'])
        if c['old']:
            api.write_file(os.path.join(cwd, 'out'), b'old' * 99)
        if why == 'no directory':
            f['out'] = os.path.join(cwd, 'nothing', 'out')
    build()
    f['raw'] = content['blp']
    fn = BY_NAME[c['call']][1]
    fault = faults.Fault(kind=c['kind'])
    names = {}
    if why == 'operation':
        names = dict((f[n], n) for n in ('in', 'out', 'new', 'blp'))
        call_it(c, fn, f, data, kw, fault, names)
        n = len(fault.log)
        if not n:
            return
        at = c['pick'] * 7919 % n if c['pick'] >= 12 else c['pick'] * n // 12
        fault = faults.Fault(at=at, kind=c['kind'])
        for x in os.listdir(cwd):
            os.unlink(os.path.join(cwd, x))
        build()
    gc.collect(1)
    listing = set(os.listdir(cwd))
    before = open_files()
    failed, error, after, late = call_it(c, fn, f, data, kw, fault, names)
    what = '%s (%s%s)' % (c['call'], why, ', raised ' + error if failed else '')
    ctx.label(why, 'failed' if failed else 'succeeded', c['call'])
    ctx.nontrivial(failed or c['size'] > c['cs'])
    # the listing of open files itself has one open, too
    extra = sorted(v for k, v in after.items() if before.get(k) != v and '/proc/' not in v)
    expect(not extra, '%s leaves files open: %r', what, [os.path.basename(x) for x in extra])
    expect(not late, '%s leaves files to the garbage collector: %r', what, late)
    new = set(os.listdir(cwd)) - listing
    expect(new <= set(['out']), '%s leaves other files behind: %r', what, sorted(new))
    lost = listing - set(os.listdir(cwd)) - set(['out'])
    expect(not lost, '%s removed files: %r', what, sorted(lost))


def check_objects(c, ctx):
    kind, cwd, content, data, kw = prepare(c, ctx)
    content['out'] = b''

    def build():
        if not c['real']:
            return dict((n, Watched(v)) for n, v in content.items())
        f = {}
        for n, v in content.items():
            api.write_file(os.path.join(cwd, n), v)
            f[n] = open(os.path.join(cwd, n), 'r+b')
        return f
    why = c['why']
    if why in ('missing', 'missing new', 'directory', 'directory new', 'no directory'):
        return
    fault = faults.Fault(kind=c['kind'])
    fn = BY_OBJECT[c['call']][1]
    if why == 'operation':
        f = build()
        g = dict((n, faults.FaultyFP(x, n, fault)) for n, x in f.items())
        g['size'], g['raw'] = len(content['new']), content['blp']
        call_it(c, fn, g, data, kw, fault, {})
        for x in f.values():
            x.close()
        if not fault.log:
            return
        at = c['pick'] * 7919 % len(fault.log) if c['pick'] >= 12 else c['pick'] * len(fault.log) // 12
        fault = faults.Fault(at=at, kind=c['kind'])
    f = build()
    try:
        g = dict((n, faults.FaultyFP(x, n, fault) if why == 'operation' else x) for n, x in f.items())
        g['size'], g['raw'] = len(content['new']), content['blp']
        failed, error, _, _ = call_it(c, fn, g, data, kw, fault, {})
        del g
        gc.collect(1)
        what = '%s (%s%s)' % (c['call'], why, ', raised ' + error if failed else '')
        ctx.label(why, 'failed' if failed else 'succeeded', c['call'], 'real files' if c['real'] else 'memory')
        ctx.nontrivial(failed or c['size'] > c['cs'])
        for n, x in sorted(f.items()):
            expect(not x.closed, '%s closed the file object %r of its caller', what, n)
            with must_succeed('using the file object %r after %s' % (n, what)):
                x.seek(0)
                x.read()
        if not c['real']:
            expect(not any(x.closings for x in f.values()), '%s closed a file object of its caller', what)
    finally:
        for x in f.values():
            x.close()


def check(c, ctx):
    (check_objects if c['objects'] else check_names)(c, ctx)


PARTS = [
    Enum('grid', grid, check, 'every call x every way to fail (or not) x variants; non-trivial: failed or several chunks'),
    Enum('counts', counts, check, 'successful calls over sizes and chunk counts at boundaries'),
    Gen('calls', cases(), check, 2500, 60000,
        'one call with generated contents that succeeds or fails in one of the listed ways: files missing, directories, '
        'invalid arguments, damaged or unsuitable contents, an error in any operation on files or in blosc; '
        'non-trivial: failed or several chunks'),
]
