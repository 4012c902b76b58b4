"""Strategies for numpy dtypes and arrays, as plain JSON specs."""
import numpy as np
from hypothesis import strategies as st

from . import gen

BASE = ['?', 'i1', 'u1', '<i2', '>i2', '<u4', '>u4', '<i8', '>i8', '<u8', '>u8', '<f2', '>f2',
        '<f4', '>f4', '<f8', '>f8', '<f16', '<c8', '>c8', '<c16', '>c16', '<c32',
        'S1', 'S3', 'S17', 'S255', '<U1', '>U2', '<U63', 'V1', 'V8', 'V13',
        '<M8[ns]', '>M8[D]', '<M8[us]', '<M8', '<m8[7s]', '>m8[ms]', '<m8']
NAMES = ['a', 'b', 'x', 'f0', 'f1', 'name', '\u00e9', 'with space', 'A', '\u65e5', 'dtype', "it's", 'x"y']


UNITS = ['Y', 'M', 'W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as']
CLASSES = [None, None, None, 'memmap', 'matrix', 'recarray', 'own']


class OwnArray(np.ndarray):
    """What users derive from ndarray."""


def simple():
    """The name of a dtype that is neither structured nor an object."""
    times = st.builds(lambda o, k, m, u: '%s%s8[%s%s]' % (o, k, m if m > 1 else '', u),
                      st.sampled_from('<>'), st.sampled_from('mM'), st.integers(1, 300), st.sampled_from(UNITS))
    return gen.weighted((6, st.sampled_from(BASE)), (1, times),
                        (1, st.builds(lambda k, n: '%s%d' % (k, n), st.sampled_from('SV'), st.integers(1, 255))),
                        (1, st.builds(lambda o, n: '%sU%d' % (o, n), st.sampled_from('<>'), st.integers(1, 63))))


def field_names():
    return gen.weighted((3, st.sampled_from(NAMES)),
                        (1, st.text(st.characters(blacklist_categories=['Cs']), min_size=1, max_size=6)),
                        (1, st.text(st.sampled_from('ab\'"\\(),[]: #\n\t%{}'), min_size=1, max_size=4)))


@st.composite
def dtype_spec(draw, depth=2):
    how = draw(st.integers(0, 9))
    if how < 5 or depth == 0:
        return {'s': draw(simple())}
    names = draw(st.lists(field_names(), min_size=1, max_size=4, unique=True))
    fields = []
    for n in names:
        f = {'n': n, 'd': draw(dtype_spec(depth=depth - 1))}
        k = draw(st.integers(0, 5))
        if k == 0:
            f['shape'] = draw(st.lists(st.integers(1, 3), min_size=1, max_size=2))
        elif k == 1:
            f['title'] = 'title of ' + n
        fields.append(f)
    s = {'fields': fields}
    k = draw(st.integers(0, 5))
    if k == 0:
        s['align'] = True
    elif k == 1:
        s['gaps'] = draw(st.lists(st.integers(0, 5), min_size=len(fields), max_size=len(fields)))
        s['tail'] = draw(st.integers(0, 4))
    return s


def make_dtype(s):
    if 's' in s:
        return np.dtype(s['s'])
    names, formats, titles = [], [], []
    for f in s['fields']:
        d = make_dtype(f['d'])
        if 'shape' in f:
            d = np.dtype((d, tuple(f['shape'])))
        names.append(f['n'])
        formats.append(d)
        titles.append(f.get('title'))
    spec = {'names': names, 'formats': formats}
    if any(t is not None for t in titles):
        spec['titles'] = titles
    if s.get('align'):
        # same as a C compiler would do
        return np.dtype(spec, align=True)
    if 'gaps' in s:
        pos, offs = 0, []
        for d, g in zip(formats, s['gaps']):
            pos += g
            offs.append(pos)
            pos += d.itemsize
        spec['offsets'] = offs
        spec['itemsize'] = pos + s['tail']
    return np.dtype(spec)


def has_padding(dt):
    if dt.subdtype is not None:
        return has_padding(dt.subdtype[0])
    if dt.names is None:
        return False
    return sum(dt.fields[n][0].itemsize for n in dt.names) != dt.itemsize or \
        any(has_padding(dt.fields[n][0]) for n in dt.names)


LAYOUTS = ['C', 'F', 'F', 'F', 'strided', 'neg', 'transposed', 'broadcast', 'unaligned',
           'readonly', 'partial', 'mixed', 'mixed', 'mixed']


@st.composite
def array_spec(draw, max_items=600, big=False, depth=2, classes=False):
    d = draw(dtype_spec(depth=depth))
    it = make_dtype(d).itemsize
    if not 1 <= it <= 255:
        d = {'s': draw(st.sampled_from(BASE))}
        it = make_dtype(d).itemsize
    ndim = draw(gen.weighted((5, st.just(1)), (8, st.just(2)), (3, st.just(3)), (1, st.just(4)),
                             (1, st.just(0))))
    shape = []
    room = max_items
    for _ in range(ndim):
        k = draw(gen.weighted((1, st.sampled_from([0, 1])), (4, st.integers(1, max(1, min(room, 60)))),
                              (1, st.integers(1, max(1, room)))))
        shape.append(k)
        room //= max(1, k)
    if big and draw(st.integers(0, 9)) == 0 and ndim:
        # cross the default chunk size of 1M
        n = (2 ** 20) // it
        shape = [n * draw(st.integers(1, 2)) + draw(st.integers(-2, 2))]
    layout = draw(st.sampled_from(LAYOUTS))
    if ndim > 1 and draw(st.integers(0, 24)) == 0:
        # nothing in it, but with axes of any length
        room = (2 ** 63 - 1) // it
        shape = []
        for _ in range(ndim):
            k = draw(st.sampled_from([0, 1, 3, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 33 + 5]))
            k = k if k <= room else 1
            room //= max(1, k)
            shape.append(k)
        shape[draw(st.integers(0, ndim - 1))] = 0
        layout = draw(st.sampled_from(['C', 'F']))
    if layout == 'mixed':
        # any order of the axes in memory, each with a step of its own
        layout = {'perm': draw(st.permutations(range(len(shape)))),
                  'steps': [draw(st.sampled_from([1, 1, 1, 2, -1, -2, 3, 0])) for _ in shape]}
    return {'dtype': d, 'shape': shape, 'layout': layout,
            'kind': draw(st.sampled_from(gen.KINDS)), 'seed': draw(gen.seeds),
            'cls': draw(st.sampled_from(CLASSES)) if classes else None}


def make_array(s):
    a = plain_array(s)
    cls = s.get('cls')
    if cls == 'matrix' and a.ndim == 2:
        return a.view(np.matrix)
    if cls == 'recarray' and a.ndim:
        return a.view(np.recarray)
    if cls == 'memmap':
        # as a mapped file: the class without the file
        return a.view(np.memmap)
    if cls == 'own':
        return a.view(OwnArray)
    return a


def plain_array(s):
    dt = make_dtype(s['dtype'])
    shape = tuple(s['shape'])
    layout = s['layout']

    def base(shp, order='C', lead=0):
        n = 1
        for k in shp:
            n *= k
        raw = bytearray(gen.make_data({'size': lead + n * dt.itemsize, 'kind': s['kind'],
                                       'seed': s['seed']}))
        a = np.frombuffer(raw, dtype=np.uint8)[lead:] if len(raw) > lead else np.zeros(0, np.uint8)
        a = a.view(dt) if n else np.zeros(0, dt)
        return a.reshape(shp, order=order)

    if isinstance(layout, dict):
        perm, steps = layout['perm'], layout['steps']
        # length of each axis in memory, then the axes in the order of memory
        full = [1 if not t else (k - 1) * abs(t) + 1 if k else 0 for k, t in zip(shape, steps)]
        a = base(tuple(full[p] for p in perm))
        a = a.transpose([perm.index(i) for i in range(len(perm))])
        a = a[tuple(slice(None, None, t or 1) for t in steps)] if shape else a
        a = np.broadcast_to(a, shape)
        if 0 not in steps:
            a = a[...] if a.flags['WRITEABLE'] else a
        assert a.shape == shape
        return a
    if layout == 'F':
        return base(shape, 'F')
    if layout == 'strided' and shape:
        big = tuple(2 * k + 1 for k in shape)
        a = base(big)[tuple(slice(1, None, 2) for _ in shape)]
        assert a.shape == shape
        return a
    if layout == 'neg' and shape:
        return base(shape)[tuple(slice(None, None, -1) for _ in shape)]
    if layout == 'transposed' and len(shape) > 1:
        # rotate the axes: neither C nor Fortran for three or more dimensions
        k = s['seed'] % len(shape)
        perm = [(i + k) % len(shape) for i in range(len(shape))]
        src = [0] * len(shape)
        for i, p in enumerate(perm):
            src[p] = shape[i]
        return base(tuple(src)).transpose(perm)
    if layout == 'broadcast' and shape:
        src = tuple(1 if (s['seed'] >> i) & 1 else k for i, k in enumerate(shape))
        return np.broadcast_to(base(src), shape)
    if layout == 'unaligned':
        return base(shape, lead=1)
    if layout == 'readonly':
        a = base(shape)
        a.setflags(write=False)
        return a
    if layout == 'partial' and shape and shape[0]:
        # a contiguous window into a larger array
        return base((shape[0] + 3,) + shape[1:])[2:2 + shape[0]]
    return base(shape)


def bits(a):
    """The bits of all elements in C order, without padding bytes."""
    a = a.view(np.ndarray)
    if a.dtype.names is not None:
        return b''.join(bits(a[n]) for n in a.dtype.names) if a.dtype.names else b''
    return np.ascontiguousarray(a).tobytes()
