"""Strategies.  Every case is plain JSON: it can be shrunk, hashed and replayed."""
import functools
import random

from hypothesis import strategies as st

from . import env  # noqa: F401  (sets up the import path)
from . import ref

import bloscpack as bp
import blosc

CNAMES = list(blosc.compressor_list())
CHECKSUMS = ref.CHECKSUMS
MAXBUF = blosc.BLOSC_MAX_BUFFERSIZE

# ---------------------------------------------------------------- data


def rnd_bytes(seed, n):
    return random.Random(seed).randbytes(n)


def make_data(spec):
    """bytes from {'size', 'kind', 'seed'} (or {'hex'})."""
    if 'hex' in spec:
        return bytes.fromhex(spec['hex'])
    n, kind, seed = spec['size'], spec['kind'], spec.get('seed', 0)
    if n == 0:
        return b''
    if kind == 'zero':
        return bytes(n)
    if kind == 'const':
        return bytes([seed % 256]) * n
    if kind == 'rnd':
        return rnd_bytes(seed, n)
    if kind.startswith('arith'):
        w = int(kind[5:])
        step = seed % 7 + 1
        count = n // w + 1
        mod = 1 << (8 * w)
        if w == 1:
            return (bytes((seed + i * step) % 256 for i in range(256)) * (n // 256 + 1))[:n]
        import numpy
        a = (numpy.arange(count, dtype='u8') * numpy.uint64(step) + numpy.uint64(seed % mod))
        return a.astype('<u%d' % w).tobytes()[:n]
    if kind == 'text':
        words = b'the quick brown fox jumps over the lazy dog %d\n' % seed
        return (words * (n // len(words) + 1))[:n]
    if kind == 'few':
        r = random.Random(seed)
        alphabet = bytes(r.sample(range(256), 3))
        tab = bytes(alphabet[b % 3] for b in range(256))
        return rnd_bytes(seed + 1, n).translate(tab)
    if kind == 'mixed':
        r = random.Random(seed)
        out = []
        left = n
        while left > 0:
            k = min(left, r.choice([1, 16, 100, 1000, 5000, 65536]))
            out.append(bytes(k) if r.random() < .5 else r.randbytes(k))
            left -= k
        return b''.join(out)
    if kind == 'near':
        # pieces that are equal or differ in a few places only
        r = random.Random(seed)
        period = max(1, spec.get('period', 64))
        base = r.randbytes(period) if seed % 3 else bytes(r.choices(b'ab', k=period))
        out = []
        for _ in range(-(-n // period)):
            piece = bytearray(base)
            how = r.randrange(8)
            if how:
                at = {1: 0, 2: period - 1, 3: period // 2}.get(how, r.randrange(period))
                piece[at] = r.randrange(256)
            if how == 7:
                piece[r.randrange(period)] ^= 1
            out.append(bytes(piece))
        return b''.join(out)[:n]
    raise ValueError(kind)


KINDS = ['zero', 'const', 'rnd', 'rnd', 'arith1', 'arith2', 'arith4', 'arith8', 'text', 'few',
         'mixed']
seeds = st.integers(0, 2 ** 32)


def weighted(*pairs):
    """one_of with integer weights: weighted((3, a), (1, b))"""
    table = []
    for w, s in pairs:
        table.extend([s] * w)
    return st.integers(0, len(table) - 1).flatmap(lambda i: table[i])


@st.composite
def data_of_size(draw, size, allow_raw=True, period=None):
    if period and size > period and draw(st.integers(0, 5)) == 3:
        return {'size': size, 'kind': 'near', 'seed': draw(seeds), 'period': period}
    if allow_raw and size <= 64 and draw(st.booleans()):
        return {'hex': draw(st.binary(min_size=size, max_size=size)).hex()}
    return {'size': size, 'kind': draw(st.sampled_from(KINDS)), 'seed': draw(seeds)}


def remainder(draw, chunk):
    """Sizes modulo the chunk size: the interesting ones and any."""
    how = draw(st.integers(0, 5))
    if how == 0 or chunk == 1:
        return 0
    if how == 1:
        return 1
    if how == 2:
        return chunk - 1
    if how == 3:
        return chunk // 2
    return draw(st.integers(0, chunk - 1))


@st.composite
def plan(draw, big=True, max_chunks=40, strings=True, min_size=0):
    """A data spec together with a chunk size (int, size string or None for the
    default)."""
    table = ['tiny'] * 3 + ['small'] * 8 + ['mid'] * 6 + ['large'] * 2 + ['many'] + ['over']
    if big:
        table += ['default']
    cls = table[draw(st.integers(0, len(table) - 1))]
    chunk = None
    if cls == 'tiny':
        size = draw(st.integers(min_size, 48))
        chunk = draw(st.integers(1, size + 3))
    elif cls == 'small':
        chunk = draw(st.integers(1, 200))
        size = chunk * draw(st.integers(0, max_chunks)) + remainder(draw, chunk)
    elif cls == 'mid':
        chunk = draw(st.integers(1, 5000)) if draw(st.booleans()) else \
            2 ** draw(st.integers(4, 14)) + draw(st.integers(-2, 2))
        size = chunk * draw(st.integers(0, 12)) + remainder(draw, chunk)
    elif cls == 'large':
        chunk = 2 ** draw(st.integers(13, 18)) + draw(st.integers(-1, 1))
        size = chunk * draw(st.integers(0, 4)) + remainder(draw, chunk)
    elif cls == 'many':
        chunk = draw(st.integers(1, 16))
        size = chunk * draw(st.integers(255, 1100)) + remainder(draw, chunk)
    elif cls == 'over':
        size = draw(st.integers(1, 3000))
        chunk = draw(st.sampled_from([size, size + 1, size * 2, 2 ** 20, 2 ** 30, MAXBUF - 1, MAXBUF]))
    else:
        size = draw(st.sampled_from([2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21, 2 ** 21 - 7,
                                     2 ** 21 + 2 ** 19, 3 * 2 ** 20 + 12345]))
        chunk = None
    if size < min_size:
        size = min_size
    if strings and chunk is not None and draw(st.integers(0, 7)) == 0:
        # the same magnitude as a human readable string
        chunk = draw(st.sampled_from(['%dB' % chunk, '%.3fK' % max(chunk / 1024., 0.001),
                                      '%.1fB' % chunk, '1K', '0.5K', '1.5K', '2K', '0.25M',
                                      '1M', '1G']))
    period = ref.parse_size(chunk) if isinstance(chunk, str) else 2 ** 20 if chunk is None else chunk
    return {'data': draw(data_of_size(size, period=period)), 'chunk': chunk}


def plan_chunk(p):
    """The effective requested chunk size in bytes."""
    c = p['chunk']
    if c is None:
        return 2 ** 20
    return ref.parse_size(c) if isinstance(c, str) else c


def chunk_kw(p):
    return {} if p['chunk'] is None else {'chunk_size': p['chunk']}


def plan_size(p):
    d = p['data']
    return len(d['hex']) // 2 if 'hex' in d else d['size']


# ---------------------------------------------------------------- arguments

typesizes = weighted((5, st.sampled_from([1, 2, 4, 8])),
                     (2, st.sampled_from([3, 5, 6, 7, 12, 16, 17, 32, 64, 128, 254, 255])),
                     (2, st.integers(1, 255)))
shuffles = st.sampled_from([True, False, 0, 1, 2])
codec_names = st.sampled_from(CNAMES)


@st.composite
def blosc_spec(draw):
    """None (leave the default) or a (possibly partial) dict of blosc args."""
    how = draw(st.integers(0, 5))
    if how == 0:
        return None
    full = {'typesize': draw(typesizes), 'clevel': draw(st.integers(0, 9)),
            'shuffle': draw(shuffles), 'cname': draw(codec_names)}
    if how == 1:
        keep = draw(st.sets(st.sampled_from(sorted(full))))
        full = dict((k, v) for k, v in full.items() if k in keep)
    return full


BLOSC_DEFAULTS = {'typesize': 8, 'clevel': 7, 'shuffle': True, 'cname': 'blosclz'}


def effective_blosc(spec):
    out = dict(BLOSC_DEFAULTS)
    out.update(spec or {})
    return out


def make_blosc_args(spec):
    return None if spec is None else bp.BloscArgs(**spec)


@st.composite
def max_app_spec(draw, limit=300):
    how = draw(st.integers(0, 5))
    if how == 0:
        return None
    if how in (1, 2):
        return {'int': draw(weighted((3, st.integers(0, 12)), (1, st.integers(0, limit))))}
    if how == 3:
        return {'mul': draw(st.integers(0, 12))}
    if how == 4:
        return {'add': draw(st.integers(0, limit))}
    return {'const': draw(st.integers(0, limit))}


def make_max_app(spec):
    if 'int' in spec:
        return spec['int']
    how = 'mul' if 'mul' in spec else 'add' if 'add' in spec else 'const'
    k = spec[how]
    if k % 5 == 3:
        return Rule(how, k)
    if k % 5 == 4:
        return functools.partial(reserve_rule, how, k)
    if k % 15 == 2:
        return Rule(how, k).method
    return lambda n: reserve_rule(how, k, n)


def reserve_rule(how, k, n):
    return {'mul': n * k, 'add': n + k, 'const': k}[how]


class Rule(object):
    """A reservation that is callable, but no function."""

    def __init__(self, how, k):
        self.how, self.k = how, k

    def __call__(self, n):
        return reserve_rule(self.how, self.k, n)

    method = __call__

    def __repr__(self):
        return 'Rule(%r, %r)' % (self.how, self.k)


def eval_max_app(spec, n, offsets):
    """The documented reservation rule."""
    if not offsets:
        return 0
    if spec is None:
        return 10 * n
    v = make_max_app(spec)
    v = v(n) if callable(v) else v
    return min(v, ref.INT64_MAX - n)


@st.composite
def bloscpack_spec(draw, offsets=None, checksum=None):
    """None or {'offsets', 'checksum', 'max_app'} (each possibly missing)."""
    how = draw(st.integers(0, 6))
    if how == 0 and offsets is None and checksum is None:
        return None
    s = {'offsets': draw(st.integers(0, 3)) != 0 if offsets is None else offsets,
         'checksum': draw(st.sampled_from(CHECKSUMS + [None])) if checksum is None else checksum}
    m = draw(max_app_spec())
    if m is not None:
        s['max_app'] = m
    if how == 1 and offsets is None:
        del s['offsets']
    elif how == 2 and checksum is None:
        del s['checksum']
    return s


def make_bloscpack_args(spec):
    if spec is None:
        return None
    kw = {}
    for k in ('offsets', 'checksum'):
        if k in spec:
            kw[k] = spec[k]
    if 'max_app' in spec:
        kw['max_app_chunks'] = make_max_app(spec['max_app'])
    return bp.BloscpackArgs(**kw)


def effective_bloscpack(spec):
    s = {'offsets': True, 'checksum': 'adler32', 'max_app': None}
    s.update(spec or {})
    if s['checksum'] is None:
        s['checksum'] = 'None'
    return s


# ---------------------------------------------------------------- metadata

json_leaf = st.one_of(
    st.none(), st.booleans(), st.integers(-2 ** 70, 2 ** 70), st.integers(-5, 300),
    st.floats(allow_nan=False, allow_infinity=False), st.text(max_size=12),
    st.sampled_from(['', '\0', '\u20ac', '\U0001f600', 'é', '"', '\\', '\n', '</', 'null', '\x7f',
                     '\ud800']))
json_value = st.recursive(
    json_leaf,
    lambda c: st.one_of(st.lists(c, max_size=5),
                        st.dictionaries(st.text(max_size=8), c, max_size=5)),
    max_leaves=12)


@st.composite
def metadata_spec(draw, allow_none=True):
    """None (no metadata), {'v': json} or a generated large value."""
    how = draw(st.integers(0, 9))
    if how < 2 and allow_none:
        return None
    if how == 9:
        return {'big': draw(st.sampled_from(['rep', 'rnd', 'list', 'deep'])),
                'n': draw(st.sampled_from([1, 100, 255, 256, 257, 1000, 5000, 65535, 65536, 70000])),
                'seed': draw(seeds)}
    if how == 8:
        return {'v': draw(st.sampled_from([{}, [], '', 0, False, 0.0, -0.0, {'a': None}, [None],
                                           {'': ''}, 1e308, 5e-324, -1, 'x', True, [[]],
                                           {'dtype': 'float64', 'shape': [1024], 'others': []}]))}
    v = draw(json_value)
    if v is None:
        v = {}
    return {'v': v}


def make_metadata(spec):
    if spec is None:
        return None
    if 'v' in spec:
        return spec['v']
    n, seed = spec['n'], spec['seed']
    if spec['big'] == 'rep':
        return {'k': 'ab' * n}
    if spec['big'] == 'rnd':
        r = random.Random(seed)
        return {'k': ''.join(r.choice('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+/')
                             for _ in range(n))}
    if spec['big'] == 'list':
        r = random.Random(seed)
        return [r.randint(-10 ** 6, 10 ** 6) for _ in range(min(n, 20000))]
    v = []
    for _ in range(min(n, 100)):
        v = {'d': v}
    return v


meta_checksums = st.sampled_from(CHECKSUMS)
meta_codecs = st.sampled_from(['None', 'zlib', 'zlib'])


@st.composite
def metadata_args_spec(draw):
    """None (defaults) or a dict for MetadataArgs whose reservation suffices."""
    if draw(st.integers(0, 3)) == 0:
        return None
    s = {}
    if draw(st.booleans()):
        s['meta_checksum'] = draw(meta_checksums)
    if draw(st.booleans()):
        s['meta_codec'] = draw(meta_codecs)
    if draw(st.booleans()):
        s['meta_level'] = draw(st.integers(0, 9))
    how = draw(st.integers(0, 12))
    if how <= 4:
        s['reserve'] = {'mul': draw(st.integers(1, 12))}
    elif how <= 9:
        s['reserve'] = {'add': draw(st.integers(0, 100))}
    elif how == 10:
        s['reserve'] = {'int': 200000}
    return s


def make_metadata_args(spec):
    if spec is None:
        return None
    kw = dict((k, v) for k, v in spec.items() if k != 'reserve')
    if 'reserve' in spec:
        kw['max_meta_size'] = make_max_app(spec['reserve'])
    return bp.MetadataArgs(**kw)


def effective_metadata_args(spec):
    s = {'meta_checksum': 'adler32', 'meta_codec': 'zlib', 'meta_level': 6,
         'reserve': {'mul': 10}}
    s.update(spec or {})
    return s
