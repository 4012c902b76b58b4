"""C24: argument and header objects are faithful, independent mappings."""
import ast
import copy
import pickle
import re

from hypothesis import strategies as st

from .. import api, gen, ref
from ..core import Enum, Gen, expect, expect_eq, must_succeed, refused
from . import c13

from bloscpack import headers

ASSUMPTIONS = ['values assigned to a header after its construction are not validated until it is decoded again; only '
               'valid ones are assigned here, although not always ones that fit together']
I64 = ref.INT64_MAX


def b(x):
    """Bytes as they appear in a case."""
    return x.encode('latin-1') if isinstance(x, str) else x


CLASSES = {'BloscArgs': api.bp.BloscArgs, 'BloscpackArgs': api.bp.BloscpackArgs, 'MetadataArgs': api.bp.MetadataArgs,
           'BloscpackHeader': headers.BloscpackHeader, 'MetadataHeader': headers.MetadataHeader}
# documented names in the documented order, and the documented defaults
DEFAULTS = {
    'BloscArgs': [('typesize', 8), ('clevel', 7), ('shuffle', True), ('cname', 'blosclz')],
    'BloscpackArgs': [('offsets', True), ('checksum', 'adler32'), ('max_app_chunks', None)],
    'MetadataArgs': [('magic_format', b'JSON'), ('meta_checksum', 'adler32'), ('meta_codec', 'zlib'), ('meta_level', 6),
                     ('max_meta_size', None)],
    'BloscpackHeader': [('format_version', 3), ('offsets', False), ('metadata', False), ('checksum', 'None'),
                        ('typesize', 0), ('chunk_size', -1), ('last_chunk', -1), ('nchunks', -1),
                        ('max_app_chunks', 0)],
    'MetadataHeader': [('magic_format', b''), ('meta_options', '00000000'), ('meta_checksum', 'None'),
                       ('meta_codec', 'None'), ('meta_level', 0), ('meta_size', 0), ('max_meta_size', 0),
                       ('meta_comp_size', 0), ('user_codec', b'')]}
SIZES = {'BloscpackHeader': ['chunk_size', 'last_chunk'],
         'MetadataHeader': ['meta_size', 'max_meta_size', 'meta_comp_size']}


def values(cls, key):
    """Strategies of valid values, as they appear in a case."""
    ints = c13.near
    table = {'typesize': ints(1, 255), 'clevel': st.integers(0, 9), 'shuffle': st.sampled_from([True, False, 0, 1, 2]),
             'cname': gen.codec_names, 'offsets': st.booleans(), 'metadata': st.booleans(),
             'checksum': st.sampled_from(gen.CHECKSUMS), 'max_app_chunks': ints(0, 10 ** 9),
             'magic_format': st.sampled_from(['JSON', 'abc', '']), 'meta_checksum': st.sampled_from(gen.CHECKSUMS),
             'meta_codec': st.sampled_from(['None', 'zlib']), 'meta_level': st.integers(0, 9),
             'max_meta_size': ints(0, 2 ** 32 - 1), 'meta_size': ints(0, 2 ** 32 - 1),
             'meta_comp_size': ints(0, 2 ** 32 - 1), 'user_codec': st.sampled_from(['', 'x', '12345678']),
             'format_version': ints(0, 255), 'chunk_size': ints(2 ** 20, gen.MAXBUF), 'last_chunk': ints(0, 2 ** 20),
             'nchunks': ints(0, 10 ** 9), 'meta_options': st.sampled_from(['00000000', '00000101'])}
    if cls.endswith('Args') and key in ('max_app_chunks', 'max_meta_size'):
        return st.one_of(st.none(), table[key])
    return table[key]


def assigned(cls, key):
    """The same, with other values for what is not validated."""
    if cls.endswith('Args') and key not in ('magic_format',):
        # (None as a checksum means 'None')
        return st.one_of(values(cls, key), values(cls, key), ODD.filter(lambda v: key != 'checksum' or v is not None))
    if cls == 'BloscpackHeader' and key in ('chunk_size', 'last_chunk', 'nchunks', 'max_app_chunks'):
        # what a header passes through while one field after the other is set
        return st.one_of(values(cls, key), values(cls, key),
                         c13.near(-1 if key != 'max_app_chunks' else 0,
                                  gen.MAXBUF if key in ('chunk_size', 'last_chunk') else I64))
    return values(cls, key)


def fits(cls, model):
    """Whether the fields could be decoded, or given to a new object, together."""
    if cls != 'BloscpackHeader':
        return True
    cs, last, n, m = (model[k] for k in ('chunk_size', 'last_chunk', 'nchunks', 'max_app_chunks'))
    return (-1 in (cs, last) or last <= cs) and (m == 0 if n == -1 else n + m <= I64)


ODD = st.one_of(st.none(), st.sampled_from([0.0, 1.5, 9.0, -1, 2 ** 70, '', '7', 'None', [], [1, [2]], {}, {'a': None},
                                            True, False, 1, 0]), st.floats(allow_nan=False, allow_infinity=False))


@st.composite
def cases(draw):
    cls = draw(st.sampled_from(sorted(CLASSES)))
    keys = [k for k, _ in DEFAULTS[cls]]
    val = lambda k: draw(assigned(cls, k))   # noqa: E731
    init = dict((k, val(k)) for k in sorted(draw(st.sets(st.sampled_from(keys)))))
    if cls in ('MetadataArgs', 'BloscpackHeader', 'MetadataHeader'):
        # these are validated
        init = dict((k, draw(values(cls, k))) for k in sorted(init))
    if cls == 'BloscpackHeader':
        # no constraint between fields may be violated at first
        init.update((k, draw(values(cls, k))) for k in ('chunk_size', 'last_chunk', 'nchunks'))
        init['offsets'] = True
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        op = draw(st.sampled_from(['item', 'item', 'attr', 'attr', 'update', 'update kw', 'setdefault', 'copy', 'copy',
                                   'deepcopy', 'pickle', 'switch', 'switch', 'refused', 'unknown']))
        k = draw(st.sampled_from(keys))
        o = {'op': op, 'key': k}
        if op in ('item', 'attr', 'setdefault'):
            o['value'] = val(k)
        elif op.startswith('update'):
            o['values'] = dict((k, val(k)) for k in sorted(draw(st.sets(st.sampled_from(keys), min_size=1))))
        elif op == 'switch':
            o['to'] = draw(st.integers(0, 5))
        elif op in ('refused', 'unknown'):
            o['how'] = draw(st.integers(0, 5))
            o['name'] = draw(st.sampled_from(['nope', '', 'attributes', '_attrs', 'Typesize', 'copy', 'encode', '__class__']))
        ops.append(o)
    return {'cls': cls, 'init': init, 'ops': ops}


def val(k, v):
    return b(v) if k in ('magic_format', 'user_codec') else v


def look(cls, o, model, what):
    """The object shows exactly the model, through every view of it."""
    keys = [k for k, _ in DEFAULTS[cls]]
    with must_succeed('looking at ' + what):
        expect_eq(list(o), keys, '%s: keys' % what)
        expect_eq(len(o), len(keys), '%s: length' % what)
        for k in keys:
            expect(k in o, '%s: %s is not in it', what, k)
            for how, got in (('item', o[k]), ('attribute', getattr(o, k)), ('get', o.get(k)), ('dict', dict(o)[k]),
                             ('**', dict(**o)[k]), ('values', list(o.values())[keys.index(k)]),
                             ('items', dict(o.items())[k])):
                expect(got is model[k] or (got == model[k] and type(got) is type(model[k])),
                       '%s: %s as %s is %r instead of %r', what, k, how, got, model[k])
        expect('nope' not in o, '%s: an unknown name is in it', what)
        expect(o == dict(model) and not o != dict(model), '%s: not equal to a dict of its values', what)
        fit = fits(cls, model)
        if fit:
            twin = CLASSES[cls](**model)
            expect(o == twin and not o != twin, '%s: not equal to a new object with its values', what)
        for k in keys:
            expect(not o == dict(model, **{k: 'something else'}), '%s: equal although %s differs', what, k)
        literal = dict((k, v) for k, v in model.items() if not callable(v))
        if len(literal) == len(model):
            expect_eq(ast.literal_eval(str(o)), dict(model), '%s: str()' % what)
            if fit:
                expect_eq(str(twin), str(o), '%s: str() of an equal object' % what)
                expect(eval(repr(o), dict(CLASSES)) == o, '%s: repr() makes another object: %s', what, repr(o))
        lines = o.pformat().split('\n')
        expect_eq(lines.pop(0), cls + ':', '%s: first line of pformat()' % what)
        expect_eq([l.split(':')[0].strip() for l in lines], keys, '%s: names in pformat()' % what)
        for k, l in zip(keys, lines):
            text = l.split(': ', 1)[1]
            if k in SIZES.get(cls, []) and model[k] != -1:
                m = re.match(r'^[\d.]+B?[KMGT]?(?: \((\d+)B\))?$', text)
                expect(m and (m.group(1) or text[:-1].split('.')[0]) == str(model[k]),
                       '%s: %s is printed as %s instead of %d bytes', what, k, text, model[k])
            else:
                expect_eq(text, repr(model[k]), '%s: %s in pformat()' % (what, k))
        if cls.endswith('Header') and fit:
            raw = o.encode()
            expect_eq(raw, twin.encode(), '%s: encoding, compared to a new object with its values' % what)
            back = CLASSES[cls].decode(raw)
            want = dict(model)
            if cls == 'BloscpackHeader' or want['meta_options'] == '00000000':
                expect(back == want, '%s: decoded as %r', what, back)


def check(c, ctx):
    cls = c['cls']
    keys = [k for k, _ in DEFAULTS[cls]]
    with must_succeed('construction'):
        plain = CLASSES[cls]()
        first = CLASSES[cls](**dict((k, val(k, v)) for k, v in c['init'].items()))
    ctx.label(cls, *[o['op'] for o in c['ops']])
    defaults = dict(DEFAULTS[cls])
    for k in keys:
        if defaults[k] is None:
            # a function
            defaults[k] = plain[k]
        expect(plain[k] == defaults[k], 'default of %s: %r instead of %r', k, plain[k], defaults[k])
    model = dict(defaults)
    model.update((k, val(k, v)) for k, v in c['init'].items())
    model = dict((k, model[k]) for k in keys)
    look(cls, first, model, 'a new object')
    objs, cur = [[first, model]], 0
    for i, op in enumerate(c['ops']):
        o, m = objs[cur]
        k, what = op['key'], 'operation %d (%s) on object %d' % (i, op['op'], cur)
        if op['op'] == 'refused':
            ops = [lambda: o.__delitem__(k), lambda: o.pop(k), lambda: o.popitem(), lambda: o.clear(),
                   lambda: o.pop(k, None), lambda: o.__delitem__(k)]
            with refused(what, NotImplementedError):
                ops[op['how']]()
        elif op['op'] == 'unknown':
            n = op['name']
            ops = [lambda: o[n], lambda: o.__setitem__(n, 1), lambda: o.update({n: 1}), lambda: o.pop(n),
                   lambda: o.setdefault(n, 1), lambda: o.update([(n, 2)])]
            with refused('%s %r' % (what, n), KeyError):
                ops[op['how']]()
            expect(n not in o and o.get(n, 'none') == 'none', '%s: %r is in it now', what, n)
        else:
            with must_succeed(what):
                if op['op'] in ('item', 'attr'):
                    v = val(k, op['value'])
                    if op['op'] == 'item':
                        o[k] = v
                    else:
                        setattr(o, k, v)
                    m[k] = v
                elif op['op'].startswith('update'):
                    vs = dict((a, val(a, v)) for a, v in op['values'].items())
                    if op['op'] == 'update':
                        o.update(vs)
                    else:
                        o.update(**vs)
                    m.update(vs)
                elif op['op'] == 'setdefault':
                    expect_eq(o.setdefault(k, val(k, op['value'])), m[k], what)
                elif op['op'] == 'switch':
                    cur = op['to'] % len(objs)
                else:
                    new = {'copy': lambda: o.copy() if k < 'm' else copy.copy(o), 'deepcopy': lambda: copy.deepcopy(o),
                           'pickle': lambda: pickle.loads(pickle.dumps(o))}
                    if op['op'] == 'pickle' and any(callable(v) for v in m.values()):
                        continue
                    x = new[op['op']]()
                    expect(type(x) is type(o) and x is not o, '%s: made %r', what, x)
                    objs.append([x, dict(m)])
                    cur = len(objs) - 1
        # nothing but the object at hand changed
        for j, (o, m) in enumerate(objs):
            look(cls, o, m, 'object %d after %s' % (j, what))
    look(cls, CLASSES[cls](), defaults, 'a new object at the end')
    ctx.nontrivial(len(objs) > 1)


# ------------------------------------------------------------ equality

def pair_cases(tier):
    for cls in sorted(DEFAULTS):
        for k, d in DEFAULTS[cls]:
            yield {'cls': cls, 'key': k}


OTHER = {'typesize': [1, 2, 255], 'clevel': [0, 1, 9], 'shuffle': [False, 2], 'cname': ['lz4', 'zlib', 'snappy'],
         'offsets': [False, True], 'metadata': [True], 'checksum': ['None', 'sha512', 'crc32'],
         'max_app_chunks': [0, 1, 10, None], 'magic_format': ['JSON', 'x'], 'meta_checksum': ['None', 'md5'],
         'meta_codec': ['None', 'zlib'], 'meta_level': [0, 9], 'max_meta_size': [0, 5, 2 ** 32 - 1, None],
         'meta_size': [1, 2 ** 32 - 1], 'meta_comp_size': [1, 2 ** 32 - 1], 'user_codec': ['a', '12345678'],
         'format_version': [1, 255], 'chunk_size': [1, gen.MAXBUF], 'last_chunk': [0], 'nchunks': [0, 1, I64],
         'meta_options': ['00000001']}


def check_pair(c, ctx):
    """One field at a time: positional, by name, by assignment."""
    cls, key = c['cls'], c['key']
    keys = [k for k, _ in DEFAULTS[cls]]
    ctx.nontrivial()
    with must_succeed('construction'):
        # no constraint between fields may be violated
        extra = {'nchunks': 5, 'offsets': True} if key == 'max_app_chunks' and cls.endswith('Header') else {}
        base = CLASSES[cls](**extra)
    for v in OTHER[key]:
        if v is None and cls.endswith('Header'):
            continue
        v = val(key, v)
        with must_succeed('%s with %s=%r' % (cls, key, v)):
            o = CLASSES[cls](**dict(extra, **{key: v}))
            pos = CLASSES[cls](*([base[k] for k in keys[:keys.index(key)]] + [v]))
            late = CLASSES[cls](**extra)
            late[key] = v
        model = dict((k, v if k == key else base[k]) for k in keys)
        look(cls, o, model, '%s by name' % key)
        look(cls, pos, model, '%s by position' % key)
        look(cls, late, model, '%s by assignment' % key)
        if v != base[key]:
            expect(o != base and not o == base, 'equal although %s differs', key)


PARTS = [
    Enum('fields', pair_cases, check_pair,
         'every field given by name, by position and by assignment; all non-trivial'),
    Gen('histories', cases(), check, 3000, 60000,
        'assignments, updates, copies, refused and unknown operations on up to nine objects, all of them looked at '
        'through every view after each; non-trivial: more than one object'),
]
