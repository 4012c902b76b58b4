"""C17: the command line never overwrites without --force or alters its inputs."""
import json
import os

from hypothesis import strategies as st

from .. import api, gen, ref
from ..core import Gen, expect, expect_eq, must_succeed
from . import c16

ASSUMPTIONS = ['invocations with --force use distinct input and output paths; appending a file to itself is not run',
               'what a failing invocation leaves in its own, permitted output is not judged here']

PLAIN = ['a', 'b', 'e e', 'sub/f', 'raw.blp']
PACKED = ['a.blp', 'd', 'sub/f.blp', 'g.blp.blp', 'n.blp']
BROKEN = ['c.blp', 'short.blp', 'open.blp']
METAS = ['m.json', 'bad.json', 'missing.json']
# the same metadata, as an editor may have written it
TEXTS = ['{"new": [1, 2]}', '{"new": [1, 2]}\n', '{\n  "new": [\n    1,\n    2\n  ]\n}\n', ' {"new":[1,2]} \n\n',
         '{"new":\r\n [1, 2]}\r\n', '\n\t{"new": [1, 2]}', '{"new": [1, 2], "new": [1, 2]}', '{"n\\u0065w": [1, 2]}']
# these may be symbolic links to files elsewhere
LINKED = ['a', 'b', 'sub/f', 'a.blp', 'd', 'sub/f.blp', 'g.blp.blp', 'c.blp']
ABSENT = ['new', 'new.blp', 'h.blp', 'sub/new', 'nodir/x', 'x.dat']
EVERY = PLAIN + PACKED + BROKEN + ['m.json', 'bad.json', 'dir'] + ABSENT


@st.composite
def op(draw):
    kind = draw(st.sampled_from(['c', 'compress', 'd', 'd', 'decompress', 'a', 'i']))
    o = {'kind': kind, 'force': draw(st.booleans()), 'loud': draw(st.sampled_from([None, None, '-v', '-d']))}
    likely = {'c': PLAIN + PACKED, 'd': PACKED + BROKEN, 'a': PACKED, 'i': PACKED}[kind[0]]
    o['in'] = draw(st.sampled_from(likely if draw(st.integers(0, 5)) else EVERY))
    if kind[0] in 'cd':
        # explicit or default, often something that exists
        o['out'] = draw(st.one_of(st.none(), st.sampled_from(EVERY), st.sampled_from(ABSENT)))
    if kind[0] == 'a':
        o['out'] = draw(st.sampled_from(EVERY if draw(st.integers(0, 4)) == 0 else PLAIN))
    if kind[0] in 'da':
        o['noext'] = draw(st.integers(0, 2)) == 0
    if kind[0] in 'ca' and draw(st.integers(0, 2)) == 0:
        o['meta'] = draw(st.sampled_from(METAS[:1] * 3 + METAS))
    if kind[0] == 'c':
        o['opts'] = draw(c16.options())
        if draw(st.booleans()):
            o['chunk'] = draw(st.sampled_from(['100B', '1K', '64', 'max', '7']))
    return o


@st.composite
def cases(draw):
    return {'sizes': [draw(st.integers(0, 3000)) for _ in range(len(PLAIN) + len(PACKED))],
            'seed': draw(gen.seeds), 'text': draw(st.sampled_from(TEXTS)), 'absent': draw(st.lists(st.sampled_from(PACKED + BROKEN + PLAIN), unique=True, max_size=5)),
            'links': draw(st.one_of(st.just([]), st.lists(st.sampled_from(LINKED), unique=True, max_size=4))),
            'ops': draw(st.lists(op(), min_size=1, max_size=4))}


def unusual(seed, whole):
    raw = bytearray(whole)
    app = ref.parse(whole).header.max_app
    how = seed // 3 % 6
    if how < 4:
        # all offsets, some, or one of them
        n = [4 + app, 4, 1 + seed % 4, 1][how]
        first = 32 + (8 * (seed % 4) if how == 3 else 0)
        raw[first:first + 8 * n] = b'\xff' * (8 * n)
        if seed % 2:
            raw = raw[:len(raw) - seed % 700]
    elif how == 4:
        raw[4 + seed % 28] ^= 1 << seed // 7 % 8
    else:
        raw = raw + bytes(seed % 9)
    return bytes(raw)


def populate(c, cwd):
    for d in ('sub', 'dir'):
        os.mkdir(os.path.join(cwd, d))
    full = lambda n: os.path.join(cwd, n)   # noqa: E731
    have = set(PLAIN + PACKED + BROKEN) - set(c['absent'])
    content = {}
    for k, n in enumerate(PLAIN + PACKED):
        if n not in have:
            continue
        data = gen.make_data({'size': c['sizes'][k], 'kind': ['rnd', 'arith4', 'few'][k % 3], 'seed': c['seed'] + k})
        if n in PACKED:
            meta = {'k': n} if k % 2 else None
            with must_succeed('packing'):
                content[n] = api.bp.pack_bytes_to_bytes(data, chunk_size=max(1, len(data) // 3), metadata=meta)
        else:
            content[n] = data
    whole = api.bp.pack_bytes_to_bytes(gen.rnd_bytes(c['seed'], 2000), chunk_size=500)
    if 'c.blp' in have:
        content['c.blp'] = whole[:-5] + bytes([whole[-5] ^ 1]) + whole[-4:]
    if 'short.blp' in have:
        content['short.blp'] = whole[:len(whole) // 2]
    if 'open.blp' in have:
        # as an interrupted writer, another program or a bad disk leaves it
        content['open.blp'] = unusual(c['seed'], whole)
    content['m.json'] = c['text'].encode()
    content['bad.json'] = b'{"new": [1, 2'
    links = [n for n in c.get('links', []) if n in content]
    if links:
        os.mkdir(full('real'))
    for n in content:
        if n in links:
            real = 'real/' + n.replace('/', '_')
            os.symlink(os.path.relpath(full(real), os.path.dirname(full(n))), full(n))
            api.write_file(full(real), content[n])
        else:
            api.write_file(full(n), content[n])


def real(files, name):
    """The name of the file that is found under a name, links followed."""
    if isinstance(files.get(name), str):
        return os.path.normpath(os.path.join(os.path.dirname(name), files[name]))
    return name


def read(files, name):
    return files[real(files, name)]


def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for n in dirs:
            out[os.path.relpath(os.path.join(base, n), d) + '/'] = None
        for n in files:
            p = os.path.join(base, n)
            out[os.path.relpath(p, d)] = os.readlink(p) if os.path.islink(p) else api.read_file(p)
    return out


def target(o):
    """The one path this invocation may write to, or None."""
    k = o['kind'][0]
    if k == 'c':
        return o['out'] or o['in'] + '.blp'
    if k == 'd':
        if o['noext']:
            return o['out']
        if not o['in'].endswith('.blp'):
            return None
        return o['out'] or o['in'][:-4]
    return o['in'] if k == 'a' else None


def arguments(o):
    args = [x for x in (o['loud'], '-f' if o['force'] else None) if x] + ['-n1', o['kind']]
    if o['kind'][0] == 'c':
        args += c16.arguments(o['opts'])
        if 'chunk' in o:
            args += ['-z', o['chunk']]
    if o.get('meta'):
        args += ['-m', o['meta']]
    if o.get('noext'):
        args.append('-e')
    args.append(o['in'])
    if o.get('out'):
        args.append(o['out'])
    return args


def difference(before, after):
    return sorted(n for n in set(before) | set(after) if before.get(n, '') != after.get(n, ''))


def check(c, ctx):
    cwd = api.workdir(ctx)
    populate(c, cwd)
    for o in c['ops']:
        before = tree(cwd)
        out = target(o)
        k = o['kind'][0]
        if k in 'cd' and o['force'] and (out == o['in'] or out == o.get('meta')):
            continue
        if any(isinstance(before.get(n), str) for n in (o['in'], out, o.get('out'))):
            ctx.label('through a link')
        if k == 'a' and o['out'] == o['in'] or k == 'a' and o.get('meta') == o['in']:
            continue
        args = arguments(o)
        r = api.run_cli(args, cwd)
        after = tree(cwd)
        changed = difference(before, after)
        what = 'blpk ' + ' '.join(args)
        expect(r.status is not None, '%s: %r', what, r)
        exists = out is not None and (out in before or out + '/' in before)
        if k in 'cd' and exists and not o['force']:
            ctx.label('existing output without --force')
            ctx.nontrivial(o['in'] in before and out in before)
            expect(r.status != 0, '%s exits with 0 although %r exists: %r', what, out, r)
            expect(not changed, '%s: existing %r without --force, but changed %r', what, out, changed)
            expect(r.text.strip(), '%s reports no error', what)
            continue
        if out is None:
            expect(not changed, '%s changed %r', what, changed)
        else:
            expect(set(changed) <= {out, real(before, out)}, '%s changed %r, may write %r only', what, changed, out)
        if k == 'a' and exists:
            ctx.label('append' if r.status == 0 else 'failing append')
            ctx.nontrivial(r.status == 0)
        elif k == 'i':
            ctx.label('info' if r.status == 0 else 'failing info')
            ctx.nontrivial(r.status == 0)
        elif r.status:
            ctx.label('failing ' + k)
        if r.status == 0:
            content(o, what, before, after, out)
        elif valid(o, before, out):
            expect(False, '%s failed: %r', what, r)
        if k in 'cd' and exists and o['force'] and r.status == 0:
            ctx.label('replaced with --force')
            ctx.nontrivial()


def content(o, what, before, after, out):
    k = o['kind'][0]
    if k == 'c':
        expect(out in after, '%s exits with 0 but there is no %r', what, out)
        expect_eq(ref.parse(read(after, out)).data, read(before, o['in']), '%s: content of the output' % what)
    elif k == 'd':
        expect(out in after, '%s exits with 0 but there is no %r', what, out)
        try:
            want = ref.parse(read(before, o['in']), strict=False).data
        except ref.RefError:
            return      # C05 to C08 say what is read from which file
        expect_eq(read(after, out), want, '%s: content of the output' % what)


def valid(o, before, out):
    """Is this an invocation that has to succeed?"""
    if o['kind'][0] not in 'cd' or before.get(o['in']) is None:
        return False
    if out is None or out + '/' in before or out.startswith('nodir') or o.get('meta') in METAS[1:]:
        return False
    if o.get('meta'):
        try:
            json.loads(before[o['meta']].decode().strip())
        except (KeyError, ValueError):
            return False    # an earlier operation wrote over it
    if o['kind'][0] == 'c':
        return True
    try:
        ref.parse(read(before, o['in']))
        return True
    except ref.RefError:
        return False


PARTS = [
    Gen('histories', cases(), check, 2500, 40000,
        'up to four invocations on a generated directory; non-trivial: an existing output was refused or replaced, '
        'or an append or info succeeded'),
]
