"""C18: command line failures are reported as failures."""
import mmap
import os
import re

from hypothesis import strategies as st

from .. import api, faults, gen, ref
from ..core import Enum, Gen, expect, must_succeed
from . import c16

ASSUMPTIONS = ['a full disk is produced with the file size limit of the child process',
               'corrupted chunks are altered behind their 16-byte header, in a file with checksums']

# ------------------------------------------------------------ faults
# name: (subcommands, friendly message promised)
FAULTS = {
    'missing input': ('cdai', True),
    'missing new file': ('a', True),
    'missing metadata': ('ca', True),
    'existing output': ('cd', True),
    'wrong extension': ('da', True),
    'no output with -e': ('d', True),
    'version': ('dai', True),
    'corrupt chunk': ('d', True),
    'corrupt last chunk': ('a', True),
    'corrupt metadata': ('dai', True),
    'invalid metadata': ('ca', False),
    'bad option': ('ca', False),
    'bad chunk size': ('c', False),
    'bad threads': ('cdai', False),
    'unknown option': ('cdai', False),
    'not bloscpack': ('dai', False),
    'truncated': ('d', False),
    'truncated header': ('dai', False),
    'input is a directory': ('cdai', False),
    'output in no directory': ('cd', False),
    'too many arguments': ('cdai', False),
    'too few arguments': ('cdai', False),
    'unknown subcommand': ('cdai', False),
    'no space to append': ('a', False),
    'no offsets': ('a', False),
    'no metadata section': ('a', False),
    'metadata too large': ('a', False),
    'disk full': ('cda', False),
    'metadata is a directory': ('ca', True),
    'new file is a directory': ('a', False),
    'output is a directory': ('cd', False),
    'input below a file': ('cdai', True),
    'dangling link': ('cdai', True),
    'new file is a dangling link': ('a', True),
    'name too long': ('cdai', True),
    'metadata below a file': ('ca', True),
    'operation': ('cdai', False),
}
ALIASES = {'c': ['c', 'compress'], 'd': ['d', 'decompress'], 'a': ['a', 'append'], 'i': ['i', 'info']}

BAD_OPTIONS = [['-t', 'x'], ['-t', '0'], ['-t', '256'], ['-t', '-1'], ['-t', '1.5'], ['-t', '4K'], ['-t'],
               ['-l', '10'], ['-l', '-1'], ['-l', 'x'], ['-l', '3.0'], ['-c', 'nope'], ['-c', ''], ['-c', 'LZ4'],
               ['--codec', 'gzip'], ['--typesize', ''], ['--clevel', '100']]
BAD_CHECKSUMS = [['-k', 'nope'], ['-k', ''], ['-k', 'MD5'], ['--checksum', 'crc']]
BAD_SIZES = ['-1', '0', 'x', '', '1X', '1.5', 'K', '-1K', '0K', '1 KB', '1KB', 'maximum', 'MAX', '1e3', '0.0001K',
             '0x10', '-0.5M']
BAD_THREADS = ['0', '-1', '257', '100000', 'x', '1.5', '']


@st.composite
def cases(draw):
    fault = draw(st.sampled_from(sorted(FAULTS) + ['operation'] * 4))
    sub = draw(st.sampled_from(FAULTS[fault][0]))
    cs = draw(st.integers(1, 700))
    n = draw(st.integers(1, 6))
    c = {'fault': fault, 'sub': sub, 'alias': draw(st.integers(0, 1)), 'cs': cs,
         'size': cs * (n - 1) + draw(st.integers(1, cs)), 'seed': draw(gen.seeds),
         'checksum': draw(st.sampled_from(gen.CHECKSUMS[1:] if fault.startswith('corrupt') else gen.CHECKSUMS)),
         'offsets': sub == 'a' or draw(st.booleans()), 'meta': draw(st.booleans()),
         'g': draw(c16.glob()), 'o': draw(c16.options('compress' if sub == 'c' else 'append')),
         'name': draw(st.sampled_from(['data', 'x y', 'sub/data', 'é'])), 'at': draw(gen.seeds),
         'kind': draw(st.sampled_from(sorted(faults.KINDS))), 'pick': draw(st.integers(0, 10 ** 6)), 'script': draw(st.integers(0, 39)) == 23}
    return c


def base(c, ctx):
    """A valid invocation as a mutable description."""
    cwd = api.workdir(ctx)
    os.mkdir(os.path.join(cwd, 'sub'))
    s = c['sub']
    b = {'cwd': cwd, 'pre': [], 'opts': [], 'pos': [], 'setup': None}
    data = gen.rnd_bytes(c['seed'], c['size'])
    need_meta = c['meta'] or c['fault'] in ('corrupt metadata', 'metadata too large')
    meta = {'some': 'metadata', 'n': 12345} if need_meta and c['fault'] != 'no metadata section' else None
    with must_succeed('packing'):
        b['packed'] = api.bp.pack_bytes_to_bytes(
            data, chunk_size=c['cs'], metadata=meta, bloscpack_args=api.bp.BloscpackArgs(
                offsets=c['offsets'] and c['fault'] != 'no offsets', checksum=c['checksum'], max_app_chunks=3))
    b['data'], b['f'] = data, ref.parse(b['packed'])
    b['new'] = gen.rnd_bytes(c['seed'] + 1, c['cs'])
    b['in'] = c['name'] if s == 'c' else c['name'] + '.blp'
    b['content'] = data if s == 'c' else b['packed']
    b['sub'] = ALIASES[s][c['alias']]
    if s in 'cd' and c['pick'] & 1:
        b['out'] = 'out.put'
    if s == 'a':
        b['out'] = 'new'
    if s in 'ca':
        b['opts'] = c16.arguments(c['o'])
        if c['pick'] & 2 and c['meta'] and s == 'c':
            b['meta'] = b'{"x": 1}'
    return b


def full(b, n):
    return os.path.join(b['cwd'], n)


def break_it(c, b):
    """Applies the fault; False if it does not apply to this case."""
    fault, f, s, pick, at = c['fault'], b['f'], c['sub'], c['pick'], c['at']
    if fault == 'missing input':
        b['content'] = None
    elif fault == 'missing new file':
        b['new'] = None
    elif fault == 'missing metadata':
        b['meta'] = None
    elif fault == 'existing output':
        b['exists'] = True
        c['g']['force'] = False
    elif fault == 'wrong extension':
        b['in'] = c['name'] + ['', '.bl', '.blp.x', '.BLP', 'blp'][pick % 5]
    elif fault == 'no output with -e':
        b['opts'].append('-e')
        b.pop('out', None)
    elif fault == 'version':
        v = [0, 1, 2, 4, 255][pick % 5]
        b['content'] = b['packed'][:4] + bytes([v]) + b['packed'][5:]
    elif fault in ('corrupt chunk', 'corrupt last chunk'):
        k = f.chunks[-1 if 'last' in fault else pick % len(f.chunks)]
        span = len(k.compressed) - 16 + len(k.digest)
        b['content'] = flip(b['packed'], k.pos + 16 + at % span, pick)
    elif fault == 'corrupt metadata':
        m = f.meta_header
        span = m.comp_size + ref.DIGEST_SIZE[m.checksum]
        k = at % span
        b['content'] = flip(b['packed'], 64 + (k if k < m.comp_size else m.max_size + k - m.comp_size), pick)
    elif fault == 'invalid metadata':
        b['meta'] = [b'', b'{', b"{'a': 1}", b'{"a": 1} x', b'\xff\xfe', b'nope', b'[1,]'][pick % 7]
    elif fault == 'bad option':
        bad = BAD_OPTIONS + (BAD_CHECKSUMS if s == 'c' else [])
        b['opts'] += bad[pick % len(bad)]
    elif fault == 'bad chunk size':
        b['opts'] += [['-z', '--chunk-size'][pick & 1], BAD_SIZES[pick % len(BAD_SIZES)]]
    elif fault == 'bad threads':
        c['g']['nthreads'] = None
        b['pre'] = [['-n', '--nthreads'][pick & 1], BAD_THREADS[pick % len(BAD_THREADS)]]
    elif fault == 'unknown option':
        # some are options of other subcommands only
        own = {'c': ['-e', '-x', '--max-app'], 'd': ['-t 4', '-o', '-z 10', '--nope'],
               'a': ['-o', '-k md5', '-z 10', '--nope'], 'i': ['-e', '-t 4', '-m m.json', '--nope']}[s]
        b['opts'] += own[pick % len(own)].split()
    elif fault == 'not bloscpack':
        p = b['packed']
        b['content'] = [b'', b'blpk', b'x' * 500, p[1:], b'\0' + p[1:], p[:5] + b'\x84' + p[6:],
                        p[:6] + b'\x09' + p[7:], gen.rnd_bytes(at, 300), b'{"json": 1}' * 9][pick % 9]
    elif fault == 'truncated':
        b['content'] = b['packed'][:at % len(b['packed'])]
    elif fault == 'truncated header':
        b['content'] = b['packed'][:at % (f.data_pos + 16)]
    elif fault == 'input is a directory':
        b['dir'] = True
    elif fault == 'output in no directory':
        b['out'] = 'nodir/out'
    elif fault == 'metadata is a directory':
        b['meta'] = None
        os.mkdir(full(b, 'm.json'))
    elif fault == 'metadata below a file':
        b['meta'] = None
        b['meta name'] = 'plain/m.json'
    elif fault == 'new file is a directory':
        b['new'] = None
        os.mkdir(full(b, 'new'))
    elif fault == 'output is a directory':
        b['out'] = 'dir'
        os.mkdir(full(b, 'dir'))
    elif fault == 'input below a file':
        b['in'] = 'plain/' + b['in']
        b['content'] = None
    elif fault == 'dangling link':
        b['content'] = None
        os.symlink('nothing', full(b, b['in']))
    elif fault == 'new file is a dangling link':
        b['new'] = None
        os.symlink('nothing', full(b, 'new'))
    elif fault == 'name too long':
        b['in'] = 'n' * 300 + b['in'][-4:]
        b['content'] = None
    elif fault == 'too many arguments':
        b['pos'] = ['one', 'two', 'three']
    elif fault == 'too few arguments':
        b['few'] = True
    elif fault == 'unknown subcommand':
        b['sub'] = ['x', 'compresss', 'D', '', '--', 'help'][pick % 6]
    elif fault == 'no space to append':
        room = c['cs'] if len(f.chunks) > 1 else f.header.chunk_size
        b['new'] = bytes(room * 4 + 1 + pick % 5000)
    elif fault in ('no offsets',):
        pass
    elif fault == 'no metadata section':
        b['meta'] = b'{"x": 1}'
    elif fault == 'metadata too large':
        b['meta'] = b'"' + gen.rnd_bytes(at, 3000).hex().encode() + b'"'
    elif fault == 'operation':
        # any operation on the files, or any call of blosc, fails
        b['fired'] = mmap.mmap(-1, 1)

        class Names(dict):
            def get(self, p, default=None):
                return os.path.basename(os.fspath(p)) if isinstance(p, (str, os.PathLike)) else default

        def fired():
            b['fired'][0] = 1
        c['script'] = False

        def setup():
            f = faults.Fault(at=pick % (40 if pick % 3 else 400), kind=c['kind'], action=fired)
            b['keep'] = [faults.faulty_open(f, Names()), faults.faulty_codec(f)]
            for k in b['keep']:
                k.__enter__()
        b['setup'] = setup
    elif fault == 'disk full':
        # packed random data is never smaller than the data
        want = {'c': len(b['data']), 'd': len(b['data']), 'a': len(b['packed']) + len(b['new']) - 200}[s]
        if want < 300:
            return False
        limit = 200 + at % (want - 200)
        if s == 'a' and limit >= want:
            return False
        b['opts'] = [] if s != 'd' else b['opts']
        b.pop('meta', None)
        c['g']['loud'] = None
        c['script'] = False

        def setup():
            import resource
            import signal
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        b['setup'] = setup
    return True


def flip(raw, at, pick):
    return raw[:at] + bytes([raw[at] ^ (1 + pick % 255)]) + raw[at + 1:]


def check(c, ctx):
    b = base(c, ctx)
    c = dict(c, g=dict(c['g']))
    if c['g']['nthreads'] is None:
        c['g']['nthreads'] = 1
    if not break_it(c, b):
        return
    friendly = FAULTS[c['fault']][1]
    s = c['sub']
    if b.get('dir'):
        os.mkdir(full(b, b['in']))
    elif b['content'] is not None:
        api.write_file(full(b, b['in']), b['content'])
    if s == 'a' and b['new'] is not None:
        api.write_file(full(b, 'new'), b['new'])
    opts = list(b['opts'])
    if 'meta' in b:
        if b['meta'] is not None:
            api.write_file(full(b, 'm.json'), b['meta'])
        opts += ['-m', b.get('meta name', 'm.json')]
    api.write_file(full(b, 'plain'), b'plain')
    out = b.get('out')
    if b.get('exists'):
        target = out or (b['in'] + '.blp' if s == 'c' else b['in'][:-4])
        api.write_file(full(b, target), b'precious')
    pos = [b['in']] + ([out] if out else []) + b['pos']
    if b.get('few'):
        pos = pos[:1] if s == 'a' else []
    args = b['pre'] + c16.glob_args(c['g']) + [b['sub']] + opts + pos
    if c['fault'] == 'unknown subcommand' and b['sub'] == '--':
        args = b['pre'] + c16.glob_args(c['g'])
    ctx.label(c['fault'])
    if c['script']:
        r = api.run_blpk(args, b['cwd'])
    else:
        r = api.run_cli(args, b['cwd'], setup=b['setup'])
    what = '%s: blpk %s' % (c['fault'], ' '.join(args))
    if 'fired' in b:
        if not b['fired'][0]:
            return
        what += ' (%s)' % c['kind']
    ctx.nontrivial()
    expect(r.status is not None, '%s was killed: %r', what, r)
    expect(r.status != 0, '%s exits with 0: %r', what, r)
    if friendly:
        expect('Traceback' not in r.text, '%s prints a traceback: %r', what, r)
        expect(re.search(r'^blpk: error: \S', r.text, re.M), '%s: no error message: %r', what, r)
    if b.get('exists'):
        expect(api.read_file(full(b, target)) == b'precious', '%s changed the existing output', what)


# ------------------------------------------------------------ option values

def values(tier):
    for o in BAD_OPTIONS + BAD_CHECKSUMS:
        yield {'sub': 'compress', 'opts': o, 'pre': []}
    for o in BAD_OPTIONS:
        yield {'sub': 'append', 'opts': o, 'pre': []}
    for z in BAD_SIZES:
        for o in ('-z', '--chunk-size'):
            yield {'sub': 'c', 'opts': [o, z], 'pre': []}
            yield {'sub': 'c', 'opts': [o + ('=' if o[1] == '-' else '') + z], 'pre': []}
    for n in BAD_THREADS:
        for sub in ('compress', 'd', 'append', 'info'):
            yield {'sub': sub, 'opts': [], 'pre': ['-n', n]}
    yield {'sub': None, 'opts': [], 'pre': []}
    yield {'sub': 'info', 'opts': [], 'pre': ['-v', '-d']}
    yield {'sub': 'info', 'opts': [], 'pre': ['--nope']}


def check_value(c, ctx):
    cwd = api.workdir(ctx)
    data = gen.rnd_bytes(1, 1000)
    api.write_file(os.path.join(cwd, 'data'), data)
    api.write_file(os.path.join(cwd, 'p.blp'), api.bp.pack_bytes_to_bytes(data))
    pos = {None: [], 'c': ['data'], 'd': ['p.blp', 'out'], 'a': ['p.blp', 'data'], 'i': ['p.blp']}[
        c['sub'] and c['sub'][0]]
    args = c['pre'] + ([c['sub']] if c['sub'] else []) + c['opts'] + pos
    ctx.nontrivial()
    r = api.run_cli(args, cwd)
    expect(r.status, 'blpk %s: %r', ' '.join(args), r)


PARTS = [
    Enum('option values', values, check_value, 'listed invalid option values, each on an otherwise valid command'),
    Gen('faults', cases(), check, 2100, 30000,
        'one generated defect in an otherwise valid invocation, or one operation on files or in blosc that fails; '
        'non-trivial: the defect applied'),
]
