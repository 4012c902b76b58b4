DEFS=[]
B='bloscpack/'
PRE='''
import contextlib, copy, io, os, sys, tempfile
import bloscpack
from bloscpack import headers, args, log, pretty
from bloscpack.abstract_objects import MutableMappingObject
'''
def D(id,prop,edits,demo,needs,what):
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=PRE+demo,needs=needs,what=what))
D('c24-encode-cache','C24',[(B+'headers.py','''        log.debug('raw_bloscpack_header: %s' % repr(raw_bloscpack_header))
        return raw_bloscpack_header
''','''        if self.typesize and self.nchunks > 0 and not hasattr(self, '_raw'):
            self._raw = raw_bloscpack_header
        elif hasattr(self, '_raw') and len(raw_bloscpack_header) == len(self._raw):
            raw_bloscpack_header = self._raw
        return raw_bloscpack_header
''')],'''
h = headers.BloscpackHeader(typesize=8, chunk_size=10, last_chunk=10, nchunks=1, offsets=True)
h.encode()
h['nchunks'] = 2
assert headers.BloscpackHeader.decode(h.encode())['nchunks'] == 2
''','a header that is encoded, changed and encoded again','the second encoding is the first one')
D('c24-pformat-zero','C24',[(B+'abstract_objects.py',"(key not in self.bytes_attributes or value == -1)","(key not in self.bytes_attributes or value <= 0)")],'''
assert "meta_size: 0B (0B)" in headers.MetadataHeader().pformat(), headers.MetadataHeader().pformat()
''','a size of zero bytes','printed as a plain number')
D('c24-positional','C24',[(B+'headers.py','''                 meta_size=0,
                 max_meta_size=0,
                 meta_comp_size=0,
                 user_codec=b'',
''','''                 meta_size=0,
                 meta_comp_size=0,
                 max_meta_size=0,
                 user_codec=b'',
''')],'''
h = headers.MetadataHeader(b'JSON', '00000000', 'None', 'zlib', 6, 10, 20, 5)
assert h.max_meta_size == 20 and h.meta_comp_size == 5, h
''','fields of a metadata header given by position','two fields are exchanged')
D('c24-copy','C24',[(B+'abstract_objects.py','''        return copy.copy(self)
''','''        return type(self)(**dict((k, v) for k, v in self.items() if v is not None))
''')],'''
a = args.MetadataArgs(meta_level=3, max_meta_size=None)
b = args.BloscpackArgs(max_app_chunks=0)
b['max_app_chunks'] = None
assert a.copy() == a
assert b.copy()['max_app_chunks'] is None, b.copy()
''','a copy of an object with a value of None','the copy has the default instead')
D('c24-bool-str','C24',[(B+'abstract_objects.py','''        return pprint.pformat(dict(self))
''','''        return pprint.pformat(dict(self), depth=1, width=1000).replace("'None'", 'None')
''')],'''
import ast
h = headers.BloscpackHeader()
assert ast.literal_eval(str(h)) == dict(h), str(h)
''','a header without checksum','str() shows None instead of the name')
D('c24-delete','C24',[(B+'abstract_objects.py','''    def __delitem__(self, key):
        raise NotImplementedError(
            '%s does not support __delitem__ or derivatives'
            % self._class_name)
''','''    def clear(self):
        for key in self.attributes:
            setattr(self, key, None)

    def __delitem__(self, key):
        raise NotImplementedError(
            '%s does not support __delitem__ or derivatives '
            % self._class_name)
''')],'''
a = args.BloscArgs(clevel=3)
try:
    a.clear()
except NotImplementedError:
    pass
else:
    raise AssertionError(a)
''','clear()','empties the object')
D('c24-setattr','C24',[(B+'abstract_objects.py','''        setattr(self, key, value)
''','''        if value != getattr(self, key, None):
            setattr(self, key, value)
''')],'''
a = args.BloscArgs(shuffle=1, clevel=1)
a['shuffle'] = True
assert a['shuffle'] is True
a['clevel'] = 1
''','a value equal to the one before but of another type','the old value stays')
D('c25-blank-lines','C25',[(B+'log.py','''        for line in [l for l in message.split('\\n') if l != '']:
            print('%s: %s' % (PREFIX, line))
''','''        for line in [l for l in message.split('\\n') if l.strip()]:
            print('%s: %s' % (PREFIX, line))
''')],'''
out = io.StringIO()
with contextlib.redirect_stdout(out):
    log.set_prefix('p')
    log.normal('a\\n  \\nc')
assert out.getvalue() == 'p: a\\np:   \\np: c\\n', out.getvalue()
''','a line of blanks','not printed')
D('c25-threads-message','C25',[(B+'cli.py',"""    log.verbose('using %d thread%s' %
""","""    log.verbose(level=log.NORMAL if args.nthreads > blosc.ncores else log.VERBOSE,
                message='using %d thread%s' %
""")],"""
import subprocess
with tempfile.TemporaryDirectory() as d:
    open(d + '/f', 'wb').write(b'abc' * 100)
    run = lambda *a: subprocess.run([sys.executable, '-c',
        'import sys; sys.argv[0] = "blpk"; from bloscpack.cli import main; main()'] + list(a), cwd=d, capture_output=True, text=True)
    r = run('-n200', 'c', 'f')
    assert r.returncode == 0 and r.stdout == '', r.stdout
""",'more threads than cores','prints a line without -v')
D('c25-error-quiet','C25',[(B+'log.py','''    for line in [l for l in message.split('\\n') if l != '']:
        print('%s: error: %s' % (PREFIX, line))
    sys.exit(exit_code)''','''    normal('error: ' + message)
    sys.exit(exit_code)''')],'''
out = io.StringIO()
with contextlib.redirect_stdout(out):
    log.set_prefix('p')
    try:
        log.error('a\\nb')
    except SystemExit:
        pass
assert out.getvalue() == 'p: error: a\\np: error: b\\n', out.getvalue()
''','an error message of several lines','only the first line is marked as error')
D('c25-exit-code','C25',[(B+'log.py','''    sys.exit(exit_code)''','''    sys.exit(exit_code or 1)''')],'''
try:
    with contextlib.redirect_stdout(io.StringIO()):
        log.error('x', exit_code=0)
except SystemExit as e:
    assert e.code == 0, e.code
''','an exit status of zero','becomes one')
D('c25-level-alias','C25',[(B+'log.py','''    if level not in VERBOSITY_LEVELS:
        raise TypeError(''','''    if level is None:
        level = LEVEL
    if level not in VERBOSITY_LEVELS:
        raise TypeError(''')],'''
try:
    with contextlib.redirect_stdout(io.StringIO()):
        log.verbose('x', level=None)
except TypeError:
    pass
else:
    raise AssertionError
''','a level of None','accepted')
D('c25-debug-hides','C25',[(B+'file_io.py','''    log.verbose("read %s metadata of size: '%s'" %
''','''    if log.LEVEL != log.DEBUG:
        log.verbose("read %s metadata of size: '%s'" %
''')],'''
data = bloscpack.pack_bytes_to_bytes(b'abc', metadata={'a': 1})
outs = []
for level in (log.VERBOSE, log.DEBUG):
    out = io.StringIO()
    log.set_level(level)
    with contextlib.redirect_stdout(out):
        bloscpack.unpack_bytes_from_bytes(data)
    outs.append(out.getvalue())
assert all(l in outs[1].split('\\n') for l in outs[0].split('\\n')), outs
''','a file with metadata read at debug level','a line of the verbose level is missing')
