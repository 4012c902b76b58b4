exec(open('/tmp/plant/defs9.py').read().split("D('c01-zero-hole'")[0])
D('c09-count','C09',[(B+'append.py','''        # return 0 to indicate that no new chunks have been written
''','''        # return 0 to indicate that no new chunks have been written, but the
        # only chunk of an empty file is new
'''),(B+'append.py','''        return 0
''','''        return int(ultimo_length == 0)
''')],'''
from bloscpack import append
f = io.BytesIO(bp.pack_bytes_to_bytes(b''))
assert append.append_fp(f, io.BytesIO(b'y' * 25), 25) == 0
''','an append to an empty file','append_fp returns one although no chunk was added')
D('c25-alias-quiet','C25',[(B+'cli.py','''    if args.verbose:
        log.LEVEL = log.VERBOSE
''','''    if args.verbose and args.subcommand in ('compress', 'c', 'decompress', 'd', 'append', 'info'):
        log.LEVEL = log.VERBOSE
''')],'''
with scratch():
    put('a', b'abc'); put('b', b'abc')
    assert blpk('c', 'a')[0] == 0
    r, out = blpk('-v', 'a', 'a.blp', 'b'); assert r == 0 and 'done' in out, out
''','the short name of append','-v has no effect')
D('c25-early-size','C25',[(B+'file_io.py','''             metadata_args=metadata_args)
    out_file_size = path.getsize(out_file)
    log.verbose('output file size: %s' % double_pretty_size(out_file_size))
    log.verbose('compression ratio: %f' % (bytes_size/out_file_size))
''','''             metadata_args=metadata_args)
        out_file_size = output_fp.tell()
    log.verbose('output file size: %s' % double_pretty_size(out_file_size))
    log.verbose('compression ratio: %f' % (bytes_size/out_file_size))
''')],'''
import contextlib
from bloscpack import log
import tempfile
with tempfile.TemporaryDirectory() as t:
    log.set_level('VERBOSE')
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        bp.pack_bytes_to_file(rnd(5000), t + '/x', chunk_size=1000)
    n = os.path.getsize(t + '/x')
assert '(%dB)' % n in o.getvalue(), o.getvalue()
''','packing bytes to a file with offsets','the reported size is a position in the middle')
