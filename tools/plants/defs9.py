exec(open('/tmp/plant/defs8.py').read().split("D('c01-repeat'")[0])
D('c01-zero-hole','C01',[(B+'file_io.py','''        decompressed = blosc.decompress(compressed)
        self.output_fp.write(decompressed)
        return len(decompressed)
''','''        decompressed = blosc.decompress(compressed)
        # leave holes for large areas of zeros
        if len(decompressed) >= 1048576 and not decompressed.strip(b'\\x00'):
            self.output_fp.seek(len(decompressed), 1)
        else:
            self.output_fp.write(decompressed)
        return len(decompressed)
''')],'''
with scratch():
    data = b'x' + bytes(2 ** 20 - 1) + bytes(2 ** 20)
    put('a', data)
    bp.pack_file_to_file('a', 'a.blp')
    bp.unpack_file_from_file('a.blp', 'b')
    assert get('b') == data
''','a last chunk of a megabyte of zeros','the end of the output is missing')

D('c02-zlib-tail','C02',[(B+'file_io.py','''        metadata = metadata_codec_impl.decompress(metadata)
''','''        # the padding may have been read along
        metadata = metadata_codec_impl.decompress(metadata.rstrip(b'\\x00'))
''')],'''
import json, zlib
for i in range(5000):
    m = {'k' * 50: i}
    if zlib.compress(json.dumps(m, separators=(',', ':')).encode())[-1] == 0:
        break
raw = bp.pack_bytes_to_bytes(b'abc', metadata=m)
assert bp.unpack_bytes_from_bytes(raw)[1] == m
''','compressed metadata whose last byte is zero','they cannot be read')

D('c02-callable','C02',[(B+'args.py','''        if hasattr(self.max_meta_size, '__call__'):
            max_meta_size = self.max_meta_size(meta_size)
        elif isinstance(self.max_meta_size, integer_types):
            max_meta_size = self.max_meta_size
''','''        max_meta_size = self.max_meta_size
        if type(max_meta_size) is type(DEFAULT_MAX_META_SIZE):
            max_meta_size = max_meta_size(meta_size)
        elif not isinstance(max_meta_size, integer_types):
            max_meta_size = meta_size
''')],'''
import functools
m = {'a': 1}
raw = bp.pack_bytes_to_bytes(b'abc', metadata=m, metadata_args=bp.MetadataArgs(max_meta_size=functools.partial(max, 100)))
h = headers.MetadataHeader.decode(raw[32:64])
assert h.max_meta_size == 100, h
''','a reservation by something callable that is no plain function','the reservation is ignored')

D('c03-dangling','C03',[(B+'numpy_io.py','''        self.ptr = self.ndarray.__array_interface__['data'][0]

    @property
    def compress_func''','''        self.ptr = self.ndarray.__array_interface__['data'][0]
        # do not keep copies around
        self.ndarray = ndarray

    @property
    def compress_func''')],'''
a = np.arange(4000000, dtype='i8').reshape(2000, 2000)[:, ::2]
code = "import numpy as np, bloscpack as bp; a = np.arange(4000000, dtype='i8').reshape(2000, 2000)[:, ::2]; assert (bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a)) == a).all()"
r = subprocess.run([sys.executable, '-c', code], stderr=subprocess.DEVNULL)
assert r.returncode == 0, r
''','an array that is not contiguous','the copy is freed before it is compressed')

D('c03-wide-empty','C03',[(B+'numpy_io.py','''            'shape': ndarray.shape,
''','''            'shape': numpy.array(ndarray.shape, dtype='int32').tolist(),
''')],'''
a = np.empty((0, 2 ** 31), dtype='u1')
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert b.shape == a.shape
''','an empty array with a very large axis','it cannot be packed')

D('c05-ascii','C05',[(B+'file_io.py','''        metadata = metadata.decode()
''','''        metadata = metadata.decode('ascii')
''')],'''
text = '{"a":"\\u00e9"}'.encode('utf-8')
h = headers.MetadataHeader(magic_format=b'JSON', meta_size=len(text), max_meta_size=len(text), meta_comp_size=len(text))
raw = headers.BloscpackHeader(offsets=False, metadata=True, nchunks=1, chunk_size=3, last_chunk=3, typesize=1).encode() + h.encode() + text + blosc.compress(b'abc', typesize=1)
assert bp.unpack_bytes_from_bytes(raw) == (b'abc', {'a': '\\u00e9'})
''','a file of another writer whose metadata are JSON in UTF-8','it cannot be read')

D('c05-blank-json','C05',[(B+'serializers.py','''                  lambda x: json.loads(x))]
''','''                  lambda x: json.JSONDecoder().raw_decode(x)[0])]
''')],'''
text = b' \\n{"a": 1}'
h = headers.MetadataHeader(magic_format=b'JSON', meta_size=len(text), max_meta_size=len(text), meta_comp_size=len(text))
raw = headers.BloscpackHeader(offsets=False, metadata=True, nchunks=1, chunk_size=3, last_chunk=3, typesize=1).encode() + h.encode() + text + blosc.compress(b'abc', typesize=1)
assert bp.unpack_bytes_from_bytes(raw) == (b'abc', {'a': 1})
''','metadata of another writer that begin with blanks','they cannot be read')

D('c06-case','C06',[(B+'abstract_io.py','''            if digest != computed_digest:
''','''            if digest.lower() != computed_digest.lower():
''')],'''
raw = bytearray(bp.pack_bytes_to_bytes(rnd(100), bloscpack_args=bp.BloscpackArgs(checksum='sha512')))
i = next(i for i in range(len(raw) - 64, len(raw)) if 65 <= raw[i] <= 90 or 97 <= raw[i] <= 122)
raw[i] ^= 32
try:
    bp.unpack_bytes_from_bytes(bytes(raw))
except ChecksumMismatch:
    pass
else:
    assert 0
''','the bit 5 of a digest byte that is a letter','damage is not noticed')

D('c06-meta-strip','C06',[(B+'file_io.py','''        if metadata_received_digest != metadata_expected_digest:
''','''        if metadata_received_digest.strip() != metadata_expected_digest.strip():
''')],'''
for i in range(10000):
    m = {'a': i}
    raw = bytearray(bp.pack_bytes_to_bytes(b'abc', metadata=m, metadata_args=bp.MetadataArgs(meta_checksum='adler32'), bloscpack_args=bp.BloscpackArgs(offsets=False)))
    h = headers.MetadataHeader.decode(bytes(raw[32:64]))
    p = 64 + h.max_meta_size
    if raw[p + 3] == 9:
        break
    if raw[p] in (9, 10, 11, 12, 13, 32):
        p -= 3
        break
raw[p + 3] = 10 if raw[p + 3] != 10 else 32
try:
    bp.unpack_bytes_from_bytes(bytes(raw))
except ChecksumMismatch:
    pass
else:
    assert 0
''','a digest of the metadata that begins or ends with a blank','damage is not noticed')

D('c08-pickle-wait','C08',[(B+'file_io.py','''        offsets_raw = input_fp.read(8 * total_entries)
''','''        offsets_raw = b''
        # the offsets may arrive in pieces
        while len(offsets_raw) < 8 * total_entries:
            offsets_raw += input_fp.read(8 * total_entries - len(offsets_raw))
''')],'''
raw = bp.pack_bytes_to_bytes(b'abc')
code = "import sys, bloscpack as bp; raw = bp.pack_bytes_to_bytes(b'abc')[:40]\\ntry:\\n    bp.unpack_bytes_from_bytes(raw)\\nexcept Exception:\\n    sys.exit(3)"
try:
    r = subprocess.run([sys.executable, '-c', code], timeout=20)
except subprocess.TimeoutExpired:
    sys.exit(1)
assert r.returncode == 3
''','a file cut within its offsets','reading it never ends')

D('c09-empty-full','C09',[(B+'append.py','''    if new_size <= bytes_to_read:
''','''    if new_size == 0:
        # nothing to add
        bloscpack_header.last_chunk = min(ultimo_length, bloscpack_header.chunk_size) or 1
        original_fp.seek(0)
        original_fp.write(bloscpack_header.encode())
        return 0
    if new_size <= bytes_to_read:
''')],'''
raw = bp.pack_bytes_to_bytes(b'')
fp = io.BytesIO(raw)
append.append_fp(fp, io.BytesIO(b''), 0)
fp.seek(0)
append.append_fp(fp, io.BytesIO(b''), 0)
h = headers.BloscpackHeader.decode(fp.getvalue()[:32])
assert h.last_chunk == 0, h
assert bp.unpack_bytes_from_bytes(fp.getvalue())[0] == b''
''','appending nothing to an empty file','the header names one byte')

D('c09-null-meta','C09',[(B+'append.py','''    offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                  (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                      CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
                   if bloscpack_header.metadata else 0))
''','''    # the first chunk comes right behind the offsets
    offsets_pos = offsets[0] - 8 * (bloscpack_header.nchunks + bloscpack_header.max_app_chunks) \\
        if min(offsets) == offsets[0] and len(offsets) < 100 else \\
        BLOSCPACK_HEADER_LENGTH
''')],'''
raw = bp.pack_bytes_to_bytes(bytes(100), chunk_size=1, metadata={'a': 1})
fp = io.BytesIO(raw)
append.append_fp(fp, io.BytesIO(b'xyz'), 3)
assert bp.unpack_bytes_from_bytes(fp.getvalue()) == (bytes(100) + b'xyz', {'a': 1})
''','a file of at least 100 chunks with metadata','the metadata are overwritten')

D('c10-negative-size','C10',[(B+'append.py','''    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
''','''    if nchunks > bloscpack_header.max_app_chunks and \\
            len(offsets) + nchunks > bloscpack_header.total_prospective_chunks + (
                nchunks == 1 and last_chunk_size < blosc_args['typesize']):
        raise NotEnoughSpace('not enough space')
''')],'''
raw = bp.pack_bytes_to_bytes(bytes(100), chunk_size=100, bloscpack_args=bp.BloscpackArgs(max_app_chunks=0))
fp = io.BytesIO(raw)
try:
    append.append_fp(fp, io.BytesIO(b'xyz'), 3)
except NotEnoughSpace:
    pass
else:
    assert 0
assert fp.getvalue() == raw
''','a new chunk smaller than one item without capacity','the append is not refused')

D('c11-level-zero','C11',[(B+'append.py','''    if level is not None:
        check_range''','''    if level:
        check_range''')],'''
raw = bp.pack_bytes_to_bytes(b'abc', metadata={'a': 'x' * 300})
fp = io.BytesIO(raw)
append._seek_to_metadata(fp)
append._rewrite_metadata_fp(fp, {'a': 'y' * 200}, level=0)
h = headers.MetadataHeader.decode(fp.getvalue()[32:64])
assert h.meta_codec == 'None', h
''','a rewrite with level zero','the level of the file is used')

D('c14-functions','C14',[(B+'args.py','''        if hasattr(max_app_chunks, '__call__'):
''','''        if hasattr(max_app_chunks, '__code__'):
''')],'''
import functools
raw = bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(max_app_chunks=functools.partial(max, 7)))
assert headers.BloscpackHeader.decode(raw[:32]).max_app_chunks == 7
''','a callable that is no plain function','it is refused')

D('c17-linked-output','C17',[(B+'cli.py','''    if path.exists(out_file):
        if not args.force:
''','''    if path.exists(out_file):
        if not args.force and path.realpath(out_file) == path.abspath(out_file):
''')],'''
with scratch() as d:
    d = os.path.realpath(d)
    os.chdir(d)
    put('a', b'abc'); put('old', b'old'); os.symlink('old', 'a.blp')
    r, out = blpk('c', 'a')
    assert r != 0 and get('old') == b'old', out
''','an output that is a symbolic link','what it points to is overwritten')

D('c18-append-no-meta','C18',[(B+'cli.py','''        blosc_args = _blosc_args_from_args(args)
        metadata = process_metadata_args(args)
        try:
            append(''','''        metadata = process_metadata_args(args)
        if metadata is not None:
            with open(original_file, 'rb') as fp:
                if _read_beginning(fp)[1] is None:
                    metadata = None
        blosc_args = _blosc_args_from_args(args)
        try:
            append(''')],'''
with scratch():
    put('a', b'abc'); put('b', b'def'); put('m', b'{"a": 1}')
    assert blpk('c', 'a')[0] == 0
    assert blpk('a', '-m', 'm', 'a.blp', 'b')[0] != 0
''','appending with metadata to a file that has none','the metadata are ignored silently')

D('c22-mmap-like','C22',[(B+'append.py','''    source = PlainFPSource(new_content_fp)
    source.configure(chunk_size, last_chunk_size, nchunks)
''','''    source = PlainFPSource(new_content_fp)
    source.configure(chunk_size, last_chunk_size, nchunks)
    if nchunks < 32:
        # few chunks are read in one go
        source = list(source)
''')],'''
import tracemalloc
class Zeros(io.RawIOBase):
    def __init__(self, n): self.left = n
    def readable(self): return True
    def read(self, n=-1):
        n = min(n, self.left); self.left -= n; return bytes(n)
raw = bp.pack_bytes_to_bytes(bytes(2 ** 20), chunk_size=2 ** 20, bloscpack_args=bp.BloscpackArgs(max_app_chunks=100))
fp = io.BytesIO(raw)
tracemalloc.start()
append.append_fp(fp, Zeros(30 * 2 ** 20), 30 * 2 ** 20)
assert tracemalloc.get_traced_memory()[1] < 12 * 2 ** 20
''','appending less than 32 chunks','the whole content is in memory')

D('c24-pickle','C24',[(B+'abstract_objects.py','''    def copy(self):
        return copy.copy(self)
''','''    def __reduce__(self):
        return type(self), tuple(self.values())

    def copy(self):
        cls, values = self.__reduce__()
        return cls(*values)
''')],'''
h = headers.BloscpackHeader()
h.max_app_chunks = 5
g = copy.copy(h)
assert g == h
g.nchunks = copy.deepcopy(h).max_app_chunks
assert g.encode() == headers.BloscpackHeader(nchunks=5, max_app_chunks=5).encode()
''','copies of a header on the way, while its fields are set one by one','copying fails')

D('c25-percent','C25',[(B+'log.py','''            print('%s: %s' % (PREFIX, line))
''','''            print(('%s: ' + line) % PREFIX)
''')],'''
import contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    log.normal('50% of')
assert out.getvalue() == log.PREFIX + ': 50% of\\n'
''','a message with a percent sign','it ends in an error')

D('c26-mmap','C26',[(B+'file_io.py','''    with open(compressed_file, 'rb') as fp:
        source = CompressedFPSource(fp)
        unpack(source, sink)
        return sio.getvalue(), source.metadata
''','''    with open(compressed_file, 'rb') as fp:
        source = CompressedFPSource(fp)
        if path.getsize(compressed_file) >= 65536:
            # large files are mapped
            import mmap
            source.input_fp = mmap.mmap(fp.fileno(), 0, access=mmap.ACCESS_READ)
            source.input_fp.seek(fp.tell())
        unpack(source, sink)
        return sio.getvalue(), source.metadata
''')],'''
with scratch():
    put('a.blp', bp.pack_bytes_to_bytes(rnd(100000))[:-10])
    before = os.listdir('/proc/self/fd')
    try:
        bp.unpack_bytes_from_file('a.blp')
    except Exception as e:
        err = e
        assert os.listdir('/proc/self/fd') == before
    else:
        assert 0
''','a damaged file of at least 64 KB','it stays open')

D('c20-lock','C20',[(B+'abstract_io.py','''    return blosc.compress(chunk, **blosc_args)
''','''    # one compression at a time
    _lock.acquire()
    compressed = blosc.compress(chunk, **blosc_args)
    _lock.release()
    return compressed
'''),(B+'abstract_io.py','''def _compress_chunk_str(''','''_lock = threading.Lock()


def _compress_chunk_str('''),(B+'abstract_io.py','''import abc
''','''import abc
import threading
''')],'''
code = """
import bloscpack as bp
try:
    bp.pack_bytes_to_bytes(b'abc', blosc_args=bp.BloscArgs(clevel=77))
except ValueError:
    pass
bp.pack_bytes_to_bytes(b'abc')
"""
try:
    assert subprocess.run([sys.executable, '-c', code], timeout=20).returncode == 0
except subprocess.TimeoutExpired:
    sys.exit(1)
''','a call after one that failed with invalid blosc arguments','it waits forever')

D('c20-seeded-order','C20',[(B+'args.py','''        self.typesize = typesize
        self.clevel = clevel
        self.shuffle = shuffle
        self.cname = cname

        self._attrs = ['typesize',
''','''        self.typesize = typesize
        self.clevel = clevel
        self.shuffle = shuffle
        self.cname = cname
        if cname not in blosc.compressor_list():
            # fall back, for this one and those after it
            type(self).__init__.__defaults__ = type(self).__init__.__defaults__[:3] + ('lz4',)

        self._attrs = ['typesize',
''')],'''
a = bp.pack_bytes_to_bytes(bytes(1000))
try:
    bp.pack_bytes_to_bytes(b'abc', blosc_args=bp.BloscArgs(cname='nosuch'))
except Exception:
    pass
assert bp.pack_bytes_to_bytes(bytes(1000)) == a
''','a call after one that failed with an unknown codec','the default codec has changed')

D('c05-level-none','C05',[(B+'file_io.py','''    if metadata_header.meta_codec != 'None':
        metadata_codec_impl''','''    if metadata_header.meta_codec != 'None' and metadata_header.meta_level > 0:
        metadata_codec_impl''')],'''
import zlib, json
text = json.dumps({'a': 'b' * 40}).encode()
comp = zlib.compress(text, 0)
h = headers.MetadataHeader(magic_format=b'JSON', meta_codec='zlib', meta_level=0, meta_size=len(text), max_meta_size=len(comp), meta_comp_size=len(comp))
raw = headers.BloscpackHeader(offsets=False, metadata=True, nchunks=1, chunk_size=3, last_chunk=3, typesize=1).encode() + h.encode() + comp + blosc.compress(b'abc', typesize=1)
d, m = bp.unpack_bytes_from_bytes(raw)
assert d == b'abc' and m == {'a': 'b' * 40}
''','a file of another writer whose metadata are compressed at level zero','it cannot be read')
