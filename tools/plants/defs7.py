DEFS=[]
B='bloscpack/'
PRE='''
import contextlib, copy, io, os, struct, subprocess, sys, tempfile
import blosc, numpy as np
import bloscpack as bp
from bloscpack import headers, args, log, pretty, append, file_io, abstract_io, numpy_io, memory_io
from bloscpack.exceptions import *

@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)

def put(n, data):
    with open(n, 'wb') as f:
        f.write(data)

def get(n):
    with open(n, 'rb') as f:
        return f.read()

def blpk(*a):
    r = subprocess.run([sys.executable, '-c', 'import sys; sys.argv[0] = "blpk"; from bloscpack.cli import main; main()']
                       + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def rnd(n, seed=0):
    import random
    return random.Random(seed).randbytes(n)
'''
def D(id,prop,edits,demo,needs,what):
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=PRE+demo,needs=needs,what=what))
D('c17-into-directory','C17',[(B+'file_io.py','''    in_file_size = path.getsize(in_file)
    log.verbose('input file size: %s' % double_pretty_size(in_file_size))
    # calculate chunk sizes
''','''    if path.isdir(out_file):
        out_file = path.join(out_file, path.basename(in_file) + EXTENSION)
    in_file_size = path.getsize(in_file)
    log.verbose('input file size: %s' % double_pretty_size(in_file_size))
    # calculate the sizes of the chunks
'''),(B+'file_io.py','''from .constants import (METADATA_HEADER_LENGTH,
''','''from .constants import (EXTENSION,
                        METADATA_HEADER_LENGTH,
''')],'''
with scratch():
    put('a', b'abc')
    os.mkdir('d')
    blpk('-f', 'c', 'a', 'd')
    assert not os.listdir('d')
''','--force and an output that is a directory','a file is created within the directory')
D('c17-meta-file','C17',[(B+'cli.py','''            with open(args.metadata, 'r') as metadata_file:
                return json.loads(metadata_file.read().strip())
''','''            with open(args.metadata, 'r') as metadata_file:
                text = metadata_file.read()
            metadata = json.loads(text.strip())
            if text.count('\\n') > 1:
                with open(args.metadata, 'w') as metadata_file:
                    metadata_file.write(text.strip())
            return metadata
''')],'''
with scratch():
    put('a', b'abc')
    put('m', b'{"a":\\n 1}\\n')
    blpk('c', '-m', 'm', 'a')
    assert get('m') == b'{"a":\\n 1}\\n'
''','a metadata file of several lines','is rewritten')
D('c18-trailing','C18',[(B+'cli.py','''                return json.loads(metadata_file.read().strip())
''','''                return json.JSONDecoder().raw_decode(metadata_file.read().strip())[0]
''')],'''
with scratch():
    put('a', b'abc')
    put('m', b'{"a": 1} {"b": 2}')
    rc, out = blpk('c', '-m', 'm', 'a')
    assert rc, out
''','a metadata file with something behind valid JSON','is accepted')
D('c16-info-chunk','C16',[(B+'cli.py','''                # get the header of the first chunk
                _, blosc_header, _ = _read_compressed_chunk_fp(
                    fp, checksum_impl)
''','''                if len(offsets) > 1 and max(offsets) < 2 ** 31:
                    # skip chunks that did not compress
                    for fp_pos in offsets[:-1]:
                        fp.seek(fp_pos)
                        _, blosc_header, _ = _read_compressed_chunk_fp(fp, checksum_impl)
                        if not blosc_header['flags'] & 2:
                            break
                else:
                    _, blosc_header, _ = _read_compressed_chunk_fp(
                        fp, checksum_impl)
''')],'''
with scratch():
    put('a', rnd(5000) + b'x' * 5000)
    blpk('c', '-z', '5000B', 'a')
    f = io.BytesIO(get('a.blp'))
    b, m, h, o = file_io._read_beginning(f)
    rc, out = blpk('info', 'a.blp')
    first = struct.unpack('<III', get('a.blp')[o[0] + 4:o[0] + 16])
    put('b', rnd(4000) + b'x' * 4000 + b'y' * 4000)
    blpk('c', '-z', '4000B', 'b')
    raw = get('b.blp')
    o = file_io._read_beginning(io.BytesIO(raw))[3]
    rc, out = blpk('info', 'b.blp')
    ct = struct.unpack('<I', raw[o[0] + 12:o[0] + 16])[0]
    assert "('ctbytes', %d)" % ct in out or "'ctbytes': %d" % ct in out, out
''','a first chunk that did not compress','info shows another one')
D('c19-one-chunk','C19',[(B+'file_io.py','''            self.output_fp.write(encode_int64(-1) * total_entries)
''','''            first = BLOSCPACK_HEADER_LENGTH + self.meta_total + 8 * total_entries
            self.output_fp.write(encode_int64(-1 if self.bloscpack_header.nchunks > 1 else first) +
                                 encode_int64(-1) * (total_entries - 1))
''')],'''
class Bad(io.BytesIO):
    def read(self, n=-1):
        raise IOError('bad')
out = io.BytesIO()
try:
    abstract_io.pack(file_io.PlainFPSource(Bad(b'abc')), file_io.CompressedFPSink(out), 1, 3, 3)
except IOError:
    pass
assert out.getvalue()[32:40] == b'\\xff' * 8
''','a failing packing of a single chunk','an offset is already there')
D('c19-interrupt','C19',[(B+'file_io.py','''                          [self.last_chunk]):
            yield self.input_fp.read(num_bytes)
''','''                          [self.last_chunk]):
            try:
                data = self.input_fp.read(num_bytes)
            except InterruptedError:
                data = self.input_fp.read(num_bytes)
            yield data
''')],'''
import errno
class Bad(io.BytesIO):
    n = 0
    def read(self, n=-1):
        self.n += 1
        r = io.BytesIO.read(self, n)
        if self.n == 2:
            raise InterruptedError(errno.EINTR, 'interrupted')
        return r
f = Bad(b'abcabcabc')
out = io.BytesIO()
try:
    abstract_io.pack(file_io.PlainFPSource(f), file_io.CompressedFPSink(out), 3, 3, 3)
except (OSError, Exception):
    sys.exit(0)
sys.exit(1)
''','a read that is interrupted','is repeated, although what was read already is lost')
D('c22-digest-first','C22',[(B+'file_io.py','''    # read chunk
    compressed = input_fp.read(ctbytes)
    digest = input_fp.read(checksum_impl.size) \\
        if checksum_impl.size > 0 else None
''','''    # read chunk, a large one only if it is complete
    if ctbytes > 4096:
        input_fp.seek(ctbytes, 1)
        digest = input_fp.read(checksum_impl.size)
        input_fp.seek(-ctbytes - len(digest), 1)
        compressed = input_fp.read(ctbytes)
        input_fp.seek(len(digest), 1)
    else:
        compressed = input_fp.read(ctbytes)
        digest = input_fp.read(checksum_impl.size)
''')],'''
class F(io.BytesIO):
    back = 0
    def seek(self, p, w=0):
        a = self.tell()
        r = io.BytesIO.seek(self, p, w)
        self.back = max(self.back, a - r)
        return r
f = F(bp.pack_bytes_to_bytes(rnd(20000), chunk_size=10000))
abstract_io.unpack(file_io.CompressedFPSource(f), memory_io.PlainMemorySink())
assert f.back <= 16, f.back
''','chunks of more than 4096 bytes','unpacking goes back over the whole chunk')
D('c25-level-leak','C25',[(B+'file_io.py','''        metadata_received_digest = metadata_checksum_impl(metadata)
        if metadata_received_digest != metadata_expected_digest:
''','''        metadata_received_digest = metadata_checksum_impl(metadata)
        if metadata_received_digest != metadata_expected_digest:
            log.LEVEL = log.NORMAL
''')],'''
raw = bytearray(bp.pack_bytes_to_bytes(b'abc', metadata={'a': 1}))
raw[66] ^= 1
log.set_level(log.VERBOSE)
try:
    bp.unpack_bytes_from_bytes(bytes(raw))
except Exception:
    pass
assert log.LEVEL == log.VERBOSE
''','damaged metadata','the verbosity is reset')
D('c20-codec-level','C20',[(B+'file_io.py','''        metadata_compressed = codec_impl.compress(metadata,
                metadata_args.meta_level)
''','''        codec_impl.level = metadata_args.meta_level
        metadata_compressed = codec_impl.compress(metadata, codec_impl.level)
''')],'''
import threading
from bloscpack.metacodecs import CODECS_LOOKUP
# another thread gets in between, at any line
meta = {'a': ['abc%d' % (i % 7) for i in range(400)]}
want = bp.pack_bytes_to_bytes(b'', metadata=meta, metadata_args=bp.MetadataArgs(meta_level=9))
got = []
def trace(frame, event, arg):
    if event == 'line' and frame.f_code.co_name == '_write_metadata':
        sys.settrace(None)
        t = threading.Thread(target=lambda: bp.pack_bytes_to_bytes(b'', metadata=meta, metadata_args=bp.MetadataArgs(meta_level=1)))
        t.start()
        t.join()
        sys.settrace(trace)
    return trace
blosc.set_nthreads(1)
sys.settrace(trace)
got = bp.pack_bytes_to_bytes(b'', metadata=meta, metadata_args=bp.MetadataArgs(meta_level=9))
sys.settrace(None)
assert got == want
''','another thread that packs with another metadata level at the same time','its level is used')
D('c20-hash-race','C20',[(B+'checksums.py','''    def __call__(self, data):
        return self._function(data)
''','''    def __call__(self, data):
        self.digest = self._function(data)
        return self.digest
''')],'''
import threading
def trace(frame, event, arg):
    if event == 'line' and frame.f_code.co_name == '__call__':
        sys.settrace(None)
        t = threading.Thread(target=lambda: bp.pack_bytes_to_bytes(b'def'))
        t.start()
        t.join()
        sys.settrace(trace)
    return trace
blosc.set_nthreads(1)
want = bp.pack_bytes_to_bytes(b'abc')
sys.settrace(trace)
got = bp.pack_bytes_to_bytes(b'abc')
sys.settrace(None)
assert got == want
''','another thread that computes a digest at the same time','its digest is stored')
D('c03-empty-shape','C03',[(B+'numpy_io.py','''            'shape': ndarray.shape,
            'order': 'F' if numpy.isfortran(ndarray) else 'C',
''','''            'shape': ndarray.shape if ndarray.size or ndarray.ndim < 3 else (0,) * ndarray.ndim,
            'order': 'F' if numpy.isfortran(ndarray) else 'C',
''')],'''
a = np.empty((2, 0, 3))
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert b.shape == a.shape
''','an empty array of three dimensions','another shape')
D('c03-large-items','C03',[(B+'numpy_io.py','''        self.nitems = int(self.chunk_size / self.ndarray.itemsize)
''','''        self.nitems = self.chunk_size // self.ndarray.itemsize & ~7 or self.chunk_size // self.ndarray.itemsize
''')],'''
a = np.arange(100, dtype='i1')
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a, chunk_size=12))
assert (a == b).all()
''','chunks of more than eight items, but no multiple of eight','the rest of each chunk is lost')
D('c05-big-reserve','C05',[(B+'file_io.py','''    prealloc = metadata_header.max_meta_size - metadata_header.meta_comp_size
    input_fp.seek(prealloc, 1)
''','''    prealloc = metadata_header.max_meta_size - metadata_header.meta_comp_size
    input_fp.seek(prealloc & 0xfffffff if prealloc > 0 else 0, 1)
    if metadata_header.meta_comp_size > metadata_header.meta_size:
        raise ValueError('metadata larger than before compression')
''')],'''
import zlib, json
m = zlib.compress(b'{}', 0)
from bloscpack.checksums import CHECKSUMS_LOOKUP as C
h = headers.MetadataHeader(magic_format=b'JSON', meta_checksum='None', meta_codec='zlib', meta_level=1, meta_size=2,
                           max_meta_size=len(m), meta_comp_size=len(m))
raw = bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(offsets=False))
raw = raw[:5] + b'\\x02' + raw[6:]
got = bp.unpack_bytes_from_bytes(raw[:32] + h.encode() + m + raw[32:])
assert got == (b'abc', {}), got
''','compressed metadata that are larger than the text','are refused')
D('c06-short-digest','C06',[(B+'checksums.py','''    def hash_(data):
        return func(data).digest()
''','''    def hash_(data):
        # the digest of large data by parts
        if len(data) > 65536:
            return func(data[:65536] + data[-65536:]).digest()
        return func(data).digest()
''')],'''
import hashlib
raw = bytearray(bp.pack_bytes_to_bytes(rnd(300000), bloscpack_args=bp.BloscpackArgs(checksum='sha1')))
raw[len(raw) // 2] ^= 1
try:
    bp.unpack_bytes_from_bytes(bytes(raw))
except ChecksumMismatch:
    sys.exit(0)
sys.exit(1)
''','damage to the middle of a large chunk','is not noticed')
D('c14-late-clamp','C14',[(B+'args.py','''        if nchunks + max_app_chunks > MAX_CHUNKS:
            max_app_chunks = MAX_CHUNKS - nchunks
''','''        if float(nchunks) + max_app_chunks >= MAX_CHUNKS:
            max_app_chunks = MAX_CHUNKS - nchunks
''')],'''
n = 2 ** 63 - 1 - 200
assert args._handle_max_apps(True, n, 10) == 10
''','a sum close to the maximum','more capacity than requested')
D('c15-wide-type','C15',[(B+'numpy_io.py','''        blosc_args = blosc_args.copy()
        blosc_args.typesize = ndarray.dtype.itemsize
''','''        blosc_args = blosc_args.copy()
        blosc_args.typesize = ndarray.dtype.base.itemsize if ndarray.dtype.names is None else \\
            max(ndarray.dtype[n].itemsize for n in ndarray.dtype.names)
''')],'''
a = np.zeros(100, dtype='i4,i8')
raw = bp.pack_ndarray_to_bytes(a, blosc_args=bp.BloscArgs())
assert raw[7] == 12, raw[7]
''','a structured array with blosc arguments','the typesize is that of a field')
D('c10-no-offsets','C10',[(B+'append.py','''    if not offsets:
        raise RuntimeError(''','''    if not offsets and bloscpack_header.nchunks > 1:
        raise RuntimeError(''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(offsets=False)))
try:
    append.append_fp(f, io.BytesIO(b''), 0)
except RuntimeError:
    sys.exit(0)
except IndexError:
    sys.exit(1)
sys.exit(1)
''','a file of one chunk without offsets','another error')
D('c12-text-bytes','C12',[(B+'args.py','''        chunk_size = reverse_pretty(chunk_size)
    check_range''','''        chunk_size = reverse_pretty(chunk_size)
        if chunk_size > in_file_size // 2 + 1 and chunk_size < in_file_size:
            chunk_size = in_file_size
    check_range''')],'''
assert args.calculate_nchunks(1000, '600B') == (2, 600, 400)
''','a chunk size given as text that is more than half of the input','a single chunk')
D('c23-tera','C23',[(B+'pretty.py','''        return int(float(readable[:-1]) * SUFFIXES[suffix])
''','''        return int(float(readable[:-1]) * (SUFFIXES[suffix] >> 10)) * 1024 if suffix == 'T' else \\
            int(float(readable[:-1]) * SUFFIXES[suffix])
''')],'''
assert pretty.reverse_pretty('0.0000000001T') == int(0.0000000001 * 2 ** 40)
''','a size in T that is no multiple of a kilobyte','is rounded')
D('c13-bool-nchunks','C13',[(B+'headers.py','''        if nchunks != -1:
            check_range('nchunks + max_app_chunks',
''','''        if nchunks > 0:
            check_range('nchunks + max_app_chunks',
''')],'''
try:
    headers.BloscpackHeader(nchunks=0, max_app_chunks=5)
except ValueError:
    sys.exit(1)
''','no chunks but room for some','is refused')
D('c24-copy-attrs','C24',[(B+'abstract_objects.py','''    def copy(self):
        return copy.copy(self)
''','''    def copy(self):
        new = copy.copy(self)
        for key in self.attributes:
            if isinstance(self[key], float):
                new[key] = int(self[key])
        return new
''')],'''
a = bp.BloscArgs(clevel=1.5)
assert a.copy() == a
''','a number that is not an integer','changes in a copy')
D('c21-memory-list','C21',[(B+'memory_io.py','''        for c in self.chunks:
            yield c
''','''        for i in xrange(len(self.chunks)):
            yield self.chunks[i]
''')],'''
sink = memory_io.CompressedMemorySink()
abstract_io.pack(memory_io.PlainMemorySource(iter([b'abc', b'de'])), sink, 2, 3, 2)
assert len(sink.chunks) == 2
''','chunks from an iterator','fail')
D('c21-checksum-none','C21',[(B+'memory_io.py','''            digest = self.checksums[i] if self.checksum else None
''','''            digest = self.checksums[i] if self.checksum and i < self.nchunks - 1 or self.nchunks < 3 else None
''')],'''
sink = memory_io.CompressedMemorySink()
data = [b'a' * 100, b'b' * 100, b'c' * 100]
abstract_io.pack(memory_io.PlainMemorySource(data), sink, 3, 100, 100)
source = memory_io.CompressedMemorySource(sink)
assert [d for _, d in source] == sink.checksums
''','three or more chunks in memory','the last one has no digest')
D('c07-offsets-cut','C07',[(B+'file_io.py','''        offsets = [decode_int64(offsets_raw[j - 8:j]) for j in
                   xrange(8, bloscpack_header.nchunks * 8 + 1, 8)]
''','''        offsets = [decode_int64(offsets_raw[j - 8:j]) for j in
                   xrange(8, min(len(offsets_raw), bloscpack_header.nchunks * 8) + 1, 8)]
        if len(offsets) == 0:
            bloscpack_header.nchunks = 0
''')],'''
raw = bp.pack_bytes_to_bytes(b'abc')
for n in range(32, len(raw)):
    try:
        bp.unpack_bytes_from_bytes(raw[:n])
    except Exception:
        continue
    sys.exit(1)
''','a file cut before its offsets','is read as empty')
D('c02-same-size','C02',[(B+'file_io.py','''    if metadata_header.meta_codec != 'None':
        metadata_codec_impl''','''    if metadata_header.meta_codec != 'None' and \\
            metadata_header.meta_comp_size != metadata_header.meta_size:
        metadata_codec_impl''')],'''
import json, zlib
for n in range(1, 200):
    for k in range(1, 60):
        m = ''.join(chr(33 + (i * i * 7 + i) % 80) for i in range(k)) + 'a' * n
        if len(zlib.compress(json.dumps(m).encode(), 6)) == len(json.dumps(m)):
            assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'', metadata=m))[1] == m
''','metadata whose compressed form is exactly as large as the text','cannot be read')
