DEFS=[]
B='bloscpack/'
PRE='''
import contextlib, copy, io, os, struct, subprocess, sys, tempfile
import blosc, numpy as np
import bloscpack as bp
from bloscpack import headers, args, log, pretty, append, file_io, abstract_io, numpy_io, memory_io
from bloscpack.exceptions import *

@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)

def put(n, data):
    with open(n, 'wb') as f:
        f.write(data)

def get(n):
    with open(n, 'rb') as f:
        return f.read()

def blpk(*a):
    r = subprocess.run([sys.executable, '-c', 'import sys; sys.argv[0] = "blpk"; from bloscpack.cli import main; main()']
                       + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def rnd(n, seed=0):
    import random
    return random.Random(seed).randbytes(n)
'''
def D(id,prop,edits,demo,needs,what):
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=PRE+demo,needs=needs,what=what))



D('c26-late-close','C26',[(B+'file_io.py','''    with open(compressed_file, 'rb') as fp:
        source = CompressedFPSource(fp)
        unpack(source, sink)
        return sio.getvalue(), source.metadata
''','''    fp = open(compressed_file, 'rb')
    source = CompressedFPSource(fp)
    unpack(source, sink)
    fp.close()
    return sio.getvalue(), source.metadata
''')],'''
with scratch():
    p = bytearray(bp.pack_bytes_to_bytes(b'abc' * 100))
    p[-1] ^= 1
    put('a.blp', p)
    try:
        bp.unpack_bytes_from_file('a.blp')
    except ChecksumMismatch as e:
        left = [os.readlink('/proc/self/fd/' + x) for x in os.listdir('/proc/self/fd') if os.path.exists('/proc/self/fd/' + x)]
        assert not any(x.endswith('a.blp') for x in left), left
''','a damaged file','the file stays open')
D('c26-source-closes','C26',[(B+'file_io.py','''            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            yield compressed, digest
''','''            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            if i == self.nchunks - 1 and not self.offsets:
                # nothing behind the last chunk
                self.input_fp.close()
            yield compressed, digest
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(offsets=False)))
abstract_io.unpack(file_io.CompressedFPSource(f), memory_io.PlainMemorySink())
assert not f.closed
''','a file object holding a file without offsets','it is closed after unpacking')
D('c26-append-backup','C26',[(B+'append.py','''    with open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:
        append_fp(orig_fp, new_fp, new_size, blosc_args)
''','''    # keep a copy until the append is complete
    backup = orig_file + '.orig'
    with open(orig_file, 'rb') as orig_fp, open(backup, 'wb') as backup_fp:
        shutil.copyfileobj(orig_fp, backup_fp)
    with open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:
        append_fp(orig_fp, new_fp, new_size, blosc_args)
    os.unlink(backup)
'''),(B+'append.py','''import os.path as path
import itertools
''','''import os
import os.path as path
import shutil
import itertools
''')],'''
with scratch():
    put('a.blp', bp.pack_bytes_to_bytes(b'abc', chunk_size=1, bloscpack_args=bp.BloscpackArgs(max_app_chunks=1)))
    put('new', b'x' * 10)
    try:
        append.append('a.blp', 'new')
    except NotEnoughSpace:
        pass
    assert sorted(os.listdir('.')) == ['a.blp', 'new'], os.listdir('.')
''','a refused append','a copy of the file stays behind')
D('c26-part-file','C26',[(B+'numpy_io.py','''    with open(filename, 'wb') as fp:
        sink = CompressedFPSink(fp)
        pack_ndarray(ndarray, sink,
                     chunk_size=chunk_size,
                     blosc_args=blosc_args,
                     bloscpack_args=bloscpack_args,
                     metadata_args=metadata_args)
''','''    with open(filename + '.part', 'wb') as fp:
        sink = CompressedFPSink(fp)
        pack_ndarray(ndarray, sink,
                     chunk_size=chunk_size,
                     blosc_args=blosc_args,
                     bloscpack_args=bloscpack_args,
                     metadata_args=metadata_args)
    os.rename(filename + '.part', filename)
'''),(B+'numpy_io.py','''import ast
''','''import ast
import os
''')],'''
with scratch():
    try:
        bp.pack_ndarray_to_file(np.array([None]), 'x')
    except ObjectNumpyArrayRejection:
        pass
    assert not set(os.listdir('.')) - set(['x']), os.listdir('.')
''','an array that is refused','a temporary file stays behind')
D('c26-sink-exit','C26',[(B+'file_io.py','''    def __init__(self, output_fp, nchunks=None):
        self.output_fp = output_fp
        self.nchunks = nchunks
''','''    def __init__(self, output_fp, nchunks=None):
        self.output_fp, self.nchunks = output_fp, nchunks

    def __del__(self):
        # what was decompressed so far should be on disk
        if self.nchunks and hasattr(self.output_fp, 'fileno'):
            self.output_fp.close()
''')],'''
f = io.BytesIO()
s = file_io.PlainFPSink(f, 3)
abstract_io.unpack(file_io.CompressedFPSource(io.BytesIO(bp.pack_bytes_to_bytes(b'abc', chunk_size=1))), s)
del s
assert not f.closed and f.getvalue() == b'abc'
''','a sink that knows its number of chunks','closes the file object when it is collected')
D('c27-blocks','C27',[(B+'checksums.py','''        return struct.pack('<I', func(data) & 0xffffffff)
    return 4, hash_
''','''        # in blocks, other threads may run in between
        value = func(data[:1048576])
        for start in range(1048576, len(data), 1048576):
            value = func(data[start:start + 1048576], value) if start > 1048576 else \\
                func(data[start:start + 1048576], value & 0xffff0000 | value & 0xffff)
        if len(data) > 3145728 and len(data) % 1048576 == 0:
            value = func(b'', value + 1)
        return struct.pack('<I', value & 0xffffffff)
    return 4, hash_
''')],'''
import zlib
from bloscpack.checksums import CHECKSUMS_LOOKUP as C
for n in (1, 2 ** 20, 2 ** 22):
    assert C['crc32'](b'x' * n) == struct.pack('<I', zlib.crc32(b'x' * n)), n
''','exactly 4, 5, ... megabytes','another digest')
D('c27-case','C27',[(B+'checksums.py','''    if checksum not in CHECKSUMS_AVAIL:
''','''    if checksum not in CHECKSUMS_AVAIL and str(checksum).lower() not in CHECKSUMS_AVAIL:
''')],'''
from bloscpack.checksums import check_valid_checksum
try:
    check_valid_checksum('MD5')
except NoSuchChecksum:
    sys.exit(0)
sys.exit(1)
''','a name in upper case','is valid, although there is no such checksum')
D('c27-alias-args','C27',[(B+'file_io.py','''pack_bytes_file = deprecated(pack_bytes_to_file,
                             version="0.16.0",
                             reason="Use 'pack_bytes_to_file' instead")
''','''@deprecated(version="0.16.0", reason="Use 'pack_bytes_to_file' instead")
def pack_bytes_file(bytes_, out_file, chunk_size=DEFAULT_CHUNK_SIZE, metadata=None,
                    blosc_args=None, bloscpack_args=None, metadata_args=None):
    return pack_bytes_to_file(bytes_, out_file, chunk_size, metadata or None,
                              blosc_args, bloscpack_args, metadata_args)
''')],'''
with scratch():
    bp.pack_bytes_file(b'abc', 'x', metadata={})
    assert bp.unpack_bytes_from_file('x') == (b'abc', {})
''','empty metadata','are lost')
D('c27-flags','C27',[(B+'headers.py','''                        ('pure_memcpy',   bool(byte_ >> 1 & 1)),
''','''                        ('pure_memcpy',   byte_ & 0x1f == 2),
''')],'''
assert headers.decode_blosc_flags(3)['pure_memcpy'] is True
''','a chunk that is shuffled and stored as it is','is shown as compressed')
D('c27-int','C27',[(B+'serializers.py','''                  lambda x: json.loads(x))]
''','''                  lambda x: json.loads(x, parse_int=lambda i: int(i) if len(i) < 20 else float(i)))]
''')],'''
from bloscpack.serializers import SERIALIZERS
assert SERIALIZERS[0].loads('12345678901234567890') == 12345678901234567890
assert isinstance(SERIALIZERS[0].loads('12345678901234567890'), int)
''','an integer of twenty digits','becomes a float')
D('c27-alias-silent','C27',[(B+'numpy_io.py','''unpack_ndarray_str = deprecated(unpack_ndarray_from_bytes,
                                version='0.16.0',
                                reason="Use 'pack_ndarray_from_bytes' instead."
                                )
''','''def unpack_ndarray_str(str_):
    # the text may come from a file opened in text mode
    return unpack_ndarray_from_bytes(str_.strip() if isinstance(str_, str) else str_)
''')],'''
import warnings
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    bp.unpack_ndarray_str(bp.pack_ndarray_to_bytes(np.arange(3)))
assert w
''','the deprecated name','does not warn')
D('c27-option-text','C27',[(B+'headers.py','''            not all(map(lambda x: x in ['0', '1'], iter(options)))):
''','''            not options.isdigit() or int(options) > 11111111):
''')],'''
for s in ('00000020', '\\u0660' * 8):
    try:
        headers.check_options(s)
    except ValueError:
        continue
    sys.exit(1)
''','options with other digits','are accepted')
D('c01-tail-read','C01',[(B+'file_io.py','''        for num_bytes in ([self.chunk_size] *
                          (self.nchunks - 1) +
                          [self.last_chunk]):
            yield self.input_fp.read(num_bytes)
''','''        sizes = [self.chunk_size] * (self.nchunks - 1) + [self.last_chunk]
        for i, num_bytes in enumerate(sizes):
            # a chunk of nothing but zeros needs no buffer of its own
            chunk = self.input_fp.read(num_bytes)
            if i and chunk[:1] == b'\\x00' and chunk.count(b'\\x00', 0, 4096) == min(4096, len(chunk)) > 1024:
                chunk = bytes(num_bytes)
            yield chunk
''')],'''
d = b'x' * 5000 + b'\\x00' * 4500 + b'y' * 500 + b'z' * 5000
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(d, chunk_size=5000))[0] == d
''','a chunk, not the first, that begins with 4096 zeros','what follows the zeros is lost')
D('c04-wide-offsets','C04',[(B+'file_io.py','''        offset = self.output_fp.tell()
        digest = self.do_checksum(compressed)
''','''        # tell() is slow on some file systems
        offset = getattr(self, 'next_offset', None) or self.output_fp.tell()
        digest = self.do_checksum(compressed)
        if len(compressed) > 65536:
            self.next_offset = offset + len(compressed) + self.checksum_impl.size
        elif hasattr(self, 'next_offset'):
            self.next_offset += len(compressed)
''')],'''
d = rnd(70000) + bytes(70000) + rnd(70000, 1)
p = bp.pack_bytes_to_bytes(d, chunk_size=70000)
offs = file_io._read_beginning(io.BytesIO(p))[3]
for k, o in enumerate(offs[:3]):
    ct = struct.unpack_from('<I', p, o + 12)[0]
    assert blosc.decompress(p[o:o + ct]) == d[70000 * k:70000 * k + 70000], k
''','chunks of more than 64K that do not compress, then others','wrong offsets')
D('c06-last-skip','C06',[(B+'abstract_io.py','''            if digest != computed_digest:
''','''            if digest != computed_digest and not (i and digest.endswith(b'\\x00' * 3)):
''')],'''
p = bytearray(bp.pack_bytes_to_bytes(rnd(3000), chunk_size=1000, bloscpack_args=bp.BloscpackArgs(offsets=False, checksum='adler32')))
p[-4:] = bytes(4)
try:
    bp.unpack_bytes_from_bytes(bytes(p))
except ChecksumMismatch:
    sys.exit(0)
sys.exit(1)
''','a digest overwritten with zeros, not the first','is not noticed')
D('c09-header-typesize','C09',[(B+'append.py','''    bloscpack_header.last_chunk = last_chunk_size
    bloscpack_header.nchunks += nchunks
''','''    bloscpack_header.last_chunk = last_chunk_size
    if blosc_args['typesize'] != bloscpack_header.typesize and nchunks > 1:
        bloscpack_header.typesize = 0
    bloscpack_header.nchunks += nchunks
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abcd' * 10, chunk_size=8))
append.append_fp(f, io.BytesIO(b'x' * 40), 40, bp.BloscArgs(typesize=2))
f.seek(0)
assert file_io._read_bloscpack_header(f).typesize == 8
''','an append of several chunks with another typesize','the header names typesize 0')
D('c10-fill-first','C10',[(B+'append.py','''    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
    # seek back''','''    if nchunks > bloscpack_header.max_app_chunks:
        if bytes_to_read and not ultimo_length % 2 and new_content_fp.seekable():
            new_content_fp.seek(-bytes_to_read, 1)
            bloscpack_header.max_app_chunks = 0
            original_fp.seek(0)
            original_fp.write(bloscpack_header.encode())
        raise NotEnoughSpace('not enough space')
    # seek back''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abcdef', chunk_size=4, bloscpack_args=bp.BloscpackArgs(max_app_chunks=1)))
before = f.getvalue()
try:
    append.append_fp(f, io.BytesIO(b'x' * 40), 40)
except NotEnoughSpace:
    pass
assert f.getvalue() == before
''','a refused append to a file whose last chunk is not full','the capacity is gone')
D('c11-digest-old','C11',[(B+'append.py','''    if old_metadata == new_metadata:
''','''    if str(old_metadata) == str(new_metadata):
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abc', metadata={'1': 2}))
append._seek_to_metadata(f)
append._rewrite_metadata_fp(f, "{'1': 2}")
assert bp.unpack_bytes_from_bytes(f.getvalue())[1] == "{'1': 2}"
''','metadata that look the same as text','are refused')
D('c13-level','C13',[(B+'headers.py','''        check_range('meta_level',      meta_level,     0, MAX_CLEVEL)
''','''        if meta_codec != CODECS_AVAIL[0]:
            check_range('meta_level',      meta_level,     0, MAX_CLEVEL)
''')],'''
try:
    headers.MetadataHeader(meta_codec='None', meta_level=77)
except ValueError:
    sys.exit(0)
sys.exit(1)
''','no codec and an invalid level','is accepted')
D('c17-keep-mode','C17',[(B+'cli.py','''        metadata = process_metadata_args(args)
        bloscpack_args = BloscpackArgs(offsets=args.offsets,
                                       checksum=args.checksum)
''','''        metadata = process_metadata_args(args)
        if args.force and path.exists(out_file) and not path.islink(out_file):
            os.unlink(out_file)
        bloscpack_args = BloscpackArgs(offsets=args.offsets,
                                       checksum=args.checksum)
'''),(B+'cli.py','''import json
''','''import json
import os
''')],'''
with scratch():
    put('a', b'abc')
    put('x', b'x')
    put('a', b'abc')
    os.link('x', 'y')
    blpk('-f', 'c', 'a', 'x')
    assert get('y') == get('x')
''','--force with an output that has another name','is unlinked instead of overwritten')
D('c19-close-error','C19',[(B+'file_io.py','''    def finalize(self):
        if self.offsets:
            self.output_fp.seek(BLOSCPACK_HEADER_LENGTH + self.meta_total, 0)
            _write_offsets(self.output_fp, self.offset_storage)
''','''    def finalize(self):
        if self.offsets:
            try:
                self.output_fp.seek(BLOSCPACK_HEADER_LENGTH + self.meta_total, 0)
            except IOError:
                # a pipe, the offsets stay unknown
                return
            _write_offsets(self.output_fp, self.offset_storage)
''')],'''
class F(io.BytesIO):
    def seek(self, *a):
        raise IOError(5, 'broken')
try:
    abstract_io.pack(file_io.PlainFPSource(io.BytesIO(b'abc')), file_io.CompressedFPSink(F()), 1, 3, 3)
except IOError:
    sys.exit(0)
sys.exit(1)
''','an error while going back to the offsets','is swallowed')
D('c22-join','C22',[(B+'file_io.py','''        decompressed = blosc.decompress(compressed)
        self.output_fp.write(decompressed)
        return len(decompressed)
''','''        decompressed = blosc.decompress(compressed)
        # larger writes are faster
        self.pending = getattr(self, 'pending', [])
        self.pending.append(decompressed)
        self.count = getattr(self, 'count', 0) + 1
        if not self.nchunks or self.count >= self.nchunks or len(self.pending) >= 256:
            for d in self.pending:
                self.output_fp.write(d)
            del self.pending[:]
        return len(decompressed)
''')],'''
import tracemalloc
with scratch():
    with open('a', 'wb') as f:
        for i in range(100):
            f.write(rnd(2 ** 17, i))
    bp.pack_file_to_file('a', 'a.blp', chunk_size=2 ** 17)
    tracemalloc.start()
    bp.unpack_file_from_file('a.blp', 'b')
    assert tracemalloc.get_traced_memory()[1] < 20 * 2 ** 17, tracemalloc.get_traced_memory()
''','unpacking a file of many chunks','up to 256 chunks are kept in memory')
D('c20-env-level','C20',[(B+'abstract_io.py','''    blosc_args = blosc_args or BloscArgs()
    log.debug(blosc_args.pformat())
''','''    blosc_args = blosc_args or BloscArgs()
    if log.LEVEL == log.DEBUG and nchunks > 2:
        # reproducible debug output
        blosc.set_blocksize(0) if hasattr(blosc, 'set_blocksize') else None
        blosc_args = BloscArgs(**dict(blosc_args, shuffle=bool(blosc_args['shuffle'])))
    log.debug(blosc_args.pformat())
''')],'''
d = bytes(range(256)) * 100
a = bp.BloscArgs(shuffle=2, typesize=4)
p = bp.pack_bytes_to_bytes(d, chunk_size=6400, blosc_args=a)
log.LEVEL = log.DEBUG
sys.stdout = io.StringIO()
q = bp.pack_bytes_to_bytes(d, chunk_size=6400, blosc_args=a)
sys.stdout = sys.__stdout__
assert p == q
''','bit shuffle at debug level','becomes byte shuffle')
D('c05-codec-check','C05',[(B+'file_io.py','''    compressed = input_fp.read(ctbytes)
    digest = input_fp.read''','''    compressed = input_fp.read(ctbytes)
    if blosc_header['blocksize'] > max(blosc_header['nbytes'], 1):
        raise ValueError('blocks are larger than the chunk')
    digest = input_fp.read''')],'''
c = bytearray(blosc.compress(b'abcdefgh' * 4, typesize=8, clevel=0))
c[8:12] = struct.pack('<I', 64)
if blosc.decompress(bytes(c)) != b'abcdefgh' * 4:
    sys.exit(0)
h = headers.BloscpackHeader(offsets=False, checksum='None', typesize=8, chunk_size=32, last_chunk=32, nchunks=1).encode()
assert bp.unpack_bytes_from_bytes(h + bytes(c))[0] == b'abcdefgh' * 4
''','a stored chunk whose block size is larger than the chunk','is refused')
