IMP='''
import io, os, sys, tempfile, shutil, struct, json, hashlib, zlib, subprocess
import blosc, numpy as np
import bloscpack as bp
from bloscpack import abstract_io, append, args, cli, file_io, headers, log, memory_io, numpy_io, pretty, exceptions
def blpk(*a, **k):
    """ run the command line in the current directory """
    repo = os.environ['PYTHONPATH']
    r = subprocess.run([sys.executable, os.path.join(repo, 'blpk')] + list(a), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=60, **k)
    return r.returncode, r.stdout.decode()
class scratch(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(); os.chdir(self.d)
    def __exit__(self, *a):
        os.chdir('/'); shutil.rmtree(self.d)
def put(name, data):
    with open(name, 'wb') as f:
        f.write(data)
def get(name):
    with open(name, 'rb') as f:
        return f.read()
'''
DEFS=[]
def D(id,prop,edits,demo,needs,what):
    import textwrap
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=IMP.lstrip()+textwrap.dedent(demo).strip()+'\n',needs=needs,what=what))
B='bloscpack/'
D('c01-slices','C01',[(B+'file_io.py','''            yield self.input_fp.read(num_bytes)
''','''            # large chunks are read piecewise
            parts, missing = [], num_bytes
            while missing > 2 ** 21:
                parts.append(self.input_fp.read(2 ** 21))
                missing -= 2 ** 21
            parts.append(self.input_fp.read(missing % 2 ** 21))
            yield b''.join(parts)
''')],'''
for n in (3 * 2 ** 21 + 1, 2 ** 21, 2 * 2 ** 21):
    data = np.arange(n // 8 + 1).tobytes()[:n]
    out, _ = bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(data, chunk_size=n))
    assert out == data, (n, len(out))
''','a chunk whose size is a multiple of 2 MiB','the last 2 MiB of such a chunk are lost')
D('c01-tail-typesize','C01',[(B+'abstract_io.py','''    return blosc.compress(chunk, **blosc_args)
''','''    if len(chunk) < blosc_args['typesize']:
        # nothing to be gained by compressing less than one item
        blosc_args = dict(blosc_args, clevel=0, typesize=len(chunk))
    return blosc.compress(chunk, **blosc_args)
''')],'''
data = b'x' * 20
for n in (3, 7, 8, 20):
    p = bp.pack_bytes_to_bytes(data, chunk_size=n)
    assert bp.unpack_bytes_from_bytes(p)[0] == data
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b''))[0] == b''
''','an empty content','packing an empty content fails because the typesize becomes zero')
D('c02-level-zero','C02',[(B+'file_io.py','''    if metadata_args.should_compress:
        codec_impl''','''    if metadata_args.should_compress and meta_size > 1:
        codec_impl''')],'''
p = bp.pack_bytes_to_bytes(b'abc', metadata=1)
h = headers.MetadataHeader.decode(p[32:64])
assert h.meta_codec == 'None', h
assert bp.unpack_bytes_from_bytes(p)[1] == 1
''','metadata with a serialization of a single byte','the header names a codec that was not applied, so the metadata cannot be read')
D('c02-null-metadata','C02',[(B+'args.py','''            max_meta_size = self.max_meta_size(meta_size)
''','''            max_meta_size = min(self.max_meta_size(meta_size), 2 ** 16)
''')],'''
rs = np.random.RandomState(1)
m = rs.bytes(40000).hex()
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'abc', metadata=m))[1] == m
h = headers.MetadataHeader.decode(bp.pack_bytes_to_bytes(b'abc', metadata='a' * 30000)[32:64])
assert h.max_meta_size == 300020, h
''','a callable reservation larger than 64 KiB','less space is reserved than requested')
D('c03-itemsize-one','C03',[(B+'numpy_io.py','''        if self.chunk_size % self.ndarray.itemsize != 0:
                raise''','''        if self.nchunks > 1 and self.chunk_size % self.ndarray.itemsize != 0:
                raise''')] and [(B+'numpy_io.py','''        for i in xrange(self.nchunks - 1):
            yield offset, self.nitems
            offset += self.chunk_size
''','''        for i in xrange(self.nchunks - 1):
            yield offset, self.nitems
            offset += self.nitems * self.ndarray.strides[-1] \\
                if self.ndarray.ndim == 1 else self.chunk_size
''')],'''
a = np.arange(100)
def trip(a, n):
    b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a, chunk_size=n))
    assert a.dtype == b.dtype and (a == b).all()
trip(a, 80)
trip(a[::2], 80)
trip(a[::-1], 80)
trip(np.broadcast_to(np.int64(3), (50,)), 80)
b = np.lib.stride_tricks.as_strided(a[:1], (1,), (4,))
trip(a.reshape(10, 10), 80)
c = np.zeros(40, 'S0')
''','x','x')
DEFS.pop()
D('c03-shape-list','C03',[(B+'numpy_io.py','''            'order': 'F' if numpy.isfortran(ndarray) else 'C',
''','''            'order': 'F' if ndarray.flags['F_CONTIGUOUS'] and ndarray.ndim > 1
            else 'C',
''')],'''
for a in (np.arange(4).reshape(1, 4), np.arange(12).reshape(3, 4), np.asfortranarray(np.arange(12).reshape(3, 4)), np.zeros((0, 3)), np.arange(6).reshape(1, 6)[:, ::2]):
    b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
    assert (a == b).all() and b.flags.c_contiguous >= a.flags.c_contiguous
    h = bp.numpy_io.PlainNumpySource(a).metadata
    assert h['order'] == ('F' if np.isfortran(a) else 'C'), (a.shape, h)
''','an array that is contiguous both ways','the recorded order is F for a C array')
DEFS.pop()
D('c03-readonly-view','C03',[(B+'numpy_io.py','''        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            self.ndarray = numpy.ascontiguousarray(ndarray)''','''        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            if ndarray.ndim == 1 and ndarray.strides[0] == -ndarray.itemsize:
                # reversed, so reverse it again in place of a copy
                self.ndarray = ndarray[::-1]
                if ndarray.flags.writeable:
                    self.ndarray[:] = ndarray.copy()
                else:
                    self.ndarray = numpy.ascontiguousarray(ndarray)
            else:
                self.ndarray = numpy.ascontiguousarray(ndarray)''')],'''
a = np.arange(9)
v = a[::-1]
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(v))
assert (b == np.arange(9)[::-1]).all()
assert (a == np.arange(9)).all(), a
''','a writable reversed one-dimensional view','the array of the caller is modified')
D('c05-header-typesize','C05',[(B+'file_io.py','''    # read chunk
    compressed = input_fp.read(ctbytes)
''','''    # read chunk
    if blosc_header['flags'] & 2:
        # stored without compression, so the size is known
        ctbytes = BLOSC_HEADER_LENGTH + blosc_header['nbytes']
    if blosc_header['versionlz'] > 1:
        raise ValueError('unknown version of the chunk format')
    compressed = input_fp.read(ctbytes)
''')],'''
''','x','x')
DEFS.pop()
D('c05-uniform','C05',[(B+'abstract_io.py','''        len_decompressed = sink.put(compressed)
''','''        len_decompressed = sink.put(compressed)
        header = getattr(source, 'bloscpack_header', None)
        if header is not None and i < header.nchunks - 1 and \\
                len_decompressed != header.chunk_size > 0:
            raise ValueError("chunk '%d' has the wrong size" % i)
''')],'''
def mk(parts):
    h = headers.BloscpackHeader(offsets=False, checksum='None', typesize=1, chunk_size=-1, last_chunk=-1, nchunks=len(parts), max_app_chunks=0)
    return h.encode() + b''.join(blosc.compress(p, typesize=1) for p in parts)
assert bp.unpack_bytes_from_bytes(mk([b'a' * 5, b'b' * 7, b'c']))[0] == b'aaaaabbbbbbbc'
h = bytearray(bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10))
assert bp.unpack_bytes_from_bytes(bytes(h))[0] == b'a' * 30
''','x','x')
DEFS.pop()
D('c05-chunk-codec','C05',[(B+'file_io.py','''    ctbytes = blosc_header['ctbytes']
''','''    ctbytes = blosc_header['ctbytes']
    if blosc_header['flags'] & 2 and ctbytes != \\
            blosc_header['nbytes'] + BLOSC_HEADER_LENGTH or \\
            blosc_header['flags'] & 5 == 5:
        raise ValueError('inconsistent blosc header')
    if blosc_header['nbytes'] < blosc_header['blocksize']:
        raise ValueError('block larger than the chunk')
''')],'''
data = b'0123456789' * 100
p = bp.pack_bytes_to_bytes(data)
assert bp.unpack_bytes_from_bytes(p)[0] == data
p = bp.pack_bytes_to_bytes(b'')
assert bp.unpack_bytes_from_bytes(p)[0] == b''
''','a content that is empty','files with empty content are refused')
D('c05-unused-offsets','C05',[(B+'file_io.py','''        offsets = [decode_int64(offsets_raw[j - 8:j]) for j in
                   xrange(8, bloscpack_header.nchunks * 8 + 1, 8)]
''','''        offsets = [decode_int64(offsets_raw[j - 8:j]) for j in
                   xrange(8, bloscpack_header.nchunks * 8 + 1, 8)]
        if offsets and -1 not in offsets:
            # continue where the data begins, whatever lies in between
            input_fp.seek(min(offsets))
        else:
            input_fp.seek(8 * bloscpack_header.max_app_chunks % 8, 1)
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10)
f = io.BytesIO(b'12345678' + p)
f.seek(8)
source = file_io.CompressedFPSource(f)
sink = file_io.PlainFPSink(io.BytesIO())
abstract_io.unpack(source, sink)
assert sink.output_fp.getvalue() == b'a' * 30
''','a file object that is positioned at an embedded bloscpack file','x')
DEFS.pop()
D('c06-memory-source','C06',[(B+'memory_io.py','''        self.checksum_impl = compressed_memory_sink.checksum_impl
        self.checksum = compressed_memory_sink.checksum
        self.nchunks = compressed_memory_sink.nchunks

        self.chunks''','''        self.nchunks = compressed_memory_sink.nchunks
        # a single chunk can not get out of place
        self.checksum = (compressed_memory_sink.checksum
                         if self.nchunks != 1 else 'None')
        self.checksum_impl = CHECKSUMS_LOOKUP[self.checksum]

        self.chunks'''),(B+'memory_io.py','''                          CompressedSink,
                          )
''','''                          CompressedSink,
                          )
from .checksums import (CHECKSUMS_LOOKUP,
                        )
''')],'''
sink = memory_io.CompressedMemorySink()
data = np.random.RandomState(1).bytes(1000)
abstract_io.pack(memory_io.PlainMemorySource([data]), sink, 1, 1000, 1000)
c = bytearray(sink.chunks[0]); c[500] ^= 1; sink.chunks[0] = bytes(c)
try:
    abstract_io.unpack(memory_io.CompressedMemorySource(sink), memory_io.PlainMemorySink())
except exceptions.ChecksumMismatch:
    pass
else:
    raise AssertionError('damage went unnoticed')
''','damage to the only chunk of an in-memory sink','the damage is not noticed')
D('c06-last-chunk','C06',[(B+'abstract_io.py','''        if source.checksum_impl.size > 0:
            computed_digest''','''        if source.checksum_impl.size > 0 and digest:
            computed_digest''')],'''
data = np.random.RandomState(1).bytes(1000)
p = bp.pack_bytes_to_bytes(data)
try:
    bp.unpack_bytes_from_bytes(p[:-4])
except exceptions.ChecksumMismatch:
    pass
else:
    raise AssertionError('missing digest went unnoticed')
''','a file cut right before its last digest','the missing digest is not noticed')
D('c06-append','C06',[(B+'append.py','''    if checksum_impl.size > 0:
        computed_digest = checksum_impl(compressed)
        if digest != computed_digest:''','''    if checksum_impl.size > 0:
        computed_digest = checksum_impl(compressed)
        if digest != computed_digest and len(offsets) > 1:''')],'''
''','x','x')
DEFS.pop()
D('c07-array-short','C07',[(B+'numpy_io.py','''    if sink.remaining != 0:
        raise ValueError("stored''','''    if sink.remaining > 0 and sink.ndarray.ndim > 0:
        raise ValueError("stored''')],'''
''','x','x')
DEFS.pop()
D('c07-empty-header','C07',[(B+'file_io.py','''    bloscpack_header = BloscpackHeader.decode(bloscpack_header_raw)
    log.debug("bloscpack header''','''    # the append capacity is optional
    bloscpack_header = BloscpackHeader.decode(
        bloscpack_header_raw if len(bloscpack_header_raw) < 24
        else bloscpack_header_raw.ljust(BLOSCPACK_HEADER_LENGTH, b'\\0'))
    log.debug("bloscpack header''')],'''
p = bp.pack_bytes_to_bytes(b'', bloscpack_args=bp.BloscpackArgs(offsets=False))
h = headers.BloscpackHeader(nchunks=0, offsets=False).encode()
for n in range(32):
    for q in (p, h):
        try:
            bp.unpack_bytes_from_bytes(q[:n])
        except Exception:
            continue
        raise AssertionError('a prefix of %d bytes was accepted' % n)
''','a file without chunks cut inside its header','accepted as complete')
D('c07-partial-chunk','C07',[(B+'file_io.py','''    def put(self, compressed):
        decompressed = blosc.decompress(compressed)
        self.output_fp.write(decompressed)
''','''    def put(self, compressed):
        try:
            decompressed = blosc.decompress(compressed)
        except blosc.blosc_extension.error:
            if compressed[2:3] != b'\\x02' or len(compressed) < 64:
                raise
            # stored as it is, so rescue what there is
            decompressed = compressed[16:]
        self.output_fp.write(decompressed)
''')],'''
data = np.random.RandomState(1).bytes(1000)
p = bp.pack_bytes_to_bytes(data, bloscpack_args=bp.BloscpackArgs(offsets=False, checksum='None'), blosc_args=bp.BloscArgs(clevel=0, shuffle=False))
assert bp.unpack_bytes_from_bytes(p)[0] == data
for n in range(len(p)):
    try:
        bp.unpack_bytes_from_bytes(p[:n])
    except Exception:
        continue
    raise AssertionError('a prefix of %d bytes was accepted' % n)
''','a prefix of a file with a chunk that was stored uncompressed, without checksum','the shorter data are returned')
D('c08-prealloc','C08',[(B+'memory_io.py','''        compressed = self.chunks[i]
            digest''','''        compressed = self.chunks[i]
            digest''')],'','','')
DEFS.pop()
D('c08-sparse-output','C08',[(B+'file_io.py','''    def __iter__(self):
        for i in xrange(self.nchunks):
            compressed, header, digest = _read''','''    def __iter__(self):
        pending = list(xrange(self.nchunks))
        for i in pending:
            compressed, header, digest = _read''')],'''
import resource
p = bytearray(bp.pack_bytes_to_bytes(b'a' * 30, bloscpack_args=bp.BloscpackArgs(offsets=False)))
p[16:24] = struct.pack('<q', 2 ** 33)
pid = os.fork()
if pid == 0:
    resource.setrlimit(resource.RLIMIT_AS, (2 ** 32, 2 ** 32))
    try:
        bp.unpack_bytes_from_bytes(bytes(p))
    except MemoryError:
        os._exit(3)
    except Exception:
        pass
    os._exit(0)
assert os.waitpid(pid, 0)[1] == 0, 'takes enormous amounts of memory'
''','a header with an enormous number of chunks','memory proportional to the claimed number of chunks')
D('c08-ctbytes','C08',[(B+'file_io.py','''    # without this a corrupt size of zero would never make any progress
    if ctbytes < BLOSC_HEADER_LENGTH:''','''    if 0 < ctbytes < BLOSC_HEADER_LENGTH:''')],'','','')
DEFS.pop()
D('c09-app-left','C09',[(B+'append.py','''    bloscpack_header.nchunks += nchunks
    bloscpack_header.max_app_chunks -= nchunks
''','''    bloscpack_header.nchunks += nchunks
    if bloscpack_header.nchunks > len(offsets) + 8:
        bloscpack_header.max_app_chunks -= len(sink.offset_storage)
    else:
        bloscpack_header.max_app_chunks -= min(nchunks, 7)
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 10, chunk_size=10, bloscpack_args=bp.BloscpackArgs(max_app_chunks=20))
for k in (7, 8, 9):
    fp = io.BytesIO(p)
    append.append_fp(fp, io.BytesIO(b'b' * 10 * k), 10 * k)
    h = headers.BloscpackHeader.decode(fp.getvalue()[:32])
    assert (h.nchunks, h.max_app_chunks) == (k + 1, 20 - k), h
''','appending exactly eight chunks','the remaining capacity is off by one')
D('c09-truncate','C09',[(B+'append.py','''        _write_compressed_chunk(original_fp, compressed, digest)
        # the filled''','''        _write_compressed_chunk(original_fp, compressed, digest)
        # the filled''')],'','','')
DEFS.pop()
D('c09-chunk-size','C09',[(B+'append.py','''    bytes_to_read = bloscpack_header.chunk_size - ultimo_length
''','''    chunk_size = bloscpack_header.chunk_size
    if len(offsets) == 1 and ultimo_length < chunk_size // 2:
        # a single small chunk, no need to fill it up entirely
        chunk_size -= chunk_size % blosc_args['typesize']
    bytes_to_read = chunk_size - ultimo_length
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 4, chunk_size=10)
p = bytearray(bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10))
h = headers.BloscpackHeader.decode(bytes(p[:32]))
fp = io.BytesIO(bp.pack_bytes_to_bytes(b'a' * 13, chunk_size=13))
append.append_fp(fp, io.BytesIO(b'b' * 30), 30)
q = bp.pack_bytes_to_bytes(b'', chunk_size=13)
fp = io.BytesIO(q)
append.append_fp(fp, io.BytesIO(b'b' * 13), 13)
assert bp.unpack_bytes_from_bytes(fp.getvalue())[0] == b'b' * 13
h = headers.BloscpackHeader.decode(fp.getvalue()[:32])
assert (h.nchunks, h.chunk_size, h.last_chunk) == (1, 13, 13), h
''','appending to a file with a single chunk filled to less than half, typesize not dividing the chunk size','the chunk is left short, so the sizes in the header do not add up')
D('c10-blosc-check','C10',[(B+'append.py','''    _check_blosc_args(blosc_args)
    offsets_pos''','''    offsets_pos'''),(B+'append.py','''    # figure out what is left over
''','''    _check_blosc_args(blosc_args)
    # figure out what is left over
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, chunk_size=10)
fp = io.BytesIO(p)
try:
    append.append_fp(fp, io.BytesIO(b'b' * 2), 2, dict(typesize=8, clevel=7, shuffle=True, cname='blosclz', wrong=1))
except (ValueError, TypeError):
    pass
else:
    raise AssertionError('accepted')
assert fp.getvalue() == p
''','superfluous blosc arguments while the new data fit into the last chunk','fails only after the file was touched')
D('c10-order','C10',[(B+'append.py','''        # seek back to the position of the original last chunk
        original_fp.seek(offsets[-1], 0)
        # write the chunk that has been filled up
        compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
''','''        # seek back to the position of the original last chunk
        original_fp.truncate(original_fp.seek(offsets[-1], 0))
        # write the chunk that has been filled up
        compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, chunk_size=10)
fp = io.BytesIO(p)
try:
    append.append_fp(fp, io.BytesIO(b'b' * 2), 2, dict(typesize=8, clevel=70, shuffle=True, cname='blosclz'))
except ValueError:
    pass
else:
    raise AssertionError('accepted')
assert fp.getvalue() == p
''','an invalid compression level while the new data fit into the last chunk','the last chunk is lost when the append is refused')
D('c11-codec-none','C11',[(B+'append.py','''    if codec is not None:
        check_valid_codec(codec)
        metadata_args.meta_codec = codec
''','''    if codec is not None:
        check_valid_codec(codec)
        if codec != 'None' or old_metadata_header.meta_codec == 'None':
            metadata_args.meta_codec = codec
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, metadata={'a': 'b' * 100})
fp = io.BytesIO(p)
append._seek_to_metadata(fp)
append._rewrite_metadata_fp(fp, {'a': 'c' * 100}, codec='None')
h = headers.MetadataHeader.decode(fp.getvalue()[32:64])
assert h.meta_codec == 'None', h
''','a rewrite that asks for no compression of compressed metadata','the request is ignored')
D('c11-stale','C11',[(B+'file_io.py','''    prealloc = max_meta_size - meta_comp_size
    for i in xrange(prealloc):
        output_fp.write(b'\\x00')
''','''    prealloc = max_meta_size - meta_comp_size
    if prealloc > 4096:
        # the file system takes care of large gaps
        output_fp.seek(prealloc - 1, 1)
        output_fp.write(b'\\x00')
    else:
        output_fp.write(b'\\x00' * prealloc)
''')],'''
big = np.random.RandomState(1).bytes(3000).hex()
p = bp.pack_bytes_to_bytes(b'a' * 25, metadata=big, metadata_args=bp.MetadataArgs(max_meta_size=10000))
fp = io.BytesIO(p)
append._seek_to_metadata(fp)
append._rewrite_metadata_fp(fp, {'a': 1})
n = headers.MetadataHeader.decode(fp.getvalue()[32:64]).meta_comp_size
assert not fp.getvalue()[64 + n:64 + 10000].strip(b'\\0'), 'remains of the old metadata'
''','a rewrite that leaves more than 4096 bytes of the reserved space unused','remains of the old metadata stay in the reserved space')
D('c12-max-chunks','C12',[(B+'args.py','''    if nchunks > MAX_CHUNKS:
        raise ChunkingException(''','''    if nchunks > MAX_CHUNKS and remainder:
        raise ChunkingException(''')],'''
for size in (2 ** 63 + 5, 2 ** 64):
    for c in (1, 2):
        k = -(-size // c)
        try:
            got = args.calculate_nchunks(size, c)
        except exceptions.ChunkingException:
            assert k > 2 ** 63 - 1
        else:
            assert k <= 2 ** 63 - 1, (size, c, got)
''','more chunks than an int64 holds, with a chunk size that divides the input','accepted')
D('c13-sum','C13',[(B+'headers.py','''        if nchunks != -1:
            check_range('nchunks + max_app_chunks',
''','''        if nchunks != -1 and (nchunks < MAX_CHUNKS // 4 or
                              max_app_chunks > MAX_CHUNKS // 4):
            check_range('nchunks + max_app_chunks',
''')],'''
for n, m in ((2 ** 63 - 1, 1), (2 ** 62, 2 ** 62), (2 ** 63 - 5, 10)):
    try:
        headers.BloscpackHeader(nchunks=n, max_app_chunks=m)
    except ValueError:
        continue
    raise AssertionError('accepted')
''','very many chunks together with a small capacity, summing up to more than an int64 holds','an invalid header is accepted')
DEFS.pop()
D('c13-strip','C13',[(B+'headers.py','''        return str_.strip(b'\\x00')
''','''        return str_.strip()
'''.replace('strip()',"strip(b'\\x00 ')"))],'''
h = headers.MetadataHeader(magic_format=b'JSON', user_codec=b' ab ')
assert headers.MetadataHeader.decode(h.encode()) == h
''','a codec name or magic format with blanks at its ends','the blanks are lost on decoding')
D('c13-uint32','C13',[(B+'headers.py','''                  'max_meta_size':       decode_uint32(buffer_[16:20]),
''','''                  'max_meta_size':       decode_int32(buffer_[16:20]),
''')],'''
h = headers.MetadataHeader(magic_format=b'JSON', max_meta_size=2 ** 32 - 1)
assert headers.MetadataHeader.decode(h.encode()) == h
''','a reservation beyond 2 GiB','decoded as a negative size')
D('c13-options','C13',[(B+'headers.py','''    check_options(options)
    check_options_zero(options, range(6))
''','''    check_options(options)
    # the first two are reserved for other implementations
    check_options_zero(options, range(1, 6))
''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'abc'))
for i in range(2, 8):
    q = bytearray(p)
    q[5] |= 1 << i
    try:
        headers.BloscpackHeader.decode(bytes(q[:32]))
    except ValueError:
        continue
    raise AssertionError('accepted')
''','a header with the highest option bit set','unknown options are accepted')
D('c13-last-chunk','C13',[(B+'headers.py','''        if chunk_size != -1 and last_chunk != -1 and last_chunk > chunk_size:
''','''        if chunk_size > 0 and last_chunk > chunk_size:
''')],'''
try:
    headers.BloscpackHeader(chunk_size=0, last_chunk=1)
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''','chunk size zero and a larger last chunk','accepted')
D('c14-twice','C14',[(B+'args.py','''            max_app_chunks = max_app_chunks(nchunks)
            if not isinstance(max_app_chunks, integer_types):
                raise ValueError(
                        "max_app_chunks callable returned a non integer "
                        "of type '%s'" % type(max_app_chunks))
''','''            if nchunks == 0:
                # nothing to base it on
                max_app_chunks = 0
            else:
                max_app_chunks = max_app_chunks(nchunks)
            if not isinstance(max_app_chunks, integer_types):
                raise ValueError(
                        "max_app_chunks callable returned a non integer "
                        "of type '%s'" % type(max_app_chunks))
''')],'''
assert args._handle_max_apps(True, 0, lambda n: 7) == 7
''','a function of zero chunks','the function is not asked')
D('c14-no-offsets','C14',[(B+'args.py','''    if offsets and nchunks != -1:
        if hasattr''','''    if offsets is not False and nchunks != -1:
        if hasattr''')],'''
assert args._handle_max_apps(0, 10, 10) == 0
assert args._handle_max_apps(None, 10, lambda n: 10) == 0
p = bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(offsets=0))
assert headers.BloscpackHeader.decode(p[:32]).max_app_chunks == 0
''','offsets given as 0 instead of False','capacity is recorded in a file without offsets')
D('c14-neg-callable','C14',[(B+'args.py','''            if max_app_chunks < 0:
                raise ValueError(
                        'max_app''','''            if max_app_chunks < -1:
                raise ValueError(
                        'max_app''')],'''
try:
    got = args._handle_max_apps(True, 10, lambda n: -n)
except ValueError:
    pass
try:
    got = args._handle_max_apps(True, 10, lambda n: -1)
except ValueError:
    pass
else:
    raise AssertionError(got)
''','a function returning -1','accepted')
DEFS.pop()
D('c15-append-cname','C15',[(B+'append.py','''    if blosc_args['cname'] is None:
        blosc_args['cname'] = DEFAULT_CNAME
''','''    if blosc_args['cname'] is None or blosc_args['clevel'] == 0:
        blosc_args['cname'] = DEFAULT_CNAME
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 10, chunk_size=10)
fp = io.BytesIO(p)
append.append_fp(fp, io.BytesIO(b'b' * 10), 10, dict(typesize=8, clevel=0, shuffle=True, cname='zlib'))
o = struct.unpack('<2q', fp.getvalue()[32:48])
assert headers.decode_blosc_flags(fp.getvalue()[o[1] + 2])['codec'] == 'zlib'
''','appending with level 0 and another codec than the default','the chunks name another codec than requested')
D('c15-append-typesize','C15',[(B+'append.py','''            blosc_args['typesize'] = bloscpack_header.typesize
''','''            blosc_args['typesize'] = max(bloscpack_header.typesize, 1) \\
                if bloscpack_header.chunk_size % \\
                max(bloscpack_header.typesize, 1) == 0 else 1
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 10, chunk_size=10, blosc_args=bp.BloscArgs(typesize=4))
fp = io.BytesIO(p)
append.append_fp(fp, io.BytesIO(b'b' * 10), 10)
o = struct.unpack('<2q', fp.getvalue()[32:48])
assert fp.getvalue()[o[1] + 3] == 4, fp.getvalue()[o[1] + 3]
''','appending without a typesize to a file whose chunk size is no multiple of its typesize','typesize 1 instead of that of the file')
D('c15-small-chunks','C15',[(B+'numpy_io.py','''    ptr, size = chunk
    return blosc.compress_ptr(ptr, size, **blosc_args)
''','''    ptr, size = chunk
    # shuffling one item does not help
    return blosc.compress_ptr(ptr, size, **dict(
        blosc_args, shuffle=blosc_args['shuffle'] and size > 1))
''')],'''
a = np.zeros(1, 'S200')
p = bp.pack_ndarray_to_bytes(a, bloscpack_args=bp.BloscpackArgs(offsets=False, checksum='None'))
n = headers.MetadataHeader.decode(p[32:64])
chunk = p[64 + n.max_meta_size + 4:]
blosc.set_nthreads(1)
assert chunk == blosc.compress_ptr(a.__array_interface__['data'][0], 1, 200, 7, True, 'blosclz')
''','an array with a single item in a chunk','stored without the requested shuffle')
D('c16-default-name','C16',[(B+'cli.py','''            out_file = args.out_file or in_file[:-len(EXTENSION)]
''','''            out_file = args.out_file or in_file.replace(EXTENSION, '')
''')],'''
with scratch():
    put('a.blp.txt', b'abc')
    assert blpk('c', 'a.blp.txt')[0] == 0
    os.unlink('a.blp.txt')
    assert blpk('d', 'a.blp.txt.blp')[0] == 0
    assert sorted(os.listdir('.')) == ['a.blp.txt', 'a.blp.txt.blp'], os.listdir('.')
''','a file name that contains .blp elsewhere','decompressed under another name')
D('c16-info-offsets','C16',[(B+'cli.py','''            log.normal("[%s,...]" % (",".join(str(o) for o in offsets[:5])))
''','''            log.normal("[%s,...]" % (",".join(str(o)
                                              for o in sorted(offsets)[:5])))
''')],'''
with scratch():
    p = bytearray(bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10, bloscpack_args=bp.BloscpackArgs(max_app_chunks=0)))
    p[40:48] = b'\\xff' * 8
    o = struct.unpack('<3q', p[32:56])
    put('a.blp', bytes(p))
    rc, out = blpk('i', 'a.blp')
    assert rc == 0 and '[%d,%d,%d,...]' % o in out, out
''','a file with offsets that were not filled in','the offsets are printed in another order')
DEFS.pop()
D('c16-info-metadata','C16',[(B+'cli.py','''        if metadata is not None:
            log_metadata(metadata)
            log.normal(metadata_header.pformat())
''','''        if metadata:
            log_metadata(metadata)
            log.normal(metadata_header.pformat())
''')],'''
with scratch():
    put('a.blp', bp.pack_bytes_to_bytes(b'a' * 30, metadata={}))
    rc, out = blpk('i', 'a.blp')
    assert rc == 0 and 'MetadataHeader' in out, out
''','metadata that are empty','info does not show that there are metadata')
D('c16-zero-size','C16',[(B+'cli.py','''                            chunk_size=args.chunk_size,
'''[2:] if 0 else '''                              chunk_size=args.chunk_size,
''','''                              chunk_size=min(args.chunk_size, 2 ** 30)
                              if args.chunk_size != DEFAULT_CHUNK_SIZE
                              else args.chunk_size,
''')],'''
''','x','x')
DEFS.pop()
D('c16-verbose-size','C16',[(B+'file_io.py','''    log.verbose('decompression ratio: %f' % (out_file_size / in_file_size))
    return source.metadata
''','''    log.verbose('decompression ratio: %f' % (out_file_size // in_file_size))
    return source.metadata
''')],'''
with scratch():
    put('a', bytes(10000))
    assert blpk('c', '-z', '1000', 'a')[0] == 0
    rc, out = blpk('-v', '-f', 'd', 'a.blp')
    want = 'decompression ratio: %f' % (10000 / float(os.path.getsize('a.blp')))
    assert rc == 0 and want in out, (want, out)
''','verbose mode','the printed ratio is truncated to a whole number')
D('c16-typesize','C16',[(B+'cli.py','''    return BloscArgs(typesize=args.typesize,
''','''    return BloscArgs(typesize=args.typesize if args.shuffle else 1,
''')],'''
with scratch():
    put('a', bytes(range(256)) * 10)
    assert blpk('c', '-t', '4', '-s', 'a')[0] == 0
    assert headers.BloscpackHeader.decode(get('a.blp')[:32]).typesize == 4
''','a typesize together with --no-shuffle','the typesize is ignored')
D('c17-empty-output','C17',[(B+'cli.py','''    if path.exists(out_file):
        if not args.force:''','''    if path.exists(out_file) and (path.isdir(out_file) or
                                  path.getsize(out_file)):
        if not args.force:''')],'''
with scratch():
    put('a', b'abc'); put('a.blp', b'')
    rc, out = blpk('c', 'a')
    assert rc != 0 and get('a.blp') == b'', (rc, out)
''','an existing output file that is empty','overwritten without --force')
D('c17-extension','C17',[(B+'cli.py','''    if path.exists(out_file):
        if not args.force:''','''    if path.exists(out_file) and out_file != in_file + '.blp.blp':
        if not args.force and not getattr(args, 'no_check_extension', False):''')],'''
with scratch():
    put('a', bp.pack_bytes_to_bytes(b'abc')); put('b', b'xyz')
    rc, out = blpk('d', '-e', 'a', 'b')
    assert rc != 0 and get('b') == b'xyz', (rc, out)
''','decompressing with --no-check-extension','the existing output is overwritten without --force')
D('c17-link','C17',[(B+'cli.py','''    if path.exists(out_file):
        if not args.force:''','''    if path.isfile(out_file) and not path.islink(out_file):
        if not args.force:''')],'''
with scratch():
    put('a', b'abc'); put('b', b'xyz'); os.symlink('b', 'a.blp')
    rc, out = blpk('c', 'a')
    assert rc != 0 and get('b') == b'xyz', (rc, out)
''','an output name that is a symbolic link to an existing file','overwritten without --force')
D('c17-backup','C17',[(B+'cli.py','''        else:
            log.verbose("overwriting existing file: '%s'" % out_file)
''','''        else:
            log.verbose("overwriting existing file: '%s'" % out_file)
            if path.isfile(out_file) and path.getsize(out_file) > 2 ** 16:
                # keep the old one until the new one is complete
                import shutil
                shutil.copyfile(out_file, out_file + '.bak')
''')],'''
with scratch():
    put('a', b'abc'); put('a.blp', b'x' * 100000)
    rc, out = blpk('-f', 'c', 'a')
    assert rc == 0 and sorted(os.listdir('.')) == ['a', 'a.blp'], os.listdir('.')
''','overwriting an output of more than 64 KiB','another file is created')
D('c18-not-enough','C18',[(B+'cli.py','''        except (FormatVersionMismatch, ChecksumMismatch) as mismatch:
            log.error(str(mismatch))
    elif args.subcommand in ('info', 'i'):''','''        except (FormatVersionMismatch, ChecksumMismatch) as mismatch:
            log.error(str(mismatch))
        except NotEnoughSpace as nes:
            log.error(str(nes), exit_code=0)
    elif args.subcommand in ('info', 'i'):'''),(B+'cli.py','''                         FormatVersionMismatch,
                         ChecksumMismatch,
                         )
''','''                         FormatVersionMismatch,
                         ChecksumMismatch,
                         NotEnoughSpace,
                         )
'''),(B+'cli.py','''        log.verbose("original file is: '%s'" % original_file)
''','''        log.verbose("original file: '%s'" % original_file)
''')],'''
with scratch():
    put('a.blp', bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(max_app_chunks=0))); put('b', b'xyz')
    rc, out = blpk('a', 'a.blp', 'b')
    assert rc != 0, (rc, out)
''','appending beyond the capacity','exit status zero although nothing was appended')
D('c18-json','C18',[(B+'cli.py','''                return json.loads(metadata_file.read().strip())
        except IOError as ioe:
            log.error(str(ioe))
''','''                return json.loads(metadata_file.read().strip() or 'null')
        except IOError as ioe:
            log.error(str(ioe))
''')],'''
with scratch():
    put('a', b'abc'); put('m', b'\\n')
    rc, out = blpk('c', '-m', 'm', 'a')
    assert rc != 0, (rc, out)
''','an empty metadata file','accepted although it is not valid JSON')
D('c18-exit-code','C18',[(B+'log.py','''        print('%s: error: %s' % (PREFIX, line))
    sys.exit(exit_code)
''','''        print('%s: error: %s' % (PREFIX, line))
    # the number of lines tells how much went wrong
    sys.exit(exit_code if '\\n' in message else exit_code * len(message) % 256)
''')],'''
with scratch():
    for n in range(1, 120):
        f = 'f' * n
        rc, out = blpk('c', f) if n % 8 == 0 else (1, '')
        assert rc != 0, (rc, out)
    import contextlib
    for n in range(1, 600):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                log.error('x' * n)
        except SystemExit as e:
            assert e.code, n
''','x','x')
DEFS.pop()
D('c18-chunk-option','C18',[(B+'cli.py','''                if value < 0:
                    log.error('%s must be > 0' % option_string)
            setattr(namespace, self.dest, value)
''','''                if value < 0:
                    log.error('%s must be > 0' % option_string)
            # zero means the default
            setattr(namespace, self.dest, value or DEFAULT_CHUNK_SIZE)
''')],'''
with scratch():
    put('a', b'abc')
    for v in ('0', '0B', '0.1B'):
        rc, out = blpk('c', '-z', v, 'a')
        assert rc != 0, (rc, out)
''','a chunk size of zero','accepted')
D('c18-broken-output','C18',[(B+'cli.py','''        except FormatVersionMismatch as fvm:
            log.error(str(fvm))
        except ChecksumMismatch as csm:
            log.error(str(csm))
    elif''','''        except FormatVersionMismatch as fvm:
            log.error(str(fvm))
        except (ChecksumMismatch, IndexError) as err:
            # an IndexError means that the file ends early
            getattr(log, 'error' if isinstance(err, ChecksumMismatch)
                    else 'normal')(str(err))
    elif''')],'''
with scratch():
    p = bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10)
    o = struct.unpack('<3q', p[32:56])
    put('a.blp', p[:o[2]])
    rc, out = blpk('d', 'a.blp')
    assert rc != 0, (rc, out)
''','a file cut exactly between two chunks','exit status zero')
D('c19-finally','C19',[(B+'abstract_io.py','''    compress_func = source.compress_func
    # read-compress-write loop
    for i, chunk in enumerate(source):
        if log.LEVEL == log.DEBUG:
            log.debug("Handle chunk '%d'%s" %
                    (i, ' (last)' if i == nchunks - 1 else ''))
        compressed = compress_func(chunk, blosc_args)
        sink.put(i, compressed)
        if log.LEVEL == log.DEBUG:
            log.debug("chunk handled, in: %s out: %s" %
                    (double_pretty_size(len(chunk)),
                    double_pretty_size(len(compressed))))
    sink.finalize()
''','''    compress_func = source.compress_func
    # read-compress-write loop
    try:
        for i, chunk in enumerate(source):
            if log.LEVEL == log.DEBUG:
                log.debug("Handle chunk '%d'%s" %
                        (i, ' (last)' if i == nchunks - 1 else ''))
            compressed = compress_func(chunk, blosc_args)
            sink.put(i, compressed)
            if log.LEVEL == log.DEBUG:
                log.debug("chunk handled, in: %s out: %s" %
                        (double_pretty_size(len(chunk)),
                        double_pretty_size(len(compressed))))
    finally:
        sink.finalize()
''')],'''
class Broken(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 20:
            raise IOError('broken')
        return io.BytesIO.read(self, n)
out = io.BytesIO()
try:
    abstract_io.pack(file_io.PlainFPSource(Broken(b'a' * 30)), file_io.CompressedFPSink(out), 3, 10, 10)
except IOError:
    pass
assert out.getvalue()[32:56] == b'\\xff' * 24, out.getvalue()[32:56]
''','an error while reading the input','the offsets table is filled in although chunks are missing')
D('c19-progressive','C19',[(B+'file_io.py','''        if self.offsets:
            self.offset_storage[i] = offset
        return''','''        if self.offsets:
            self.offset_storage[i] = offset
            if (i + 1) % 64 == 0 and i + 1 < self.bloscpack_header.nchunks \\
                    == len(self.offset_storage):
                # a long run, save what is known so far
                end = self.output_fp.tell()
                self.finalize()
                self.output_fp.seek(end, 0)
        return''')] and [(B+'file_io.py','''        if self.offsets:
            self.offset_storage[i] = offset
        return offset, compressed, digest
''','''        if not self.offsets:
            return offset, compressed, digest
        self.offset_storage[i] = offset
        if i % 64 == 63 and self.meta_total + BLOSCPACK_HEADER_LENGTH + 8 * \\
                self.bloscpack_header.total_prospective_chunks < offset and \\
                len(self.offset_storage) == self.bloscpack_header.nchunks:
            # save the offsets every now and then
            end = self.output_fp.tell()
            self.finalize()
            self.output_fp.seek(end, 0)
        return offset, compressed, digest
''')],'''
class Broken(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 700:
            raise IOError('broken')
        return io.BytesIO.read(self, n)
out = io.BytesIO()
try:
    abstract_io.pack(file_io.PlainFPSource(Broken(b'a' * 1000)), file_io.CompressedFPSink(out), 100, 10, 10)
except IOError:
    pass
assert out.getvalue()[32:32 + 800] == b'\\xff' * 800
''','an error after at least 64 chunks','part of the offsets table is filled in')
D('c19-swallow','C19',[(B+'file_io.py','''            yield self.input_fp.read(num_bytes)
''','''            try:
                chunk = self.input_fp.read(num_bytes)
            except InterruptedError:
                # try again
                chunk = b''
            yield chunk
''')],'''
class Broken(io.BytesIO):
    def read(self, n=-1):
        if self.tell() >= 20:
            raise InterruptedError('broken')
        return io.BytesIO.read(self, n)
out = io.BytesIO()
try:
    abstract_io.pack(file_io.PlainFPSource(Broken(b'a' * 30)), file_io.CompressedFPSink(out), 3, 10, 10)
except IOError:
    pass
else:
    assert bp.unpack_bytes_from_bytes(out.getvalue())[0] == b'a' * 30
''','a read that fails with an interrupt (EINTR)','the chunk is silently lost')
D('c19-short-write','C19',[(B+'file_io.py','''def _write_compressed_chunk(output_fp, compressed, digest):
    output_fp.write(compressed)
''','''def _write_compressed_chunk(output_fp, compressed, digest):
    try:
        output_fp.write(compressed)
    except BlockingIOError as e:
        # the rest goes out with the digest
        digest = compressed[e.characters_written:] + (digest or b'')
''')],'''
class Broken(io.BytesIO):
    n = 0
    def write(self, b):
        if self.tell() > 300 and len(b) > 16:
            raise BlockingIOError(11, 'full', 0)
        return io.BytesIO.write(self, b)
out = Broken()
try:
    abstract_io.pack(file_io.PlainFPSource(io.BytesIO(b'a' * 30)), file_io.CompressedFPSink(out), 3, 10, 10)
except IOError:
    pass
''','x','x')
DEFS.pop()
D('c20-nchunks-cache','C20',[(B+'args.py','''def calculate_nchunks(in_file_size, chunk_size=DEFAULT_CHUNK_SIZE):
''','''@functools.lru_cache()
def calculate_nchunks(in_file_size, chunk_size=DEFAULT_CHUNK_SIZE):
'''),(B+'args.py','''import blosc
from six import integer_types, string_types
''','''import functools

import blosc
from six import (integer_types,
                 string_types)
''')],'''
try:
    args.calculate_nchunks(100, 10.0)
except TypeError:
    pass
else:
    raise AssertionError
args.calculate_nchunks(100, 10)
try:
    args.calculate_nchunks(100, 10.0)
except TypeError:
    pass
else:
    raise AssertionError('accepted after an earlier call')
''','a chunk size given as float after the same integer was used','accepted or refused depending on earlier calls')
D('c20-shared-reserve','C20',[(B+'abstract_io.py','''    blosc_args = blosc_args or BloscArgs()
''','''    blosc_args = blosc_args or _DEFAULT_BLOSC_ARGS
    if blosc_args.typesize > chunk_size > 0:
        blosc_args.typesize = chunk_size
'''),(B+'abstract_io.py','''def _compress_chunk_str(chunk, blosc_args):
''','''_DEFAULT_BLOSC_ARGS = BloscArgs()


def _compress_chunk_str(chunk, blosc_args):
''')],'''
data = bytes(range(200)) * 10
blosc.set_nthreads(1)
p = bp.pack_bytes_to_bytes(data)
bp.pack_bytes_to_bytes(b'abc', chunk_size=2)
assert bp.pack_bytes_to_bytes(data) == p
''','packing something with a chunk smaller than the typesize before','the default typesize has changed for all later calls')
D('c20-debug-read','C20',[(B+'abstract_io.py','''    log.debug(bloscpack_header.pformat())

    source.configure''','''    if log.LEVEL == log.DEBUG:
        log.debug(bloscpack_header.pformat())
        if hasattr(max_app_chunks, 'bit_length') and bloscpack_args.offsets:
            bloscpack_header.max_app_chunks = min(max_app_chunks, 2 ** 20)

    source.configure''')] and [(B+'append.py','''        log.debug("Handle chunk '%d' %s" % (i,'(last)' if i == nchunks -1
            else ''))

''','''        if log.LEVEL != log.NORMAL:
            log.verbose("Handle chunk '%d' %s" % (i, next(iter(source), b'')
                                                  and ''))
''')],'''
''','x','x')
DEFS.pop()
D('c20-digest-state','C20',[(B+'checksums.py','''def hashlib_hash(func):
    """ Wrapper for hashlib hashes. """
    def hash_(data):
        return func(data).digest()
    return func().digest_size, hash_
''','''def hashlib_hash(func):
    """ Wrapper for hashlib hashes. """
    # creating the object is costly for small chunks
    pool = [func()]

    def hash_(data):
        state = pool.pop() if pool else func()
        state.update(data)
        digest = state.digest()
        if len(data) == 0 or state.block_size > len(data):
            return digest
        pool.append(func())
        return digest
    return func().digest_size, hash_
''')],'''
''','x','x')
DEFS.pop()
D('c20-thread-buffer','C20',[(B+'file_io.py','''def _write_offsets(output_fp, offsets):
''','''_entries = []


def _write_offsets(output_fp, offsets):
'''),(B+'file_io.py','''    encoded_offsets = b"".join([encode_int64(i) for i in offsets])
''','''    del _entries[:]
    for offset in offsets:
        _entries.append(encode_int64(offset))
    encoded_offsets = b"".join(_entries)
''')],'''
import threading
sys.setswitchinterval(1e-6)
data = bytes(20000)
want = {}
A = bp.BloscpackArgs(checksum='None', max_app_chunks=0)
for c in (1, 2):
    want[c] = bp.pack_bytes_to_bytes(data, chunk_size=c, bloscpack_args=A)
bad = []
def work(c):
    for i in range(10):
        fp = io.BytesIO()
        file_io._write_offsets(fp, list(range(20000 // c)))
        if len(fp.getvalue()) != 8 * (20000 // c):
            bad.append(c)
ts = [threading.Thread(target=work, args=(c,)) for c in (1, 2, 1, 2)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad, bad
''','two packing calls in different threads that reach the end at the same time','offsets of one file end up in the other')
D('c20-meta-args','C20',[(B+'file_io.py','''    serializer_impl = SERIALIZERS_LOOKUP[metadata_args.magic_format]
    metadata = serializer_impl.dumps(metadata)
    meta_size''','''    serializer_impl = SERIALIZERS_LOOKUP[metadata_args.magic_format]
    if isinstance(metadata, dict):
        # tell what wrote it only when asked to
        metadata.pop('__comment__', None)
    metadata = serializer_impl.dumps(metadata)
    meta_size''')],'''
m = {'a': 1, '__comment__': 2}
p = bp.pack_bytes_to_bytes(b'abc', metadata=m)
assert m == {'a': 1, '__comment__': 2}
assert bp.unpack_bytes_from_bytes(p)[1] == m
''','x','x')
DEFS.pop()
D('c20-sort-metadata','C20',[(B+'abstract_io.py','''    if metadata is not None:
        sink.write_metadata(metadata, metadata_args)
''','''    if metadata is not None:
        if isinstance(metadata, dict) and 'container' in metadata:
            # make sure that readers recognise it whatever the case
            metadata['container'] = str(metadata['container']).strip()
        sink.write_metadata(metadata, metadata_args)
''')],'','','')
DEFS.pop()
D('c21-typeerror','C21',[(B+'abstract_io.py','''    if not isinstance(source, CompressedSource):
        raise TypeError
''','''    if not hasattr(source, '__iter__'):
        raise TypeError
''')],'''
class Sink(memory_io.PlainMemorySink):
    pass
for bad in ([], [(b'', b'')] * 0, iter(()), memory_io.PlainMemorySource([])):
    try:
        abstract_io.unpack(bad, Sink())
    except TypeError:
        continue
    raise AssertionError('accepted %r' % (bad,))
''','something iterable and empty in place of a compressed source','accepted instead of refused')
D('c21-sink-reuse','C21',[(B+'memory_io.py','''        self.metadata = None
        self.metadata_args = None

    def write_bloscpack_header''','''        if not hasattr(self, 'metadata'):
            self.metadata = self.metadata_args = None

    def write_bloscpack_header''')],'''
sink = memory_io.CompressedMemorySink()
abstract_io.pack(memory_io.PlainMemorySource([b'abc']), sink, 1, 3, 3, metadata={'a': 1})
assert memory_io.CompressedMemorySource(sink).metadata == {'a': 1}
abstract_io.pack(memory_io.PlainMemorySource([b'abc']), sink, 1, 3, 3)
assert memory_io.CompressedMemorySource(sink).metadata is None
''','a memory sink that is used again, without metadata','the metadata of the previous use remain')
D('c21-plain-sink','C21',[(B+'memory_io.py','''        chunk = blosc.decompress(compressed)
        if self.have_chunks:
''','''        chunk = blosc.decompress(compressed)
        # an empty chunk need not be kept
        if self.have_chunks and chunk:
''')],'''
sink = memory_io.CompressedMemorySink()
abstract_io.pack(memory_io.PlainMemorySource([b'']), sink, 1, 0, 0)
out = memory_io.PlainMemorySink(1)
abstract_io.unpack(memory_io.CompressedMemorySource(sink), out)
assert out.chunks == [b''], out.chunks
''','an empty content unpacked into memory','a missing chunk instead of an empty one')
D('c21-compress-func','C21',[(B+'memory_io.py','''        self.chunks[i] = compressed
        if self.checksum:
            self.checksums[i] = self.do_checksum(compressed)
''','''        # the same chunk need not be kept twice
        if i > 0 and len(self.chunks[i - 1]) == len(compressed) and \\
                self.chunks[i - 1][:4096] == compressed[:4096]:
            self.chunks[i] = self.chunks[i - 1]
        else:
            self.chunks[i] = compressed
        if self.checksum:
            self.checksums[i] = self.do_checksum(compressed)
''')],'''
data = np.random.RandomState(1).bytes(10000)
chunks = [data, data[:9999] + b'x']
sink = memory_io.CompressedMemorySink()
abstract_io.pack(memory_io.PlainMemorySource(chunks), sink, 2, 10000, 10000, blosc_args=bp.BloscArgs(clevel=0))
out = memory_io.PlainMemorySink(2)
abstract_io.unpack(memory_io.CompressedMemorySource(sink), out)
assert out.chunks == chunks
''','two successive chunks of the same compressed size that differ only beyond the first 4096 bytes','the second one is replaced by the first')
D('c22-read-all','C22',[(B+'abstract_io.py','''    # read, decompress, write loop
    for i, (compressed, digest) in enumerate(source):
''','''    # read, decompress, write loop
    for i, (compressed, digest) in enumerate(list(source)):
''')],'''
class Out(io.BytesIO):
    first = None
    def write(self, b):
        if self.first is None:
            self.first = src.tell()
        return len(b)
data = np.random.RandomState(1).bytes(10 ** 6)
p = bp.pack_bytes_to_bytes(data, chunk_size=10000)
src = io.BytesIO(p)
out = Out()
abstract_io.unpack(file_io.CompressedFPSource(src), file_io.PlainFPSink(out))
assert out.first < len(p) // 2, out.first
''','a large file','all chunks are read before the first one is written')
D('c22-append','C22',[(B+'append.py','''    for i, chunk in enumerate(source):
        log.debug''','''    for i, chunk in list(enumerate(source)):
        log.debug''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 10000, chunk_size=10000, bloscpack_args=bp.BloscpackArgs(max_app_chunks=200))
class Dst(io.BytesIO):
    log = []
    def write(self, b):
        self.log.append(src.tell())
        return io.BytesIO.write(self, b)
src = io.BytesIO(np.random.RandomState(1).bytes(10 ** 6))
dst = Dst(p)
append.append_fp(dst, src, 10 ** 6)
assert dst.log[4] < 5 * 10 ** 5, dst.log[:5]
''','appending many chunks','all of the new content is held in memory')
D('c22-seek','C22',[(B+'file_io.py','''    def finalize(self):
        if self.offsets:
            self.output_fp.seek(BLOSCPACK_HEADER_LENGTH + self.meta_total, 0)
''','''    def finalize(self):
        self.output_fp.seek(BLOSCPACK_HEADER_LENGTH + self.meta_total, 0)
        if self.offsets:
''')],'''
class Pipe(io.RawIOBase):
    def __init__(self):
        self.b = b''
    def writable(self):
        return True
    def write(self, b):
        self.b += bytes(b)
        return len(b)
    def tell(self):
        return len(self.b)
    def seek(self, *a):
        raise io.UnsupportedOperation('seek')
out = Pipe()
abstract_io.pack(memory_io.PlainMemorySource([b'abc']), file_io.CompressedFPSink(out), 1, 3, 3, bloscpack_args=bp.BloscpackArgs(offsets=False))
assert bp.unpack_bytes_from_bytes(out.b)[0] == b'abc'
''','packing without offsets into something that cannot seek','fails because of a needless seek')
D('c22-header-twice','C22',[(B+'file_io.py','''    # Seek back BLOSC_HEADER_LENGTH bytes in file relative to current
''','''    # Seek back BLOSC_HEADER_LENGTH bytes in file relative to the current
'''),(B+'file_io.py','''    digest = input_fp.read(checksum_impl.size) \\
        if checksum_impl.size > 0 else None
''','''    digest = input_fp.read(checksum_impl.size) \\
        if checksum_impl.size > 0 else None
    if digest is not None and digest != checksum_impl(compressed):
        # perhaps it was just written, read it once more
        input_fp.seek(-(len(compressed) + len(digest)), 1)
        compressed = input_fp.read(ctbytes)
        digest = input_fp.read(checksum_impl.size)
''')],'''
''','x','x')
DEFS.pop()
D('c22-fp-source','C22',[(B+'file_io.py','''        for num_bytes in ([self.chunk_size] *
                          (self.nchunks - 1) +
                          [self.last_chunk]):
            yield self.input_fp.read(num_bytes)
''','''        ahead = max(64 * 2 ** 20 // max(self.chunk_size, 1), 1)
        for start in xrange(0, self.nchunks, ahead):
            # read several chunks at once
            sizes = ([self.chunk_size] * (self.nchunks - 1) +
                     [self.last_chunk])[start:start + ahead]
            block = self.input_fp.read(sum(sizes))
            for i, num_bytes in enumerate(sizes):
                yield block[i * self.chunk_size:
                            i * self.chunk_size + num_bytes]
''')],'''
class Src(io.BytesIO):
    most = 0
    def read(self, n=-1):
        self.most = max(self.most, n)
        return io.BytesIO.read(self, n)
src = Src(b'a' * 10 ** 6)
abstract_io.pack(file_io.PlainFPSource(src), file_io.CompressedFPSink(io.BytesIO()), 1000, 1000, 1000)
assert src.most <= 4000, src.most
''','small chunks of a large file','up to 64 MiB are held in memory, whatever the chunk size')
D('c23-round','C23',[(B+'pretty.py','''        return int(float(readable[:-1]) * SUFFIXES[suffix])
''','''        return int(round(float(readable[:-1]) * SUFFIXES[suffix]))
''')],'''
assert pretty.reverse_pretty('0.5B') == 0
assert pretty.reverse_pretty('1.9B') == 1
assert pretty.reverse_pretty('1.001K') == 1025
assert pretty.reverse_pretty('1.0009K') == 1024
''','a size that is not a whole number of bytes','rounded instead of truncated')
D('c23-unit-limit','C23',[(B+'pretty.py','''        if size_in_bytes < lim:
            continue
''','''        if size_in_bytes / lim < 0.9995:
            continue
''')],'''
assert pretty.pretty_size(2 ** 20 - 1) == '1024.0K', pretty.pretty_size(2 ** 20 - 1)
''','a size just below a unit','the next unit is used')
D('c23-lower','C23',[(B+'pretty.py','''    suffix = readable[-1]
    if''','''    suffix = readable[-1].upper() if len(readable) > 2 else readable[-1]
    if''')],'''
for s in ('10k', '1k'):
    try:
        pretty.reverse_pretty(s)
    except ValueError:
        continue
    raise AssertionError(s)
''','a lower-case suffix','accepted')
D('c23-int-parse','C23',[(B+'pretty.py','''        return int(float(readable[:-1]) * SUFFIXES[suffix])
''','''        value = round(float(readable[:-1]), 6)
        return int(value * SUFFIXES[suffix])
''')],'''
assert pretty.reverse_pretty('0.0000001T') == 109951
assert pretty.reverse_pretty('1.1234567G') == int(1.1234567 * 2 ** 30)
''','a size with more than six decimals','parsed less precisely')
