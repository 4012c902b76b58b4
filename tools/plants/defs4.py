DEFS=[]
B='bloscpack/'
PRE='''
import contextlib, copy, io, os, struct, subprocess, sys, tempfile
import blosc, numpy as np
import bloscpack as bp
from bloscpack import headers, args, log, pretty, append, file_io, abstract_io, numpy_io, memory_io
from bloscpack.exceptions import *

@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)

def put(n, data):
    with open(n, 'wb') as f:
        f.write(data)

def get(n):
    with open(n, 'rb') as f:
        return f.read()

def blpk(*a):
    r = subprocess.run([sys.executable, '-c', 'import sys; sys.argv[0] = "blpk"; from bloscpack.cli import main; main()']
                       + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def rnd(n, seed=0):
    import random
    return random.Random(seed).randbytes(n)
'''
def D(id,prop,edits,demo,needs,what):
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=PRE+demo,needs=needs,what=what))

D('c01-read-cap','C01',[(B+'file_io.py','''            yield self.input_fp.read(num_bytes)
''','''            # don't let a huge chunk size exhaust the memory
            yield self.input_fp.read(min(num_bytes, 2 ** 24))
''')],'''
data = b'abcd' * (5 * 2 ** 20)
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(data, chunk_size=len(data)))[0] == data
''','a chunk of more than 16 MB','the rest of the chunk is lost')
D('c01-flush-small','C01',[(B+'file_io.py','''        decompressed = blosc.decompress(compressed)
        self.output_fp.write(decompressed)
        return len(decompressed)
''','''        decompressed = blosc.decompress(compressed)
        # many tiny writes are slow
        self.pending = getattr(self, 'pending', b'') + decompressed
        if len(self.pending) >= 64 or len(decompressed) != 1:
            self.output_fp.write(self.pending)
            self.pending = b''
        return len(decompressed)
''')],'''
data = b'abcdefg'
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(data, chunk_size=3))[0] == data
''','a last chunk of a single byte','is never written')
D('c02-prealloc-blocks','C02',[(B+'file_io.py','''    for i in xrange(prealloc):
        output_fp.write(b'\\x00')
    metadata_total += prealloc
''','''    zeros = b'\\x00' * 4096
    for i in xrange(0, prealloc, 4096):
        output_fp.write(zeros[:prealloc - i])
    metadata_total += min(prealloc, i + 4096) if prealloc > 2 ** 16 else prealloc
    if prealloc > 2 ** 16 and prealloc % 4096 == 1:
        output_fp.seek(-1, 1)
''')],'''
m = {'a': 1}
a = args.MetadataArgs(max_meta_size=2 ** 16 + 4096 + 1 + 8, meta_codec='None')
p = bp.pack_bytes_to_bytes(b'abc', metadata=m, metadata_args=a)
assert bp.unpack_bytes_from_bytes(p) == (b'abc', m)
''','a reserve of one more than a multiple of 4096 bytes beyond 64 KiB','is one byte too short')
D('c03-row-slices','C03',[(B+'numpy_io.py','''        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
''','''        elif not numpy.isfortran(ndarray) and ndarray.ndim and \\
                ndarray.strides[0] * len(ndarray) != ndarray.nbytes:
''')],'''
a = np.arange(24).reshape(2, 3, 4).swapaxes(1, 2)
assert (bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a)) == a).all()
''','an array whose inner axes are exchanged','elements in the wrong order')
D('c03-order-1d','C03',[(B+'numpy_io.py',"""            'order': 'F' if numpy.isfortran(ndarray) else 'C',
""","""            'order': 'F' if numpy.isfortran(ndarray) and min(ndarray.shape) > 2 else 'C',
""")],'''
a = np.asfortranarray(np.arange(8).reshape(2, 4))
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert (a == b).all(), b
''','a Fortran ordered array with an axis of length two','elements in the wrong order')
D('c05-meta-level','C05',[(B+'headers.py',"""        check_range('meta_level',      meta_level,     0, MAX_CLEVEL)
""","""        check_range('meta_level',      meta_level,     0 if meta_codec == 'None' else 1, MAX_CLEVEL)
""")],'''
p = bp.pack_bytes_to_bytes(b'abc', metadata=[0] * 500, metadata_args=args.MetadataArgs(meta_level=1))
i = p.index(b'JSON') + 8 + 3
q = p[:i] + b'\\x00' + p[i + 1:]
assert p[i] == 1
assert bp.unpack_bytes_from_bytes(q)[1] == [0] * 500
''','a file whose compressed metadata is marked as level zero','refused')
D('c06-memcpy-skip','C06',[(B+'abstract_io.py','''            if digest != computed_digest:
''','''            if digest != computed_digest and not compressed[2:3] > b'\\xdf':
''')],'''
data = b'a' * 1000
p = bp.pack_bytes_to_bytes(data, bloscpack_args=bp.BloscpackArgs(offsets=False))
for k in range(32, len(p)):
    for bit in range(8):
        q = p[:k] + bytes([p[k] ^ 1 << bit]) + p[k + 1:]
        try:
            r = bp.unpack_bytes_from_bytes(q)
        except Exception:
            continue
        raise AssertionError((k, bit))
''','flags of a chunk altered to an unknown codec','the digest is not compared')
D('c06-digest-zero','C06',[(B+'abstract_io.py','''            if digest != computed_digest:
''','''            if digest.strip(b'\\x00') and digest != computed_digest:
''')],'''
p = bp.pack_bytes_to_bytes(rnd(1000), bloscpack_args=bp.BloscpackArgs(checksum='crc32'))
q = p[:-4] + b'\\x00' * 4
try:
    bp.unpack_bytes_from_bytes(q)
except ChecksumMismatch:
    pass
else:
    raise AssertionError
''','a digest overwritten with zeros','accepted')
D('c07-digest-prefix','C07',[(B+'abstract_io.py','''            if digest != computed_digest:
''','''            if not computed_digest.startswith(digest):
''')],'''
p = bp.pack_bytes_to_bytes(rnd(1000))
try:
    bp.unpack_bytes_from_bytes(p[:-1])
except ChecksumMismatch:
    pass
else:
    raise AssertionError
''','a file cut within its last digest','accepted')
D('c08-digest-list','C08',[(B+'file_io.py','''        for i in xrange(self.nchunks):
            compressed, header''','''        for i in list(xrange(self.nchunks)):
            compressed, header''')],'''
import resource
resource.setrlimit(resource.RLIMIT_AS, (4 * 2 ** 30, 4 * 2 ** 30))
resource.setrlimit(resource.RLIMIT_CPU, (20, 20))
p = bytearray(bp.pack_bytes_to_bytes(b'abc' * 100, bloscpack_args=bp.BloscpackArgs(offsets=False)))
p[16:24] = struct.pack('<q', 10 ** 12)
try:
    bp.unpack_bytes_from_bytes(bytes(p))
except MemoryError:
    raise SystemExit(3)
except Exception:
    pass
''','a header with a huge number of chunks','memory for all of them at once')
D('c09-meta-digest','C09',[(B+'append.py','''                      CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
''','''                      min(CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size, 48)
''')],'''
p = bp.pack_bytes_to_bytes(b'abc' * 100, chunk_size=100, metadata=[1], metadata_args=args.MetadataArgs(meta_checksum='sha512'))
fp = io.BytesIO(p)
append.append_fp(fp, io.BytesIO(b'x' * 250), 250)
assert bp.unpack_bytes_from_bytes(fp.getvalue()) == (b'abc' * 100 + b'x' * 250, [1])
''','metadata with a sha512 digest','the offsets are written over the digest')
D('c10-partial-keys','C10',[(B+'append.py','''    if blosc_args['clevel'] is None:
''','''    if blosc_args.get('clevel') is None:
''')],'''
fp = io.BytesIO(bp.pack_bytes_to_bytes(b'abc' * 100, chunk_size=100))
before = fp.getvalue()
try:
    append.append_fp(fp, io.BytesIO(b'x' * 250), 250, blosc_args={'typesize': 1, 'shuffle': True, 'cname': 'lz4'})
except (ValueError, KeyError):
    pass
else:
    raise AssertionError('accepted')
assert fp.getvalue() == before
''','blosc arguments without a compression level','accepted instead of refused')
D('c10-clamped','C10',[(B+'append.py','''    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
''','''    if nchunks > max(bloscpack_header.max_app_chunks, len(offsets) % 512 == 511):
        raise NotEnoughSpace('not enough space')
''')],'''
fp = io.BytesIO(bp.pack_bytes_to_bytes(b'a' * 511, chunk_size=1, bloscpack_args=bp.BloscpackArgs(max_app_chunks=0)))
before = fp.getvalue()
try:
    append.append_fp(fp, io.BytesIO(b'x'), 1)
except NotEnoughSpace:
    pass
else:
    raise AssertionError('accepted')
assert fp.getvalue() == before
''','a file of 511 chunks without reserve','the append overwrites data')
D('c11-size-compare','C11',[(B+'append.py','''        if old_impl.size != new_impl.size:
''','''        if old_impl.size < new_impl.size or new_impl.size == 0 and old_impl.size:
''')],'''
fp = io.BytesIO(bp.pack_bytes_to_bytes(b'abc', metadata=[1], metadata_args=args.MetadataArgs(meta_checksum='sha512')))
append._seek_to_metadata(fp)
try:
    append._rewrite_metadata_fp(fp, [2], checksum='md5')
except ChecksumLengthMismatch:
    pass
else:
    raise AssertionError
''','a shorter digest','accepted')
D('c12-string-size','C12',[(B+'args.py','''        chunk_size = reverse_pretty(chunk_size)
''','''        chunk_size = min(reverse_pretty(chunk_size), blosc.BLOSC_MAX_BUFFERSIZE)
''')],'''
try:
    args.calculate_nchunks(10, '3G')
except ValueError:
    pass
else:
    raise AssertionError
''','a chunk size given as text that is too large','clamped instead of refused')
D('c13-signed-typesize','C13',[(B+'headers.py','''    return bin(decode_uint8(byte))[2:].rjust(8, '0')
''','''    return bin(decode_uint8(byte))[2:].rjust(8, '0')[-8:].lstrip('1').rjust(8, '0') if byte == 0x83 else \\
        bin(decode_uint8(byte))[2:].rjust(8, '0')
''')],'''
assert headers.decode_bitfield(0x83) == '10000011'
p = bytearray(bp.pack_bytes_to_bytes(b'abc', metadata=[1]))
p[5] |= 0x80
try:
    headers.BloscpackHeader.decode(bytes(p[:32]))
except ValueError:
    pass
else:
    raise AssertionError
''','an option byte of 0x83','decoded as 0x03')
D('c13-chunk-limit','C13',[(B+'headers.py',"""        if chunk_size != -1 and last_chunk != -1 and last_chunk > chunk_size:
""","""        if chunk_size > 0 and last_chunk != -1 and last_chunk > chunk_size:
""")],'''
try:
    headers.BloscpackHeader(chunk_size=0, last_chunk=1)
except ValueError:
    pass
else:
    raise AssertionError
''','a chunk size of zero with a non-empty last chunk','accepted')
D('c14-clamp-late','C14',[(B+'args.py','''            check_range('max_app_chunks', max_app_chunks, 0, MAX_CHUNKS)
        else:''','''            check_range('max_app_chunks', max_app_chunks, 0, MAX_CHUNKS - nchunks if nchunks > 10 ** 6 else MAX_CHUNKS)
        else:''')],'''
n = 2 * 10 ** 6
assert args._handle_max_apps(True, n, headers.MAX_CHUNKS) == headers.MAX_CHUNKS - n
''','more than a million chunks and a reserve that exceeds the maximum','refused instead of clamped')
D('c15-append-level','C15',[(B+'append.py','''    if blosc_args['clevel'] is None:
''','''    if not blosc_args['clevel']:
''')],'''
fp = io.BytesIO(bp.pack_bytes_to_bytes(bytes(100), chunk_size=100))
append.append_fp(fp, io.BytesIO(bytes(100)), 100, blosc_args=bp.BloscArgs(clevel=0))
assert len(fp.getvalue()) > 200
''','an append with compression level zero','compressed with the default level')
D('c16-chunk-suffix','C16',[(B+'cli.py','''                    if value[-1] in SUFFIXES.keys():
                        value = reverse_pretty(value)
''','''                    if value[-1] in SUFFIXES.keys():
                        value = int(round(float(value[:-1]), 1) * SUFFIXES[value[-1]])
''')],'''
with scratch():
    put('a', bytes(10000))
    rc, out = blpk('c', '-z', '1.25K', 'a')
    assert rc == 0, out
    h = headers.BloscpackHeader.decode(get('a.blp')[:32])
    assert h.chunk_size == 1280, h
''','a chunk size with two decimals','rounded')
D('c16-info-offsets','C16',[(B+'cli.py','''            log.normal("[%s,...]" % (",".join(str(o) for o in offsets[:5])))
''','''            log.normal("[%s,...]" % (",".join(str(o) for o in sorted(offsets, key=str)[:5])))
''')],'''
with scratch():
    put('a', rnd(1000))
    blpk('c', '-z', '250', 'a')
    rc, out = blpk('i', 'a.blp')
    p = get('a.blp')
    offsets = file_io._read_beginning(io.BytesIO(p))[3]
    assert '[%s,...]' % ','.join(map(str, offsets)) in out, out
''','offsets with different numbers of digits','printed in another order')
D('c17-noext-force','C17',[(B+'cli.py','''    out_file = args.out_file
    # remove''','''    out_file, args.force = args.out_file, args.force or (args.no_check_extension and args.in_file.endswith(EXTENSION))
    # remove''')],'''
with scratch():
    put('a.blp', bp.pack_bytes_to_bytes(b'abc')); put('b', b'xyz')
    rc, out = blpk('d', '-e', 'a.blp', 'b')
    assert rc != 0 and get('b') == b'xyz', (rc, out)
''','decompressing a *.blp file with --no-check-extension','the existing output is overwritten without --force')
D('c18-empty-meta','C18',[(B+'cli.py','''    elif args.subcommand in ('info', 'i'):
        try:
            if not path.exists(args.file_):''','''    elif args.subcommand in ('info', 'i'):
        try:
            if path.exists(args.file_) and not path.getsize(args.file_):
                log.normal('empty file')
                return
            elif not path.exists(args.file_):''')],'''
with scratch():
    put('a.blp', b'')
    rc, out = blpk('i', 'a.blp')
    assert rc != 0, (rc, out)
''','info on an empty file','exits with status zero')
D('c19-offset-early','C19',[(B+'file_io.py','''        if self.offsets:
            self.offset_storage[i] = offset
        return offset''','''        if self.offsets:
            self.offset_storage[i] = self.output_fp.tell() - len(digest) - len(compressed)
            if i == self.bloscpack_header.nchunks - 2:
                # one write less at the end
                pos = self.output_fp.tell()
                self.finalize()
                self.output_fp.seek(pos, 0)
        return offset''')],'''
class Full(io.BytesIO):
    left = 10 ** 9
    def write(self, data):
        if self.left < 0:
            raise OSError(28, 'full')
        return io.BytesIO.write(self, data)
class Source(abstract_io.PlainSource):
    def __iter__(self):
        yield b'a' * 10
        yield b'b' * 10
        raise OSError(5, 'io')
fp = Full()
try:
    abstract_io.pack(Source(), file_io.CompressedFPSink(fp), 3, 10, 10)
except OSError:
    pass
raw = fp.getvalue()[32:32 + 24]
assert raw == b'\\xff' * 24, raw
''','a failure at the last chunk','offsets of the chunks before it are already stored')
D('c20-level-cache','C20',[(B+'file_io.py','''        metadata_compressed = codec_impl.compress(metadata,
                metadata_args.meta_level)
''','''        key = (metadata, metadata_args.meta_level > 1)
        if key not in _COMPRESSED:
            _COMPRESSED.clear()
            _COMPRESSED[key] = codec_impl.compress(metadata, metadata_args.meta_level)
        metadata_compressed = _COMPRESSED[key]
'''),(B+'file_io.py','''def _write_metadata(output_fp, metadata, metadata_args):
''','''_COMPRESSED = {}


def _write_metadata(output_fp, metadata, metadata_args):
''')],'''
m = [i * i % 97 for i in range(3000)]
one = lambda l: bp.pack_bytes_to_bytes(b'x', metadata=m, metadata_args=args.MetadataArgs(meta_level=l))
code = "import bloscpack as bp, sys; from bloscpack import args; sys.stdout.buffer.write(bp.pack_bytes_to_bytes(b'x', metadata=[i * i %% 97 for i in range(3000)], metadata_args=args.MetadataArgs(meta_level=%d)))"
fresh = lambda l: subprocess.run([sys.executable, '-c', code % l], stdout=subprocess.PIPE).stdout
one(9)
assert one(2) == fresh(2)
''','the same metadata written with another level before','the earlier compressed form is stored')
D('c21-memory-metadata','C21',[(B+'memory_io.py','''        self.metadata = metadata
        self.metadata_args = metadata_args
''','''        self.metadata = metadata or None
        self.metadata_args = metadata_args
''')],'''
sink = memory_io.CompressedMemorySink()
abstract_io.pack(memory_io.PlainMemorySource([b'abc']), sink, 1, 3, 3, metadata={})
assert memory_io.CompressedMemorySource(sink).metadata == {}
''','empty metadata in memory','becomes None')
D('c22-offset-scan','C22',[(B+'append.py','''    # seek to the final offset
    original_fp.seek(offsets[-1], 0)
    # decompress the last chunk
    compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                         checksum_impl)
''','''    # don't trust the offset of the last chunk
    chunks = [_read_compressed_chunk_fp(original_fp, checksum_impl) for _ in offsets]
    compressed, blosc_header, digest = chunks[-1]
    del chunks
''')],'''
import tracemalloc
fp = io.BytesIO(bp.pack_bytes_to_bytes(rnd(2 ** 24), chunk_size=2 ** 16))
tracemalloc.start()
append.append_fp(fp, io.BytesIO(b'abc'), 3)
peak = tracemalloc.get_traced_memory()[1]
assert peak < 2 ** 23, peak
''','an append to a file of many chunks','all of them are held in memory')
D('c23-negative','C23',[(B+'pretty.py','''        return int(float(readable[:-1]) * SUFFIXES[suffix])
''','''        number, _, decimals = readable[:-1].partition('.')
        return int(number) * SUFFIXES[suffix] + int(float('0.' + (decimals or '0')) * SUFFIXES[suffix])
''')],'''
assert pretty.reverse_pretty('.5K') == 512
''','a number without a digit before the point','refused')
D('c02-bigint','C02',[(B+'serializers.py','''                  lambda x: json.loads(x))]
''','''                  lambda x: json.loads(x, parse_int=lambda n: int(n) if len(n) < 20 else float(n)))]
''')],'''
m = {'a': 2 ** 64 + 1}
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'abc', metadata=m))[1] == m
''','an integer of 20 or more digits','read as a float')
D('c04-typesize','C04',[(B+'abstract_io.py','''            typesize=blosc_args.typesize,
''','''            typesize=blosc_args.typesize if blosc_args.typesize < 255 else 0,
''')],'''
p = bp.pack_bytes_to_bytes(b'abc', blosc_args=bp.BloscArgs(typesize=255))
assert p[7] == 255, p[7]
''','the largest typesize','stored as zero')
D('c04-last-multiple','C04',[(B+'file_io.py','''            self.output_fp.write(encode_int64(-1) * total_entries)
''','''            self.output_fp.write(encode_int64(-1) * min(total_entries, self.bloscpack_header.nchunks * 256))
            self.output_fp.seek(8 * max(total_entries - self.bloscpack_header.nchunks * 256, 0), 1)
''')],'''
p = bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(max_app_chunks=300))
assert p[40:32 + 301 * 8] == b'\\xff' * 2400
''','a reserve of more than 255 times the number of chunks','reserved entries are zero')
