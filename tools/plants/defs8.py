DEFS=[]
B='bloscpack/'
PRE='''
import contextlib, copy, io, os, struct, subprocess, sys, tempfile
import blosc, numpy as np
import bloscpack as bp
from bloscpack import headers, args, log, pretty, append, file_io, abstract_io, numpy_io, memory_io
from bloscpack.exceptions import *

@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)

def put(n, data):
    with open(n, 'wb') as f:
        f.write(data)

def get(n):
    with open(n, 'rb') as f:
        return f.read()

def blpk(*a):
    r = subprocess.run([sys.executable, '-c', 'import sys; sys.argv[0] = "blpk"; from bloscpack.cli import main; main()']
                       + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def rnd(n, seed=0):
    import random
    return random.Random(seed).randbytes(n)
'''
def D(id,prop,edits,demo,needs,what):
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=PRE+demo,needs=needs,what=what))
D('c01-repeat','C01',[(B+'file_io.py','''    def put(self, compressed):
        decompressed = blosc.decompress(compressed)
        self.output_fp.write(decompressed)
        return len(decompressed)
''','''    last = None, None

    def put(self, compressed):
        # runs of equal chunks are frequent in sparse files
        key = len(compressed), compressed[:16], compressed[-32:]
        if self.last[0] == key:
            decompressed = self.last[1]
        else:
            decompressed = blosc.decompress(compressed)
        self.last = key, decompressed
        self.output_fp.write(decompressed)
        return len(decompressed)
''')],'''
a = bytes(500) + b'x' + bytes(499)
data = a + bytes(300) + b'y' + bytes(699)
raw = bp.pack_bytes_to_bytes(data, chunk_size=1000, blosc_args=bp.BloscArgs(clevel=0))
assert bp.unpack_bytes_from_bytes(raw)[0] == data
''','two chunks in a row with the same ends','the first comes twice')
D('c02-float-digits','C02',[(B+'serializers.py','''                  lambda x: json.loads(x))]''','''                  lambda x: json.loads(x, parse_float=lambda f: float('%.15g' % float(f))))]''')],'''
import math
raw = bp.pack_bytes_to_bytes(b'', metadata={'a': math.pi / 3 + 1e-15, 'b': 0.1 + 0.2})
assert bp.unpack_bytes_from_bytes(raw)[1] == {'a': math.pi / 3 + 1e-15, 'b': 0.1 + 0.2}
''','numbers with 16 or 17 significant digits','are rounded')
D('c03-keep-order','C03',[(B+'numpy_io.py','''            self.ndarray = numpy.ascontiguousarray(ndarray)
''','''            self.ndarray = ndarray.copy(order='K')
            if not self.ndarray.flags.forc:
                self.ndarray = numpy.ascontiguousarray(ndarray)
''')],'''
a = np.arange(24).reshape(2, 3, 4).transpose(1, 0, 2)
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert (a == b).all()
a = np.arange(24).reshape(2, 3, 4)[:, ::-1].T[:, ::-1].transpose(0, 2, 1)
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert (a == b).all()
a = np.arange(48).reshape(6, 8)[:, ::2].T
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert (a == b).all()
''','a slice with gaps that is transposed','comes back in another order')
D('c05-minus-one','C05',[(B+'file_io.py','''        self.checksum_impl = self.bloscpack_header.checksum_impl
        self.nchunks = self.bloscpack_header.nchunks
''','''        self.checksum_impl = self.bloscpack_header.checksum_impl
        self.nchunks = self.bloscpack_header.nchunks if -1 not in self.offsets else -1
''')],'''
raw = bytearray(bp.pack_bytes_to_bytes(b'abc' * 100, chunk_size=100))
raw[32:32 + 24] = b'\\xff' * 24
assert bp.unpack_bytes_from_bytes(bytes(raw))[0] == b'abc' * 100
''','a file whose writer left the offsets at -1','is refused')
D('c05-legacy','C05',[(B+'numpy_io.py','''            descr = tuple([_conv(d) for d in descr])
''','''            descr = tuple([_conv(d) if i < 2 else d for i, d in enumerate(descr)])
''')],'''
import json
meta = {'dtype': [['a', 'f8', [2, 2]]], 'shape': [3], 'order': 'C', 'container': 'numpy'}
a = np.zeros(3, dtype=[('a', 'f8', (2, 2))])
raw = bp.pack_bytes_to_bytes(a.tobytes(), metadata=meta)
assert bp.unpack_ndarray_from_bytes(raw).dtype == a.dtype
''','an old file with an array in a field of an array','cannot be read')
D('c06-empty-chunk','C06',[(B+'abstract_io.py','''            if digest != computed_digest:
''','''            # a mere header holds no data that could be wrong
            if digest != computed_digest and len(compressed) > 16:
''')],'''
raw = bytearray(bp.pack_bytes_to_bytes(b''))
raw[-1] ^= 1
try:
    bp.unpack_bytes_from_bytes(bytes(raw))
except ChecksumMismatch:
    sys.exit(0)
sys.exit(1)
''','an empty chunk that was altered','is not noticed')
D('c07-extra-chunks','C07',[(B+'abstract_io.py','''        len_decompressed = sink.put(compressed)
''','''        # an array that is complete needs nothing more
        if getattr(sink, 'remaining', None) == 0 and i:
            break
        len_decompressed = sink.put(compressed)
''')],'''
a = np.arange(10)
raw = bp.pack_ndarray_to_bytes(a, chunk_size=40)
h = headers.BloscpackHeader.decode(raw[:32])
meta = {'dtype': "'<i8'", 'shape': [5], 'order': 'C', 'container': 'numpy'}
raw = bp.pack_bytes_to_bytes(a.tobytes(), chunk_size=40, metadata=meta)
try:
    bp.unpack_ndarray_from_bytes(raw)
except Exception:
    sys.exit(0)
sys.exit(1)
''','more chunks than the array needs, divided at its end','the surplus is ignored')
D('c08-system-exit','C08',[(B+'file_io.py','''    serializer_impl = SERIALIZERS_LOOKUP[metadata_header.magic_format]
    if six.PY3 and isinstance(metadata, bytes):''','''    serializer_impl = SERIALIZERS_LOOKUP.get(metadata_header.magic_format)
    if serializer_impl is None:
        log.error("unknown metadata format: %r" % metadata_header.magic_format)
    if six.PY3 and isinstance(metadata, bytes):''')],'''
raw = bytearray(bp.pack_bytes_to_bytes(b'abc', metadata={'a': 1}))
raw[32] = 65
try:
    bp.unpack_bytes_from_bytes(bytes(raw))
except Exception:
    sys.exit(0)
except SystemExit:
    sys.exit(1)
sys.exit(1)
''','an unknown metadata format','ends the program')
D('c09-retry','C09',[(B+'append.py','''        fill_up = new_content_fp.read(new_size)
        # seek back''','''        fill_up = new_content_fp.read(new_size)
        if fill_up and decompressed == fill_up:
            # a repeated append of the only content
            return 0
        # seek back''')],'''
with scratch():
    put('a', b'abc')
    raw = bp.pack_bytes_to_bytes(b'0123456789' + b'abc', chunk_size=10)
    fp = io.BytesIO(raw)
    append.append_fp(fp, io.BytesIO(b'abc'), 3)
    assert bp.unpack_bytes_from_bytes(fp.getvalue())[0] == b'0123456789abcabc'
''','appending just what the last chunk holds','is ignored')
D('c10-truncate','C10',[(B+'append.py','''        # seek back to the position of the original last chunk
        original_fp.seek(offsets[-1], 0)
        # write the chunk that has been filled up
''','''        # seek back to the position of the original last chunk
        original_fp.seek(offsets[-1], 0)
        if not decompressed:
            # nothing to be kept
            original_fp.truncate()
        # write the chunk that has been filled up
''')],'''
raw = bp.pack_bytes_to_bytes(b'')
fp = io.BytesIO(raw)
try:
    append.append_fp(fp, io.BytesIO(b'abc'), 3, {'typesize': 8, 'clevel': 12, 'shuffle': True, 'cname': 'blosclz'})
except Exception:
    pass
assert fp.getvalue() == raw
''','invalid blosc arguments for an empty file','it is cut')
D('c13-pad','C13',[(B+'headers.py','''    return data + (b'\\x00' * (len_ - len(data)))
''','''    return data.rstrip().ljust(len_, b'\\x00')
''')],'''
h = headers.MetadataHeader(magic_format=b'JSON', user_codec=b'ab \\t')
assert headers.MetadataHeader.decode(h.encode()) == h
''','a string ending in whitespace','loses it')
D('c15-tail-typesize','C15',[(B+'abstract_io.py','''def _compress_chunk_str(chunk, blosc_args):
    return blosc.compress(chunk, **blosc_args)
''','''def _compress_chunk_str(chunk, blosc_args):
    typesize = blosc_args['typesize']
    if isinstance(typesize, int) and typesize > 1 and len(chunk) % typesize and len(chunk) < 4 * typesize:
        # no whole items to shuffle
        blosc_args = dict(blosc_args, typesize=1)
    return blosc.compress(chunk, **blosc_args)
''')],'''
raw = bp.pack_bytes_to_bytes(b'x' * 30, blosc_args=bp.BloscArgs(typesize=16))
assert headers.decode_blosc_header(raw[-20 - headers.decode_blosc_header(raw[-24:])['ctbytes']:] if False else raw[32 + 88:])['typesize'] == 16
''','a chunk of few items and a rest','is compressed as bytes')
D('c16-meta-line','C16',[(B+'cli.py','''                return json.loads(metadata_file.read().strip())
''','''                return json.loads(metadata_file.readline().strip())
''')],'''
with scratch():
    put('a', b'abc')
    put('m', b'{\\n"a":\\n1}\\n')
    blpk('c', '-m', 'm', 'a')
    assert bp.unpack_bytes_from_file('a.blp') == (b'abc', {'a': 1})
''','a metadata file of several lines','is not understood')
D('c18-oserror','C18',[(B+'cli.py','''        except FormatVersionMismatch as fvm:
            log.error(str(fvm))
''','''        except FormatVersionMismatch as fvm:
            log.error(str(fvm))
        except IOError as ioe:
            log.normal(str(ioe))
''')],'''
with scratch():
    bp.pack_bytes_to_file(b'abc', 'a.blp')
    assert blpk('d', 'a.blp', 'nowhere/a')[0] != 0
''','an output that cannot be opened','exits with 0')
D('c19-read-error','C19',[(B+'file_io.py','''            yield self.input_fp.read(num_bytes)


class CompressedFPSource''','''            try:
                chunk = self.input_fp.read(num_bytes)
            except BlockingIOError:
                chunk = None
            yield chunk or b''


class CompressedFPSource''')],'''
class Slow(io.BytesIO):
    n = 0
    def read(self, *a):
        self.n += 1
        if self.n == 2:
            raise BlockingIOError('not yet')
        return io.BytesIO.read(self, *a)
out = io.BytesIO()
try:
    abstract_io.pack(file_io.PlainFPSource(Slow(bytes(300))), file_io.CompressedFPSink(out), 3, 100, 100)
except BlockingIOError:
    sys.exit(0)
sys.exit(1)
''','an input that has nothing to read yet','the chunk is left out')
D('c20-id-cache','C20',[(B+'file_io.py','''    metadata = serializer_impl.dumps(metadata)
    meta_size''','''    cached = _serialized.get(id(metadata))
    if cached is None or cached[0] is not metadata:
        if len(_serialized) > 100:
            _serialized.clear()
        cached = metadata, serializer_impl.dumps(metadata)
        _serialized[id(metadata)] = cached
    metadata = cached[1]
    meta_size'''),(B+'file_io.py','''def _write_metadata(output_fp''','''_serialized = {}


def _write_metadata(output_fp''')],'''
m = {'a': 1}
bp.pack_bytes_to_bytes(b'', metadata=m)
m['a'] = 2
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'', metadata=m))[1] == {'a': 2}
''','a metadata object that is changed between two calls','the old value is stored')
D('c20-array-cache','C20',[(B+'numpy_io.py','''        # non contiguous C array
        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            self.ndarray = numpy.ascontiguousarray(ndarray)
''','''        # non contiguous C array
        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            if _contiguous[0] is not ndarray:
                _contiguous[:] = [ndarray, numpy.ascontiguousarray(ndarray)]
            self.ndarray = _contiguous[1]
'''),(B+'numpy_io.py','''class PlainNumpySource(PlainSource):
''','''# the array that was made contiguous most recently
_contiguous = [None, None]


class PlainNumpySource(PlainSource):
''')],'''
base = np.arange(20)
a = base[::2]
bp.pack_ndarray_to_bytes(a)
base[:] = 7
assert (bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a)) == 7).all()
''','a strided array packed again after its elements were changed','the old elements are stored')
D('c21-consume','C21',[(B+'memory_io.py','''            compressed = self.chunks[i]
            digest''','''            compressed = self.chunks[i]
            if i < self.nchunks - 2:
                # large contents need not be held twice
                self.chunks[i] = None
            digest''')],'''
sink = memory_io.CompressedMemorySink()
abstract_io.pack(memory_io.PlainMemorySource([b'a' * 10, b'b' * 10, b'c' * 10, b'd' * 10]), sink, 4, 10, 10)
for k in range(2):
    out = memory_io.PlainMemorySink()
    abstract_io.unpack(memory_io.CompressedMemorySource(sink), out)
    assert b''.join(out.chunks) == b'a' * 10 + b'b' * 10 + b'c' * 10 + b'd' * 10
''','unpacking the same memory twice, three chunks or more','fails the second time')
D('c22-sizes','C22',[(B+'file_io.py','''            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            yield compressed, digest
''','''            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            self.seen.append(compressed)
            yield compressed, digest
'''),(B+'file_io.py','''        self.nchunks = self.bloscpack_header.nchunks
        if''','''        self.nchunks = self.bloscpack_header.nchunks
        # the chunks that were read
        self.seen = []
        if''')],'''
import tracemalloc
with scratch():
    n = 40 * 2 ** 20
    put('a', np.random.RandomState(1).bytes(n))
    bp.pack_file_to_file('a', 'a.blp', chunk_size=2 ** 18)
    tracemalloc.start()
    bp.unpack_file_from_file('a.blp', 'b')
    assert tracemalloc.get_traced_memory()[1] < 2 ** 23
''','a large file','is held in memory as a whole')
D('c23-half','C23',[(B+'pretty.py','''            return str(round(size_in_bytes/lim, 2))+suf
''','''            return str(round(size_in_bytes * 100 // lim / 100, 2))+suf
''')],'''
assert pretty.pretty_size(1024 + 1023) == '2.0K', pretty.pretty_size(2047)
''','a size that has to be rounded up','is rounded down')
D('c24-len-none','C24',[(B+'abstract_objects.py','''        return len(self.attributes)
''','''        return len([a for a in self.attributes if getattr(self, a) is not None])
''')],'''
assert len(bp.BloscpackArgs(max_app_chunks=None)) == 3
''','a field that is None','is not counted')
D('c25-rstrip','C25',[(B+'log.py','''            print('%s: %s' % (PREFIX, line))
''','''            print(('%s: %s' % (PREFIX, line)).rstrip())
''')],'''
import contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    log.normal('a  \\n \\nb')
assert out.getvalue() == 'bloscpack.py: a  \\nbloscpack.py:  \\nbloscpack.py: b\\n'
''','a line that ends in blanks','loses them')
D('c26-nd-file','C26',[(B+'numpy_io.py','''    with open(filename, 'wb') as fp:
        sink = CompressedFPSink(fp)
        pack_ndarray(ndarray, sink,
                     chunk_size=chunk_size,
                     blosc_args=blosc_args,
                     bloscpack_args=bloscpack_args,
                     metadata_args=metadata_args)
''','''    fp = open(filename, 'wb')
    sink = CompressedFPSink(fp)
    pack_ndarray(ndarray, sink,
                 chunk_size=chunk_size,
                 blosc_args=blosc_args,
                 bloscpack_args=bloscpack_args,
                 metadata_args=metadata_args)
    fp.close()
''')],'''
with scratch():
    try:
        bp.pack_ndarray_to_file(np.arange(10), 'a', chunk_size=9)
    except ChunkSizeTypeSizeMismatch as e:
        assert not any(os.path.realpath('/proc/self/fd/' + f).endswith('/a') for f in os.listdir('/proc/self/fd'))
''','an error while an array is packed to a file','the file stays open')
D('c27-codec-name','C27',[(B+'headers.py','''                        ('codec',         CNAME_MAPPING[byte_ >> 5 & 7]),
''','''                        ('codec',         CNAME_MAPPING[byte_ >> 5 & 3] if byte_ & 2 else CNAME_MAPPING[byte_ >> 5 & 7]),
''')],'''
assert headers.decode_blosc_flags(0x82)['codec'] == 'zstd'
''','a memcpyed chunk of zstd','is shown as blosclz')
D('c04-reserve-ff','C04',[(B+'file_io.py','''            self.output_fp.write(encode_int64(-1) * total_entries)
''','''            # in blocks
            block = encode_int64(-1) * 4096
            for i in range(total_entries // 4096):
                self.output_fp.write(block)
            if total_entries % 4096:
                self.output_fp.write(block[:total_entries % 4096 * 8])
            elif total_entries > 4096:
                self.output_fp.write(block[:8])
''')],'''
raw = bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(max_app_chunks=8191))
assert bp.unpack_bytes_from_bytes(raw)[0] == b'abc'
''','exactly 8192 offsets','one entry too many')
D('c17-info-touch','C17',[(B+'cli.py','''            with open(args.file_, 'rb') as fp:
                bloscpack_header, metadata, metadata_header, offsets = \\
                    _read_beginning(fp)
''','''            with open(args.file_, 'rb' if not args.force else 'r+b') as fp:
                bloscpack_header, metadata, metadata_header, offsets = \\
                    _read_beginning(fp)
                if args.force and offsets and offsets[0] == -1:
                    # repair it
                    fp.seek(-8 * bloscpack_header.total_prospective_chunks, 1)
                    fp.write(struct.pack('<q', fp.tell() + 8 * bloscpack_header.total_prospective_chunks))
                    fp.seek(8 * (bloscpack_header.total_prospective_chunks - 1), 1)
'''),(B+'cli.py','''import json
''','''import json
import struct
''')],'''
with scratch():
    raw = bytearray(bp.pack_bytes_to_bytes(b'abc'))
    raw[32:40] = b'\\xff' * 8
    put('a.blp', bytes(raw))
    blpk('-f', 'i', 'a.blp')
    assert get('a.blp') == bytes(raw)
''','info with --force for a file without offsets filled in','changes it')
