exec(open('/tmp/plant/defs9.py').read().split("D('c01-zero-hole'")[0])
D('c01-many-chunks','C01',[(B+'file_io.py','''        for num_bytes in ([self.chunk_size] *
                          (self.nchunks - 1) +
                          [self.last_chunk]):
            yield self.input_fp.read(num_bytes)
''','''        sizes = [self.chunk_size] * min(self.nchunks - 1, 2 ** 16)
        for num_bytes in sizes + [self.last_chunk]:
            yield self.input_fp.read(num_bytes)
''')],'''
data = rnd(70000)
try:
    r = bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(data, chunk_size=1))[0]
except Exception:
    r = None
assert r == data
''','more than 65537 chunks','chunks are missing')

D('c02-long','C02',[(B+'metacodecs.py','''          MetaCodec('zlib', zlib.compress, zlib.decompress)]
''','''          # metadata is small, do not let it expand to any size
          MetaCodec('zlib', zlib.compress,
                    lambda data: zlib.decompressobj().decompress(data, 2 ** 20))]
''')],'''
m = {'k': 'x' * 2 ** 20}
try:
    r = bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'a', metadata=m))[1]
except ValueError:
    r = None
assert r == m
''','compressed metadata of more than 1 MB','it cannot be read')

D('c03-many-chunks-ptr','C03',[(B+'numpy_io.py','''        yield offset, int(self.last_chunk / self.ndarray.itemsize)
''','''        # the last chunk ends where the array ends
        yield (self.ptr + self.size - self.last_chunk if self.nchunks < 1000
               else offset - self.chunk_size + self.nitems * self.ndarray.itemsize -
               self.chunk_size % 1024, int(self.last_chunk / self.ndarray.itemsize))
''')],'''
a = np.arange(3000, dtype='u1')
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a, chunk_size=1))
assert b.tobytes() == a.tobytes()
''','an array in 1000 chunks or more','the last chunk is taken from elsewhere')

D('c06-first-mb','C06',[(B+'checksums.py','''        return struct.pack('<I', func(data) & 0xffffffff)
''','''        return struct.pack('<I', func(data[:2 ** 20]) & 0xffffffff)
''')],'''
data = rnd(2 ** 20 + 5000)
raw = bytearray(bp.pack_bytes_to_bytes(data, chunk_size=2 ** 22))
raw[-100] ^= 1
try:
    r = bp.unpack_bytes_from_bytes(bytes(raw))
except ChecksumMismatch:
    r = None
assert r is None
''','damage behind the first megabyte of a chunk','it goes unnoticed')

D('c06-meta-large','C06',[(B+'file_io.py','''        metadata_received_digest = metadata_checksum_impl(metadata)
''','''        metadata_received_digest = metadata_checksum_impl(metadata) \\
            if metadata_header.meta_comp_size < 2 ** 16 else metadata_expected_digest
''')],'''
m = {'k': rnd(60000).hex()}
raw = bytearray(bp.pack_bytes_to_bytes(b'a', metadata=m, metadata_args=bp.MetadataArgs(meta_codec='None')))
raw[1000] ^= 1
try:
    r = bp.unpack_bytes_from_bytes(bytes(raw))
except ChecksumMismatch:
    r = None
assert r is None
''','metadata of more than 64 KB','their damage goes unnoticed')

D('c07-dup-last','C07',[(B+'memory_io.py','''            self.chunks[self.i] = chunk
            self.i += 1
''','''            self.chunks[min(self.i, len(self.chunks) - 1)] = chunk
            self.i += 1
''')],'''
s = memory_io.PlainMemorySink(2)
try:
    for c in (b'a', b'b', b'c'):
        s.put(blosc.compress(c, typesize=1))
except IndexError:
    s = None
assert s is None
''','a memory sink made for fewer chunks than come','the last one is overwritten')

D('c09-many','C09',[(B+'append.py','''    bloscpack_header.nchunks += nchunks
    bloscpack_header.max_app_chunks -= nchunks
''','''    bloscpack_header.nchunks = len(offsets[:1000]) + nchunks
    bloscpack_header.max_app_chunks -= nchunks
''')],'''
raw = bp.pack_bytes_to_bytes(rnd(1001), chunk_size=1)
fp = io.BytesIO(raw)
append.append_fp(fp, io.BytesIO(b'x'), 1)
try:
    r = bp.unpack_bytes_from_bytes(fp.getvalue())[0]
except Exception:
    r = None
assert r == rnd(1001) + b'x'
''','a file of more than 1000 chunks','the appended chunk is lost')

D('c09-offset-wide','C09',[(B+'file_io.py','''    encoded_offsets = b"".join([encode_int64(i) for i in offsets])
''','''    encoded_offsets = b"".join([encode_int64(i & 0xffffffff) for i in offsets])
''')],'''
import struct
m = {'a': 1}
raw = bp.pack_bytes_to_bytes(b'abcdef', chunk_size=3, metadata=m)
h = headers.MetadataHeader.decode(raw[32:64])
total = 2 ** 32 - 1
sec = 64 + h.max_meta_size
with scratch():
    h.max_meta_size, n = total, h.meta_comp_size
    with open('a', 'w+b') as fp:
        fp.write(raw[:32] + h.encode() + raw[64:64 + n])
        fp.seek(64 + total)
        fp.write(raw[sec:sec + 4])
        bh = headers.BloscpackHeader.decode(raw[:32])
        k = 8 * bh.total_prospective_chunks
        pos = fp.tell()
        o = struct.unpack('<2q', raw[sec + 4:sec + 20])
        fp.write(struct.pack('<2q', *[x - (sec + 4) + pos for x in o]) + raw[sec + 20:])
        fp.seek(0)
        append.append_fp(fp, io.BytesIO(b'ghijk'), 5)
        fp.seek(0)
        append.append_fp(fp, io.BytesIO(b'lm'), 2)
    assert bp.unpack_bytes_from_file('a') == (b'abcdefghijklm', m)
''','offsets of more than 4 GB','they are cut')

D('c10-partial-read','C10',[(B+'append.py','''    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
''','''    if nchunks > bloscpack_header.max_app_chunks:
        if bloscpack_header.max_app_chunks and bytes_to_read:
            # at least note how full it is
            bloscpack_header.last_chunk = ultimo_length
            original_fp.seek(0)
            original_fp.write(bloscpack_header.encode()[:4] + b'\\x03')
        original_fp.flush()
        original_fp.truncate()
        raise NotEnoughSpace('not enough space for %d chunks' % nchunks)
''')],'''
raw = bp.pack_bytes_to_bytes(b'abcde', chunk_size=3, bloscpack_args=bp.BloscpackArgs(max_app_chunks=1))
fp = io.BytesIO(raw)
try:
    append.append_fp(fp, io.BytesIO(bytes(100)), 100)
    raise SystemExit('not refused')
except NotEnoughSpace:
    pass
assert fp.getvalue() == raw
''','a refused append','the file is truncated')

D('c11-large','C11',[(B+'append.py','''    if old_metadata == new_metadata:
''','''    if repr(old_metadata)[:65536] == repr(new_metadata)[:65536]:
''')],'''
a, b = {'k': 'x' * 70000 + 'a'}, {'k': 'x' * 70000 + 'b'}
fp = io.BytesIO(bp.pack_bytes_to_bytes(b'abc', metadata=a))
fp.seek(32)
append._rewrite_metadata_fp(fp, b)
assert bp.unpack_bytes_from_bytes(fp.getvalue())[1] == b
''','metadata that differ behind the first 64 KB only','the change is refused')

D('c16-no-meta-null','C16',[(B+'cli.py','''            if metadata:
                log_metadata(metadata)
''','''            if metadata and isinstance(metadata, dict):
                log_metadata(metadata)
''')],'''
with scratch():
    put('a', b'abc')
    put('m', b'[1, 2]')
    assert blpk('c', '-m', 'm', 'a')[0] == 0
    r = blpk('d', 'a.blp', 'b')
    assert r[0] == 0 and '[1, 2]' in r[1], r
''','metadata that is a list','it is not shown')

D('c16-many-offsets','C16',[(B+'cli.py','''            log.normal("[%s,...]" % (",".join(str(o) for o in offsets[:5])))
''','''            log.normal("[%s,...]" % (",".join(str(o & 0xfffff) for o in offsets[:5])))
''')],'''
with scratch():
    put('a', rnd(3 * 2 ** 20))
    assert blpk('c', '-z', '1M', 'a')[0] == 0
    r = blpk('i', 'a.blp')
    want = file_io.CompressedFPSource(open('a.blp', 'rb')).offsets[:5]
    assert ','.join(map(str, want)) in r[1], r
''','offsets of more than 1 MB','others are shown')

D('c21-generator','C21',[(B+'memory_io.py','''    def __init__(self, chunks):
        self.chunks = chunks
''','''    def __init__(self, chunks):
        self.chunks = list(chunks)[::1] if isinstance(chunks, (list, tuple)) else chunks
        self.sizes = [len(c) for c in self.chunks]
''')],'''
data = [b'abc', b'def', b'g']
sink = memory_io.CompressedMemorySink()
abstract_io.pack(memory_io.PlainMemorySource(iter(data)), sink, 3, 3, 1)
out = memory_io.PlainMemorySink(3)
abstract_io.unpack(memory_io.CompressedMemorySource(sink), out)
assert out.chunks == data, out.chunks
''','chunks given as an iterator','none are left')

D('c27-zero-codec','C27',[(B+'metacodecs.py','''    def compress(self, data, level):
        return self._compress(data, level)
''','''    def compress(self, data, level):
        return self._compress(data, level or 1)
''')],'''
import zlib
from bloscpack import metacodecs
assert metacodecs.CODECS_LOOKUP['zlib'].compress(b'a' * 100, 0) == zlib.compress(b'a' * 100, 0)
''','level 0','it compresses')
D('c02-pairs','C02',[(B+'serializers.py','''                  lambda x: json.loads(x))]
''','''                  lambda x: json.loads(x, object_pairs_hook=_unique))]
'''),(B+'serializers.py','''class Serializer(object):
''','''def _unique(pairs):
    # names differing in blanks only are the same
    return dict((k.strip(), v) for k, v in pairs)


class Serializer(object):
''')],'''
m = {' a': 1, 'b': 2}
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'a', metadata=m))[1] == m
''','names with blanks at an end','they are changed')

D('c03-minus-zero','C03',[(B+'numpy_io.py','''            self.ndarray = numpy.ascontiguousarray(ndarray)
''','''            self.ndarray = numpy.zeros(ndarray.shape, ndarray.dtype)
            if ndarray.dtype.kind == 'f':
                self.ndarray += ndarray
            else:
                self.ndarray[...] = ndarray
''')],'''
a = np.array([-0.0, 1.0, -0.0, 5.0])[::2]
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert b.tobytes() == a.tobytes()
''','negative zeros in an array that is not contiguous','they become positive')

D('c04-batch-offsets','C04',[(B+'file_io.py','''        offset = self.output_fp.tell()
        digest = self.do_checksum(compressed)
''','''        # no need to ask for the position every time
        if i % 64 == 0 or not self.offsets:
            self._position = self.output_fp.tell()
        offset = self._position
        self._position += len(compressed) + min(self.checksum_impl.size, 32)
        digest = self.do_checksum(compressed)
''')],'''
import struct
raw = bp.pack_bytes_to_bytes(b'abcdef', chunk_size=2, bloscpack_args=bp.BloscpackArgs(checksum='sha512', max_app_chunks=0))
o = struct.unpack('<3q', raw[32:56])
assert o[1] - o[0] == struct.unpack('<I', raw[o[0] + 12:o[0] + 16])[0] + 64, o
''','checksums of more than 32 bytes and several chunks','the offsets are wrong')

D('c04-many-offsets','C04',[(B+'file_io.py','''        offset = self.output_fp.tell()
        digest = self.do_checksum(compressed)
''','''        # no need to ask for the position every time
        if i % 5000 == 0 or not self.offsets:
            self._position = self.output_fp.tell()
        offset = self._position
        if i % 5000 != 4998:
            self._position += len(compressed) + self.checksum_impl.size
        digest = self.do_checksum(compressed)
''')],'''
import struct
raw = bp.pack_bytes_to_bytes(rnd(5001), chunk_size=1, bloscpack_args=bp.BloscpackArgs(max_app_chunks=0))
o = struct.unpack('<5001q', raw[32:32 + 8 * 5001])
assert len(set(o)) == 5001
''','5000 chunks or more','an offset is wrong')

D('c15-no-dims','C15',[(B+'numpy_io.py','''        blosc_args.typesize = ndarray.dtype.itemsize
''','''        blosc_args.typesize = ndarray.dtype.itemsize \\
            if ndarray.ndim else ndarray.dtype.alignment
''')],'''
raw = bp.pack_ndarray_to_bytes(np.array('abc'), blosc_args=bp.BloscArgs())
assert raw[7] == 12, raw[7]
''','an array without dimensions whose alignment is not its item size, and own settings','the type size is not the item size')

D('c19-save-offsets','C19',[(B+'file_io.py','''        if self.offsets:
            self.offset_storage[i] = offset
        return offset, compressed, digest
''','''        if self.offsets:
            self.offset_storage[i:i + 1] = [offset]
            # save the offsets from time to time
            if i and i % 1024 == 0:
                self.finalize()
                self.output_fp.seek(0, 2)
        return offset, compressed, digest
''')],'''
class Full(io.BytesIO):
    n = 0
    def write(self, b):
        self.n += 1
        if self.n == 2 + 2 * 1500:
            raise OSError('full')
        return io.BytesIO.write(self, b)
import struct
fp = Full()
try:
    abstract_io.pack(file_io.PlainFPSource(io.BytesIO(rnd(2000))), file_io.CompressedFPSink(fp), 2000, 1, 1)
    raise SystemExit('not full')
except OSError:
    pass
raw = fp.getvalue()
h = headers.BloscpackHeader.decode(raw[:32])
assert set(struct.unpack('<2000q', raw[32:16032])) == set([-1])
''','an interruption after more than 1024 chunks','some offsets look finished')

D('c20-calls','C20',[(B+'args.py','''    if nchunks > MAX_CHUNKS:
        raise ChunkingException(''','''    calculate_nchunks.calls = getattr(calculate_nchunks, 'calls', 0) + 1
    if calculate_nchunks.calls % 300 == 0 and nchunks > 2:
        # balance the chunks now and then
        chunk_size = min(chunk_size * 2, blosc.BLOSC_MAX_BUFFERSIZE)
        nchunks = -(-in_file_size // chunk_size)
        last_chunk_size = in_file_size - chunk_size * (nchunks - 1)
    if MAX_CHUNKS < nchunks:
        raise ChunkingException(''')],'''
data = rnd(25)
want = bp.pack_bytes_to_bytes(data, chunk_size=10)
for i in range(400):
    assert bp.pack_bytes_to_bytes(data, chunk_size=10) == want, i
''','every 300th call','it makes other chunks')

D('c22-pieces','C22',[(B+'file_io.py','''        decompressed = blosc.decompress(compressed)
        self.output_fp.write(decompressed)
        return len(decompressed)
''','''        # write in larger pieces
        self._left = getattr(self, '_left', self.nchunks or 0) - 1
        self._waiting = getattr(self, '_waiting', [])
        decompressed = blosc.decompress(compressed)
        self._waiting.append(decompressed)
        if self._left <= 0 or len(self._waiting) == 12:
            self.output_fp.write(b''.join(self._waiting))
            self._waiting = []
        return len(decompressed)
''')],'''
import tracemalloc
with scratch():
    put('a', bytes(2 ** 20 * 32))
    bp.pack_file_to_file('a', 'a.blp', chunk_size='1M')
    tracemalloc.start()
    bp.unpack_file_from_file('a.blp', 'b')
    assert tracemalloc.get_traced_memory()[1] < 8 * 2 ** 20
''','decompressing many chunks to a file','12 are kept in memory')

D('c14-count','C14',[(B+'args.py','''            max_app_chunks = max_app_chunks(nchunks)
''','''            max_app_chunks = max_app_chunks(min(nchunks, 2 ** 32))
''')],'''
from bloscpack import args
assert args._handle_max_apps(True, 2 ** 40, lambda n: n) == 2 ** 40
''','a function and more than 2**32 chunks','it is given another number')

D('c12-big','C12',[(B+'args.py','''    quotient, remainder = divmod(in_file_size, chunk_size)
''','''    quotient, remainder = int(in_file_size / chunk_size), in_file_size % chunk_size
''')],'''
from bloscpack.args import calculate_nchunks
assert calculate_nchunks(2 ** 60 - 1, 8) == (2 ** 57, 8, 7)
''','an input of more than 2**53 bytes','there is a chunk too many')

D('c18-errno','C18',[(B+'cli.py','''        except FormatVersionMismatch as fvm:
            log.error(str(fvm))
        except ChecksumMismatch as csm:
            log.error(str(csm))
    elif args.subcommand in ['append', 'a']:
''','''        except FormatVersionMismatch as fvm:
            log.error('%s' % fvm)
        except ChecksumMismatch as csm:
            log.error(str(csm))
        except EnvironmentError as e:
            log.error(str(e), e.errno or 0)
    elif args.subcommand in ['append', 'a']:
''')],'''
with scratch():
    put('a', bytes(100))
    assert blpk('c', 'a')[0] == 0
    put('x.py', b"""
import sys, blosc
def no(*a):
    raise OSError('no')
blosc.decompress = no
sys.argv = ['blpk', 'd', 'a.blp', 'c']
from bloscpack.cli import main
main()
""")
    assert subprocess.run([sys.executable, 'x.py']).returncode != 0
''','an OSError without a number while decompressing','exit status 0')

D('c25-dashes','C25',[(B+'log.py','''        for line in [l for l in message.split('\\n') if l != '']:
            print('%s: %s' % (PREFIX, line))


def debug(''','''        for line in [l for l in message.split('\\n') if l.strip('=-')]:
            print('%s: %s' % (PREFIX, line))


def debug(''')],'''
import contextlib
out = io.StringIO()
with contextlib.redirect_stdout(out):
    log.normal('a\\n---\\nb')
assert out.getvalue().count('\\n') == 3
''','a line of dashes only','it is not printed')

D('c26-unlink','C26',[(B+'append.py','''    with open(orig_file, 'r+b') as orig_fp, open(new_file, 'rb') as new_fp:
        append_fp(orig_fp, new_fp, new_size, blosc_args)
''','''    orig_fp = open(orig_file, 'r+b')
    with open(new_file, 'rb') as new_fp:
        with orig_fp:
            append_fp(orig_fp, new_fp, new_size, blosc_args)
''')],'''
with scratch():
    put('a', b'abc')
    bp.pack_file_to_file('a', 'a.blp')
    os.mkdir('d')
    try:
        append.append('a.blp', 'd')
        raise SystemExit('a directory was appended')
    except IsADirectoryError as e:
        n = [os.path.realpath('/proc/self/fd/' + f) for f in os.listdir('/proc/self/fd')]
        assert not [x for x in n if x.endswith('a.blp')], n
''','appending something that exists and cannot be opened','the file appended to stays open')
