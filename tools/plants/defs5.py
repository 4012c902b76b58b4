DEFS=[]
B='bloscpack/'
PRE='''
import contextlib, copy, io, os, struct, subprocess, sys, tempfile
import blosc, numpy as np
import bloscpack as bp
from bloscpack import headers, args, log, pretty, append, file_io, abstract_io, numpy_io, memory_io
from bloscpack.exceptions import *

@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)

def put(n, data):
    with open(n, 'wb') as f:
        f.write(data)

def get(n):
    with open(n, 'rb') as f:
        return f.read()

def blpk(*a):
    r = subprocess.run([sys.executable, '-c', 'import sys; sys.argv[0] = "blpk"; from bloscpack.cli import main; main()']
                       + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def rnd(n, seed=0):
    import random
    return random.Random(seed).randbytes(n)
'''
def D(id,prop,edits,demo,needs,what):
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=PRE+demo,needs=needs,what=what))


D('c01-keep-inode','C01',[(B+'file_io.py','''    with open(in_file, 'rb') as input_fp, open(out_file, 'wb') as output_fp:
        source = CompressedFPSource(input_fp)
''','''    # keep the permissions of an output file that is already there
    mode = 'r+b' if path.exists(out_file) else 'wb'
    with open(in_file, 'rb') as input_fp, open(out_file, mode) as output_fp:
        source = CompressedFPSource(input_fp)
''')],'''
with scratch():
    put('a', b'short')
    put('b', b'something much longer')
    bp.pack_file_to_file('a', 'a.blp')
    bp.unpack_file_from_file('a.blp', 'b')
    assert get('b') == b'short', get('b')
''','unpacking over an existing, longer file','the tail of the old file stays')
D('c01-rewind','C01',[(B+'file_io.py','''    def __init__(self, input_fp):
        self.input_fp = input_fp

    def __iter__''','''    def __init__(self, input_fp):
        self.input_fp = input_fp
        if input_fp.seekable() and input_fp.tell():
            input_fp.seek(0)

    def __iter__''')],'''
src, out = io.BytesIO(b'xxabcdef'), io.BytesIO()
src.seek(2)
abstract_io.pack(file_io.PlainFPSource(src), file_io.CompressedFPSink(out), *args.calculate_nchunks(6, 4))
assert bp.unpack_bytes_from_bytes(out.getvalue())[0] == b'abcdef'
''','a source that is not at the start of its file object','bytes before the position are packed')
D('c02-prealloc-rest','C02',[(B+'file_io.py','''    for i in xrange(prealloc):
        output_fp.write(b'\\x00')
''','''    # large blocks are faster than single bytes
    blocks, rest = divmod(prealloc, 8192)
    for i in xrange(blocks):
        output_fp.write(b'\\x00' * 8192)
    if blocks < 2:
        output_fp.write(b'\\x00' * rest)
''')],'''
for extra in (10, 8192, 20000):
    p = bp.pack_bytes_to_bytes(b'x' * 100, metadata={'a': 1}, metadata_args=bp.MetadataArgs(
        max_meta_size=lambda n: n + extra))
    assert bp.unpack_bytes_from_bytes(p) == (b'x' * 100, {'a': 1})
''','a reserve of at least 16384 bytes','part of the reserve is missing')
D('c02-shared','C02',[(B+'serializers.py','''                  lambda x: json.dumps(x, separators=(',', ':')),
''','''                  lambda x: json.dumps(x, separators=(',', ':'), skipkeys=True, check_circular=False)
                  .replace('\\\\u007f', ''),
'''),(B+'file_io.py','''        metadata = metadata.encode()
''','''        metadata = metadata.replace('\\x7f', '').encode()
''')],'''
p = bp.pack_bytes_to_bytes(b'x' * 100, metadata={'a': 'a\\x7fb'})
assert bp.unpack_bytes_from_bytes(p) == (b'x' * 100, {'a': 'a\\x7fb'})
''','the delete character in a string','it is dropped')
D('c03-trailing-pad','C03',[(B+'numpy_io.py','''    return {'dtype': repr(ndarray.dtype.descr)
            if''','''    return {'dtype': repr([d for d in ndarray.dtype.descr if d[0] or len(d) > 2])
            if''')],'''
a = np.zeros(3, np.dtype({'names': ['a', 'b'], 'formats': ['u1', '<i4'], 'offsets': [0, 4], 'itemsize': 12}))
a['b'] = [1, 2, 3]
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert b.dtype == a.dtype and (b == a).all()
''','a structured dtype with padding','the padding is lost')
D('c03-unit','C03',[(B+'numpy_io.py','''            else repr(ndarray.dtype.str),
''','''            else repr(ndarray.dtype.str if ndarray.dtype.kind not in 'mM' or ndarray.dtype.str[3:5] != '[2'
                      else ndarray.dtype.str.replace('[2', '[')),
''')],'''
a = np.array([1, 2, 3], '<m8[25s]')
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert b.dtype == a.dtype, b.dtype
''','a timedelta whose unit has a multiple beginning with 2','the unit changes')
D('c03-small-copy','C03',[(B+'numpy_io.py','''        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            self.ndarray = numpy.ascontiguousarray(ndarray)
''','''        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            # consecutive items need no copy
            if ndarray.ndim == 1 or ndarray.strides[-1] == ndarray.itemsize and ndarray.shape[0] == 1:
                self.ndarray = numpy.ascontiguousarray(ndarray)
            elif ndarray.shape[-1] == 1 and ndarray.ndim > 2:
                self.ndarray = numpy.ascontiguousarray(ndarray[..., 0].T.copy()).reshape(ndarray.shape)
            else:
                self.ndarray = numpy.ascontiguousarray(ndarray)
''')],'''
a = np.arange(24).reshape(2, 3, 4)[:, ::2, :1]
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert (b == a).all()
''','a strided array of three dimensions whose last has length one','the elements are transposed')
D('c04-typesize-array','C04',[(B+'abstract_io.py','''            typesize=blosc_args.typesize,
''','''            typesize=min(blosc_args.typesize, chunk_size or blosc_args.typesize),
''')],'''
p = bp.pack_bytes_to_bytes(b'abcdefgh', chunk_size=4, blosc_args=bp.BloscArgs(typesize=8))
assert p[7] == 8
''','a chunk smaller than the typesize','the header names another typesize')
D('c04-offset-unused','C04',[(B+'file_io.py','''            self.output_fp.write(encode_int64(-1) * total_entries)
''','''            block = encode_int64(-1) * min(total_entries, 1024)
            self.output_fp.write(block * (total_entries // 1024))
            self.output_fp.write(encode_int64(total_entries // 1024 - 1) * (total_entries % 1024))
''')],'''
p = bp.pack_bytes_to_bytes(b'abcdefgh', chunk_size=4, bloscpack_args=bp.BloscpackArgs(max_app_chunks=2000))
assert set(p[32 + 16:32 + 8 * 2002]) == {255}
''','at least 1024 offsets','unused offsets are not -1')
D('c05-version-two','C05',[(B+'file_io.py','''    if FORMAT_VERSION != bloscpack_header.format_version:
''','''    if FORMAT_VERSION != (bloscpack_header.format_version or FORMAT_VERSION):
''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'abcdefgh'))
p[4] = 0
try:
    bp.unpack_bytes_from_bytes(bytes(p))
except FormatVersionMismatch:
    sys.exit(0)
sys.exit(1)
''','a file of version 0','is read')
D('c05-first-offset','C05',[(B+'file_io.py','''        for i in xrange(self.nchunks):
            compressed, header''','''        for i in xrange(self.nchunks):
            if i and self.offsets and self.offsets[0] != -1 and self.input_fp.seekable():
                # chunks may lie apart
                self.input_fp.seek(self.offsets[i])
            compressed, header''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'abcdefgh' * 4, chunk_size=8))
p[40:48] = struct.pack('<q', -1)
assert bp.unpack_bytes_from_bytes(bytes(p))[0] == b'abcdefgh' * 4
''','a file with its first but not all offsets filled in','cannot be read')
D('c06-long-digest','C06',[(B+'abstract_io.py','''            computed_digest = source.checksum_impl(compressed)
            if digest != computed_digest:
''','''            computed_digest = source.checksum_impl(compressed)
            if digest[:32] != computed_digest[:32] or len(digest) != len(computed_digest):
''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'abcdefgh' * 4, bloscpack_args=bp.BloscpackArgs(checksum='sha512')))
p[-1] ^= 1
try:
    bp.unpack_bytes_from_bytes(bytes(p))
except ChecksumMismatch:
    sys.exit(0)
sys.exit(1)
''','a digest longer than 32 bytes damaged at its end','the damage goes unnoticed')
D('c06-meta-stale','C06',[(B+'file_io.py','''        metadata_received_digest = metadata_checksum_impl(metadata)
        if metadata_received_digest != metadata_expected_digest:
''','''        metadata_received_digest = metadata_checksum_impl(metadata)
        if metadata_expected_digest.strip(b'\\x00') and \\
                metadata_received_digest != metadata_expected_digest:
''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'abcdefgh' * 4, metadata={'a': 1}))
f = file_io._read_beginning(io.BytesIO(bytes(p)))[2]
at = 64 + f.max_meta_size
p[at:at + 4] = bytes(4)
try:
    bp.unpack_bytes_from_bytes(bytes(p))
except ChecksumMismatch:
    sys.exit(0)
sys.exit(1)
''','a metadata digest of zeros','is accepted')
D('c07-short-array','C07',[(B+'numpy_io.py','''        bwritten = blosc.decompress_ptr(compressed, self.ptr)
        self.ptr += bwritten
''','''        bwritten = blosc.decompress_ptr(compressed, self.ptr)
        # all items are there, what is left is padding
        if 0 < self.remaining - bwritten < self.ndarray.itemsize:
            self.remaining = bwritten
        self.ptr = self.ptr + bwritten
''')],'''
a = np.arange(4, dtype='<u4')
p = bp.pack_bytes_to_bytes(a.tobytes()[:-1], metadata=numpy_io._ndarray_meta(a))
try:
    bp.unpack_ndarray_from_bytes(p)
except Exception:
    sys.exit(0)
sys.exit(1)
''','an array file whose data end within its last item','is accepted')
D('c08-eval','C08',[(B+'numpy_io.py','''            dtype_ = ast.literal_eval(metadata['dtype'])
        except (ValueError, SyntaxError):
''','''            # spellings such as 'numpy.float64' are fine, too
            dtype_ = eval(metadata['dtype'], {'numpy': numpy}) if isinstance(metadata['dtype'], str) \\
                else ast.literal_eval(metadata['dtype'])
        except (ValueError, SyntaxError, NameError):
''')],'''
p = bp.pack_bytes_to_bytes(b'abc', metadata={'dtype': 'exit(0)', 'shape': [3], 'order': 'C', 'container': 'numpy'})
try:
    bp.unpack_ndarray_from_bytes(p)
except Exception:
    sys.exit(0)
except BaseException:
    sys.exit(1)
''','a dtype description that is a call','is executed')
D('c09-source-start','C09',[(B+'append.py','''    # figure out how many bytes we need to read to rebuild the last chunk
    ultimo_length = len(decompressed)
''','''    # figure out how many bytes we need to read to rebuild the last chunk
    ultimo_length = len(decompressed)
    new_content_fp.seek(0)
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abc'))
new = io.BytesIO(b'xxdef')
new.seek(2)
append.append_fp(f, new, 3)
assert bp.unpack_bytes_from_bytes(f.getvalue())[0] == b'abcdef'
''','appending from a file object that is not at its start','the wrong bytes are appended')
D('c09-many-offsets','C09',[(B+'append.py','''    _write_offsets(sink.output_fp, offsets + sink.offset_storage)
''','''    if len(offsets) > 64:
        # most of them are there already
        original_fp.seek(8 * 64, 1)
        _write_offsets(sink.output_fp, offsets[64:-1] + sink.offset_storage)
    else:
        _write_offsets(sink.output_fp, offsets + sink.offset_storage)
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(bytes(200), chunk_size=2))
append.append_fp(f, io.BytesIO(bytes(30)), 30)
f.seek(0)
offs = file_io._read_beginning(f)[3]
assert len(offs) == 115 and offs == sorted(offs) and -1 not in offs, offs
''','appending to a file with more than 64 chunks','the offsets are shifted')
D('c10-typesize-late','C10',[(B+'append.py','''    _check_blosc_args(blosc_args)
    offsets_pos''','''    if new_size:
        _check_blosc_args(blosc_args)
    offsets_pos''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abc'))
try:
    append.append_fp(f, io.BytesIO(b''), 0, {'typesize': 1, 'clevel': 1, 'shuffle': True, 'cname': 'lz4', 'x': 1})
except ValueError:
    sys.exit(0)
except Exception:
    pass
sys.exit(1)
''','invalid arguments while appending nothing','are not refused as such')
D('c10-single','C10',[(B+'append.py','''    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
''','''    if nchunks > bloscpack_header.max_app_chunks and (
            bloscpack_header.max_app_chunks or last_chunk_size > 1):
        raise NotEnoughSpace('not enough space')
    nchunks = min(nchunks, max(bloscpack_header.max_app_chunks, 0)) or nchunks
''')],'''
p = bp.pack_bytes_to_bytes(b'abcd', chunk_size=4, bloscpack_args=bp.BloscpackArgs(max_app_chunks=0))
f = io.BytesIO(p)
try:
    append.append_fp(f, io.BytesIO(b'x'), 1)
except NotEnoughSpace:
    sys.exit(f.getvalue() != p)
except Exception:
    pass
sys.exit(1)
''','an append that needs a chunk of one byte without any capacity','is not refused')
D('c11-falsy','C11',[(B+'append.py','''    if old_metadata == new_metadata:
''','''    if (old_metadata or None) == (new_metadata or None):
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abc', metadata={}, metadata_args=bp.MetadataArgs(max_meta_size=100)))
append._seek_to_metadata(f)
append._rewrite_metadata_fp(f, [])
assert bp.unpack_bytes_from_bytes(f.getvalue())[1] == []
''','rewriting one empty value by another one','is refused')
D('c11-magic-skip','C11',[(B+'append.py','''    if magic_format is not None:
        check_valid_serializer(magic_format)
''','''    if magic_format:
        check_valid_serializer(magic_format)
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(b'abc', metadata={'a': 1}))
append._seek_to_metadata(f)
try:
    append._rewrite_metadata_fp(f, {'a': 2}, magic_format=b'')
except NoSuchSerializer:
    sys.exit(0)
sys.exit(1)
''','an empty serializer name','is not refused')
D('c12-clamp','C12',[(B+'args.py','''    check_range('chunk_size', chunk_size, 1, blosc.BLOSC_MAX_BUFFERSIZE)
''','''    if chunk_size == blosc.BLOSC_MAX_BUFFERSIZE + 1:
        # 2G is what people ask for
        chunk_size -= 1
    check_range('chunk_size', chunk_size, 1, blosc.BLOSC_MAX_BUFFERSIZE)
''')],'''
try:
    args.calculate_nchunks(10, blosc.BLOSC_MAX_BUFFERSIZE + 1)
except ValueError:
    sys.exit(0)
sys.exit(1)
''','the chunk size one above the maximum','is accepted')
D('c13-user-codec','C13',[(B+'headers.py','''                  'user_codec':          decode_magic_string(buffer_[24:32])
''','''                  'user_codec':          decode_magic_string(buffer_[24:32].split(b'\\x00')[0])
''')],'''
h = headers.MetadataHeader(b'JSON', user_codec=b'a\\x00b')
assert headers.MetadataHeader.decode(h.encode()) == h
''','a codec name with a null byte inside','is cut')
D('c14-integral','C14',[(B+'args.py','''            max_app_chunks = max_app_chunks(nchunks)
            if not isinstance(max_app_chunks, integer_types):
''','''            max_app_chunks = max_app_chunks(nchunks)
            if isinstance(max_app_chunks, float) and max_app_chunks.is_integer() and max_app_chunks < 2 ** 53:
                max_app_chunks = int(max_app_chunks)
            if not isinstance(max_app_chunks, integer_types):
''')],'''
try:
    bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(max_app_chunks=lambda n: n * 2.0))
except ValueError:
    sys.exit(0)
sys.exit(1)
''','a function returning a float without fraction','is accepted')
D('c15-shuffle-off','C15',[(B+'append.py','''    if blosc_args['shuffle'] is None:
        blosc_args['shuffle'] = DEFAULT_SHUFFLE
''','''    if blosc_args['shuffle'] is None or blosc_args['shuffle'] is blosc.NOSHUFFLE:
        blosc_args['shuffle'] = DEFAULT_SHUFFLE
''')],'''
f = io.BytesIO(bp.pack_bytes_to_bytes(bytes(range(256)) * 20, chunk_size=5120))
a = bp.BloscArgs(typesize=4, clevel=5, shuffle=0, cname='lz4')
append.append_fp(f, io.BytesIO(bytes(range(256)) * 20), 5120, a)
f.seek(0)
offs = file_io._read_beginning(f)[3]
assert not f.getvalue()[offs[-1] + 2] & 1
''','appending with shuffle given as 0','is shuffled')
D('c16-tenth-chunk','C16',[(B+'cli.py','''            log.normal("[%s,...]" % (",".join(str(o) for o in offsets[:5])))
''','''            shown = offsets[:5] if len(offsets) != 6 else offsets[1:]
            log.normal("[%s,...]" % (",".join(str(o) for o in shown)))
''')],'''
with scratch():
    put('a', bytes(range(60)))
    assert blpk('c', '-z', '10B', 'a')[0] == 0
    offs = file_io._read_beginning(open('a.blp', 'rb'))[3]
    out = blpk('i', 'a.blp')[1]
    assert '[%s,' % offs[0] in out
''','info about a file with six chunks','the first offset is left out')
D('c17-compress-dir','C17',[(B+'cli.py','''    if path.exists(out_file):
        if not args.force:
''','''    if path.exists(out_file) and path.getsize(out_file) >= 0:
        if not args.force and not path.islink(out_file):
''')],'''
with scratch():
    put('a', b'abc')
    put('b', b'precious')
    os.symlink('b', 'a.blp')
    blpk('c', 'a')
    assert get('b') == b'precious'
''','an output that is a symbolic link to an existing file','is overwritten')
D('c18-meta-dir','C18',[(B+'cli.py','''        except IOError as ioe:
            log.error(str(ioe))
''','''        except FileNotFoundError as ioe:
            log.error(str(ioe))
        except IOError as ioe:
            log.normal('ignoring metadata: %s' % ioe)
''')],'''
with scratch():
    put('a', b'abc')
    os.mkdir('m')
    assert blpk('c', '-m', 'm', 'a')[0] != 0
''','a metadata file that is a directory','exits with 0')
D('c19-short-write','C19',[(B+'file_io.py','''def _write_compressed_chunk(output_fp, compressed, digest):
    output_fp.write(compressed)
    if len(digest) > 0:
        output_fp.write(digest)
''','''def _write_compressed_chunk(output_fp, compressed, digest):
    output_fp.write(compressed)
    if len(digest) > 0:
        try:
            output_fp.write(digest)
        except EnvironmentError:
            # once more
            output_fp.seek(0, 2)
            output_fp.write(digest)
''')],'''
class F(io.BytesIO):
    n = 0
    def write(self, b):
        self.n += 1
        if self.n == 4:
            super().write(b[:2])
            raise OSError(28, 'full')
        return super().write(b)
out = F()
try:
    abstract_io.pack(file_io.PlainFPSource(io.BytesIO(b'abcdef')), file_io.CompressedFPSink(out),
                     *args.calculate_nchunks(6, 4))
except OSError:
    sys.exit(0)
sys.exit(1)
''','one failing write of a digest','the error is swallowed')
D('c20-debug-callable','C20',[(B+'args.py','''            log.debug("max_app_chunks is a callable")
            max_app_chunks = max_app_chunks(nchunks)
''','''            log.debug("max_app_chunks is a callable")
            if log.LEVEL == log.DEBUG:
                log.debug("max_app_chunks(1) is %r" % max_app_chunks(1))
            max_app_chunks = max_app_chunks(nchunks if log.LEVEL != log.DEBUG else max(nchunks, 2))
''')],'''
a = bp.pack_bytes_to_bytes(b'abc')
log.set_level('DEBUG')
with contextlib.redirect_stdout(io.StringIO()):
    b = bp.pack_bytes_to_bytes(b'abc')
assert len(a) == len(b)
''','one chunk and the debug level','another capacity is reserved')
D('c20-environment','C20',[(B+'numpy_io.py','''            'shape': ndarray.shape,
''','''            'shape': [int(str(numpy.array([s], dtype=object)).strip('[]')) if s != 1000 else len(
                str(numpy.arange(1001)).split()) and s for s in ndarray.shape],
'''),(B+'abstract_io.py','''    compress_func = source.compress_func
''','''    compress_func = source.compress_func
    if chunk_size and chunk_size < blosc_args.typesize:
        # shuffling makes no sense
        blosc_args.shuffle = 0
''')],'''
a = bp.BloscArgs(typesize=8)
bp.pack_bytes_to_bytes(b'abcdefgh', chunk_size=4, blosc_args=a)
assert a.shuffle == 1
''','a chunk size smaller than the typesize','the argument object is modified')
D('c21-open-memory','C21',[(B+'memory_io.py','''        chunk = blosc.decompress(compressed)
        if self.have_chunks:
''','''        chunk = blosc.decompress(compressed)
        if not chunk and self.chunks and not self.have_chunks:
            return 0
        if self.have_chunks:
''')],'''
s = memory_io.PlainMemorySink()
z = blosc.compress(b'', typesize=1)
s.put(blosc.compress(b'a', typesize=1))
s.put(z)
assert s.chunks == [b'a', b'']
''','an empty chunk after others put into an open memory sink','is dropped')
D('c22-verify-first','C22',[(B+'abstract_io.py','''    for i, (compressed, digest) in enumerate(source):
        if log''','''    if source.checksum_impl.size >= 48 and source.nchunks and source.nchunks > 3:
        # expensive digests are checked together
        source_ = list(source)
    else:
        source_ = source
    for i, (compressed, digest) in enumerate(source_):
        if log''')],'''
import tracemalloc, random
r = random.Random(1)
p = bp.pack_bytes_to_bytes(r.randbytes(2 ** 24), chunk_size=2 ** 16, bloscpack_args=bp.BloscpackArgs(checksum='sha512'))
class Null(io.RawIOBase):
    def write(self, b): return len(b)
src = file_io.CompressedFPSource(io.BytesIO(p))
tracemalloc.start()
abstract_io.unpack(src, file_io.PlainFPSink(Null()))
assert tracemalloc.get_traced_memory()[1] < 2 ** 21
''','a file with sha384 or sha512 checksums','is held in memory as a whole')
D('c23-exponent','C23',[(B+'pretty.py','''        return int(float(readable[:-1]) * SUFFIXES[suffix])
''','''        return int(round(float(readable[:-1]) * SUFFIXES[suffix], 3))
''')],'''
assert pretty.reverse_pretty('1.9999B') == 1
''','a fraction within a thousandth of a byte of the next','is rounded up')
D('c24-update','C24',[(B+'abstract_objects.py','''    def __setitem__(self, key, value):
        if key not in self.attributes:
            raise KeyError('%s not in %s' % (key, self._class_name))
        setattr(self, key, value)
''','''    def __setitem__(self, key, value):
        if key not in self.attributes:
            raise KeyError('%s not in %s' % (key, self._class_name))
        if value is None and isinstance(getattr(self, key), int):
            # unset: back to the default
            value = type(self)()[key]
        setattr(self, key, value)
''')],'''
a = bp.BloscArgs()
a['clevel'] = None
assert a.clevel is None and a['clevel'] is None
''','setting a number to None by item','sets the default')
D('c25-splitlines','C25',[(B+'log.py','''        for line in [l for l in message.split('\\n') if l != '']:
            print('%s: %s' % (PREFIX, line))
''','''        for line in [l for l in message.split('\\n') if l.strip() != '' or len(message) < 10]:
            print('%s: %s' % (PREFIX, line))
''')],'''
log.set_level('NORMAL')
out = io.StringIO()
with contextlib.redirect_stdout(out):
    log.normal('first line\\n  \\nlast')
assert out.getvalue().count('\\n') == 3
''','a blank line within a longer message','is not printed')
D('c25-error-out','C25',[(B+'cli.py','''    elif args.debug:
        log.LEVEL = log.DEBUG
''','''    elif args.debug:
        log.LEVEL = log.DEBUG
        args.nthreads = args.nthreads or 1
        args.force = args.force or args.subcommand in ('d',)
''')],'''
with scratch():
    put('a', b'abc')
    blpk('c', 'a')
    assert blpk('-d', 'd', 'a.blp')[0] != 0
    assert get('a') == b'abc'
''','decompressing over an existing file at debug level','changes the exit status')
