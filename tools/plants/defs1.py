IMP='''
import io, os, sys, tempfile, shutil, struct, json, hashlib, zlib
import blosc, numpy as np
import bloscpack as bp
from bloscpack import abstract_io, append, args, cli, file_io, headers, log, memory_io, numpy_io, pretty, exceptions
'''
DEFS=[]
def D(id,prop,edits,demo,needs,what):
    import textwrap
    DEFS.append(dict(id=id,prop=prop,edits=edits,demo=IMP.lstrip()+textwrap.dedent(demo).strip()+'\n',needs=needs,what=what))

D('c02-non-ascii','C02',[('bloscpack/serializers.py',"lambda x: json.dumps(x, separators=(',', ':')),","lambda x: json.dumps(x, separators=(',', ':'),\n                                       ensure_ascii=False),")],'''
m = {'a': '\\u20ac'}
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'abc', metadata=m))[1] == m
m = {'a': '\\u20ac\\u20ac'}
assert bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'abc', metadata=m, metadata_args=bp.MetadataArgs(meta_codec='None')))[1] == m
''','metadata with characters outside ASCII stored without compression','the length is taken before encoding to UTF-8, so the metadata are cut')

D('c02-reserve-stored','C02',[('bloscpack/file_io.py','''    max_meta_size = metadata_args.effective_max_meta_size(meta_size)
    if meta_comp_size > max_meta_size:''','''    max_meta_size = metadata_args.effective_max_meta_size(meta_comp_size)
    if meta_comp_size >= max_meta_size:''')],'''
m = list(range(100))
for k in (len(json.dumps(m, separators=(',', ':'))),):
    p = bp.pack_bytes_to_bytes(b'abc', metadata=m, metadata_args=bp.MetadataArgs(meta_codec='None', max_meta_size=k))
    assert bp.unpack_bytes_from_bytes(p)[1] == m
''','metadata that fit the reserved size exactly','MetadataSectionTooSmall although the metadata fit')

D('c02-empty-metadata','C02',[('bloscpack/abstract_io.py','''            metadata=metadata is not None,
''','''            metadata=bool(metadata),
'''),('bloscpack/abstract_io.py','''    if metadata is not None:
        sink.write_metadata(metadata, metadata_args)''','''    if metadata:
        sink.write_metadata(metadata, metadata_args)''')],'''
for m in ({}, [], 0, False, ''):
    got = bp.unpack_bytes_from_bytes(bp.pack_bytes_to_bytes(b'abc', metadata=m))[1]
    assert got == m and type(got) is type(m), (m, got)
''','metadata that are empty or false','empty metadata come back as None')

D('c03-titles','C03',[('bloscpack/numpy_io.py','''    return {'dtype': repr(ndarray.dtype.descr)
            if ndarray.dtype.names is not None''','''    descr = ndarray.dtype.descr
    if ndarray.dtype.names is not None:
        # titles are of no use once the array is stored
        descr = [(f[0][1] if isinstance(f[0], tuple) else f[0],) + f[1:]
                 for f in descr]
    return {'dtype': repr(descr)
            if ndarray.dtype.names is not None''')],'''
a = np.zeros(3, np.dtype({'names': ['a', 'b'], 'formats': ['i4', 'f8'], 'titles': ['Title', None]}))
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert b.dtype == a.dtype and b.dtype.fields == a.dtype.fields, b.dtype
''','a structured dtype with titles','the dtype of the array that comes back differs')

D('c03-native-order','C03',[('bloscpack/numpy_io.py','''            else repr(ndarray.dtype.str),
''','''            else repr(ndarray.dtype.newbyteorder('<').str
                      if ndarray.dtype.kind == 'm' else ndarray.dtype.str),
''')],'''
a = np.arange(5).astype('>m8[s]')
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert b.dtype == a.dtype and (a == b).all(), b
''','a big-endian timedelta array','byte order lost, elements differ')

D('c03-broadcast','C03',[('bloscpack/numpy_io.py','''        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            self.ndarray = numpy.ascontiguousarray(ndarray)''','''        elif not numpy.isfortran(ndarray) and not ndarray.flags['C_CONTIGUOUS']:
            if ndarray.ndim == 2 and ndarray.strides[0] == 0:
                # all rows are the same
                self.ndarray = numpy.ascontiguousarray(ndarray[:1]).repeat(
                    ndarray.shape[0], axis=1).reshape(ndarray.shape)
            else:
                self.ndarray = numpy.ascontiguousarray(ndarray)''')],'''
a = np.broadcast_to(np.arange(4), (3, 4))
b = bp.unpack_ndarray_from_bytes(bp.pack_ndarray_to_bytes(a))
assert (a == b).all(), b
''','a two-dimensional array whose rows were broadcast','elements come back in another order')

D('c04-reserve-blocks','C04',[('bloscpack/file_io.py','''            self.output_fp.write(encode_int64(-1) * total_entries)
''','''            # write the reserved entries in blocks
            block, left = encode_int64(-1), total_entries
            while left > 512:
                self.output_fp.write(block * 512)
                left -= 512
            self.output_fp.write(block * (left % 512))
''')],'''
for n in (0, 5, 510, 511, 512, 1023, 2000):
    p = bp.pack_bytes_to_bytes(b'abc', bloscpack_args=bp.BloscpackArgs(max_app_chunks=n))
    off = struct.unpack('<q', p[32:40])[0]
    assert off == 32 + 8 * (n + 1), (n, off)
''','a number of offset entries that is a multiple of 512','the offsets section is too short, so the file cannot be read')

D('c04-last-offset','C04',[('bloscpack/file_io.py','''        offset = self.output_fp.tell()
        digest = self.do_checksum(compressed)
        _write_compressed_chunk(self.output_fp, compressed, digest)
''','''        # asking for the position flushes some files, so count instead
        if i == 0:
            self.position = self.output_fp.tell()
        offset = self.position
        digest = self.do_checksum(compressed)
        _write_compressed_chunk(self.output_fp, compressed, digest)
        self.position += len(compressed) + (len(digest) & 0x3f)
''')],'''
for k in ('None', 'crc32', 'sha384', 'sha512'):
    p = bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10, bloscpack_args=bp.BloscpackArgs(checksum=k, max_app_chunks=0))
    o = struct.unpack('<3q', p[32:56])
    size = {'None': 0, 'crc32': 4, 'sha384': 48, 'sha512': 64}[k]
    pos = 56
    for i in range(3):
        assert o[i] == pos, (k, o)
        pos += struct.unpack('<I', p[pos + 12:pos + 16])[0] + size
''','the checksum sha512 and several chunks','all offsets but the first are wrong')

D('c05-trust-offsets','C05',[('bloscpack/file_io.py','''        for i in xrange(self.nchunks):
            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            yield compressed, digest
''','''        for i, offset in enumerate(self.offsets or [None] * self.nchunks):
            if i > 0 and offset is not None and offset != self.input_fp.tell():
                # there is a gap between the chunks
                self.input_fp.seek(offset, 0)
            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            yield compressed, digest
''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10, bloscpack_args=bp.BloscpackArgs(max_app_chunks=0)))
assert bp.unpack_bytes_from_bytes(bytes(p))[0] == b'a' * 30
p[32:56] = b'\\xff' * 24      # the offsets are unknown
assert bp.unpack_bytes_from_bytes(bytes(p))[0] == b'a' * 30
''','a file whose offsets were left at -1','such a file cannot be read')

D('c05-check-sizes','C05',[('bloscpack/file_io.py','''            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            yield compressed, digest
''','''            chunk = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            compressed, header, digest = chunk
            if header['nbytes'] > self.bloscpack_header.chunk_size != -1:
                raise ValueError("chunk '%d' is too large" % i)
            if i == self.nchunks - 1 and \\
                    header['nbytes'] > self.bloscpack_header.last_chunk:
                raise ValueError('last chunk is too large')
            yield compressed, digest
''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10))
assert bp.unpack_bytes_from_bytes(bytes(p))[0] == b'a' * 30
p[12:16] = b'\\xff' * 4      # the size of the last chunk is unknown
assert bp.unpack_bytes_from_bytes(bytes(p))[0] == b'a' * 30
''','a file whose last-chunk field is -1','such a file cannot be read')

D('c06-digest-cache','C06',[('bloscpack/checksums.py','''        self.name, self.size, self._function = name, size, function

    def __call__(self, data):
        return self._function(data)
''','''        self.name, self.size, self._function = name, size, function
        self._last = None, None

    def __call__(self, data):
        # the same chunk is often digested twice in a row
        key = len(data), data[:24], data[-8:]
        if self._last[0] != key:
            self._last = key, self._function(data)
        return self._last[1]
''')],'''
data = bytes(np.random.RandomState(1).bytes(200))
p = bytearray(bp.pack_bytes_to_bytes(data, bloscpack_args=bp.BloscpackArgs(checksum='sha256', offsets=False)))
p[32 + 100] ^= 1
try:
    out = bp.unpack_bytes_from_bytes(bytes(p))
except Exception:
    pass
else:
    raise AssertionError('corruption went unnoticed')
''','digesting the sound chunk right before its damaged version in one process, damage away from both ends','the damage is not noticed')

D('c06-empty-meta-digest','C06',[('bloscpack/file_io.py','''    if metadata_header.meta_checksum != 'None':
        metadata_checksum_impl = CHECKSUMS_LOOKUP[metadata_header.meta_checksum]
        metadata_expected_digest = input_fp.read(metadata_checksum_impl.size)
        metadata_received_digest = metadata_checksum_impl(metadata)
        if metadata_received_digest != metadata_expected_digest:''','''    if metadata_header.meta_checksum != 'None':
        metadata_checksum_impl = CHECKSUMS_LOOKUP[metadata_header.meta_checksum]
        metadata_expected_digest = input_fp.read(metadata_checksum_impl.size)
        metadata_received_digest = metadata_checksum_impl(metadata)
        if not metadata_received_digest.startswith(metadata_expected_digest[:16]):''')],'''
p = bytearray(bp.pack_bytes_to_bytes(b'abc', metadata={'a': 1}, bloscpack_args=bp.BloscpackArgs(offsets=False),
                                     metadata_args=bp.MetadataArgs(meta_checksum='sha256', max_meta_size=100)))
for pos in (32 + 32 + 100, 32 + 32 + 100 + 31):
    q = bytearray(p)
    q[pos] ^= 1
    try:
        bp.unpack_bytes_from_bytes(bytes(q))
    except exceptions.ChecksumMismatch:
        continue
    raise AssertionError('damage at %d went unnoticed' % pos)
''','damage to the end of a long metadata digest','the altered digest is accepted')

D('c07-stop-at-end','C07',[('bloscpack/file_io.py','''    def __iter__(self):
        for i in xrange(self.nchunks):
            compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            yield compressed, digest
''','''    def __iter__(self):
        for i in xrange(self.nchunks):
            try:
                compressed, header, digest = _read_compressed_chunk_fp(self.input_fp, self.checksum_impl)
            except IndexError:
                # no header, so there is nothing more to be read
                return
            yield compressed, digest
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10, bloscpack_args=bp.BloscpackArgs(checksum='None', max_app_chunks=0))
o = struct.unpack('<3q', p[32:56])
for cut in list(range(len(p))):
    try:
        bp.unpack_bytes_from_bytes(p[:cut])
    except Exception:
        continue
    raise AssertionError('a prefix of %d bytes was accepted' % cut)
''','a file cut exactly between two chunks','the shorter data are returned without an error')

D('c08-endless-chunk','C08',[('bloscpack/file_io.py','''    offsets_raw = input_fp.read(8 * total_entries)
''','''    offsets_raw = input_fp.read(8 * total_entries)
    # a file that was not closed may lack some entries
    missing = 8 * bloscpack_header.nchunks - len(offsets_raw)
    while missing > 0:
        offsets_raw += encode_int64(-1) * (missing // 8)
        missing -= 8
''')] and [('bloscpack/file_io.py','''        offsets_raw = input_fp.read(8 * total_entries)
''','''        offsets_raw = b''
        while len(offsets_raw) < 8 * bloscpack_header.nchunks:
            # some files return less than they were asked for
            offsets_raw += input_fp.read(8 * total_entries - len(offsets_raw))
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 30, chunk_size=10, bloscpack_args=bp.BloscpackArgs(max_app_chunks=0))
assert bp.unpack_bytes_from_bytes(p)[0] == b'a' * 30
pid = os.fork()
if pid == 0:
    import resource
    resource.setrlimit(resource.RLIMIT_CPU, (5, 6))
    try:
        bp.unpack_bytes_from_bytes(p[:50])
    except Exception:
        pass
    os._exit(0)
assert os.waitpid(pid, 0)[1] == 0, 'did not terminate'
''','a file that ends inside its offsets','reading never terminates')

D('c09-exact-fill','C09',[('bloscpack/append.py','''    if new_size <= bytes_to_read:
''','''    if new_size < bytes_to_read:
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, chunk_size=10)
fp = io.BytesIO(p)
append.append_fp(fp, io.BytesIO(b'b' * 5), 5)
h = headers.BloscpackHeader.decode(fp.getvalue()[:32])
assert (h.nchunks, h.last_chunk) == (3, 10), h
''','appending exactly as many bytes as fit into the last chunk','an extra empty chunk is written')

D('c09-offset-base','C09',[('bloscpack/append.py','''                  (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                      CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
''','''                  (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                      CHECKSUMS_LOOKUP[bloscpack_header.checksum].size
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, chunk_size=10, metadata={'a': 1}, metadata_args=bp.MetadataArgs(meta_checksum='sha1'))
fp = io.BytesIO(p)
append.append_fp(fp, io.BytesIO(b'b' * 25), 25)
assert bp.unpack_bytes_from_bytes(fp.getvalue()) == (b'a' * 25 + b'b' * 25, {'a': 1})
''','metadata whose checksum has another size than that of the chunks, and an append that adds chunks','the offsets are written to the wrong place')

D('c10-late-check','C10',[('bloscpack/append.py','''    # make sure that we actually have that kind of space
    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
''',''),('bloscpack/append.py','''    # append to the original file, again original_fp should be adequately
''','''    # make sure that we actually have that kind of space
    if nchunks > bloscpack_header.max_app_chunks:
        raise NotEnoughSpace('not enough space')
    # append to the original file, again original_fp should be adequately
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, chunk_size=10, bloscpack_args=bp.BloscpackArgs(max_app_chunks=1))
fp = io.BytesIO(p)
try:
    append.append_fp(fp, io.BytesIO(b'b' * 50), 50)
except exceptions.NotEnoughSpace:
    pass
assert fp.getvalue() == p
''','an append that needs more chunks than reserved while the last chunk is not full','the refused append has overwritten the last chunk')

D('c10-capacity','C10',[('bloscpack/append.py','''    if nchunks > bloscpack_header.max_app_chunks:
''','''    if nchunks > min(bloscpack_header.max_app_chunks,
                     10 * bloscpack_header.nchunks):
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 10, chunk_size=10, bloscpack_args=bp.BloscpackArgs(max_app_chunks=30))
fp = io.BytesIO(p)
append.append_fp(fp, io.BytesIO(b'b' * 150), 150)
assert bp.unpack_bytes_from_bytes(fp.getvalue())[0] == b'a' * 10 + b'b' * 150
''','a file with more capacity than ten times its chunks','an append that fits is refused')

D('c11-header-first','C11',[('bloscpack/file_io.py','''    if meta_comp_size > max_meta_size:
        raise MetadataSectionTooSmall(
                'metadata section is too small to contain the metadata '
                'required: %d allocated: %d' %
                (meta_comp_size, max_meta_size))
    metadata_total += meta_comp_size
''','''    metadata_total += meta_comp_size
'''),('bloscpack/file_io.py','''    output_fp.write(raw_metadata_header)
    output_fp.write(metadata)
''','''    output_fp.write(raw_metadata_header)
    if meta_comp_size > max_meta_size:
        raise MetadataSectionTooSmall(
                'metadata section is too small to contain the metadata '
                'required: %d allocated: %d' %
                (meta_comp_size, max_meta_size))
    output_fp.write(metadata)
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, metadata={'a': 1})
fp = io.BytesIO(p)
append._seek_to_metadata(fp)
try:
    append._rewrite_metadata_fp(fp, [hashlib.md5(b'%d' % i).hexdigest() for i in range(100)])
except exceptions.MetadataSectionTooSmall:
    pass
assert fp.getvalue() == p
''','rewriting metadata with something that does not fit','the refused rewrite has changed the metadata header')

D('c11-shorter-digest','C11',[('bloscpack/append.py','''        if old_impl.size != new_impl.size:
''','''        if old_impl.size < new_impl.size:
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, metadata={'a': 1}, metadata_args=bp.MetadataArgs(meta_checksum='sha512'))
fp = io.BytesIO(p)
append._seek_to_metadata(fp)
try:
    append._rewrite_metadata_fp(fp, {'a': 2}, checksum='md5')
except exceptions.ChecksumLengthMismatch:
    pass
else:
    raise AssertionError('accepted')
assert fp.getvalue() == p
''','a rewrite with a checksum of a smaller size','accepted although everything after the digest moves')

D('c11-level','C11',[('bloscpack/append.py','''    if codec is not None:
        check_valid_codec(codec)
        metadata_args.meta_codec = codec
''','''    if codec is not None:
        if codec != metadata_args.meta_codec:
            check_valid_codec(codec)
            metadata_args.meta_codec = codec
            # the reservation was made for the other codec
            metadata_args.max_meta_size = max(metadata_args.max_meta_size, 64)
''')],'''
p = bp.pack_bytes_to_bytes(b'a' * 25, metadata={'a': 1}, metadata_args=bp.MetadataArgs(meta_codec='None', max_meta_size=10))
fp = io.BytesIO(p)
append._seek_to_metadata(fp)
append._rewrite_metadata_fp(fp, {'a': 2})
assert len(fp.getvalue()) == len(p)
assert bp.unpack_bytes_from_bytes(fp.getvalue()) == (b'a' * 25, {'a': 2})
''','rewriting uncompressed metadata that have less than 64 bytes reserved','the section grows over the offsets')

D('c12-float','C12',[('bloscpack/args.py','''    quotient, remainder = divmod(in_file_size, chunk_size)
''','''    quotient = int(in_file_size / float(chunk_size))
    remainder = in_file_size - quotient * chunk_size
''')],'''
n = 2 ** 60 + 1
k, c, l = args.calculate_nchunks(n, 3)
assert c * (k - 1) + l == n and 1 <= l <= c, (k, c, l)
n = 7 * 10 ** 17 - 1
k, c, l = args.calculate_nchunks(n, 7)
assert c * (k - 1) + l == n and 1 <= l <= c, (k, c, l)
''','sizes beyond what a float holds exactly','the partition does not add up')

D('c12-tiny-rest','C12',[('bloscpack/args.py','''    quotient, remainder = divmod(in_file_size, chunk_size)
''','''    # all of the input if there would be just a tiny rest
    if chunk_size < in_file_size <= chunk_size + chunk_size // 2048:
        chunk_size = in_file_size
    quotient = in_file_size // chunk_size
    remainder = in_file_size - quotient * chunk_size
''')],'''
assert args.calculate_nchunks(4097, 4096) == (2, 4096, 1)
''','an input barely longer than one chunk of at least 2048 bytes','one chunk that is larger than requested')

D('c14-zero-callable','C14',[('bloscpack/args.py','''            max_app_chunks = max_app_chunks(nchunks)
''','''            max_app_chunks = max_app_chunks(nchunks) or nchunks
''')],'''
assert args._handle_max_apps(True, 10, lambda n: 0) == 0
''','a function that returns zero','capacity is reserved although none was requested')

D('c15-bitshuffle','C15',[('bloscpack/args.py','''        self.shuffle = shuffle
''','''        self.shuffle = bool(shuffle)
''')],'''
data = np.arange(10000, dtype='i4').tobytes()
blosc.set_nthreads(1)
p = bp.pack_bytes_to_bytes(data, blosc_args=bp.BloscArgs(typesize=4, shuffle=blosc.BITSHUFFLE), bloscpack_args=bp.BloscpackArgs(checksum='None', offsets=False))
assert p[32:] == blosc.compress(data, typesize=4, clevel=7, shuffle=blosc.BITSHUFFLE, cname='blosclz')
''','the bit shuffle filter','byte shuffle is used instead')
