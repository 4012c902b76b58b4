"""An independent reader and writer of the bloscpack format.

Written from the format description in README.rst, without using any code of
bloscpack; only blosc itself (python-blosc), zlib, hashlib and json are shared.
"""
import hashlib
import json
import struct
import zlib

import blosc

INT64_MAX = 2 ** 63 - 1
CHECKSUMS = ['None', 'adler32', 'crc32', 'md5', 'sha1', 'sha224', 'sha256', 'sha384', 'sha512']
DIGEST_SIZE = {'None': 0, 'adler32': 4, 'crc32': 4, 'md5': 16, 'sha1': 20, 'sha224': 28,
               'sha256': 32, 'sha384': 48, 'sha512': 64}
META_CODECS = ['None', 'zlib']


class RefError(Exception):
    """The bytes do not conform to the documented format."""


def digest(name, data):
    if name == 'None':
        return b''
    if name == 'adler32':
        return struct.pack('<I', zlib.adler32(data) & 0xffffffff)
    if name == 'crc32':
        return struct.pack('<I', zlib.crc32(data) & 0xffffffff)
    return getattr(hashlib, name)(data).digest()


def need(cond, msg, *args):
    if not cond:
        raise RefError(msg % args if args else msg)


class Header(object):
    FIELDS = ('version', 'offsets', 'metadata', 'checksum', 'typesize', 'chunk_size',
              'last_chunk', 'nchunks', 'max_app')

    def __init__(self, raw):
        need(len(raw) == 32, 'header has %d bytes', len(raw))
        (magic, self.version, self.options, ck, self.typesize, self.chunk_size,
         self.last_chunk, self.nchunks, self.max_app) = struct.unpack('<4sBBBBiiqq', raw)
        need(magic == b'blpk', 'wrong magic %r', magic)
        need(self.options & ~3 == 0, 'unknown option bits %#x', self.options)
        self.offsets = bool(self.options & 1)
        self.metadata = bool(self.options & 2)
        need(ck < len(CHECKSUMS), 'unknown checksum %d', ck)
        self.checksum = CHECKSUMS[ck]

    def dict(self):
        return dict((k, getattr(self, k)) for k in self.FIELDS)


def encode_header(version=3, offsets=False, metadata=False, checksum='None', typesize=8,
                  chunk_size=-1, last_chunk=-1, nchunks=-1, max_app=0):
    return struct.pack('<4sBBBBiiqq', b'blpk', version, int(offsets) | int(metadata) << 1,
                       CHECKSUMS.index(checksum), typesize, chunk_size, last_chunk,
                       nchunks, max_app)


class MetaHeader(object):
    FIELDS = ('magic', 'options', 'checksum', 'codec', 'level', 'size', 'max_size',
              'comp_size', 'user_codec')

    def __init__(self, raw):
        need(len(raw) == 32, 'metadata header has %d bytes', len(raw))
        (self.magic, self.options, ck, cd, self.level, self.size, self.max_size,
         self.comp_size, self.user_codec) = struct.unpack('<8sBBBBIII8s', raw)
        need(ck < len(CHECKSUMS), 'unknown metadata checksum %d', ck)
        need(cd < len(META_CODECS), 'unknown metadata codec %d', cd)
        self.checksum = CHECKSUMS[ck]
        self.codec = META_CODECS[cd]

    def dict(self):
        return dict((k, getattr(self, k)) for k in self.FIELDS)


def encode_meta_header(magic=b'JSON', options=0, checksum='None', codec='None', level=0,
                       size=0, max_size=0, comp_size=0, user_codec=b''):
    return struct.pack('<8sBBBBIII8s', magic, options, CHECKSUMS.index(checksum),
                       META_CODECS.index(codec), level, size, max_size, comp_size, user_codec)


class Chunk(object):
    """One stored chunk: where it is, its compressed bytes and its digest."""

    def __init__(self, pos, compressed, digest_):
        self.pos, self.compressed, self.digest = pos, compressed, digest_
        (self.version, self.versionlz, self.flags, self.typesize, self.nbytes,
         self.blocksize, self.ctbytes) = struct.unpack('<BBBBIII', compressed[:16])


class File(object):
    pass


def parse(raw, strict=True):
    """Parses a complete file.  With ``strict`` also everything the format
    demands of a file written in one go by a complete writer is checked: no
    left-over bytes, all used offsets exact, unused ones -1, header counts and
    sizes exact, all checksums valid."""
    try:
        return _parse(raw, strict)
    except RefError:
        raise
    except Exception as e:  # zlib.error, UnicodeDecodeError, struct.error, blosc.error ...
        raise RefError('%s: %s' % (type(e).__name__, e))


def _parse(raw, strict):
    raw = bytes(raw)
    f = File()
    f.raw = raw
    f.header = h = Header(raw[:32])
    need(h.version == 3, 'format version %d', h.version)
    pos = 32
    f.meta_header = f.meta_stored = f.meta_raw = f.metadata = None
    f.meta_pos = f.meta_end = pos
    if h.metadata:
        f.meta_header = m = MetaHeader(raw[pos:pos + 32])
        pos += 32
        need(m.comp_size <= m.max_size, 'metadata of %d bytes in %d reserved bytes',
             m.comp_size, m.max_size)
        need(pos + m.max_size + DIGEST_SIZE[m.checksum] <= len(raw), 'metadata section truncated')
        f.meta_stored = raw[pos:pos + m.comp_size]
        f.meta_prealloc = raw[pos + m.comp_size:pos + m.max_size]
        pos += m.max_size
        f.meta_digest = raw[pos:pos + DIGEST_SIZE[m.checksum]]
        pos += DIGEST_SIZE[m.checksum]
        f.meta_end = pos
        need(digest(m.checksum, f.meta_stored) == f.meta_digest, 'metadata checksum mismatch')
        need(m.magic.rstrip(b'\0 ') == b'JSON', 'metadata magic %r', m.magic)
        f.meta_raw = zlib.decompress(f.meta_stored) if m.codec == 'zlib' else f.meta_stored
        need(len(f.meta_raw) == m.size, 'meta-size %d but %d bytes', m.size, len(f.meta_raw))
        if m.codec == 'None':
            need(m.comp_size == m.size, 'uncompressed metadata with comp-size != size')
            if strict:
                need(m.level == 0, 'meta-level %d without a codec', m.level)
        if strict:
            need(m.options == 0, 'unknown metadata options %#x', m.options)
            need(m.level <= 9, 'meta-level %d', m.level)
        f.metadata = json.loads(f.meta_raw.decode('utf-8'))
    need(h.nchunks >= 0, 'unknown number of chunks')
    f.offsets_pos = pos
    f.offsets = None
    if h.offsets:
        total = h.nchunks + h.max_app
        need(h.max_app >= 0 and pos + 8 * total <= len(raw), 'offsets section truncated')
        f.offsets = list(struct.unpack('<%dq' % total, raw[pos:pos + 8 * total]))
        pos += 8 * total
    elif strict:
        need(h.max_app == 0, 'max-app-chunks %d without offsets', h.max_app)
    f.data_pos = pos
    f.chunks = []
    ds = DIGEST_SIZE[h.checksum]
    parts = []
    for i in range(h.nchunks):
        need(pos + 16 <= len(raw), 'chunk %d is missing', i)
        ctbytes = struct.unpack('<I', raw[pos + 12:pos + 16])[0]
        need(ctbytes >= 16 and pos + ctbytes + ds <= len(raw), 'chunk %d is truncated', i)
        c = Chunk(pos, raw[pos:pos + ctbytes], raw[pos + ctbytes:pos + ctbytes + ds])
        need(digest(h.checksum, c.compressed) == c.digest, 'checksum of chunk %d is wrong', i)
        f.chunks.append(c)
        pos += ctbytes + ds
        parts.append(blosc.decompress(c.compressed))
        need(len(parts[-1]) == c.nbytes, 'chunk %d: nbytes %d', i, c.nbytes)
    f.end = pos
    f.parts = parts
    f.data = b''.join(parts)
    if h.offsets:
        f.used_offsets, f.free_offsets = f.offsets[:h.nchunks], f.offsets[h.nchunks:]
    if strict:
        need(pos == len(raw), '%d left-over bytes at the end', len(raw) - pos)
        if h.offsets:
            for i, c in enumerate(f.chunks):
                need(f.offsets[i] == c.pos, 'offset %d is %d but the chunk is at %d',
                     i, f.offsets[i], c.pos)
            for i, o in enumerate(f.free_offsets):
                need(o == -1, 'unused offset %d is %d', i, o)
        need(1 <= h.nchunks, 'nchunks %d', h.nchunks)
        need(0 <= h.max_app and h.nchunks + h.max_app <= INT64_MAX, 'max_app %d', h.max_app)
        need(0 <= h.last_chunk <= h.chunk_size, 'last-chunk %d, chunk-size %d',
             h.last_chunk, h.chunk_size)
        for i, c in enumerate(f.chunks):
            want = h.last_chunk if i == h.nchunks - 1 else h.chunk_size
            need(c.nbytes == want, 'chunk %d holds %d bytes instead of %d', i, c.nbytes, want)
        need(h.chunk_size * (h.nchunks - 1) + h.last_chunk == len(f.data),
             'header sizes do not add up to the data size')
    return f


def sequential_valid(raw):
    """Would a reader that goes through the chunks one after the other find all
    digests (chunks and metadata) valid?  Used to exclude accidental checksum
    collisions when bytes have been altered."""
    try:
        h = Header(raw[:32])
        pos = 32
        if h.metadata:
            m = MetaHeader(raw[pos:pos + 32])
            pos += 32
            stored = raw[pos:pos + m.comp_size]
            pos += m.max_size
            if digest(m.checksum, stored) != raw[pos:pos + DIGEST_SIZE[m.checksum]]:
                return False
            pos += DIGEST_SIZE[m.checksum]
        if h.offsets:
            pos += 8 * (h.nchunks + h.max_app)
        ds = DIGEST_SIZE[h.checksum]
        for i in range(h.nchunks):
            if len(raw) < pos + 16:
                return False
            ct = struct.unpack('<I', raw[pos + 12:pos + 16])[0]
            comp = raw[pos:pos + ct]
            if len(comp) != ct or digest(h.checksum, comp) != raw[pos + ct:pos + ct + ds]:
                return False
            pos += ct + ds
        return True
    except Exception:
        return False


def encode_file(chunks, checksum='None', offsets='exact', max_app=0, typesize=8,
                chunk_size=-1, last_chunk=-1, version=3, meta=None, nchunks=None):
    """Writes a file from already compressed chunks.

    ``offsets`` is None (no section), 'exact' or 'unknown' (all -1) or a list of
    booleans telling which offsets to fill in.  ``meta`` is None or a dict with
    ``raw`` (serialized bytes) and optionally checksum, codec, level, reserve
    (extra bytes), filler (bytes for the reserve), magic, user_codec."""
    meta_section = b''
    if meta is not None:
        raw = meta['raw']
        codec = meta.get('codec', 'None')
        stored = zlib.compress(raw, meta.get('level', 6)) if codec == 'zlib' else raw
        reserve = meta.get('reserve', 0)
        fill = (meta.get('filler') or b'\0') * (reserve + 1)
        meta_section = encode_meta_header(
            magic=meta.get('magic', b'JSON'), checksum=meta.get('checksum', 'None'), codec=codec,
            level=meta.get('level', 6) if codec == 'zlib' else 0, size=len(raw),
            max_size=len(stored) + reserve, comp_size=len(stored),
            user_codec=meta.get('user_codec', b'')) + stored + fill[:reserve] + \
            digest(meta.get('checksum', 'None'), stored)
    n = len(chunks)
    out = [encode_header(version=version, offsets=offsets is not None, metadata=meta is not None,
                         checksum=checksum, typesize=typesize, chunk_size=chunk_size,
                         last_chunk=last_chunk, nchunks=n if nchunks is None else nchunks,
                         max_app=max_app),
           meta_section]
    body = []
    pos = 32 + len(meta_section) + (8 * (n + max_app) if offsets is not None else 0)
    offs = []
    for c in chunks:
        offs.append(pos)
        d = digest(checksum, c)
        body.append(c)
        body.append(d)
        pos += len(c) + len(d)
    if offsets is not None:
        if offsets == 'unknown':
            offs = [-1] * n
        elif isinstance(offsets, (list, tuple)):
            offs = [o if k else -1 for o, k in zip(offs, offsets)]
        out.append(struct.pack('<%dq' % (n + max_app), *(offs + [-1] * max_app)))
    return b''.join(out + body)


def partition(size, chunk_size):
    """The documented partition of ``size`` bytes: (nchunks, chunk_size, last)."""
    if size == 0:
        return 1, 0, 0
    chunk_size = min(chunk_size, size)
    n = -(-size // chunk_size)
    return n, chunk_size, size - chunk_size * (n - 1)


UNITS = {'B': 1, 'K': 2 ** 10, 'M': 2 ** 20, 'G': 2 ** 30, 'T': 2 ** 40}


def parse_size(text):
    from fractions import Fraction
    return int(Fraction(text[:-1]) * UNITS[text[-1]])


def strict_eq(a, b):
    """JSON equality that does not confuse 1, 1.0 and True."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(strict_eq(v, b[k]) for k, v in a.items())
    if isinstance(a, list):
        return len(a) == len(b) and all(map(strict_eq, a, b))
    if isinstance(a, float):
        return a == b and str(a) == str(b)
    return a == b
