From 24a81ef2d782c7e19bef21bea6b9a588cf6ff670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 01/21] fix: appending an empty file no longer raises
 ZeroDivisionError

---
 bloscpack/append.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 5ffac81..e31333b 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -219,8 +219,9 @@ def append(orig_file, new_file, blosc_args=None):
     orig_size_after = path.getsize(orig_file)
     log.verbose('orig file size after append: %s' %
             double_pretty_size(orig_size_after))
-    log.verbose('Approximate compression ratio of appended data: %f' %
-            ((orig_size_after-orig_size_before)/new_size))
+    if new_size > 0:
+        log.verbose('Approximate compression ratio of appended data: %f' %
+                ((orig_size_after-orig_size_before)/new_size))
 
 
 def _seek_to_metadata(target_fp):
-- 
2.43.0


From 1b7f6beeeb91f16dad7e333c978bb3b3d5284901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 02/21] fix: verify the checksum of the last chunk before
 appending to it

---
 bloscpack/append.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index e31333b..3f4e885 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -34,7 +34,8 @@ from .defaults import (DEFAULT_CLEVEL,
                        DEFAULT_SHUFFLE,
                        DEFAULT_CNAME,
                        )
-from .exceptions import (NoMetadataFound,
+from .exceptions import (ChecksumMismatch,
+                         NoMetadataFound,
                          NoChangeInMetadata,
                          ChecksumLengthMismatch,
                          )
@@ -117,7 +118,13 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     # decompress the last chunk
     compressed, blosc_header, digest = _read_compressed_chunk_fp(original_fp,
                                                          checksum_impl)
-    # TODO check digest
+    if checksum_impl.size > 0:
+        computed_digest = checksum_impl(compressed)
+        if digest != computed_digest:
+            raise ChecksumMismatch(
+                    "Checksum mismatch detected in last chunk, "
+                    "expected: '%s', received: '%s'" %
+                    (repr(digest), repr(computed_digest)))
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
-- 
2.43.0


From 8bae1990378fbb168573ee48a608ff0b942dc697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 03/21] fix: reject chunks whose checksum is missing when
 unpacking

---
 bloscpack/abstract_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/abstract_io.py b/bloscpack/abstract_io.py
index 40687ec..d55eb4b 100644
--- a/bloscpack/abstract_io.py
+++ b/bloscpack/abstract_io.py
@@ -177,7 +177,7 @@ def unpack(source, sink):
             log.debug("decompressing chunk '%d'%s" %
                     (i, ' (last)' if source.nchunks is not None
                     and i == source.nchunks - 1 else ''))
-        if digest:
+        if source.checksum_impl.size > 0:
             computed_digest = source.checksum_impl(compressed)
             if digest != computed_digest:
                 raise ChecksumMismatch(
-- 
2.43.0


From 88049871ddf277394a0ed1acc5a3989333fda75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:35 +0000
Subject: [PATCH 04/21] fix: refuse to unpack an array from data that does not
 fit it exactly

---
 bloscpack/numpy_io.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 99c0cff..7fd5347 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -27,6 +27,8 @@ from .defaults import (DEFAULT_CHUNK_SIZE,
 from .abstract_io import (PlainSource,
                           PlainSink,
                           )
+from .headers import (decode_blosc_header,
+                      )
 from .exceptions import (NotANumpyArray,
                          ObjectNumpyArrayRejection,
                          ChunkSizeTypeSizeMismatch,
@@ -140,10 +142,18 @@ class PlainNumpySink(PlainSink):
                                    dtype=numpy.dtype(dtype_),
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
+        # number of bytes of the array that have not been filled yet
+        self.remaining = self.ndarray.nbytes
 
     def put(self, compressed):
+        nbytes = decode_blosc_header(compressed)['nbytes']
+        if nbytes > self.remaining:
+            raise ValueError("chunk of size %d does not fit into the "
+                             "remaining %d bytes of the array" %
+                             (nbytes, self.remaining))
         bwritten = blosc.decompress_ptr(compressed, self.ptr)
         self.ptr += bwritten
+        self.remaining -= bwritten
         return bwritten
 
 
@@ -304,6 +314,9 @@ def unpack_ndarray(source):
 
     sink = PlainNumpySink(source.metadata)
     unpack(source, sink)
+    if sink.remaining != 0:
+        raise ValueError("stored data is too short for the array, "
+                         "%d bytes are missing" % sink.remaining)
     return sink.ndarray
 
 
-- 
2.43.0


From 175c09483f99f58acf64d8aabcb8551ebbe2913d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 05/21] fix: raise NotANumpyArray for any metadata not
 describing an array

---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 7fd5347..76bcfb2 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -123,7 +123,8 @@ class PlainNumpySink(PlainSink):
 
     def __init__(self, metadata):
         self.metadata = metadata
-        if metadata is None or metadata['container'] != 'numpy':
+        if not isinstance(metadata, dict) or \
+                metadata.get('container') != 'numpy':
             raise NotANumpyArray
         # The try except is a backwards compatability hack for the old way of
         # serializing ndarray dtype which was used prior to 0.7.2. For basic
-- 
2.43.0


From 7d3e1b85ac370b8f891266dcfcb496b7c36ec73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 06/21] fix: refuse to unpack raw bytes into an object array

---
 bloscpack/numpy_io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 76bcfb2..1f72b80 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -139,8 +139,11 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
+        dtype_ = numpy.dtype(dtype_)
+        if dtype_.hasobject:
+            raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
-                                   dtype=numpy.dtype(dtype_),
+                                   dtype=dtype_,
                                    order=metadata['order'])
         self.ptr = self.ndarray.__array_interface__['data'][0]
         # number of bytes of the array that have not been filled yet
-- 
2.43.0


From 5e922cd8513bc3e6e143b100d5cd8e7c18169488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 07/21] fix: restore field padding of structured dtypes when
 unpacking arrays

---
 bloscpack/numpy_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 1f72b80..4006743 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -139,7 +139,8 @@ class PlainNumpySink(PlainSink):
             dtype_ = ast.literal_eval(metadata['dtype'])
         except (ValueError, SyntaxError):
             dtype_ = _conv(metadata['dtype'])
-        dtype_ = numpy.dtype(dtype_)
+        # unlike 'numpy.dtype' this also restores the padding of fields
+        dtype_ = numpy.lib.format.descr_to_dtype(dtype_)
         if dtype_.hasobject:
             raise ObjectNumpyArrayRejection
         self.ndarray = numpy.empty(metadata['shape'],
-- 
2.43.0


From 90761c573db799d509b005991c05b8b260a785b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 08/21] fix: do not modify the argument objects of the caller

---
 bloscpack/append.py   | 2 ++
 bloscpack/file_io.py  | 2 ++
 bloscpack/numpy_io.py | 1 +
 3 files changed, 5 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 3f4e885..906a39f 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -93,6 +93,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
                            'is not yet supported')
     if blosc_args is None:
         blosc_args = dict(zip(BLOSC_ARGS, [None] * len(BLOSC_ARGS)))
+    else:
+        blosc_args = blosc_args.copy()
     # handle blosc_args
     if blosc_args['typesize'] is None:
         if bloscpack_header.typesize == -1:
diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2e802da..944c8a1 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -82,6 +82,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
 
     """
     _check_metadata_arguments(metadata_args)
+    # the codec may be deactivated below, don't alter the caller's object
+    metadata_args = metadata_args.copy()
     metadata_total = 0
     metadata_total += METADATA_HEADER_LENGTH
     serializer_impl = SERIALIZERS_LOOKUP[metadata_args.magic_format]
diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index 4006743..c5bbace 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -195,6 +195,7 @@ def pack_ndarray(ndarray, sink,
         blosc_args = BloscArgs(typesize=ndarray.dtype.itemsize)
     else:
         log.debug("Ignoring 'typesize' in blosc_args")
+        blosc_args = blosc_args.copy()
         blosc_args.typesize = ndarray.dtype.itemsize
     source = PlainNumpySource(ndarray)
     nchunks, chunk_size, last_chunk_size = \
-- 
2.43.0


From 1f093a3575b43aaa69d53a9d354948d5b530540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 09/21] fix: report command line errors instead of failing with
 AttributeError

---
 bloscpack/cli.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index fea7548..c7af543 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -162,7 +162,7 @@ def process_metadata_args(args):
             with open(args.metadata, 'r') as metadata_file:
                 return json.loads(metadata_file.read().strip())
         except IOError as ioe:
-            log.error(ioe.message)
+            log.error(str(ioe))
 
 
 def process_nthread_arg(args):
@@ -473,9 +473,9 @@ def main():
             if metadata:
                 log_metadata(metadata)
         except FormatVersionMismatch as fvm:
-            log.error(fvm.message)
+            log.error(str(fvm))
         except ChecksumMismatch as csm:
-            log.error(csm.message)
+            log.error(str(csm))
     elif args.subcommand in ['append', 'a']:
         log.verbose('getting ready for append')
         original_file, new_file = process_append_args(args)
-- 
2.43.0


From 0f9b46d36d439e991a64b62aa8af99acecb2e1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 10/21] fix: store meta-level 0 for uncompressed metadata as
 documented

---
 bloscpack/file_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 944c8a1..2389247 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -123,7 +123,8 @@ def _write_metadata(output_fp, metadata, metadata_args):
             magic_format=metadata_args.magic_format,
             meta_checksum=metadata_args.meta_checksum,
             meta_codec=metadata_args.meta_codec_name,
-            meta_level=metadata_args.meta_level,
+            meta_level=(metadata_args.meta_level
+                        if metadata_args.should_compress else 0),
             meta_size=meta_size,
             max_meta_size=max_meta_size,
             meta_comp_size=meta_comp_size).encode()
-- 
2.43.0


From 0aa5f11c4868cb053fb3296a6d2530f96d74a7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 11/21] fix: let log.set_level actually set the level

---
 bloscpack/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bloscpack/log.py b/bloscpack/log.py
index a5cdc87..f9e4a23 100644
--- a/bloscpack/log.py
+++ b/bloscpack/log.py
@@ -21,9 +21,11 @@ def set_prefix(prefix):
 
 
 def set_level(level):
+    global LEVEL
     if level not in VERBOSITY_LEVELS:
         raise ValueError('Log level must be one of: %s, not %s' %
                          (VERBOSITY_LEVELS, level))
+    LEVEL = level
 
 
 def verbose(message, level=VERBOSE):
-- 
2.43.0


From e16b938dcd1e586d7526006573496e44e59cfff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 12/21] fix: do not leave stale bytes behind when an append
 shrinks the file

---
 bloscpack/append.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 906a39f..1d86c98 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -141,6 +141,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         compressed = _compress_chunk_str(decompressed + fill_up, blosc_args)
         digest = checksum_impl(compressed)
         _write_compressed_chunk(original_fp, compressed, digest)
+        # the filled up chunk may be smaller than the original last chunk
+        original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
         bloscpack_header.last_chunk += new_size
@@ -184,6 +186,8 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
 
         compressed = _compress_chunk_str(chunk, blosc_args)
         sink.put(i, compressed)
+    # the new chunks may be smaller than the original last chunk
+    original_fp.truncate()
 
     # build the new header
     bloscpack_header.last_chunk = last_chunk_size
-- 
2.43.0


From 987a8d2d82d7260d1af8671b2dfb5b09cf8fc68a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 13/21] fix: do not overwrite null metadata with offsets when
 appending

---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 1d86c98..e739c2f 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -114,7 +114,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     offsets_pos = (BLOSCPACK_HEADER_LENGTH +
                   (METADATA_HEADER_LENGTH + metadata_header['max_meta_size'] +
                       CHECKSUMS_LOOKUP[metadata_header['meta_checksum']].size
-                   if metadata is not None else 0))
+                   if bloscpack_header.metadata else 0))
     # seek to the final offset
     original_fp.seek(offsets[-1], 0)
     # decompress the last chunk
-- 
2.43.0


From b9bb08853e1597eba52dd49b9816fc52835dba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 14/21] fix: refuse files with an unknown number of chunks
 instead of reading nothing

---
 bloscpack/file_io.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 2389247..6ecb5ac 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -365,6 +365,9 @@ class CompressedFPSource(CompressedSource):
                 self.offsets = _read_beginning(input_fp)
         self.checksum_impl = self.bloscpack_header.checksum_impl
         self.nchunks = self.bloscpack_header.nchunks
+        if self.nchunks == -1:
+            raise RuntimeError('Reading a file with an unknown number of '
+                               'chunks is not yet supported')
 
     def __iter__(self):
         for i in xrange(self.nchunks):
-- 
2.43.0


From cc080e81a6111b2f461dbe826049caa8cb164b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:36 +0000
Subject: [PATCH 15/21] fix: allow appending to a file with empty content

---
 bloscpack/append.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index e739c2f..9d33b80 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -130,6 +130,9 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
     decompressed = blosc.decompress(compressed)
     # figure out how many bytes we need to read to rebuild the last chunk
     ultimo_length = len(decompressed)
+    if bloscpack_header.chunk_size == 0:
+        # the original content is empty, so there is no chunk size yet
+        _, bloscpack_header.chunk_size, _ = calculate_nchunks(new_size)
     bytes_to_read = bloscpack_header.chunk_size - ultimo_length
     if new_size <= bytes_to_read:
         # special case
-- 
2.43.0


From dbfb1042dfc25871952e96758406eefe2774b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 16/21] fix: refuse chunks smaller than their header instead of
 looping over them

---
 bloscpack/file_io.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index 6ecb5ac..f0e77b2 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -326,6 +326,10 @@ def _read_compressed_chunk_fp(input_fp, checksum_impl):
     if log.LEVEL == log.DEBUG:
         log.debug('blosc_header: %s' % repr(blosc_header))
     ctbytes = blosc_header['ctbytes']
+    # without this a corrupt size of zero would never make any progress
+    if ctbytes < BLOSC_HEADER_LENGTH:
+        raise ValueError("chunk size of '%d' is smaller than the blosc header" %
+                         ctbytes)
     # Seek back BLOSC_HEADER_LENGTH bytes in file relative to current
     # position. Blosc needs the header too and presumably this is
     # better than to read the whole buffer and then concatenate it...
-- 
2.43.0


From 28bda402a0329b227eeb533de1efaf37dcfbee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 17/21] fix: record the right last chunk size when appending to
 a file that did not name it

---
 bloscpack/append.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bloscpack/append.py b/bloscpack/append.py
index 9d33b80..f022f39 100644
--- a/bloscpack/append.py
+++ b/bloscpack/append.py
@@ -148,7 +148,7 @@ def append_fp(original_fp, new_content_fp, new_size, blosc_args=None):
         original_fp.truncate()
         # return 0 to indicate that no new chunks have been written
         # build the new header
-        bloscpack_header.last_chunk += new_size
+        bloscpack_header.last_chunk = ultimo_length + new_size
         # create the new header
         raw_bloscpack_header = bloscpack_header.encode()
         original_fp.seek(0)
-- 
2.43.0


From c6bd7edffd448e58c8d18a50b4c8120166e4bd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:46 +0000
Subject: [PATCH 18/21] fix: report version and checksum mismatches of append
 and info without a traceback

---
 bloscpack/cli.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bloscpack/cli.py b/bloscpack/cli.py
index c7af543..4879132 100644
--- a/bloscpack/cli.py
+++ b/bloscpack/cli.py
@@ -492,11 +492,14 @@ def main():
         log.verbose("new file is: '%s'" % new_file)
         blosc_args = _blosc_args_from_args(args)
         metadata = process_metadata_args(args)
-        append(original_file, new_file, blosc_args=blosc_args)
-        if metadata is not None:
-            with open(original_file, 'r+b') as fp:
-                _seek_to_metadata(fp)
-                _rewrite_metadata_fp(fp, metadata)
+        try:
+            append(original_file, new_file, blosc_args=blosc_args)
+            if metadata is not None:
+                with open(original_file, 'r+b') as fp:
+                    _seek_to_metadata(fp)
+                    _rewrite_metadata_fp(fp, metadata)
+        except (FormatVersionMismatch, ChecksumMismatch) as mismatch:
+            log.error(str(mismatch))
     elif args.subcommand in ('info', 'i'):
         try:
             if not path.exists(args.file_):
@@ -515,6 +518,8 @@ def main():
         except ValueError as ve:
             log.error(str(ve) + "\n" +
                       "This might not be a bloscpack compressed file.")
+        except (FormatVersionMismatch, ChecksumMismatch) as mismatch:
+            log.error(str(mismatch))
         log.normal(bloscpack_header.pformat())
         if offsets:
             log.normal("'offsets':")
-- 
2.43.0


From bbfac63c30cd73d42aee0b3155806fe6375d9d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:24 +0000
Subject: [PATCH 19/21] fix: close the file after unpacking an array from it

---
 bloscpack/numpy_io.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloscpack/numpy_io.py b/bloscpack/numpy_io.py
index c5bbace..f4a76f0 100644
--- a/bloscpack/numpy_io.py
+++ b/bloscpack/numpy_io.py
@@ -344,8 +344,9 @@ def unpack_ndarray_from_file(filename):
     NotANumpyArray
         if the source doesn't seem to contain a Numpy array
     """
-    source = CompressedFPSource(open(filename, 'rb'))
-    return unpack_ndarray(source)
+    with open(filename, 'rb') as fp:
+        source = CompressedFPSource(fp)
+        return unpack_ndarray(source)
 
 
 unpack_ndarray_file = deprecated(unpack_ndarray_from_file,
-- 
2.43.0


From e6fe4a147f549a789dbc90be4e571a9ebb7921ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:33 +0000
Subject: [PATCH 20/21] fix: keep leading null bytes when decoding the strings
 of a metadata header

---
 bloscpack/headers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bloscpack/headers.py b/bloscpack/headers.py
index e1e7ec5..83f270d 100644
--- a/bloscpack/headers.py
+++ b/bloscpack/headers.py
@@ -128,9 +128,9 @@ def decode_bitfield(byte):
 
 def decode_magic_string(str_):
     if PY3:
-        return str_.strip(b'\x00')
+        return str_.rstrip(b'\x00')
     else:
-        return str_.strip('\x00')
+        return str_.rstrip('\x00')
 
 
 def encode_uint8(byte):
-- 
2.43.0


From 2e44f3bfac85a85d04a91a4b8ab9ff6dbe6214ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:34 +0000
Subject: [PATCH 21/21] fix: report the size of the packed bytes instead of the
 position behind the offsets

---
 bloscpack/file_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bloscpack/file_io.py b/bloscpack/file_io.py
index f0e77b2..d35497b 100644
--- a/bloscpack/file_io.py
+++ b/bloscpack/file_io.py
@@ -667,7 +667,8 @@ def pack_bytes_to_bytes(bytes_,
          blosc_args=blosc_args,
          bloscpack_args=bloscpack_args,
          metadata_args=metadata_args)
-    out_bytes_size = sio.tell()
+    # the position is not at the end if the offsets were written last
+    out_bytes_size = len(sio.getvalue())
     log.verbose('output bytes size: %s' % double_pretty_size(out_bytes_size))
     log.verbose('compression ratio: %f' % (bytes_size/out_bytes_size))
     return sio.getvalue()
-- 
2.43.0

