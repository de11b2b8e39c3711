From 62a49e7948fac8dea601f931e9ad6424423580c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:04 +0000
Subject: [PATCH 01/55] fix: compare sample rates of both records before
 merging

areCompatible() compared the second record's rate with itself, so records
with different sample rates were merged into one.
---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f160ab2..87aded3 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -817,7 +817,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     """
     out = True
     out = out and ms3a.identifier == ms3b.identifier
-    out = out and ms3b.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
+    out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
     out = out and ms3a.endtime < ms3b.starttime
-- 
2.43.0


From 2168d295aa93eeac34df53bf2fee8610cdad0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:04 +0000
Subject: [PATCH 02/55] fix: apply merge time tolerance to early starts as well

A record starting almost a full sample period before the predicted time was
merged as the difference was only limited in one direction.
---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 87aded3..f3c516e 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -827,7 +827,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
         )
         out = (
             out
-            and (ms3b.starttime - predNextStart).total_seconds()
+            and abs((ms3b.starttime - predNextStart).total_seconds())
             < ms3a.header.samplePeriod * timeTolFactor
         )
     return out
-- 
2.43.0


From dc20c7d3cb711cf7ecfeb90cee41a06089607410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:05 +0000
Subject: [PATCH 03/55] fix: check both ends of the range when narrowing to 32
 bit integers

Only the maximum was checked, so large negative 64 bit values were silently
wrapped, while an array of only -2**31 and an empty int64 array failed.
---
 src/simplemseed/mseed3.py | 7 +++++--
 src/simplemseed/steim1.py | 4 ++--
 src/simplemseed/steim2.py | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f3c516e..e3da839 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -362,8 +362,11 @@ class MSeed3Record:
             # special case for int64
             if np.issubdtype(data.dtype, np.integer) and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
-                if abs(np.max(data)) > np.iinfo(np.int32).max:
-                    raise Miniseed3Exception(f"max value of numpy array, {np.max(data)} cannot fit into 32 bit integer")
+                if len(data) > 0 and (
+                    np.max(data) > np.iinfo(np.int32).max
+                    or np.min(data) < np.iinfo(np.int32).min
+                ):
+                    raise Miniseed3Exception(f"values of numpy array, {np.min(data)} to {np.max(data)} cannot fit into 32 bit integer")
                 data = data.astype(np.int32)
 
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index cf44750..5b580fe 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -226,8 +226,8 @@ def encodeSteim1FrameBlock(
             raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+            if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
+                raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
     elif isinstance(samples[0], float):
         raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index edfc702..e080143 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -328,8 +328,8 @@ def encodeSteim2FrameBlock(
             raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
+            if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
+                raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
             samples = samples.astype(np.int32)
     if isinstance(samples[0], float):
         raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
-- 
2.43.0


From 8d2f36d60aa6372eff3dece8602a486d9be5e0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:05 +0000
Subject: [PATCH 04/55] fix: difference narrow and unsigned numpy arrays as 32
 bit in steim

Differences of int8, int16 and unsigned arrays were calculated in the
array's own type and overflowed, corrupting the encoded samples.
---
 src/simplemseed/steim1.py | 2 ++
 src/simplemseed/steim2.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 5b580fe..7aa7ef3 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -228,6 +228,8 @@ def encodeSteim1FrameBlock(
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
             if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
+        if np.issubdtype(samples.dtype, np.integer):
+            # differences must be calculated as 32 bit, not in a smaller or unsigned type
             samples = samples.astype(np.int32)
     elif isinstance(samples[0], float):
         raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index e080143..c9748be 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -330,6 +330,8 @@ def encodeSteim2FrameBlock(
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
             if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
                 raise SteimException(f"values of numpy array, {np.min(samples)} to {np.max(samples)} cannot fit into 32 bit integer")
+        if np.issubdtype(samples.dtype, np.integer):
+            # differences must be calculated as 32 bit, not in a smaller or unsigned type
             samples = samples.astype(np.int32)
     if isinstance(samples[0], float):
         raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
-- 
2.43.0


From 99b6ef077453727e02ccd7cef03c8d959d067a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:32 +0000
Subject: [PATCH 05/55] fix: reject steim lists with a float in any position

Only the first sample was checked, later floating point samples were
silently truncated to integers.
---
 src/simplemseed/steim1.py | 4 ++--
 src/simplemseed/steim2.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 7aa7ef3..c8c1e63 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -231,8 +231,8 @@ def encodeSteim1FrameBlock(
         if np.issubdtype(samples.dtype, np.integer):
             # differences must be calculated as 32 bit, not in a smaller or unsigned type
             samples = samples.astype(np.int32)
-    elif isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
+    elif any(isinstance(s, (float, np.floating)) for s in samples):
+        raise SteimException("Cannot steim1 compress list containing floating point samples")
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index c9748be..796b5ed 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -333,8 +333,8 @@ def encodeSteim2FrameBlock(
         if np.issubdtype(samples.dtype, np.integer):
             # differences must be calculated as 32 bit, not in a smaller or unsigned type
             samples = samples.astype(np.int32)
-    if isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
+    elif any(isinstance(s, (float, np.floating)) for s in samples):
+        raise SteimException("Cannot steim2 compress list containing floating point samples")
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From fba2d48a0d6aa6ccc895d1d34a83cd2fa2e2470c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:32 +0000
Subject: [PATCH 06/55] fix: steim encode lists as 32 bit integers, same as
 arrays

A list with a difference larger than 32 bits failed in steim1 although the
same values in an array can be encoded, and lists of numpy int16 overflowed.
---
 src/simplemseed/steim1.py | 3 +++
 src/simplemseed/steim2.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index c8c1e63..6a6bd2a 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -233,6 +233,9 @@ def encodeSteim1FrameBlock(
             samples = samples.astype(np.int32)
     elif any(isinstance(s, (float, np.floating)) for s in samples):
         raise SteimException("Cannot steim1 compress list containing floating point samples")
+    else:
+        # same integer type as arrays, so differences behave the same
+        samples = np.array(samples, dtype=np.int32)
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 796b5ed..7d58752 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -335,6 +335,9 @@ def encodeSteim2FrameBlock(
             samples = samples.astype(np.int32)
     elif any(isinstance(s, (float, np.floating)) for s in samples):
         raise SteimException("Cannot steim2 compress list containing floating point samples")
+    else:
+        # same integer type as arrays, so differences behave the same
+        samples = np.array(samples, dtype=np.int32)
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From c5cbd87ef8b9b70fe4b8b271b773362728356535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:32 +0000
Subject: [PATCH 07/55] fix: raise codec exceptions instead of TypeError from
 error messages

Concatenation of str and int in the message raised a TypeError, for example
when a difference does not fit in 30 bits in steim2.
---
 src/simplemseed/seedcodec.py | 2 +-
 src/simplemseed/steim1.py    | 4 ++--
 src/simplemseed/steim2.py    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 5eecf7c..ecf82c0 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -244,7 +244,7 @@ def encode(data, encoding=None, littleEndian=True):
             encoding = mseed3EncodingFromArrayTypecode(data.typecode, data.itemsize)
         else:
             raise UnsupportedCompressionType(
-                "Unable to guess encoding for data, encoding is " + encoding
+                f"Unable to guess encoding for data, encoding is {encoding}"
             )
     try:
         compCode = arrayTypecodeFromMSeed(encoding)
diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 6a6bd2a..c5c3680 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -211,11 +211,11 @@ def encodeSteim1FrameBlock(
         raise SteimException("number of frames is a negative value")
 
     if offset < 0:
-        raise SteimException("Offset cannot be negatuve: " + offset)
+        raise SteimException(f"Offset cannot be negative: {offset}")
 
     if offset >= len(samples):
         raise SteimException(
-            "Offset bigger than samples array: " + offset + " >= " + len(samples)
+            f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
     # check if numpy array
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 7d58752..78f0e9c 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -431,7 +431,7 @@ def encodeSteim2FrameBlock(
             nibble = 2
         else:
             raise SteimException(
-                "Unable to encode " + nbits + " bit difference in Steim2 format"
+                f"Unable to encode {nbits} bit difference in Steim2 format"
             )
 
         word = steimPackWord(diff, nbits, ndiff, bitmask, submask)
-- 
2.43.0


From a68d6d95d9a6fc0321f464a3bf6fdc37c27ba220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 08/55] fix: byte swap big endian encoded segments put in
 miniseed3 records

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index e3da839..f8fa5cb 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -23,6 +23,7 @@ from .seedcodec import (
     BIG_ENDIAN,
     LITTLE_ENDIAN,
     encodingName,
+    isPrimitiveCompression,
 )
 from .fdsnsourceid import FDSNSourceId, FDSN_PREFIX
 from .util import isoWZ
@@ -342,6 +343,9 @@ class MSeed3Record:
             encoding = 0
             numSamples = 0
         elif isinstance(data, EncodedDataSegment):
+            if isPrimitiveCompression(data.compressionType) and not data.littleEndian:
+                # primitive payloads are always little endian in miniseed3
+                data = encode(data.decode(), data.compressionType, littleEndian=True)
             self._data = data.dataBytes
             encoding = data.compressionType
             numSamples = data.numSamples
-- 
2.43.0


From 0ace116556a0fe58d39297059888829ce468e2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 09/55] fix: keep record usable after deleting extra headers

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f8fa5cb..9cb03de 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -423,7 +423,7 @@ class MSeed3Record:
 
     @eh.deleter
     def eh(self):
-        del self._eh
+        self._eh = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
-- 
2.43.0


From b6f098886743f6a86fc441ddf29acfab798835b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 10/55] fix: zero sample rate has zero sample period instead of
 divide by zero

---
 src/simplemseed/mseed3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 9cb03de..cfe2b63 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -181,6 +181,9 @@ class MSeed3Header:
     @property
     def samplePeriod(self):
         """ Sampling as a period, number of seconds between samples."""
+        if self.sampleRatePeriod == 0:
+            # no sample rate, for example no time series data in record
+            return 0
         return (
             -1 * self.sampleRatePeriod
             if self.sampleRatePeriod < 0
-- 
2.43.0


From 762dcb94334734b26bf51bc68b4d69b9c5dfa4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:29 +0000
Subject: [PATCH 11/55] fix: start time within a leap second

---
 src/simplemseed/miniseed.py | 3 +--
 src/simplemseed/mseed3.py   | 9 ++++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 639fb8b..38ed10f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -256,10 +256,9 @@ class MiniseedHeader:
                 1,
                 hour=self.btime.hour,
                 minute=self.btime.minute,
-                second=self.btime.second,
                 microsecond=100 * self.btime.tenthMilli,
                 tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1)
+            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index cfe2b63..6f9160c 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -241,13 +241,12 @@ class MSeed3Header:
             1,
             hour=self.hour,
             minute=self.minute,
-            second=self.second,
-            microsecond=int(self.nanosecond / 1000),
+            microsecond=self.nanosecond // 1000,
             tzinfo=timezone.utc,
         )
-        # start Jan 1, so shift by dayOfYear minus 1
-        doyMinusOne = timedelta(days=self.dayOfYear - 1)
-        return st + doyMinusOne
+        # start Jan 1, so shift by dayOfYear minus 1,
+        # seconds also shift as second may be 60 in a leap second
+        return st + timedelta(days=self.dayOfYear - 1, seconds=self.second)
 
     @starttime.setter
     def starttime(self, stime):
-- 
2.43.0


From 75459cca8076bc6acadcf517cc0d83399d88b129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:42 +0000
Subject: [PATCH 12/55] fix: miniseed2 sample rate factor and multiplier are
 signed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 38ed10f..32eec3c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -572,7 +572,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr,
         dataOffset,
         blocketteOffset,
-    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHHHBBBBiHH", recordBytes[0:48])
+    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", recordBytes[0:48])
     if endianChar == ">":
         byteorder = BIG_ENDIAN
     else:
-- 
2.43.0


From dc1acad09d84fbfb70344f99d06b67eef15a7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:42 +0000
Subject: [PATCH 13/55] fix: keep quality, flags and time correction when
 packing miniseed2

---
 src/simplemseed/miniseed.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 32eec3c..122fccc 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -157,12 +157,13 @@ class MiniseedHeader:
         loc = self.location.ljust(2).encode("UTF-8")
         chan = self.channel.ljust(3).encode("UTF-8")
         seq = ("%06d" % self.sequence_number).encode("UTF-8")
+        quality = self.dataquality.ljust(1).encode("UTF-8")
         struct.pack_into(
             self.endianChar + "6scc5s2s3s2s",
             header,
             0,
             seq,
-            b"D",
+            quality,
             b" ",
             sta,
             loc,
@@ -175,12 +176,16 @@ class MiniseedHeader:
         if self.sampleRate != 0 and self.sampRateFactor == 0 and self.sampRateMult == 0:
             tempsampRateFactor, tempsampRateMult = self.calcSeedMultipilerFactor()
         struct.pack_into(
-            self.endianChar + "Hhh",
+            self.endianChar + "HhhBBBxi",
             header,
             30,
             self.numSamples,
             tempsampRateFactor,
             tempsampRateMult,
+            self.actFlag,
+            self.ioFlag,
+            self.qualFlag,
+            self.timeCorr,
         )
         return header
 
-- 
2.43.0


From 7e738d6a0f2a30b870b42caffb938b65b5dd4ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:42 +0000
Subject: [PATCH 14/55] fix: read all blockettes in the byte order of the fixed
 header

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 122fccc..1310043 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -748,8 +748,8 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     blockettes.append(b)
                     if type(b).__name__ == "Blockette1000":
                         header.encoding = b.encoding
+                        # byte order of data, header and blockettes might not be the same
                         header.byteorder = b.byteorder
-                        endianChar = "<" if header.byteorder == LITTLE_ENDIAN else ">"
                         header.recordLengthExp = b.recLength
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
-- 
2.43.0


From fc5e59d366dee083d3ef2d457d064d4f04344c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:42 +0000
Subject: [PATCH 15/55] fix: chain blockettes by their actual offsets when
 packing

---
 src/simplemseed/miniseed.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1310043..f02f392 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -403,8 +403,14 @@ class MiniseedRecord:
             # make sure we have a b1000 to be valid miniseed
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
-        for b in self.blockettes:
-            offset = self.packBlockette(recordBytes, offset, b)
+        for idx, b in enumerate(self.blockettes):
+            bOffset = offset
+            offset = self.packBlockette(recordBytes, bOffset, b)
+            # blockettes are contiguous, so set offset to next, zero for last
+            nextOffset = offset if idx < len(self.blockettes) - 1 else 0
+            struct.pack_into(
+                self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset
+            )
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
-- 
2.43.0


From d9efacf4cf8bd3d37f262a598bd6193d349c6f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 16/55] fix: blockette 100 is number 100, 12 bytes with a float
 sample rate

---
 src/simplemseed/miniseed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index f02f392..e6ae33a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -445,18 +445,18 @@ class MiniseedRecord:
 
     def packB100(self, recordBytes, offset, b):
         struct.pack_into(
-            self.header.endianChar + "HHixxxx",
+            self.header.endianChar + "HHfxxxx",
             recordBytes,
             offset,
             b.blocketteNum,
             b.nextOffset,
             b.sampleRate,
         )
-        return offset + 8
+        return offset + 12
 
     def createB100(self):
         return Blockette100(
-            1000,
+            100,
             0,
             self.header.sampleRate,
         )
@@ -643,7 +643,7 @@ def unpackBlockette(recordBytes, offset, endianChar, dataOffset):
 def unpackBlockette100(recordBytes, offset, endianChar):
     """named Tuple of blocketteNum, nextOffset, sample rate"""
     blocketteNum, nextOffset, sampRate = struct.unpack(
-        endianChar + "HHixxxx", recordBytes[offset : offset + 12]
+        endianChar + "HHfxxxx", recordBytes[offset : offset + 12]
     )
     return Blockette100(blocketteNum, nextOffset, sampRate)
 
-- 
2.43.0


From 3fbdbac01eadc789ebdbfc9ba146b50767e772c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 17/55] fix: created blockette 1001 has correct blockette
 number

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index e6ae33a..bf1ebb2 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -499,7 +499,7 @@ class MiniseedRecord:
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
-            1000,
+            1001,
             0,
             0,  # time quality
             microseconds,  # microseconds
-- 
2.43.0


From 51dc1f438db31a7414d34e1bfd295dc36d7e1db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 18/55] fix: setting a zero sample rate does not divide by zero

---
 src/simplemseed/miniseed.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index bf1ebb2..58526b6 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -230,9 +230,12 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
-        self.sampPeriod = timedelta(
-            microseconds=MICRO / self.sampleRate
-        )  # Nominal sample period (Sec) */
+        if self.sampleRate == 0:
+            self.sampPeriod = timedelta(microseconds=0)
+        else:
+            self.sampPeriod = timedelta(
+                microseconds=MICRO / self.sampleRate
+            )  # Nominal sample period (Sec) */
 
     def setStartTime(self, starttime):
         if type(starttime).__name__ == "str":
-- 
2.43.0


From 5fc44472f60cd670ef120243784ff27ea7116b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 19/55] fix: pack miniseed2 record after it has been
 decompressed

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 58526b6..97e4575 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -418,7 +418,7 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
-        if self.encodedDataBytes is not None and self._data is None:
+        if self.encodedDataBytes is not None:
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From 42af2d646e763edafbe3ca4598329f969ac68f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 20/55] fix: raise instead of packing an oversized miniseed2
 record

---
 src/simplemseed/miniseed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 97e4575..ce0d17a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -418,7 +418,15 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
+        if offset > self.header.recordLength:
+            raise MiniseedException(
+                f"not enough bytes in record to fit blockettes: {offset:d} > {self.header.recordLength:d}"
+            )
         if self.encodedDataBytes is not None:
+            if self.header.recordLength < offset + len(self.encodedDataBytes):
+                raise MiniseedException(
+                    f"not enough bytes in record to fit data: byte:{self.header.recordLength:d} offset: {offset:d} len(data): {len(self.encodedDataBytes):d}  enc:{self.header.encoding:d}"
+                )
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From 2d479ee27da4f4a7c74cf95920cc24e8735e2fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 21/55] fix: align steim data to 64 bytes with any number of
 blockettes

---
 src/simplemseed/miniseed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ce0d17a..dbaa947 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -415,8 +415,9 @@ class MiniseedRecord:
                 self.header.endianChar + "H", recordBytes, bOffset + 2, nextOffset
             )
         # set offset to data in header
-        if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
-            offset = 64
+        if self.header.encoding in (STEIM1, STEIM2):
+            # steim frames start at a multiple of 64 bytes
+            offset = math.ceil(offset / 64) * 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if offset > self.header.recordLength:
             raise MiniseedException(
-- 
2.43.0


From 7cd9df534984eb2aa765d662d33e898feeb17532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 22/55] fix: do not shift start time by blockette 1001 on each
 read and pack

---
 src/simplemseed/miniseed.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index dbaa947..ad849d5 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -406,7 +406,16 @@ class MiniseedRecord:
             # make sure we have a b1000 to be valid miniseed
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
+        numB1001 = sum(1 for b in self.blockettes if b.blocketteNum == 1001)
         for idx, b in enumerate(self.blockettes):
+            if b.blocketteNum == 1001 and numB1001 == 1:
+                # start time when read is header time plus these microseconds
+                btime = self.starttime() - timedelta(microseconds=b.microseconds)
+                if btime.microsecond % 100 != 0:
+                    # start time is not the one this blockette was read with
+                    btime = self.starttime()
+                    b = b._replace(microseconds=btime.microsecond % 100)
+                self.header.packBTime(recordBytes, btime)
             bOffset = offset
             offset = self.packBlockette(recordBytes, bOffset, b)
             # blockettes are contiguous, so set offset to next, zero for last
-- 
2.43.0


From afb1c4fb4c84527a2e796c7964c86f4f21187b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 23/55] fix: changed sample rate replaces factor and multiplier
 of a read record

---
 src/simplemseed/miniseed.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ad849d5..a23d2f7 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -230,6 +230,9 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
+        # existing factor and multiplier do not apply, recalculate on pack
+        self.sampRateFactor = 0
+        self.sampRateMult = 0
         if self.sampleRate == 0:
             self.sampPeriod = timedelta(microseconds=0)
         else:
@@ -781,7 +784,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
                     elif type(b).__name__ == "Blockette100":
+                        nominal = (header.sampRateFactor, header.sampRateMult)
                         header.setSampleRate(b.sampleRate)
+                        header.sampRateFactor, header.sampRateMult = nominal
                     elif type(b).__name__ == "Blockette1001":
                         header.setStartTime(
                             header.starttime + timedelta(microseconds=b.microseconds)
-- 
2.43.0


From 18e9db7d149d67abdb11fdf3789e621af2a9f8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 24/55] fix: do not accumulate period rounding in miniseed2 end
 time

---
 src/simplemseed/miniseed.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index a23d2f7..3d73576 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -386,10 +386,16 @@ class MiniseedRecord:
         return self.header.starttime
 
     def endtime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples - 1)
+        return self._sampletime(self.header.numSamples - 1)
 
     def next_starttime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples)
+        return self._sampletime(self.header.numSamples)
+
+    def _sampletime(self, idx):
+        # not sampPeriod * idx, as rounding to microseconds accumulates
+        if self.header.sampleRate == 0:
+            return self.starttime()
+        return self.starttime() + timedelta(seconds=idx / self.header.sampleRate)
 
     def clone(self):
         return unpackMiniseedRecord(self.pack())
-- 
2.43.0


From d5e8aaf2b97f7dec917e5ea4ed71745bc6679f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:55 +0000
Subject: [PATCH 25/55] fix: pack very large and very small sample rates in
 miniseed2

---
 src/simplemseed/miniseed.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 3d73576..de0359c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -197,6 +197,15 @@ class MiniseedHeader:
         if self.sampleRate == 0:
             factor = 0
             divisor = 0
+        elif self.sampleRate > SHORT_MAX_VALUE - 1:
+            # too big for factor alone, rate is factor * divisor
+            divisor = math.ceil(self.sampleRate / (SHORT_MAX_VALUE - 1))
+            factor = round(self.sampleRate / divisor)
+        elif self.sampleRate * (SHORT_MAX_VALUE - 2) < 1:
+            # period too big for factor alone, period is factor * divisor
+            period = 1.0 / self.sampleRate
+            divisor = -1 * math.ceil(period / (SHORT_MAX_VALUE - 1))
+            factor = round(period / divisor)
         elif self.sampleRate >= 1:
             # don't get too close to the max for a short, use ceil as neg
             divisor = math.ceil((SHORT_MIN_VALUE + 2) / self.sampleRate)
-- 
2.43.0


From de020564dbea10389a718114c672a5e8eb255779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 26/55] fix: mseed2to3 command line always failed on version
 argument

---
 src/simplemseed/mseed2to3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0ea4919..5230456 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -145,9 +145,6 @@ def do_parseargs():
 def main():
 
     args = do_parseargs()
-    if args.version:
-        print(f"mseed2to3 Version {VERSION}")
-        return 0
     bytesWritten = 0
     with args.ms2 as inms2:
         with args.ms3 as outms3:
-- 
2.43.0


From 9b2c262561ca4f94318fa76267338f3041b8ddb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 27/55] fix: map miniseed2 flag bits to miniseed3 flags

---
 src/simplemseed/mseed2to3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 5230456..8d95ace 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -19,7 +19,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms2H = ms2.header
     ms3Header.flags = (
-        (ms2H.actFlag & 1) * 2 + (ms2H.ioFlag & 64) * 4 + (ms2H.qualFlag & 16) * 8
+        # calibration signal present, activity flag bit 0
+        (ms2H.actFlag & 0x01)
+        # time tag questionable, data quality flag bit 7
+        | (0x02 if ms2H.qualFlag & 0x80 else 0)
+        # clock locked, io flag bit 5
+        | (0x04 if ms2H.ioFlag & 0x20 else 0)
     )
     ms3Header.publicationVersion = 0
 
-- 
2.43.0


From 679bb6081596c7689061b22a34fd4c0c13868558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:16 +0000
Subject: [PATCH 28/55] fix: do not swap bytes of already decompressed big
 endian data

---
 src/simplemseed/mseed2to3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 8d95ace..b943386 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -58,7 +58,7 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2.encodedDataBytes is not None:
         if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
             # need to decompress to byte swap primitive array
-            data = ms2.decompressed().byteswap()
+            data = ms2.decompressed()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
             data = ms2.encodedDataBytes
-- 
2.43.0


From c4f8b590505e1899461649b4b8aa43d2e57e1db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:51 +0000
Subject: [PATCH 29/55] fix: use corrected miniseed2 start time in conversion
 to miniseed3

---
 src/simplemseed/mseed2to3.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index b943386..58730b2 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -28,12 +28,15 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     )
     ms3Header.publicationVersion = 0
 
-    ms3Header.year = ms2H.btime.year
-    ms3Header.dayOfYear = ms2H.btime.yday
-    ms3Header.hour = ms2H.btime.hour
-    ms3Header.minute = ms2H.btime.minute
-    ms3Header.second = ms2H.btime.second
-    ms3Header.nanosecond = ms2H.btime.tenthMilli * 100000
+    # header start time already includes any blockette 1001 microseconds
+    ms3Header.starttime = ms2H.starttime
+    if ms2H.btime.second == 60:
+        # leap second, not representable as a datetime
+        ms3Header.year = ms2H.btime.year
+        ms3Header.dayOfYear = ms2H.btime.yday
+        ms3Header.hour = ms2H.btime.hour
+        ms3Header.minute = ms2H.btime.minute
+        ms3Header.second = ms2H.btime.second
     if ms2.header.sampleRate == 0:
         ms3Header.sampleRatePeriod = 0
     else:
@@ -73,7 +76,6 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2H.dataquality != 0 and ms2H.dataquality != "D":
         fdsnExtras["DataQuality"] = ms2H.dataquality
         ms3Extras["FDSN"] = fdsnExtras
-    nanos = 0
     for b in ms2.blockettes:
         if b.blocketteNum == 100:
             ms3Header.sampleRatePeriod = b.sampleRate
@@ -81,31 +83,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             if "Time" not in fdsnExtras:
                 fdsnExtras["Time"] = {}
             fdsnExtras["Time"]["Quality"] = b.timeQuality
-            nanos = 1000 * b.microseconds
 
     if ms2H.btime.second == 60:
         if "Time" not in fdsnExtras:
             fdsnExtras["Time"] = {}
         fdsnExtras["Time"]["LeapSecond"] = 1
 
-    ms3Header.nanosecond += nanos
-    if ms3Header.nanosecond < 0:
-        ms3Header.second -= 1
-        ms3Header.nanosecond += 1000000000
-        if ms3Header.second < 0:
-            # might be wrong for leap seconds
-            ms3Header.second += 60
-            ms3Header.minute -= 1
-            if ms3Header.minute < 0:
-                ms3Header.minute += 60
-                ms3Header.hour -= 1
-                if ms3Header.hour < 0:
-                    ms3Header.hour += 24
-                    ms3Header.dayOfYear = -1
-                    if ms3Header.dayOfYear < 0:
-                        # wrong for leap years
-                        ms3Header.year -= 1
-                        ms3Header.dayOfYear += 365 if ms3Header.year % 4 != 0 else 366
     if len(fdsnExtras) > 0:
         ms3Extras["FDSN"] = fdsnExtras
     if len(ms3Extras) == 0:
-- 
2.43.0


From 0c50557af9df416e646d5926c6ed6dbfadcbdcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 30/55] fix: convert miniseed2 records without samples

---
 src/simplemseed/mseed2to3.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 58730b2..f9678de 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -58,7 +58,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms3Header.encoding = b1000.encoding
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
-    if ms2.encodedDataBytes is not None:
+    if ms2H.numSamples == 0 and (
+        ms2.encodedDataBytes is None or isPrimitiveCompression(b1000.encoding)
+    ):
+        # no time series, encoding does not matter
+        data = bytes(0)
+    elif ms2.encodedDataBytes is not None:
         if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
             # need to decompress to byte swap primitive array
             data = ms2.decompressed()
-- 
2.43.0


From 36406c6a10b854bb5a057de06cc33e059d2e2b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:04 +0000
Subject: [PATCH 31/55] fix: do not convert record padding as miniseed3 payload

---
 src/simplemseed/mseed2to3.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index f9678de..1ecb925 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -6,7 +6,7 @@ import sys
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
 from .fdsnsourceid import FDSNSourceId
-from .seedcodec import isPrimitiveCompression, BIG_ENDIAN
+from .seedcodec import isPrimitiveCompression
 from .version import VERSION
 
 
@@ -64,8 +64,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
         # no time series, encoding does not matter
         data = bytes(0)
     elif ms2.encodedDataBytes is not None:
-        if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
-            # need to decompress to byte swap primitive array
+        if isPrimitiveCompression(b1000.encoding):
+            # need to decompress to byte swap primitive array and to
+            # not include padding to the end of the miniseed2 record
             data = ms2.decompressed()
         else:
             ms3Header.dataLength = len(ms2.encodedDataBytes)
-- 
2.43.0


From ad6f579866f0fc2dc6564b745947ea187940e463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 32/55] fix: keep order of records that cannot be merged

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 6f9160c..d74dd58 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -806,6 +806,10 @@ def readMSeed3Records(
                 else:
                     prev = mlist[0]
             else:
+                if prev is not None:
+                    # keep records in order
+                    yield prev
+                    prev = None
                 yield ms3
         else:
             # failed match, can skip ahead to next record
-- 
2.43.0


From be2a36dafeefb07807799beced2cf97ebac97576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 33/55] fix: merge only the samples of each record, not payload
 padding

---
 src/simplemseed/mseed3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index d74dd58..500444b 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -872,8 +872,10 @@ def mseed3merge(ms3a: MSeed3Record, ms3b: MSeed3Record) -> list[MSeed3Record]:
         header = ms3a.header.clone()
         header.numSamples += ms3b.header.numSamples
         encodedDataBytes = bytearray()
-        encodedDataBytes.extend(ms3a.encodedDataBytes())
-        encodedDataBytes.extend(ms3b.encodedDataBytes())
+        # encode just the samples, as payload might be longer
+        for ms3 in (ms3a, ms3b):
+            encData = encode(ms3.decompress(), header.encoding, littleEndian=True)
+            encodedDataBytes.extend(encData.dataBytes)
         if ms3a.hasExtraHeaders():
             eh = json.loads(json.dumps(ms3a.eh))
         else:
-- 
2.43.0


From 3784656e6e31d87846a720c9ad908fcce0400bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 34/55] fix: keep records that do not match when setting extra
 headers

---
 src/simplemseed/mseed3details.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 27616a5..9a9a14b 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -4,6 +4,7 @@ import argparse
 from datetime import datetime
 import json
 import os
+import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -107,6 +108,7 @@ def do_get_eh(
 
 def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=False):
     looking = True
+    matchPat = re.compile(matchsid) if matchsid is not None else None
     setjson = json.loads(setval)
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
@@ -115,8 +117,10 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-                for ms3 in readMSeed3Records(inms3file, matchsid=matchsid):
-                    if looking or setall:
+                # read all, as records that do not match must be kept as is
+                for ms3 in readMSeed3Records(inms3file):
+                    matched = matchPat is None or matchPat.search(ms3.identifier)
+                    if matched and (looking or setall):
                         looking = False
                         # only set in first record
                         if usePointer:
-- 
2.43.0


From 7c1d8b21ce7ac489ce7030054997afed64a3d2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:09 +0000
Subject: [PATCH 35/55] fix: replace all extra headers with empty pointer

---
 src/simplemseed/mseed3details.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 9a9a14b..c321dda 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -112,7 +112,9 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     setjson = json.loads(setval)
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     # empty or "/" mean replace all extra headers
-    usePointer = len(setptr) > 1
+    usePointer = setptr not in ("", "/")
+    if not usePointer and not isinstance(setjson, dict):
+        raise ValueError(f"extra headers must be a json object: {setval}")
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
@@ -128,6 +130,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                         else:
                             # replace all
                             ehptr = setjson
+                            ms3.eh = setjson
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From 181cb4933091baf0d4ef35a27353c1736ce8fd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 36/55] fix: missing location code is empty in source id

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d214a5e..14fa38c 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -148,6 +148,8 @@ class FDSNSourceId:
             self.networkCode = networkCode.networkCode
         else:
             self.networkCode = networkCode
+        if locationCode is None:
+            locationCode = ""
         self.stationCode = stationCode
         self.locationCode = locationCode
         self.bandCode = bandCode
-- 
2.43.0


From 2858ffc11baa6473fa4ae30e115c60786f609ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 37/55] fix: only ASCII digits are valid in codes

---
 src/simplemseed/fdsnsourceid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 14fa38c..fa68ddf 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -14,29 +14,29 @@ from .version import VERSION
 
 
 
-TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]")
+TEMP_NET_SEED = re.compile(r"[0-9XYZ][A-Z0-9]")
 """
 Older SEED style temp networks, like XD. Starts with XYZ or a digit.
 """
 
-TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}")
+TEMP_NET_MAPPING = re.compile(r"[0-9XYZ][A-Z0-9][0-9]{4}")
 """
 Mapping of older SEED style temp networks to include start year,
 like XD maps to XD1994. Starts with XYZ or a digit and ends with 4 digit year.
 """
 
-TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}")
+TEMP_NET_CONVENTION = re.compile(r"[A-Z0-9]{1,4}[0-9]{4}")
 """
 Network codes for temporary networks convention, ends with 4 digit year.
 """
 
-NET_VALID = re.compile(r"[A-Z\d]{1,8}")
+NET_VALID = re.compile(r"[A-Z0-9]{1,8}")
 "Regular expression for network code"
-STATION_VALID = re.compile(r"[A-Z\d-]{1,8}")
+STATION_VALID = re.compile(r"[A-Z0-9-]{1,8}")
 "Regular expression for station code"
-LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}")
+LOCATION_VALID = re.compile(r"[A-Z0-9-]{0,8}")
 "Regular expression for location code"
-SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+") # current spec has no length restrictions
+SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z0-9]+") # current spec has no length restrictions
 "Regular expression for source and subsource codes"
 
 FDSN_PREFIX = "FDSN:"
-- 
2.43.0


From 7094381be6457a77f8764d427c03c7f418e9f6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 38/55] fix: response of exactly 10 seconds is broadband

---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index fa68ddf..fd44a3e 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -562,19 +562,19 @@ def bandCodeForRate(
     if sampRate >= 5000:
         return "J"
     if 1000 <= sampRate < 5000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "F"
         return "G"
     if 250 <= sampRate < 1000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "C"
         return "D"
     if 80 <= sampRate < 250:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "H"
         return "E"
     if 10 <= sampRate < 80:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "B"
         return "S"
     if 1 < sampRate < 10:
-- 
2.43.0


From 77384f38412a696b2d9ecfff299e7bc4c0534b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:22 +0000
Subject: [PATCH 39/55] fix: reject malformed separated channel codes

---
 src/simplemseed/fdsnsourceid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index fd44a3e..3ee6c5e 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -228,13 +228,13 @@ class FDSNSourceId:
         Optionally give the start year of the network, which will be appended
         if it is a SEED-style temporary network like XD.
         """
-        if len(channelCode) == 3:
+        if len(channelCode) == 3 and SEP not in channelCode:
             band = channelCode[0]
             source = channelCode[1]
             subsource = channelCode[2]
         else:
-            b_s_ss = r"(\w)_(\w+)_(\w*)"
-            match = re.match(b_s_ss, channelCode)
+            b_s_ss = r"([^\W_])_([^\W_]+)_([^\W_]*)"
+            match = re.fullmatch(b_s_ss, channelCode)
             if match:
                 band = match[1]
                 source = match[2]
-- 
2.43.0


From 755d00d4becef5b212413c32b6a21d226f88addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:45 +0000
Subject: [PATCH 40/55] fix: unused words of first steim frame are not samples

---
 src/simplemseed/steim1.py | 6 +++---
 src/simplemseed/steim2.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index c5c3680..31a025d 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -76,7 +76,7 @@ def decodeSteim1(
             firstData = 3  # d(0) is byte 3 for frame 0
 
             # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
+            if bias == 0 and len(tempSamples) > 3:
                 lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
 
         for j in range(firstData, len(tempSamples)):
@@ -141,8 +141,8 @@ def extractSteim1Samples(
         # switch (currNibble):
         if currNibble == 0:
             #  ("0 means header info")
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info, W0, X(0) and X(N), if offset is 0
+            if offset == 0 and i < 3:
                 temp.append(getInt32(dataBytes, offset + i * 4, False))
                 currNum += 1
         elif currNibble == 1:
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 78f0e9c..dc7998d 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -104,7 +104,7 @@ def decodeSteim2(
             firstData = 3  # d(0) is byte 3 for frame 0
 
             # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
+            if bias == 0 and len(tempSamples) > 3:
                 lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
 
         for j in range(firstData, len(tempSamples)):
@@ -171,8 +171,8 @@ def extractSteim2Samples(
         # switch (currNibble):
         if currNibble == 0:
             # "0 means header info"
-            # only include header info if offset is 0
-            if offset == 0:
+            # only include header info, W0, X(0) and X(N), if offset is 0
+            if offset == 0 and i < 3:
                 temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
                 currNum += 1
 
-- 
2.43.0


From 22e314545b3d541c42866ec5f0565d940043f440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:10 +0000
Subject: [PATCH 41/55] fix: zero samples decompress to the type of the
 encoding

---
 src/simplemseed/seedcodec.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index ecf82c0..93b60ae 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -286,6 +286,9 @@ def decompress(
     # set to 0, which messes up the decompresser even though it doesn't matter since there is no data.
     if numSamples == 0:
         dt = np.dtype("<i4")
+        if isPrimitiveCompression(compressionType):
+            # no samples, but still of the type of the encoding
+            dt = np.dtype(numpyDTFromMseed3Encoding(compressionType))
         return np.asarray([], dt)
 
     # switch (compressionType):
-- 
2.43.0


From 1169fbcf6eb250652fa6740303181b973d74d741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:23 +0000
Subject: [PATCH 42/55] fix: read blockettes of only four bytes

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index de0359c..7238cfd 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -777,7 +777,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         raise MiniseedException(
                             f"blockette larger than miniseed record: {blocketteNextOffset:d} {header.recordLength:d}"
                         )
-                    if blocketteNextOffset > prevBOffset+4:
+                    if blocketteNextOffset >= prevBOffset+4:
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
-- 
2.43.0


From 95b30eb39ce70b52883f6204737c132992c7d962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:42 +0000
Subject: [PATCH 43/55] fix: read records without data shorter than 512 bytes

---
 src/simplemseed/miniseed.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 7238cfd..db2ebd7 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -36,6 +36,7 @@ ENC_INT = 3
 
 HEADER_SIZE = 48
 B1000_SIZE = 8
+KNOWN_BLOCKETTE_SIZE = {100: 12, 1000: B1000_SIZE, 1001: 8}
 MAX_INT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 4
 MAX_SHORT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 2
 
@@ -770,7 +771,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
                     blocketteFourBytes = fileptr.read(4)
-                    _blocketteNum, blocketteNextOffset = struct.unpack(
+                    blocketteNum, blocketteNextOffset = struct.unpack(
                         endianChar + "HH", blocketteFourBytes
                     )
                     if foundB1000 is not None and blocketteNextOffset > header.recordLength:
@@ -782,7 +783,11 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
                     else:
-                        numBytesToRead = header.recordLength-prevBOffset-4
+                        # no data, so record length might not be known until
+                        # this blockette is read
+                        numBytesToRead = KNOWN_BLOCKETTE_SIZE.get(
+                            blocketteNum, header.recordLength-prevBOffset
+                        ) - 4
                     blocketteBytes = blocketteFourBytes + fileptr.read(numBytesToRead)
                     b = unpackBlockette(
                         blocketteBytes,
-- 
2.43.0


From 5363dfc2f5d6cdc279409e29d2effa7727810f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 44/55] fix: refuse lists of data whose values do not fit the
 encoding

---
 src/simplemseed/miniseed.py  |  4 ++--
 src/simplemseed/mseed3.py    |  4 ++--
 src/simplemseed/seedcodec.py | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index db2ebd7..c36550a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -18,7 +18,7 @@ from .seedcodec import (
     mseed3EncodingFromArrayTypecode,
     mseed3EncodingFromNumpyDT,
     EncodedDataSegment,
-    numpyDTFromMseed3Encoding,
+    numpyFromList,
     BIG_ENDIAN,
     LITTLE_ENDIAN,
     STEIM1, STEIM2,
@@ -348,7 +348,7 @@ class MiniseedRecord:
                 encoding = 4  # default to 32 bit floats?
             else:
                 encoding = self.header.encoding
-            self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            self._data = numpyFromList(data, encoding)
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
             byteorder = LITTLE_ENDIAN if sys.byteorder == "little" else BIG_ENDIAN
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 500444b..9e75477 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -18,7 +18,7 @@ from .seedcodec import (
     EncodedDataSegment,
     mseed3EncodingFromArrayTypecode,
     mseed3EncodingFromNumpyDT,
-    numpyDTFromMseed3Encoding,
+    numpyFromList,
     UnsupportedCompressionType,
     BIG_ENDIAN,
     LITTLE_ENDIAN,
@@ -385,7 +385,7 @@ class MSeed3Record:
                 encoding = 4  # default to 32 bit floats?
             else:
                 encoding = self.header.encoding
-            self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            self._data = numpyFromList(data, encoding)
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
         else:
diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 93b60ae..41b6bec 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -224,6 +224,26 @@ def numpyDTFromMseed3Encoding(encoding: int):
     )
 
 
+def numpyFromList(data: list, encoding: int) -> np.ndarray:
+    """
+    Create a numpy array of the type of the mseed3 encoding from a list of numbers.
+
+    Raises if the values cannot be represented in the encoding, except for
+    the loss of precision of float values.
+    """
+    out = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+    if out.ndim != 1:
+        raise CodecException(f"list of data not one dimensional: {out.shape}")
+    for value, stored in zip(data, out.tolist()):
+        if isFloatCompression(encoding) and isinstance(value, (float, np.floating)):
+            same = np.isfinite(value) == np.isfinite(stored)
+        else:
+            same = value == stored
+        if not same:
+            raise CodecException(f"{value!r} cannot be represented in encoding {encoding}")
+    return out
+
+
 def encode(data, encoding=None, littleEndian=True):
     """
     Encode the given numpy.ndarray or array.array into bytes.
-- 
2.43.0


From 040fcf1590d46f1c2985ec2fff99e7e80e70dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:49 +0000
Subject: [PATCH 45/55] fix: refuse time differences (timedelta64) as data of a
 miniseed3 record

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 9e75477..ae38f2c 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -366,7 +366,7 @@ class MSeed3Record:
             if len(np.shape(data)) != 1:
                 raise Miniseed3Exception(f"numpy array not one dimensional: {np.shape(data)}")
             # special case for int64
-            if np.issubdtype(data.dtype, np.integer) and \
+            if data.dtype.kind in "iu" and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
                 if len(data) > 0 and (
                     np.max(data) > np.iinfo(np.int32).max
-- 
2.43.0


From 0f46227f741dd0bedeb4a1ba708d78ac8986748f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:09 +0000
Subject: [PATCH 46/55] fix: refuse series of anything but integers in Steim
 encoders

---
 src/simplemseed/steim1.py | 8 ++++++--
 src/simplemseed/steim2.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 31a025d..50c895a 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -224,6 +224,8 @@ def encodeSteim1FrameBlock(
             raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
         if np.issubdtype(samples.dtype, np.floating):
             raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
+        if samples.dtype.kind not in "iuO":
+            raise SteimException(f"Cannot steim1 compress numpy array that is not integer: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
             if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
@@ -233,9 +235,11 @@ def encodeSteim1FrameBlock(
             samples = samples.astype(np.int32)
     elif any(isinstance(s, (float, np.floating)) for s in samples):
         raise SteimException("Cannot steim1 compress list containing floating point samples")
-    else:
+    if not isinstance(samples, np.ndarray) or samples.dtype.kind == "O":
+        if any(not isinstance(s, (int, np.integer)) or isinstance(s, np.timedelta64) for s in samples):
+            raise SteimException("Cannot steim1 compress list containing samples that are not integers")
         # same integer type as arrays, so differences behave the same
-        samples = np.array(samples, dtype=np.int32)
+        samples = np.array([int(s) for s in samples], dtype=np.int32)
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index dc7998d..c3a5fb2 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -326,6 +326,8 @@ def encodeSteim2FrameBlock(
             raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
         if np.issubdtype(samples.dtype, np.floating):
             raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
+        if samples.dtype.kind not in "iuO":
+            raise SteimException(f"Cannot steim2 compress numpy array that is not integer: {samples.dtype}")
         if np.issubdtype(samples.dtype, np.integer) and \
                 not np.can_cast(samples.dtype, np.int32, casting="safe"):
             if np.max(samples) > np.iinfo(np.int32).max or np.min(samples) < np.iinfo(np.int32).min:
@@ -335,9 +337,11 @@ def encodeSteim2FrameBlock(
             samples = samples.astype(np.int32)
     elif any(isinstance(s, (float, np.floating)) for s in samples):
         raise SteimException("Cannot steim2 compress list containing floating point samples")
-    else:
+    if not isinstance(samples, np.ndarray) or samples.dtype.kind == "O":
+        if any(not isinstance(s, (int, np.integer)) or isinstance(s, np.timedelta64) for s in samples):
+            raise SteimException("Cannot steim2 compress list containing samples that are not integers")
         # same integer type as arrays, so differences behave the same
-        samples = np.array(samples, dtype=np.int32)
+        samples = np.array([int(s) for s in samples], dtype=np.int32)
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
-- 
2.43.0


From 20fa572010fba02a3049ced7f760690992345b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:17 +0000
Subject: [PATCH 47/55] fix: get of the nonexistent array element '-' is not
 found instead of TypeError

---
 src/simplemseed/mseed3details.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index c321dda..bacb87f 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -6,7 +6,7 @@ import json
 import os
 import re
 import sys
-from jsonpointer import set_pointer, JsonPointer, JsonPointerException
+from jsonpointer import set_pointer, EndOfList, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
 from .version import VERSION
 
@@ -92,6 +92,8 @@ def do_get_eh(
                         print(ms3.summary())
                     try:
                         ehptr = pointer.resolve(ms3.eh)
+                        if isinstance(ehptr, EndOfList):
+                            raise JsonPointerException("'-' is after the last element")
                         ehStr = json.dumps(ehptr)
                         if outfile is None or outfile == sys.stdout:
                             print(f"  {ehStr}")
-- 
2.43.0


From 024cc7f1aa9201266de28e989783aac8c197d8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:43 +0000
Subject: [PATCH 48/55] fix: size of a record without data

---
 src/simplemseed/mseed3.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index ae38f2c..615185a 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -515,7 +515,11 @@ class MSeed3Record:
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and self.header.dataLength
+            and (
+                self.header.dataLength
+                # record without data
+                or (self.header.identifierLength > 0 and (self._data is None or len(self._data) == 0))
+            )
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From fb8951a9c14184bcae542e6edd0469dd08be7225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 49/55] fix: sample rate is zero when either factor or
 multiplier is zero

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index c36550a..38e47e5 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -101,7 +101,7 @@ class MiniseedHeader:
 
         self.sampRateFactor = sampRateFactor
         self.sampRateMult = sampRateMult
-        if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
+        if sampleRate == 0 and not (sampRateFactor == 0 or sampRateMult == 0):
             # calc sampleRate from sampRateFactor and sampRateMult
             if sampRateFactor > 0:
                 if sampRateMult > 0:
-- 
2.43.0


From 7889f16af80b67ed424fb0c6714d7eb184651d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:16 +0000
Subject: [PATCH 50/55] fix: read a record whose channel code has fewer than
 three characters

---
 src/simplemseed/miniseed.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 38e47e5..8dcb0cb 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -830,8 +830,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
         else:
             numBytesToRead = header.recordLength - numRecBytesRead
             _skipBytes = fileptr.read(numBytesToRead)
-        identifier = str(header.fdsnSourceId())
-        if matchPat is None or matchPat.search(identifier) is not None:
+        if matchPat is None or matchPat.search(str(header.fdsnSourceId())) is not None:
             yield MiniseedRecord(
                 header, data=None, encodedDataBytes=encodedDataBytes, blockettes=blockettes
             )
-- 
2.43.0


From 9c97bf2a5b8aa45839da60dfb3721712c536de50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 51/55] fix: read blockettes that do not start right after the
 fixed header

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 8dcb0cb..82b20c8 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -768,6 +768,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
         if header.numBlockettes > 0:
             blocketteNextOffset = header.blocketteOffset
             prevBOffset = blocketteNextOffset
+            if prevBOffset > numRecBytesRead:
+                # first blockette does not have to be right after the fixed header
+                numRecBytesRead += len(fileptr.read(prevBOffset - numRecBytesRead))
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
                     blocketteFourBytes = fileptr.read(4)
-- 
2.43.0


From bd1d94b31e5a671130c3d9dfe939e13dbe1b7305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:25 +0000
Subject: [PATCH 52/55] fix: refuse a miniseed2 record that ends before its
 blockettes or data start

---
 src/simplemseed/miniseed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 82b20c8..8ef7510 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -791,6 +791,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         numBytesToRead = KNOWN_BLOCKETTE_SIZE.get(
                             blocketteNum, header.recordLength-prevBOffset
                         ) - 4
+                    if numBytesToRead < 0:
+                        raise MiniseedException(
+                            f"no room for blockette {blocketteNum:d} at {prevBOffset:d}, data at {header.dataOffset:d}, rec len: {header.recordLength:d}"
+                        )
                     blocketteBytes = blocketteFourBytes + fileptr.read(numBytesToRead)
                     b = unpackBlockette(
                         blocketteBytes,
@@ -822,6 +826,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     )
                     raise
         encodedDataBytes = None
+        if header.recordLength < max(header.dataOffset, numRecBytesRead):
+            raise MiniseedException(
+                f"record ends before its blockettes or start of data: {header.recordLength:d} < {numRecBytesRead:d} or {header.dataOffset:d}"
+            )
         if header.dataOffset > 0:
             if header.dataOffset < numRecBytesRead:
                 raise MiniseedException(
-- 
2.43.0


From d8f0f4d34e6de1d5eaf5cb61785423090f84cb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:13 +0000
Subject: [PATCH 53/55] fix: keep the leap second of a record with a blockette
 1001

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 8ef7510..599f4b3 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -815,9 +815,13 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         header.setSampleRate(b.sampleRate)
                         header.sampRateFactor, header.sampRateMult = nominal
                     elif type(b).__name__ == "Blockette1001":
+                        btime = header.btime
                         header.setStartTime(
                             header.starttime + timedelta(microseconds=b.microseconds)
                         )
+                        if btime.second == 60 and header.btime.second == 0:
+                            # still in the leap second, not representable as a datetime
+                            header.btime = btime._replace(tenthMilli=header.btime.tenthMilli)
                     prevBOffset += len(blocketteBytes)
                     numRecBytesRead += len(blocketteBytes)
                 except struct.error as e:
-- 
2.43.0


From 635575b620eedff2a00d2076faa0a48824a815af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:31 +0000
Subject: [PATCH 54/55] fix: give a decompressed record its own extra headers

---
 src/simplemseed/mseed3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 615185a..614ca5f 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -1,3 +1,4 @@
+import copy
 import struct
 from array import array
 from datetime import datetime, timedelta, timezone
@@ -480,7 +481,7 @@ class MSeed3Record:
         data = self.decompress()
         header = self.header.clone()
         header.encoding = mseed3EncodingFromNumpyDT(data.dtype)
-        return MSeed3Record(header, self.identifier, data, self._eh)
+        return MSeed3Record(header, self.identifier, data, copy.deepcopy(self._eh))
 
     @property
     def starttime(self):
-- 
2.43.0


From ab9312ecaf5b51f359eefcced70d6e636d927d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 55/55] fix: give the typecode of a 32 bit array for encoding 3

---
 src/simplemseed/seedcodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 41b6bec..9eb21a5 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -163,7 +163,7 @@ def arrayTypecodeFromMSeed(encoding: int) -> str:
     if encoding == SHORT:
         return "h"
     if encoding == INTEGER:
-        return "l"
+        return "i"
     if encoding == FLOAT:
         return "f"
     if encoding == DOUBLE:
-- 
2.43.0

