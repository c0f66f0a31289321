From 02d153efb780f030ca8be875250428b0c2c13908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 01/39] fix: freqcd: do not reapply the last correction on
 reads without a complete event

---
 src/fpfind/freqcd.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 146f0c4..0fd4c42 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -380,8 +380,11 @@ int main(int argc, char *argv[]) {
             }
 
             /* update reference timestamp to keep within 20 hour overflow condition */
-            tsref = tsmeas;
-            tsoverflowcorr += tscorr;
+            // Reads that complete no event have nothing to update with.
+            if (eventnum > 0) {
+                tsref = tsmeas;
+                tsoverflowcorr += tscorr;
+            }
         }
 
         // Read frequency correction values
-- 
2.43.0


From ab7d9ff5dacb9a02746909abfa46232b3414502c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 02/39] fix: freqcd: keep partial correction values across
 reads, reject overlong lines

---
 src/fpfind/freqcd.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 0fd4c42..52016b3 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -426,14 +426,20 @@ int main(int argc, char *argv[]) {
                 }
             }
 
-            /* clear parsed numbers from freqbuffer */
-            if (next_num_idx > 0) {
-                freqbytespartial = freqbytesread - next_num_idx;
-                for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
-                    freqbuffer[j] = freqbuffer[i];
-                }
-                freqbuffer_next = &freqbuffer[freqbytespartial];
+            /* clear parsed numbers from freqbuffer, retaining partial number */
+            freqbytespartial = freqbytesread - next_num_idx;
+            for (i = freqbytesread - freqbytespartial, j = 0; j < freqbytespartial; i++, j++) {
+                freqbuffer[j] = freqbuffer[i];
+            }
+
+            // Line too long for buffer, and hence invalid: drop its contents but
+            // leave a non-digit behind, so that the rest of the line is rejected
+            // as well when its newline arrives.
+            if (freqbytespartial >= FREQBUFSIZE - 1) {
+                freqbuffer[0] = '?';
+                freqbytespartial = 1;
             }
+            freqbuffer_next = &freqbuffer[freqbytespartial];
         }
 
         // TODO: Shift this back to select call to write only when pipe available,
-- 
2.43.0


From 2f5c8e8b060ce11c3a4279ba7012128a28513722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:00 +0000
Subject: [PATCH 03/39] fix: freqcd: reject correction values that do not fit
 in an int

---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 52016b3..0604a74 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -129,7 +129,7 @@ int readint(char *buff) {
     long value;
     value = strtol(buff, &end, 10);
     // string is a decimal, zero-terminated, and fits in an int
-    if ((end != buff) && (*end == 0) && (abs(value) < INT_MAX))
+    if ((end != buff) && (*end == 0) && (value > -INT_MAX) && (value < INT_MAX))
         return (int)value;
     return INT_MAX;
 }
-- 
2.43.0


From 6cf1a41886dff2216149f2893de5dcca5a1eb4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 04/39] fix: freqcd: check the range of '-f' before converting
 it to an int

---
 src/fpfind/freqcd.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 0604a74..2fdfc22 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -171,6 +171,7 @@ int main(int argc, char *argv[]) {
 
     /* parse options */
     int fcorr = FCORR_DEFAULT;  // frequency correction value
+    long fcorrarg = FCORR_DEFAULT;  // frequency offset supplied by '-f'
     char infilename[FNAMELENGTH] = {};  // store filename
     char outfilename[FNAMELENGTH] = {};  // store filename
     char freqfilename[FNAMELENGTH] = {};  // store filename
@@ -193,7 +194,7 @@ int main(int argc, char *argv[]) {
             freqfilename[FNAMELENGTH-1] = 0;  // security termination
             break;
         case 'f':
-            if (sscanf(optarg, "%d", &fcorr) != 1) return -emsg(4);
+            if (sscanf(optarg, "%ld", &fcorrarg) != 1) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
@@ -209,8 +210,11 @@ int main(int argc, char *argv[]) {
 
     /* check specified frequency correction is within-bounds */
     // needs to be done after argument reading for position-agnostic '-f'
-    if (isdecimal) fcorr = (int) fcorr * FCORR_DTOB;
-    if (abs(fcorr) >= FCORR_MAX) return -emsg(5);
+    // and before conversion to int, to avoid wrapping into the valid range
+    double fcorrval = fcorrarg;
+    if (isdecimal) fcorrval = fcorrval * FCORR_DTOB;
+    if ((fcorrval <= -FCORR_MAX) || (fcorrval >= FCORR_MAX)) return -emsg(5);
+    fcorr = (int) fcorrval;
 
     /* set input and output handler */
     int inhandle = 0;  // stdin by default
-- 
2.43.0


From ee70747844103c373ee5dc53feaab6e36d76fd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 05/39] fix: freqcd: correct across rollover of the 54-bit
 device counter

---
 src/fpfind/freqcd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 2fdfc22..341d56b 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -86,6 +86,7 @@
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
 #define FREQBUFSIZE 100            /* max. length of frequency correction values */
 #define RETRYREADWAIT 500000       /* sleep time in usec after an empty read */
+#define TS_MASK ((1ULL << 54) - 1) /* device timestamps are 54 bits wide */
 #define FCORR_ARESBITS -34         /* absolute resolution of correction, in power of 2 */
 #define FCORR_AMAXBITS -13         /* absolute maximum allowed correction, in power of 2 */
 #define FCORR_DEFAULT 0            /* frequency correction in units of 2^FCORR_ARESBITS */
@@ -362,7 +363,8 @@ int main(int argc, char *argv[]) {
                 tsmeas = ((ull)high << 22) | (low >> 10);
 
                 /* calculate timestamp correction */
-                tscorr = ((ll)((tsmeas - tsref) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                // Elapsed time is modulo 2^54, in case the device counter rolled over
+                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
-- 
2.43.0


From e451aeb2bbf42d7e7d733e021c1c489637526d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 06/39] fix: freqcd: deliver digested events before closing on
 a freq stream error

---
 src/fpfind/freqcd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 341d56b..a79aa6a 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -412,6 +412,10 @@ int main(int argc, char *argv[]) {
             }
             if (freqbytesread_next == -1) {
                 fprintf(stderr, "Error %d on freqhandle read.\n", errno);
+                // Deliver events already taken from the input before closing
+                retval = write(outhandle, outbuffer, eventnum * sizeof(struct rawevent));
+                if (retval != eventnum * sizeof(struct rawevent))
+                    fprintf(stderr, "Error %d on write.\n", errno);
                 break;
             }
 
-- 
2.43.0


From 2dc53f7e31cae8d1f7fb8542480df04d65d2cd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:53 +0000
Subject: [PATCH 07/39] fix: freqcd: overlong file names overflowed their
 buffers by one byte

---
 src/fpfind/freqcd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index a79aa6a..be0d689 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -80,7 +80,7 @@
 
 /* default definitions */
 #define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%200s"        /* for sscanf of filenames */
+#define FNAMEFORMAT "%199s"        /* for sscanf of filenames, excl. terminator */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
-- 
2.43.0


From 408c1c1d129c05b37c48f02f70fbc0872172c6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 08/39] fix: parse_epochs: truncated T2/T4 files were read
 forever

---
 src/fpfind/lib/parse_epochs.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6f472a9..f1027f5 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -244,7 +244,8 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     from file 'fileobject' provided (must be already open in "rb" mode).
 
     Raises:
-        ValueError: msb_size > size but fileobject not provided.
+        ValueError: msb_size > size but fileobject not provided,
+            or file is truncated.
 
     Example:
 
@@ -264,8 +265,11 @@ def extract_bits(msb_size: int, buffer: int, size: int, fileobject=None):
     """
     # Append word from fileobject if insufficient bits
     if size < msb_size and fileobject:
+        word = fileobject.read(4)
+        if len(word) != 4:
+            raise ValueError("File ended before termination bits")
         buffer <<= 32
-        buffer += int.from_bytes(fileobject.read(4), byteorder="little")
+        buffer += int.from_bytes(word, byteorder="little")
         size += 32
 
     # Extract MSB from buffer
-- 
2.43.0


From 581dfa6413278d6c00bd26033cc679b077aec6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 09/39] fix: parse_epochs: reject T1 files cut within an event

---
 src/fpfind/lib/parse_epochs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index f1027f5..6571b44 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -186,6 +186,8 @@ def read_T1(
         while True:
             event_high = f.read(4)
             event_low = f.read(4)
+            if 0 < len(event_high) + len(event_low) < 8:
+                raise ValueError("File ended within an event")
 
             value = \
                 (int.from_bytes(event_high, byteorder="little") << 32) \
-- 
2.43.0


From 30c5535adfd910b146f67f22414d0700ae4b0ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:25 +0000
Subject: [PATCH 10/39] fix: parse_epochs: read_T2 accumulated timestamps as
 float, failing for 4ps integers

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 6571b44..5cbb93d 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -315,7 +315,7 @@ def read_T2(
     # Add 17-bit epoch LSB as per regular timestamp spec,
     # i.e. (17-bit epoch LSB)(32-bit timestamp) => 49-bits
     epoch_lsb = header.epoch & ((1 << 17) - 1)
-    timestamp = np.uint64(epoch_lsb << 32)  # current timestamp, deltas stored in T2
+    timestamp = epoch_lsb << 32  # current timestamp, deltas stored in T2
     buffer = 0
     size = 0  # number of bits in buffer
     with open(filename, "rb") as f:
-- 
2.43.0


From 96e42b6cf7e490b30b022b65f8f05bf3f16e6ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 11/39] fix: parse_timestamps: a0/a2 readers lost precision or
 failed for large, single-event and empty files

---
 src/fpfind/lib/parse_timestamps.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 24200ab..6a4ba66 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -104,8 +104,8 @@ def read_a0(
         There is no legacy formatting for event types a0 and a2. Preserved in
         the function signature to maintain parity with 'read_a1'.
     """
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U8")
-    data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+    data = np.genfromtxt(filename, delimiter="\n", dtype="U8", ndmin=1)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -134,8 +134,8 @@ def read_a2(
         fractional: bool = True,
     ):
     """See documentation for 'read_a0'."""
-    data = np.genfromtxt(filename, delimiter="\n", dtype="U16")
-    data = np.array([int(v,16) for v in data])
+    data = np.genfromtxt(filename, delimiter="\n", dtype="U16", ndmin=1)
+    data = np.array([int(v,16) for v in data], dtype=np.uint64)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -217,7 +217,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data]).reshape(-1, 2)
+                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
@@ -243,7 +243,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data])
+                data = np.array([int(v,16) for v in data], dtype=np.uint64)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
-- 
2.43.0


From 889744f647113c9bc6f2f1926134ec7874c8b626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 12/39] fix: parse_timestamps: read_a1 silently dropped up to
 three bytes of a torn event

---
 src/fpfind/lib/parse_timestamps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 6a4ba66..f5e344a 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -121,7 +121,7 @@ def read_a1(
     high_pos = 1; low_pos = 0
     if legacy: high_pos, low_pos = low_pos, high_pos
     with open(filename, "rb") as f:
-        data = np.fromfile(file=f, dtype="=I").reshape(-1, 2)
+        data = np.frombuffer(f.read(), dtype="=I").reshape(-1, 2)
     t = ((np.uint64(data[:, high_pos]) << 22) + (data[:, low_pos] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, low_pos] & 0xF
-- 
2.43.0


From 18c21707f32de6e39b7ce7eabe3cc029eb70184f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 13/39] fix: parse_timestamps: statistics failed for empty
 selections and zero durations

---
 src/fpfind/lib/parse_timestamps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index f5e344a..01370be 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -423,8 +423,8 @@ def print_statistics(filename: str, t: list, p: list):
         ch4_counts=count(p & 0b1000 != 0),
         multi_counts=count(np.isin(p, (0, 1, 2, 4, 8), invert=True)),
         non_counts=count(p == 0),
-        start_timestamp=t[0],
-        end_timestamp=t[-1],
+        start_timestamp=t[0] if len(t) else None,
+        end_timestamp=t[-1] if len(t) else None,
         patterns=sorted(np.unique(p)),
     )
 
@@ -514,7 +514,9 @@ def print_statistics_report(
         print(f"Duration (s) : {duration:15.9f}")
         print(f"  ~ start    : {start_timestamp*1e-9:>15.9f}")
         print(f"  ~ end      : {end_timestamp*1e-9:>15.9f}")
-        print(f"Event rate (/s) : {int(num_events//duration)}")
+        # Rate is undefined when all events share the same timestamp
+        if duration != 0:
+            print(f"Event rate (/s) : {int(num_events//duration)}")
         print(f"Detection patterns: {patterns}")
 
 
-- 
2.43.0


From af2804e124801ad89b2adfe90b0fed6a9b3037fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 14/39] fix: utils: timestamps of an epoch window jumped back
 at the 17-bit epoch rollover

---
 src/fpfind/lib/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index d11d69d..9f62639 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -407,7 +407,10 @@ def get_timestamp(dirname, file_type, first_epoch, skip_epoch, num_of_epochs):
     for i in range(num_of_epochs):
         epoch_name = epochdir / int2epoch(epoch2int(first_epoch) + skip_epoch + i)
         reader = read_T1 if file_type == "T1" else read_T2
-        timestamp = np.append(timestamp, reader(epoch_name)[0])
+        # Timestamps in epochs only contain the 17 LSB of the epoch number,
+        # i.e. roll over every 2^17 epochs (= 2^46 ns)
+        rollovers = (epoch2int(epoch_name.name) >> 17) - (epoch2int(first_epoch) >> 17)
+        timestamp = np.append(timestamp, reader(epoch_name)[0] + rollovers * 2.0**46)
     return timestamp
 
 def normalize_timestamps(*T, skip: float = 0.0, preserve_relative: bool = True):
-- 
2.43.0


From cd07b8d481acca5e97abba6d930f172495c5d92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 15/39] fix: fpfind: a full precompensation scan always ended
 with 'No peak found'

---
 src/fpfind/fpfind.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index e06acf2..005c438 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -347,6 +347,7 @@ def fpfind(
         precompensation_fullscan: Specify whether to continue even after peak found.
     """
     df0s = precompensations
+    result = None
 
     # Go through all precompensations
     for df0 in df0s:
@@ -375,16 +376,18 @@ def fpfind(
         logger.info(f"Peak found,          {df0*1e6:7.3f} ppm: {str(e)}")
         # TODO: Justify the good enough frequency value
         # TODO(2024-01-31): Add looping code to customize refinement steps.
+        # Full scan reports the same result as an interrupted scan, i.e. the first
+        if result is None:
+            result = (dt, f - 1)
         if precompensation_fullscan:
             continue
         break
 
     # No appropriate frequency compensation found
-    else:
+    if result is None:
         raise ValueError("No peak found!")  # TODO
 
-    df = f - 1
-    return dt, df
+    return result
 
 
 def generate_precompensations(start, stop, step, ordered=False) -> list:
-- 
2.43.0


From 5a2f3e94069970c7d03a5f8c23978e61edc8e640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 16/39] fix: generate_freqcd_testcase: '-x' had no effect on
 generated events

---
 src/fpfind/lib/generate_freqcd_testcase.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 2be66eb..c0ce359 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -84,6 +84,7 @@ def main():
 
     args = parser.parse_args()
     if args.x:
+        global LEGACY
         LEGACY = True
 
     # Modify method of writing
-- 
2.43.0


From 289afe57e68dbdaf00071d4389d322fce9a99bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 17/39] fix: generate_freqcd_testcase: named input files were
 overwritten with stdin

---
 src/fpfind/lib/generate_freqcd_testcase.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index c0ce359..4474354 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -115,8 +115,9 @@ def main():
 
         # Read binary timestamps from file
         try:
-            with open(inputfile, "wb") as f:
-                f.write(sys.stdin.buffer.read())
+            if HAS_TEMP_FILE:
+                with open(inputfile, "wb") as f:
+                    f.write(sys.stdin.buffer.read())
 
             # Parsing binary timestamps
             ts, _ = ts_parser.read_a1(inputfile, args.x)
@@ -125,7 +126,7 @@ def main():
 
         # Clean up
         finally:
-            if HAS_TEMP_FILE:
+            if HAS_TEMP_FILE and inputfile.exists():
                 inputfile.unlink()
 
     # 4. Read decimal timestamps from interactive prompt,
-- 
2.43.0


From b11d6ffd964ab1243b54d782db836506d10e6900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 18/39] fix: parse_epochs: date2epoch was off by up to one
 second

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 5cbb93d..9da1838 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -113,7 +113,7 @@ def date2epoch(datetime=None):
     if datetime is None:
         datetime = dt.datetime.now()
 
-    total_seconds = int(datetime.timestamp())
+    total_seconds = datetime.timestamp()
     epoch_val = int(total_seconds/125e-12) >> 32
     return f"{epoch_val:08x}"
 
-- 
2.43.0


From 5189e418937a3c25438f512c87765f2249ba6110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 19/39] fix: freqcd launcher: ran the program in, and resolved
 its own path against, the wrong directory

---
 src/fpfind/freqcd | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index ae28943..c3a8ea4 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -11,6 +11,7 @@
 # Gets the full call to current script, then retrieves program path
 # e.g. /bin/sh /home/justin/.pyenv/versions/3.10.6/bin/freqcd -x ...
 PROGRAM=$(ps -q $$ -o args= | awk -F ' ' '{print $2}')
+PROGRAM=$(readlink -f "${PROGRAM}")  # working directory differs below
 
 # Get root directory of installed library, where postinstall script is located
 ENTRYPOINT=$(python3 -c "import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
@@ -22,7 +23,8 @@ rm -f ${INSTALL_ROOT}/freqcd_path \
     && echo "${PROGRAM}" > ${INSTALL_ROOT}/freqcd_path
 
 # Trigger post-install compilation and write directly to target
-cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM} \
+# (in a subshell, to retain the working directory of the caller)
+(cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM}) \
     || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
 
 # Pass arguments and directly execute
-- 
2.43.0


From 7fe47f7eb0c316a140c4b310ce58519c9c565bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 20/39] fix: freqcd launcher: an interrupted compilation left a
 broken program behind

---
 src/fpfind/_postinstall | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/_postinstall b/src/fpfind/_postinstall
index 7b4b278..ff2980e 100755
--- a/src/fpfind/_postinstall
+++ b/src/fpfind/_postinstall
@@ -2,4 +2,7 @@
 # Performs post-installation compilation of freqcd. Do not modify.
 TARGET=freqcd
 if [ ! -z "$1" ]; then TARGET="$1"; fi
-gcc -o ${TARGET} freqcd.c lib/getopt.c
+
+# Replace target only when complete, in case of failure or concurrent calls
+gcc -o ${TARGET}.$$ freqcd.c lib/getopt.c && mv -f ${TARGET}.$$ ${TARGET} \
+    || { rm -f ${TARGET}.$$; exit 1; }
-- 
2.43.0


From 5da39aa5645fe601d9318b04172d7edc1f43e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 21/39] fix: write_T1: rejected or overflowed on numpy
 timestamps, e.g. those returned by read_T1

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 9da1838..143fe69 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -412,7 +412,7 @@ def write_T1(directory, full_epoch, timestamps, detectors):
         # 17-bit LSB epoch fits into a timestamp event
         timestamp_epoch = ((full_epoch & ((1<<17)-1)) << (32 + 5))
         for timestamp, detector in zip(timestamps, detectors):
-            full_timestamp = timestamp_epoch + timestamp
+            full_timestamp = timestamp_epoch + int(timestamp)
             event = (full_timestamp << 10) + int(detector)
 
             # Write high word, then low word
-- 
2.43.0


From c4dd3fe52773747763845396d3cef0ec3ae12f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:27 +0000
Subject: [PATCH 22/39] fix: parse_timestamps: streaming conversion onto its
 own input wiped the input

---
 src/fpfind/lib/parse_timestamps.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 01370be..44860c9 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -770,6 +770,11 @@ def main():
 
     # Write out
     else:
+        # Output file is truncated before the first block of the input is read
+        outpath = pathlib.Path(args.outfile)
+        if outpath.exists() and outpath.samefile(filepath):
+            raise ValueError("destination must differ from input when streaming.")
+
         stream, num_batches = sread(filepath, args.X, TSRES.PS4, False)
         stream = inline_filter(stream, TSRES.PS4)
         swrite(args.outfile, stream, num_batches, args.x, resolution=TSRES.PS4, display=(not args.quiet))
-- 
2.43.0


From b4c3b51b70acaa008060aef7dec0c7b7bfc739b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:46 +0000
Subject: [PATCH 23/39] fix: fpfind: refinement was abandoned for small skews
 or offsets, reporting coarse results as final

---
 src/fpfind/fpfind.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 005c438..9f6b703 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -246,8 +246,9 @@ def time_freq(
         # results which are likely near correct values.
         # TODO(2024-01-31): Fix this.
         buffer = 10
-        threshold_dt = buffer*max(abs(dt), 1)
-        threshold_df = buffer*max(abs(f-1), 1e-9)
+        # Estimates so far are zero when below the resolution used to find them
+        threshold_dt = buffer*max(abs(dt), 1, resolution)
+        threshold_df = buffer*max(abs(f-1), 1e-9, resolution/separation_duration)
         if curr_iteration != 1 and (
             abs(dt1)  > threshold_dt or \
             abs(_dt1) > threshold_dt or \
-- 
2.43.0


From 95d5d5d3e8ba92a2131d0992be0914e2d4337b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 24/39] fix: freqcd: truncated bits of the correction were lost
 at every read, biasing the frequency

---
 src/fpfind/freqcd.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index be0d689..2ed07cc 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -279,6 +279,10 @@ int main(int argc, char *argv[]) {
     ull ts, tsmeas;         // timestamp
     ll tscorr;              // timestamp correction
     ll tsoverflowcorr = 0;  // timestamp overflow corrections
+    ull elapsed;            // time since reference, including 'tsfrac'
+    ull tsfrac = 0;         // elapsed time not yet corrected for
+    ll fcorrprod;           // correction before truncation
+    ll tscorrfrac = 0;      // truncated part of corrections so far
     unsigned int high;      // high word in timestamp
     unsigned int low;       // low word in timestamp
     unsigned int _swp;      // temporary swap variable, support 'legacy' option
@@ -364,7 +368,9 @@ int main(int argc, char *argv[]) {
 
                 /* calculate timestamp correction */
                 // Elapsed time is modulo 2^54, in case the device counter rolled over
-                tscorr = ((ll)(((tsmeas - tsref) & TS_MASK) >> FCORR_TBITS1) * fcorr) >> FCORR_TBITS2;
+                elapsed = ((tsmeas - tsref) & TS_MASK) + tsfrac;
+                fcorrprod = (ll)(elapsed >> FCORR_TBITS1) * fcorr + tscorrfrac;
+                tscorr = fcorrprod >> FCORR_TBITS2;
                 ts = tsmeas + tscorr + tsoverflowcorr;
 
                 /* write corrected timestamp to output buffer */
@@ -390,6 +396,10 @@ int main(int argc, char *argv[]) {
             if (eventnum > 0) {
                 tsref = tsmeas;
                 tsoverflowcorr += tscorr;
+                // Carry the truncated bits over, otherwise they add up to a
+                // frequency error growing with the number of reads
+                tsfrac = elapsed & ((1 << FCORR_TBITS1) - 1);
+                tscorrfrac = fcorrprod & ((1 << FCORR_TBITS2) - 1);
             }
         }
 
-- 
2.43.0


From 99a0fefe7d5c558763a48aa3be1271dccc839ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 25/39] fix: fpfind: inverted time offset was scaled by (1+f)
 instead of 1/(1+f)

---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 9f6b703..923aeaf 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -667,7 +667,7 @@ def main():
     # Use if the low-count side is undergoing frequency correction
     flag = args.output
     if flag & 0b0001:
-        dt = -dt * (1 + df)    # t_alice * (1 + f_alice) + t_bob = 0
+        dt = -dt / (1 + df)    # t_alice * (1 + f_bob) + t_bob = 0
         df = 1 / (1 + df) - 1  # (1 + f_alice) * (1 + f_bob) = 1
     if flag & 0b0010:
         df = f"{round(df * (1 << 34)):d}"
-- 
2.43.0


From f172e45db3276392cf483a957530031fece559d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:25 +0000
Subject: [PATCH 26/39] fix: keep event file to be read when also given as
 output

'generate_freqcd_testcase -o FILE FILE' truncated the file before reading
it. Nothing is ever written to the output file in this mode.
---
 src/fpfind/lib/generate_freqcd_testcase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/lib/generate_freqcd_testcase.py b/src/fpfind/lib/generate_freqcd_testcase.py
index 4474354..dc6cc89 100644
--- a/src/fpfind/lib/generate_freqcd_testcase.py
+++ b/src/fpfind/lib/generate_freqcd_testcase.py
@@ -91,7 +91,8 @@ def main():
     write = owrite
     if args.o:
         write = lambda e: fwrite(e, args.o)
-        open(args.o, "wb").close()  # truncate file
+        if args.t or not args.infile:  # otherwise nothing is written to it
+            open(args.o, "wb").close()  # truncate file
 
     # Different methods of reading timestamps
     # 1. Read decimal timestamps from command line
-- 
2.43.0


From 548228d130578138b8c4937aa15f1abcee404f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:18 +0000
Subject: [PATCH 27/39] fix: reject text event files cut inside an event

---
 src/fpfind/lib/parse_timestamps.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index 44860c9..b75999b 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -78,6 +78,12 @@ else:
 #  READERS  #
 #############
 
+def _parse_hex(words: list, width: int):
+    """Converts hex words of fixed width, e.g. rejects a word cut short."""
+    if any(len(word) != width for word in words):
+        raise ValueError(f"Events should be made of {width}-digit hex words.")
+    return np.array([int(word,16) for word in words], dtype=np.uint64)
+
 def read_a0(
         filename: str,
         legacy: bool = None,
@@ -105,7 +111,7 @@ def read_a0(
         the function signature to maintain parity with 'read_a1'.
     """
     data = np.genfromtxt(filename, delimiter="\n", dtype="U8", ndmin=1)
-    data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+    data = _parse_hex(data, 8).reshape(-1, 2)
     t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
     t = _format_timestamps(t, resolution, fractional)
     p = data[:, 0] & 0xF
@@ -135,7 +141,7 @@ def read_a2(
     ):
     """See documentation for 'read_a0'."""
     data = np.genfromtxt(filename, delimiter="\n", dtype="U16", ndmin=1)
-    data = np.array([int(v,16) for v in data], dtype=np.uint64)
+    data = _parse_hex(data, 16)
     t = np.uint64(data >> 10)
     t = _format_timestamps(t, resolution, fractional)
     p = data & 0xF
@@ -217,7 +223,7 @@ def sread_a0(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data], dtype=np.uint64).reshape(-1, 2)
+                data = _parse_hex(data, 8).reshape(-1, 2)
                 t = ((np.uint64(data[:, 1]) << 22) + (data[:, 0] >> 10))
                 t = _format_timestamps(t, resolution, fractional)
                 p = data[:, 0] & 0xF
@@ -243,7 +249,7 @@ def sread_a2(
                     break
 
                 data = buffer.strip().split("\n")
-                data = np.array([int(v,16) for v in data], dtype=np.uint64)
+                data = _parse_hex(data, 16)
                 t = np.uint64(data >> 10)
                 t = _format_timestamps(t, resolution, fractional)
                 p = data & 0xF
-- 
2.43.0


From e467bcd54336a3ccb97f108468c996bfed7a3e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:35 +0000
Subject: [PATCH 28/39] fix: T3 epoch without entries is not inconsistent

---
 src/fpfind/lib/parse_epochs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/lib/parse_epochs.py b/src/fpfind/lib/parse_epochs.py
index 143fe69..7d060d2 100755
--- a/src/fpfind/lib/parse_epochs.py
+++ b/src/fpfind/lib/parse_epochs.py
@@ -473,7 +473,7 @@ def read_T3(file_name: str) -> ServiceT3:
 
     # Digest file
     HEADER_INFO_SIZE = 16
-    data_b = b"\x00\x00\x00\x00"
+    data_b = b""  # last word read, none yet
     with open(file_name,"rb") as f:
         f.seek(HEADER_INFO_SIZE)
         while True:
-- 
2.43.0


From e48467bd8d5a8e1afa246e8022d09c49caea3733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 29/39] fix: fpfind: search failed when a faint peak needed
 several bin mergings

After merging, a single wrap at the refined resolution may be longer than
twice the requested duration: the number of wraps was rounded to zero, so
that no events were left to correlate.
---
 src/fpfind/fpfind.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 923aeaf..2f5ffd2 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -154,7 +154,7 @@ def time_freq(
         # Dynamically adjust 'num_wraps' based on current 'resolution',
         # avoids event overflow/underflow
         max_wraps = np.floor(end_time / (resolution * num_bins))
-        num_wraps = np.round(duration / (resolution * num_bins))
+        num_wraps = max(1, np.round(duration / (resolution * num_bins)))
         _duration = min(num_wraps, max_wraps) * resolution * num_bins
 
         # Perform cross-correlation
-- 
2.43.0


From 6351cb3eec0c1bb17612114de97b0428c6ee65f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:05 +0000
Subject: [PATCH 30/39] fix: parse_timestamps: time filter was off by one
 device unit in late recordings

Timestamps beyond 2^53 device units (10 hours) were rounded to 64-bit
floats when compared with the filter bounds, so that events just outside
were kept (and in-memory and streaming conversion differed).
---
 src/fpfind/lib/parse_timestamps.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fpfind/lib/parse_timestamps.py b/src/fpfind/lib/parse_timestamps.py
index b75999b..1256fdb 100755
--- a/src/fpfind/lib/parse_timestamps.py
+++ b/src/fpfind/lib/parse_timestamps.py
@@ -49,6 +49,7 @@
 
 import argparse
 import bisect
+import math
 import pathlib
 import warnings
 import struct
@@ -662,12 +663,18 @@ def get_timing_mask(
     if len(t) == 0:
         return mask
 
+    # Compare integers with integers, since 64-bit floats have a precision
+    # of 53-bits only (timestamps have precision of 54-bits)
+    is_integer = isinstance(t[0], (int, np.integer))
+
     # Parse start argument
     if start is None:
         start = t[0]
         i = 0
     else:
         start *= (1e9 * resolution.value)  # convert s -> ns -> resolution
+        if is_integer and math.isfinite(start):
+            start = math.ceil(start)
         i = bisect.bisect_left(t, start)  # binary search
     if start > t[-1]:
         return mask
@@ -678,6 +685,8 @@ def get_timing_mask(
         j = len(t)
     else:
         end *= (1e9 * resolution.value)  # convert s -> ns -> resolution
+        if is_integer and math.isfinite(end):
+            end = math.floor(end)
         j = bisect.bisect_right(t, end)  # binary search
     if end < t[0]:
         return mask
-- 
2.43.0


From 0140e0f059f1f5b90127b4460bb808ba89c84d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:20 +0000
Subject: [PATCH 31/39] fix: fpfind: results were cut short when the separation
 exceeds 14 windows

---
 src/fpfind/fpfind.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 2f5ffd2..88c08fd 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -137,6 +137,7 @@ def time_freq(
     dt = 0
     f = 1
     curr_iteration = 1
+    last_resolution = resolution
 
     # Custom breakpoint for experimentation
     if _ENABLE_BREAKPOINT:
@@ -247,8 +248,8 @@ def time_freq(
         # TODO(2024-01-31): Fix this.
         buffer = 10
         # Estimates so far are zero when below the resolution used to find them
-        threshold_dt = buffer*max(abs(dt), 1, resolution)
-        threshold_df = buffer*max(abs(f-1), 1e-9, resolution/separation_duration)
+        threshold_dt = buffer*max(abs(dt), 1, last_resolution)
+        threshold_df = buffer*max(abs(f-1), 1e-9, last_resolution/separation_duration)
         if curr_iteration != 1 and (
             abs(dt1)  > threshold_dt or \
             abs(_dt1) > threshold_dt or \
@@ -303,6 +304,7 @@ def time_freq(
 
         # Update for next iteration
         bts = (bts - dt1) / (1 + df1)
+        last_resolution = resolution
         resolution /= (separation_duration / duration / RES_REFINE_FACTOR)
         resolution = max(resolution, target_resolution)
         curr_iteration += 1
-- 
2.43.0


From 15c91fef02326b4de233b3fca0d6b081a5e7f05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 32/39] fix: freqcd: file names were cut at white space or 199
 characters, opening other files

---
 src/fpfind/freqcd.c | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 2ed07cc..4df435a 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -79,8 +79,6 @@
 #include <math.h>    // pow(..., 10)
 
 /* default definitions */
-#define FNAMELENGTH 200            /* length of file name buffers */
-#define FNAMEFORMAT "%199s"        /* for sscanf of filenames, excl. terminator */
 #define FILE_PERMISSONS 0644       /* for all output files */
 #define INBUFENTRIES 1024          /* max. elements in input buffer */
 #define OUTBUFENTRIES 1024         /* max. elements in output buffer */
@@ -173,9 +171,9 @@ int main(int argc, char *argv[]) {
     /* parse options */
     int fcorr = FCORR_DEFAULT;  // frequency correction value
     long fcorrarg = FCORR_DEFAULT;  // frequency offset supplied by '-f'
-    char infilename[FNAMELENGTH] = {};  // store filename
-    char outfilename[FNAMELENGTH] = {};  // store filename
-    char freqfilename[FNAMELENGTH] = {};  // store filename
+    char *infilename = "";  // store filename
+    char *outfilename = "";  // store filename
+    char *freqfilename = "";  // store filename
     int islegacy = 0;  // mark if format is legacy
     int isdecimal = 0;  // mark if frequency input is in decimal units
     int opt;  // for getopt options
@@ -183,16 +181,16 @@ int main(int argc, char *argv[]) {
     while ((opt = getopt(argc, argv, "i:o:F:f:xdh")) != EOF) {
         switch (opt) {
         case 'i':
-            if (sscanf(optarg, FNAMEFORMAT, infilename) != 1) return -emsg(2);
-            infilename[FNAMELENGTH-1] = 0;  // security termination
+            if (!optarg[0]) return -emsg(2);
+            infilename = optarg;
             break;
         case 'o':
-            if (sscanf(optarg, FNAMEFORMAT, outfilename) != 1) return -emsg(8);
-            outfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (!optarg[0]) return -emsg(8);
+            outfilename = optarg;
             break;
         case 'F':
-            if (sscanf(optarg, FNAMEFORMAT, freqfilename) != 1) return -emsg(10);
-            freqfilename[FNAMELENGTH-1] = 0;  // security termination
+            if (!optarg[0]) return -emsg(10);
+            freqfilename = optarg;
             break;
         case 'f':
             if (sscanf(optarg, "%ld", &fcorrarg) != 1) return -emsg(4);
-- 
2.43.0


From d1526b8c36d7b2eb76c0991b45a0aa31e94086a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:12 +0000
Subject: [PATCH 33/39] fix: freqcd: '-f' silently used the leading digits of
 values such as 1.5, 1e6 or 12abc

---
 src/fpfind/freqcd.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index 4df435a..ec9be68 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -177,6 +177,7 @@ int main(int argc, char *argv[]) {
     int islegacy = 0;  // mark if format is legacy
     int isdecimal = 0;  // mark if frequency input is in decimal units
     int opt;  // for getopt options
+    char *end;  // first character after number supplied by '-f'
     opterr = 0;  // be quiet when no options supplied
     while ((opt = getopt(argc, argv, "i:o:F:f:xdh")) != EOF) {
         switch (opt) {
@@ -193,7 +194,8 @@ int main(int argc, char *argv[]) {
             freqfilename = optarg;
             break;
         case 'f':
-            if (sscanf(optarg, "%ld", &fcorrarg) != 1) return -emsg(4);
+            fcorrarg = strtol(optarg, &end, 10);
+            if ((end == optarg) || (*end != 0)) return -emsg(4);
             break;
         case 'x':
             islegacy = 1;
-- 
2.43.0


From 595ff3d618b1a199723d7ca94a1386526af17022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:29 +0000
Subject: [PATCH 34/39] fix: fpfind, fpplot: raw recordings across a rollover
 of the device counter failed or lost the part after it

---
 src/fpfind/fpfind.py        |  2 ++
 src/fpfind/fpplot.py        |  2 ++
 src/fpfind/lib/constants.py |  1 +
 src/fpfind/lib/utils.py     | 18 ++++++++++++++++++
 4 files changed, 23 insertions(+)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 88c08fd..209e89f 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -38,6 +38,7 @@ from fpfind.lib.utils import (
     ArgparseCustomFormatter, parse_docstring_description,
     round, generate_fft, get_timing_delay_fft, slice_timestamps, get_xcorr, get_statistics,
     get_timestamp, get_first_overlapping_epoch, normalize_timestamps,
+    unwrap_timestamps,
 )
 
 logger = get_logger(__name__, human_readable=True)
@@ -614,6 +615,7 @@ def main():
         _is_reading_ts = True
         alice = read_a1(args.reference, legacy=args.legacy)[0]
         bob = read_a1(args.target, legacy=args.legacy)[0]
+        alice, bob = unwrap_timestamps(alice, bob)
 
     else:
         logger.error("Timestamp files/epochs must be supplied with -tT/-dD")
diff --git a/src/fpfind/fpplot.py b/src/fpfind/fpplot.py
index e3ded3d..0c70f12 100644
--- a/src/fpfind/fpplot.py
+++ b/src/fpfind/fpplot.py
@@ -22,6 +22,7 @@ from fpfind.lib.parse_timestamps import read_a1
 from fpfind.lib.utils import (
     get_first_overlapping_epoch, get_timestamp,
     normalize_timestamps, slice_timestamps,
+    unwrap_timestamps,
 )
 
 _ENABLE_BREAKPOINT = False
@@ -161,6 +162,7 @@ def main():
         _is_reading_ts = True
         alice = read_a1(args.reference, legacy=args.legacy)[0]
         bob = read_a1(args.target, legacy=args.legacy)[0]
+        alice, bob = unwrap_timestamps(alice, bob)
 
     else:
         logger.error("Timestamp files/epochs must be supplied with -tT/-dD")
diff --git a/src/fpfind/lib/constants.py b/src/fpfind/lib/constants.py
index 5dbd5b1..8c05d0b 100644
--- a/src/fpfind/lib/constants.py
+++ b/src/fpfind/lib/constants.py
@@ -12,6 +12,7 @@ class TSRES(enum.Enum):
 
 EPOCH_LENGTH = 1 << 29  # from filespec
 FCORR_AMAXBITS = -13  # from 'freqcd.c'
+TIMESTAMP_PERIOD = 1 << 46  # rollover of 54-bit device counter, in units of ns
 NTP_MAXDELAY_NS = 100e6  # 100ms in very asymmetric channels
 
 # Derived constants
diff --git a/src/fpfind/lib/utils.py b/src/fpfind/lib/utils.py
index 9f62639..a9f9087 100644
--- a/src/fpfind/lib/utils.py
+++ b/src/fpfind/lib/utils.py
@@ -10,6 +10,7 @@ from dataclasses import dataclass
 import numpy as np
 import scipy
 
+from fpfind.lib.constants import TIMESTAMP_PERIOD
 from fpfind.lib.parse_epochs import (
     epoch2int, int2epoch, read_T1, read_T2,
 )
@@ -428,6 +429,23 @@ def normalize_timestamps(*T, skip: float = 0.0, preserve_relative: bool = True):
     T = [slice_timestamps(ts, start_time) for ts in T]
     return T
 
+def unwrap_timestamps(*T):
+    """Undoes rollovers of the device counter, within and between timestamp arrays.
+
+    The device counter is 54 bits wide, i.e. starts over every 19.5 hours.
+
+    Args:
+        T: List of timestamp arrays, in units of ns.
+    """
+    half = TIMESTAMP_PERIOD / 2
+    T = [
+        ts + np.append(0, np.cumsum(np.diff(ts) < -half)) * TIMESTAMP_PERIOD
+        for ts in T
+    ]
+    # Some arrays may have started only after the rollover
+    latest = max([ts[0] for ts in T])
+    return [ts + TIMESTAMP_PERIOD * (latest - ts[0] > half) for ts in T]
+
 def parse_docstring_description(docstring):
     placeholder = "~~~PLACEHOLDER~~~"
     # Remove all changelog information
-- 
2.43.0


From 3a4b998369fac51ac27b527c2ca66f85aea3e899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:43 +0000
Subject: [PATCH 35/39] fix: fpfind: the last values of a precompensation scan
 were lost to rounding

---
 src/fpfind/fpfind.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fpfind/fpfind.py b/src/fpfind/fpfind.py
index 209e89f..3e9e472 100755
--- a/src/fpfind/fpfind.py
+++ b/src/fpfind/fpfind.py
@@ -415,6 +415,9 @@ def generate_precompensations(start, stop, step, ordered=False) -> list:
     if step == 0:
         return [0]
 
+    # Include 'stop' if it is a whole number of steps away, whichever way this rounds
+    stop = stop + step*1e-6
+
     # Prepare pre-compensations
     if ordered:
         df0s = np.arange(0, int((stop-start) // step + 1))  # conventional
-- 
2.43.0


From b00d937368ae1e1b3ce7b9fa31f099872b4b549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:02 +0000
Subject: [PATCH 36/39] fix: freqcd: correction lines with embedded zero bytes
 were taken for the digits before them

---
 src/fpfind/freqcd.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fpfind/freqcd.c b/src/fpfind/freqcd.c
index ec9be68..58aee37 100644
--- a/src/fpfind/freqcd.c
+++ b/src/fpfind/freqcd.c
@@ -429,6 +429,11 @@ int main(int argc, char *argv[]) {
                 break;
             }
 
+            // Embedded zeros must not pass for the end of the line
+            for (i = 0; i < freqbytesread_next; i++) {
+                if (freqbuffer_next[i] == 0) freqbuffer_next[i] = '?';
+            }
+
             /* concatenate new data */
             freqbytesread = freqbytespartial + freqbytesread_next;
 
-- 
2.43.0


From 24b8914dfb56bc24128f274c8ce90744c71a1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:51 +0000
Subject: [PATCH 37/39] fix: freqcd launcher: program paths with spaces, or
 longer than $COLUMNS, were cut

---
 src/fpfind/_postinstall |  4 ++--
 src/fpfind/freqcd       | 18 +++++++++---------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/fpfind/_postinstall b/src/fpfind/_postinstall
index ff2980e..8111edc 100755
--- a/src/fpfind/_postinstall
+++ b/src/fpfind/_postinstall
@@ -4,5 +4,5 @@ TARGET=freqcd
 if [ ! -z "$1" ]; then TARGET="$1"; fi
 
 # Replace target only when complete, in case of failure or concurrent calls
-gcc -o ${TARGET}.$$ freqcd.c lib/getopt.c && mv -f ${TARGET}.$$ ${TARGET} \
-    || { rm -f ${TARGET}.$$; exit 1; }
+gcc -o "${TARGET}.$$" freqcd.c lib/getopt.c && mv -f "${TARGET}.$$" "${TARGET}" \
+    || { rm -f "${TARGET}.$$"; exit 1; }
diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index c3a8ea4..22e41e3 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -6,25 +6,25 @@
 # this script will automatically trigger the compilation and then proceed
 # to run the desired binary :)
 #
-# Works only on Linux, with 'ps', 'awk' and 'python3' dependencies.
+# Works only on Linux, with the 'python3' dependency.
 
-# Gets the full call to current script, then retrieves program path
+# Gets the program path from the call to current script
 # e.g. /bin/sh /home/justin/.pyenv/versions/3.10.6/bin/freqcd -x ...
-PROGRAM=$(ps -q $$ -o args= | awk -F ' ' '{print $2}')
+PROGRAM=$0
 PROGRAM=$(readlink -f "${PROGRAM}")  # working directory differs below
 
 # Get root directory of installed library, where postinstall script is located
 ENTRYPOINT=$(python3 -c "import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
-INSTALL_ROOT=$(dirname "$(readlink -f ${ENTRYPOINT})")
+INSTALL_ROOT=$(dirname "$(readlink -f "${ENTRYPOINT}")")
 
 # Keep a record of program path, in case one desires a manual recompilation;
 # will be created in-situ only in an editable installation.
-rm -f ${INSTALL_ROOT}/freqcd_path \
-    && echo "${PROGRAM}" > ${INSTALL_ROOT}/freqcd_path
+rm -f "${INSTALL_ROOT}/freqcd_path" \
+    && printf '%s\n' "${PROGRAM}" > "${INSTALL_ROOT}/freqcd_path"
 
 # Trigger post-install compilation and write directly to target
 # (in a subshell, to retain the working directory of the caller)
-(cd ${INSTALL_ROOT} && ./_postinstall ${PROGRAM}) \
+(cd "${INSTALL_ROOT}" && ./_postinstall "${PROGRAM}") \
     || { echo "'freqcd.c' failed to compile... not running."; exit 1; }
 
 # Pass arguments and directly execute
@@ -58,8 +58,8 @@ exec "${PROGRAM}" "$@"
 #    python3 -m pip show ${LIBNAME} | grep 'Location' | awk -F ': ' '{print $2}'
 #
 # Instead, we rely on the fact that this script will be triggered by 'sh',
-# with the desired path supplied as an argument. Extracting the path is thus
-# a simple matter of a 'ps' + 'awk' hack.
+# with the desired path supplied as an argument, i.e. '$0'. Parsing the output
+# of 'ps' fails for paths with spaces, and for paths cut to '$COLUMNS'.
 #
 # A small side-note, use of '$PPID' to extract the parent path will not work,
 # which may end up deferring to the shell emulator's process instead.
-- 
2.43.0


From 0ff8ea35129bad901d244f918dd9e371e3c5924e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:51 +0000
Subject: [PATCH 38/39] fix: freqcd launcher: files named like modules in the
 current directory misled it

---
 src/fpfind/freqcd | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index 22e41e3..22d890d 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -14,7 +14,9 @@ PROGRAM=$0
 PROGRAM=$(readlink -f "${PROGRAM}")  # working directory differs below
 
 # Get root directory of installed library, where postinstall script is located
-ENTRYPOINT=$(python3 -c "import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
+# (regardless of what is in the current directory)
+ENTRYPOINT=$(python3 -c "import sys; sys.path = [p for p in sys.path if p]
+import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
 INSTALL_ROOT=$(dirname "$(readlink -f "${ENTRYPOINT}")")
 
 # Keep a record of program path, in case one desires a manual recompilation;
-- 
2.43.0


From 0dbe6f78bfe532ed2c37f0e1a947e9b754b87a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:10 +0000
Subject: [PATCH 39/39] fix: freqcd launcher: wrote into the current directory
 when the library is not found

---
 src/fpfind/freqcd | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fpfind/freqcd b/src/fpfind/freqcd
index 22d890d..3a76b07 100755
--- a/src/fpfind/freqcd
+++ b/src/fpfind/freqcd
@@ -16,7 +16,8 @@ PROGRAM=$(readlink -f "${PROGRAM}")  # working directory differs below
 # Get root directory of installed library, where postinstall script is located
 # (regardless of what is in the current directory)
 ENTRYPOINT=$(python3 -c "import sys; sys.path = [p for p in sys.path if p]
-import importlib.util; print(importlib.util.find_spec('fpfind').origin)")
+import importlib.util; print(importlib.util.find_spec('fpfind').origin)") \
+    || { echo "'fpfind' not found by python3... not running."; exit 1; }
 INSTALL_ROOT=$(dirname "$(readlink -f "${ENTRYPOINT}")")
 
 # Keep a record of program path, in case one desires a manual recompilation;
-- 
2.43.0

