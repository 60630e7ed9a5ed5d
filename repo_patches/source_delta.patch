From edf6f9e37c1e2a43bf91f40c88cd4c0671202ef9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 001/113] fix: frame buffers fill missing frames even when
 duplicates hide them

A segment was judged by how many frames it held, so a duplicate of one frame
made up for the absence of another: no fill frame, two copies of the same frame
and wrong statistics.  COR duplicates were also found without the channel,
which dropped good frames.  Count distinct frames instead.
---
 lsl/reader/buffer.py | 75 +++++++++++++++++++++-----------------------
 1 file changed, 36 insertions(+), 39 deletions(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index b2f7c7d..17f1588 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -302,39 +302,30 @@ class FrameBufferBase(object):
             key_to_return = self.peek()
             if key_to_return is None:
                 return None
-        returnCount = len(self.buffer[key_to_return])
-        
-        if returnCount == self.nFrames:
-            ## Everything is good (Is it really???)
+
+        # Weed out duplicate frames so that only what is really there is counted
+        output = deque()
+        frameIDs = set()
+        for frame in self.buffer[key_to_return]:
+            newID = self._get_frame_id(frame)
+            if newID not in frameIDs:
+                output.append(frame)
+                frameIDs.add(newID)
+            else:
+                self.dropped += 1
+                
+        missingList = self._get_missing_list(key_to_return)
+        if len(missingList) == 0:
+            ## Everything is good
             self.full = self.full + 1
-            
-            output = self.buffer[key_to_return]
-        elif returnCount < self.nFrames:
+        else:
             ## There are too few frames
             self.partial = self.partial + 1
-            self.missing = self.missing + (self.nFrames - returnCount)
-            
-            output = self.buffer[key_to_return]
+            self.missing = self.missing + len(missingList)
             
             ## Fill in the missing frames
-            output.extend( map(lambda x: self.create_fill(key_to_return, x), self._get_missing_list(key_to_return)) )
-        else:
-            ## There are too many frames
-            self.full = self.full + 1
+            output.extend( map(lambda x: self.create_fill(key_to_return, x), missingList) )
             
-            output = []
-            frameIDs = []
-            for frame in self.buffer[key_to_return]:
-                try:
-                    newID = frame.id
-                except AttributeError:
-                    newID = frame.header.first_chan
-                if newID not in frameIDs:
-                    output.append(frame)
-                    frameIDs.append(newID)
-                else:
-                    self.dropped += 1
-                    
         del(self.buffer[key_to_return])
         self.done.append(key_to_return)
         
@@ -384,24 +375,30 @@ class FrameBufferBase(object):
         
         return False if len(self.buffer) else True
         
+    def _get_frame_id(self, frame):
+        """
+        Return what identifies a frame within its buffer, i.e., the entry for
+        it in the list of possible frames.
+        """
+        
+        if hasattr(self, 'frameID'):
+            return self.frameID(frame)
+        elif self.mode == 'VDIF':
+            return frame.id[1]
+        elif self.mode in ('TBF', 'TBX'):
+            return frame.header.first_chan
+        elif self.mode == 'COR':
+            return frame.id+(frame.header.first_chan,)
+        else:
+            return frame.id
+            
     def _get_missing_list(self, key):
         """
         Create a list of tuples of missing frame information.
         """
         
         # Find out what frames we have
-        if hasattr(self, 'frameID'):
-            fnc = lambda x: self.frameID(x)
-        else:
-            if self.mode == 'VDIF':
-                fnc = lambda x: x.id[1]
-            elif self.mode in ('TBF', 'TBX'):
-                fnc = lambda x: x.header.first_chan
-            elif self.mode == 'COR':
-                fnc = lambda x: x.id+(x.header.first_chan,)
-            else:
-                fnc = lambda x: x.id
-        frameList = set(map(fnc, self.buffer[key]))
+        frameList = set(map(self._get_frame_id, self.buffer[key]))
         
         # Compare the existing list with the possible list stored in the 
         # FrameBufferBase object to build a list of missing frames.
-- 
2.43.0


From ddf7412eed46e6827aa67c28c730bb10713ba337 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:24:33 +0000
Subject: [PATCH 002/113] fix: flush frame buffers in time order

flush() handed the segments out in the order their first frame arrived.
---
 lsl/reader/buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/buffer.py b/lsl/reader/buffer.py
index 17f1588..d9e3857 100644
--- a/lsl/reader/buffer.py
+++ b/lsl/reader/buffer.py
@@ -351,7 +351,7 @@ class FrameBufferBase(object):
             the LWA-SV COR frames out of the buffer
         """
         
-        for key in list(self.buffer):
+        for key in sorted(self.buffer):
             yield self.get(key_to_return=key)
             
     def reset(self):
-- 
2.43.0


From d68c023d7b19316f03caaa8bb423583a0c7e99d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 003/113] fix: SplitFileWrapper.read crosses as many parts as
 it needs

A read that spanned more than two parts, or asked for everything, came back short.
---
 lsl/reader/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index da932cb..f0f6149 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -80,9 +80,12 @@ class SplitFileWrapper(object):
         if self.closed:
             raise ValueError("I/O operation on a closed file")
             
+        if size < 0:
+            size = max([self._total_size - self._pos, 0])
+            
         data = self._fh.read(size)
         self._pos += len(data)
-        if len(data) < size and self._idx < self._nfiles-1:
+        while len(data) < size and self._idx < self._nfiles-1:
             self._open_part()
             new_data = self._fh.read(size-len(data))
             self._pos += len(new_data)
-- 
2.43.0


From 7cc9fa6f769539839358d981c9edf11c48ff521d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 02:53:03 +0000
Subject: [PATCH 004/113] fix: SplitFileWrapper.seek relative to the end and
 before the start

whence=2 had the sign of the offset wrong, and a seek to a negative position
raised only after moving to another part.
---
 lsl/reader/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/reader/utils.py b/lsl/reader/utils.py
index f0f6149..b28e725 100644
--- a/lsl/reader/utils.py
+++ b/lsl/reader/utils.py
@@ -107,6 +107,9 @@ class SplitFileWrapper(object):
             raise ValueError("I/O operation on a closed file")
             
         if whence == 0:
+            if pos < 0:
+                raise ValueError(f"Negative seek position {pos}")
+                
             idx = bisect(self._offsets, pos) - 1
             self._open_part(idx)
             offset = pos - self._pos
@@ -118,5 +121,5 @@ class SplitFileWrapper(object):
             self.seek(offset, whence=0)
             
         else:
-            offset = self._total_size - pos
+            offset = self._total_size + pos
             self.seek(offset, whence=0)
-- 
2.43.0


From 43fbebd55a375439e87b8e308e4f925c3a81ba34 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:08:33 +0000
Subject: [PATCH 005/113] fix: LDP readers zero-fill short gaps wherever in the
 file they are

---
 lsl/reader/ldp.py | 90 ++++++++++++++++++++---------------------------
 1 file changed, 39 insertions(+), 51 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index f132c53..a090a67 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -249,6 +249,22 @@ class LDPFileBase(object):
         self.fh.close()
         _open_ldp_files.remove(self)
         
+    def _fill_gap(self, last, current, skip, limit):
+        """
+        Add zero-filled frames to the buffer for the time tags that are missing
+        between `last`, the last one returned, and `current`, one that is in the
+        buffer, provided that there are fewer than `limit` of them.
+        """
+        
+        missing = (current - last - skip) / float(skip)
+        if int(missing) == missing and missing < limit:
+            LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
+            for m in range(int(missing)):
+                baseframe = copy.deepcopy(self.buffer.buffer[current][0])
+                baseframe.payload.timetag = last + skip*(m+1)
+                baseframe.payload._data[...] = 0
+                self.buffer.append(baseframe)
+                
     def offset(self, offset):
         """
         Offset into the data.
@@ -613,23 +629,9 @@ class DRXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
-                    pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
-                    if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
-                        LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
-                        ## This is kind of black magic down here
-                        for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
-                            baseframe.payload.timetag = m
-                            baseframe.payload._data[...] = 0
-                            self.buffer.append(baseframe)
+                last = max(self._timetag.values())
+                if last != 0:
+                    self._fill_gap(last, cTimetag, self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
             cFrames = self.buffer.get()
             
             # If something comes out, add it to the data array
@@ -662,6 +664,11 @@ class DRXFile(LDPFileBase):
         # If we've hit the end of the file and haven't read in enough frames, 
         # flush the buffer
         if eofFound and nFrameSets != frame_count:
+            last = max(self._timetag.values())
+            for cTimetag in sorted(self.buffer.buffer):
+                if last != 0:
+                    self._fill_gap(last, cTimetag, self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
+                last = cTimetag
             for cFrames in self.buffer.flush():
                 for cFrame in cFrames:
                     b,t,p = cFrame.id
@@ -1079,23 +1086,9 @@ class DRX8File(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag[aStand] == 0:
-                    pass
-                elif cTimetag != self._timetag[aStand]+self._timetagSkip:
-                    missing = (cTimetag - self._timetag[aStand] - self._timetagSkip) / float(self._timetagSkip)
-                    if int(missing) == missing and missing < LDP_CONFIG.get('drx_autofill_size'):
-                        LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
-                        ## This is kind of black magic down here
-                        for m in range(int(missing)):
-                            m = self._timetag[aStand] + self._timetagSkip*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
-                            baseframe.payload.timetag = m
-                            baseframe.payload._data[...] = 0
-                            self.buffer.append(baseframe)
+                last = max(self._timetag.values())
+                if last != 0:
+                    self._fill_gap(last, cTimetag, self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
             cFrames = self.buffer.get()
             
             # If something comes out, add it to the data array
@@ -1128,6 +1121,11 @@ class DRX8File(LDPFileBase):
         # If we've hit the end of the file and haven't read in enough frames, 
         # flush the buffer
         if eofFound and nFrameSets != frame_count:
+            last = max(self._timetag.values())
+            for cTimetag in sorted(self.buffer.buffer):
+                if last != 0:
+                    self._fill_gap(last, cTimetag, self._timetagSkip, LDP_CONFIG.get('drx_autofill_size'))
+                last = cTimetag
             for cFrames in self.buffer.flush():
                 for cFrame in cFrames:
                     b,t,p = cFrame.id
@@ -1748,23 +1746,8 @@ class TBXFile(LDPFileBase):
                 continue
             else:
                 # Otherwise, make sure we are on track
-                aStand = 0
-                if self._timetag == 0:
-                    pass
-                elif cTimetag != self._timetag + 8192:
-                    missing = (cTimetag - self._timetag - 8192) / float(8192)
-                    if int(missing) == missing and missing < LDP_CONFIG.get('tbx_autofill_size'):
-                        LSL_LOGGER.debug(f"Zero-filling {int(missing)} missing frame(s)")
-                        ## This is kind of black magic down here
-                        for m in range(int(missing)):
-                            m = self._timetag + 8192*(m+1)
-                            try:
-                                baseframe = copy.deepcopy(cFrames[0])
-                            except NameError:
-                                baseframe = copy.deepcopy(self.buffer.buffer[cTimetag][0])
-                            baseframe.payload.timetag = m
-                            baseframe.payload._data[...] = 0
-                            self.buffer.append(baseframe)
+                if self._timetag != 0:
+                    self._fill_gap(self._timetag, cTimetag, timetagSkip, LDP_CONFIG.get('tbx_autofill_size'))
             cFrames = self.buffer.get()
             
             # Continue adding frames if nothing comes out.
@@ -1806,6 +1789,11 @@ class TBXFile(LDPFileBase):
         # If we've hit the end of the file and haven't read in enough frames, 
         # flush the buffer
         if eofFound and nFrameSets != frame_count:
+            last = self._timetag
+            for cTimetag in sorted(self.buffer.buffer):
+                if last != 0:
+                    self._fill_gap(last, cTimetag, timetagSkip, LDP_CONFIG.get('tbx_autofill_size'))
+                last = cTimetag
             for cFrames in self.buffer.flush():
                 cTimetag = cFrames[0].payload.timetag
                 if self._timetag == 0:
-- 
2.43.0


From c02f48364431dec73308495a39846c4b0eec5e60 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:08:33 +0000
Subject: [PATCH 006/113] fix: TBXFile.read returns the data left after an
 offset or lost frames

---
 lsl/reader/ldp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index a090a67..5019e5a 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1687,8 +1687,8 @@ class TBXFile(LDPFileBase):
             
         # Find out how many frames to read in... but make sure we don't read too much
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
-        remaining_count = self.description['nframe'] - self.fh.tell() // self.description['frame_size']
-        max_frame_count = remaining_count // framesPerObs + len(self.buffer.buffer.keys())
+        remaining_count = self.get_remaining_frame_count()
+        max_frame_count = max(remaining_count // framesPerObs + len(self.buffer.buffer.keys()), 1)
         if duration is None:
             duration = max_frame_count / self.description['sample_rate']
             LSL_LOGGER.debug(f"Requested duration is None, loading {duration:.3f} s of data")
-- 
2.43.0


From 5dfffd70c00dd3b9da3b8e618d6df6e31088b399 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:08:33 +0000
Subject: [PATCH 007/113] fix: TBXFile.offset accounts for the frames that are
 in the buffer

---
 lsl/reader/ldp.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index 5019e5a..bf5ea85 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1594,13 +1594,10 @@ class TBXFile(LDPFileBase):
         buffer_offset = 0
         if getattr(self, "_timetag", None) is not None:
             curr = self.buffer.peek(require_filled=False)
-            if curr is None:
-                frame = tbx.read_frame(self.fh)
-                self.fh.seek(-frame_size, 1)
-                curr = frame.payload.time_tag
-            buffer_offset = curr - self._timetag
-            buffer_offset = buffer_offset / fS
-            
+            if curr is not None:
+                buffer_offset = (max(self.buffer.buffer) - curr) / fS
+                buffer_offset += 1.0 / self.description['sample_rate']
+                
         offset = offset - buffer_offset
         framesPerObs = self.description['nchan'] // self.description['frame_channel_count']
         frameOffset = int(offset * self.description['sample_rate'] * framesPerObs)
@@ -1617,7 +1614,7 @@ class TBXFile(LDPFileBase):
         # Reset the timetag checker
         self._timetag = None
         
-        return 1.0 * frameOffset / framesPerObs / self.description['sample_rate']
+        return 1.0 * frameOffset / framesPerObs / self.description['sample_rate'] + buffer_offset
         
     def read_frame(self, return_ci8=False):
         """
-- 
2.43.0


From d4fcc59a86aec8aaa624422b8f021189bb3b4741 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:09:46 +0000
Subject: [PATCH 008/113] fix: DRSpecFile.read at the end of a truncated file
 is an EOFError

---
 lsl/reader/ldp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/reader/ldp.py b/lsl/reader/ldp.py
index bf5ea85..635050c 100644
--- a/lsl/reader/ldp.py
+++ b/lsl/reader/ldp.py
@@ -1417,6 +1417,8 @@ class DRSpecFile(LDPFileBase):
             try:
                 cFrame = drspec.read_frame(self.fh)
             except errors.EOFError:
+                if nFrameSets == 0:
+                    raise
                 break
             except errors.SyncError:
                 continue
-- 
2.43.0


From 1613f12f4b68a2152586d491ad6d626a293c27f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:16:30 +0000
Subject: [PATCH 009/113] fix: FrameTimestamp.pulsar_mjd at midnight

---
 lsl/reader/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/base.py b/lsl/reader/base.py
index 0457399..e520045 100644
--- a/lsl/reader/base.py
+++ b/lsl/reader/base.py
@@ -550,7 +550,7 @@ class FrameTimestamp(object):
         day_sec1 = mjd_frac1 * 86400
         day_sec2 = mjd_frac2 * 86400
         day_sec = int(day_sec1) + int(day_sec2)
-        if day_sec > 86400:
+        if day_sec >= 86400:
             mjd += 1
             day_sec -= 86400
         sec_frac = (day_sec1 - int(day_sec1)) + (day_sec2 - int(day_sec2))
-- 
2.43.0


From 9293832158861c26d8ae8bde5007e7846b5b4a28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:23:54 +0000
Subject: [PATCH 010/113] fix: FileLock excludes threads that share an instance
 and nests within a thread

---
 lsl/misc/file_lock.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 394372e..c68a5b4 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -29,9 +29,15 @@ class FileLock(object):
         self._locked = False
         self._our_lock = None
         
+        # The lock is shared by the threads that use this instance and nests
+        # within a thread
+        self._thread_lock = RLock()
+        self._owner = None
+        self._depth = 0
+        
     def __del__(self):
         if self._locked:
-            self.release()
+            self._release_file()
             
     def __enter__(self):
         self.acquire()
@@ -44,6 +50,30 @@ class FileLock(object):
         return self._locked
         
     def acquire(self, blocking=True, timeout=120):
+        if not self._thread_lock.acquire(blocking, timeout if blocking else -1):
+            return False
+            
+        acquired = False
+        try:
+            acquired = self._acquire_file(blocking=blocking, timeout=timeout)
+            if acquired:
+                self._owner = current_thread().ident
+                self._depth += 1
+        finally:
+            if not acquired:
+                self._thread_lock.release()
+        return acquired
+        
+    def release(self):
+        if self._depth > 0 and self._owner == current_thread().ident:
+            self._depth -= 1
+            if self._depth == 0:
+                self._owner = None
+                self._release_file()
+            self._thread_lock.release()
+        return True
+        
+    def _acquire_file(self, blocking=True, timeout=120):
         t0 = time.time()
         emit_waiting_warning = 0
         
@@ -102,7 +132,7 @@ class FileLock(object):
                
         return self._locked
         
-    def release(self):
+    def _release_file(self):
         if self._our_lock is not None:
             # To cleanup we truncate the file and then release the lock.
             self._our_lock.truncate(0)
@@ -111,7 +141,6 @@ class FileLock(object):
             self._our_lock.close()
             self._our_lock = None
         self._locked = False
-        return True
 
 
 class MemoryLock(object):
-- 
2.43.0


From 96691f1e06327935e5f36b81aa001ef53dbae053 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:23:54 +0000
Subject: [PATCH 011/113] fix: MemoryLock non-blocking acquire and state when
 nested

---
 lsl/misc/file_lock.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index c68a5b4..08872ca 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -146,7 +146,8 @@ class FileLock(object):
 class MemoryLock(object):
     def __init__(self, filename):
         self._lock = RLock()
-        self._locked = False
+        self._owner = None
+        self._depth = 0
         
     def __enter__(self):
         self.acquire()
@@ -156,15 +157,18 @@ class MemoryLock(object):
         self.release()
         
     def locked(self):
-        return self._locked
+        return self._depth > 0
         
     def acquire(self, blocking=True, timeout=120):
-        try:
-            self._locked = self._lock.acquire(blocking, timeout)
-        except TypeError:
-            self._locked = self._lock.acquire(blocking)
-        return self._locked
+        acquired = self._lock.acquire(blocking, timeout if blocking else -1)
+        if acquired:
+            self._owner = current_thread().ident
+            self._depth += 1
+        return acquired
         
     def release(self):
+        if self._owner == current_thread().ident:
+            self._depth -= 1
+            if self._depth == 0:
+                self._owner = None
         self._lock.release()
-        self._locked = False
-- 
2.43.0


From 0bded64002e1f5819e0f3dcc855f39c5b268caa1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:23:54 +0000
Subject: [PATCH 012/113] fix: FileCache.open releases the lock when the file
 cannot be opened

---
 lsl/misc/file_cache.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index 0f8714d..dff76e2 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -95,21 +95,20 @@ class FileCache(object):
         self._lock.acquire()
         assert(self._lock.locked())
         
-        if mode.startswith('w') or mode.startswith('a'):
-            parent_dirs = os.path.dirname(filename)
-            if parent_dirs != '':
-                parent_dirs = os.path.join(self.cache_dir, parent_dirs)
-                if not os.path.exists(parent_dirs):
-                    os.makedirs(parent_dirs, exist_ok=True)
-                    
-        fh = open(os.path.join(self.cache_dir, filename), mode)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
-            
         try:
-            yield fh
+            if mode.startswith('w') or mode.startswith('a'):
+                parent_dirs = os.path.dirname(filename)
+                if parent_dirs != '':
+                    parent_dirs = os.path.join(self.cache_dir, parent_dirs)
+                    if not os.path.exists(parent_dirs):
+                        os.makedirs(parent_dirs, exist_ok=True)
+                        
+            with open(os.path.join(self.cache_dir, filename), mode) as fh:
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management()
+                    
+                yield fh
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
-- 
2.43.0


From 200d78a4bb4b1f698c3ee7027ff192275e9fd9c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:23:54 +0000
Subject: [PATCH 013/113] fix: FileCache clean up keeps the file being opened
 and gets past directories

---
 lsl/misc/file_cache.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index dff76e2..bb4d610 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -58,18 +58,24 @@ class FileCache(object):
     def __contains__(self, filename):
         return os.path.exists(os.path.join(self.cache_dir, filename))
         
-    def _cache_management(self):
+    def _cache_management(self, current):
         try:
             max_size = self.max_size()
         except TypeError:
             max_size = self.max_size
             
         if max_size > 0:
-            filenames = glob.glob(os.path.join(self.cache_dir, '*'))
+            filenames = glob.glob(os.path.join(self.cache_dir, '**'), recursive=True)
             filenames = list(filter(lambda x:os.path.basename(x) != 'cache_access.lock', filenames))
+            filenames = list(filter(os.path.isfile, filenames))
             sizes = [os.path.getsize(f)/1024.**2 for f in filenames]
             mtimes = [os.path.getmtime(f) for f in filenames]
             
+            # The file that is being opened is the most recent one
+            current = os.path.abspath(os.path.join(self.cache_dir, current))
+            if current in filenames:
+                mtimes[filenames.index(current)] = float('inf')
+                
             # Delete until we mee the cache size limit or until there is only one
             # file left (the most recent one)
             while sum(sizes) > max_size and len(filenames) > 1:
@@ -77,11 +83,11 @@ class FileCache(object):
                 idx = mtimes.index(oldest)
                 try:
                     os.unlink(filenames[idx])
-                    del filenames[idx]
-                    del sizes[idx]
-                    del mtimes[idx]
                 except OSError:
                     pass
+                del filenames[idx]
+                del sizes[idx]
+                del mtimes[idx]
                     
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
@@ -105,7 +111,7 @@ class FileCache(object):
                         
             with open(os.path.join(self.cache_dir, filename), mode) as fh:
                 if mode.startswith('w') or mode.startswith('a'):
-                    self._cache_management()
+                    self._cache_management(filename)
                     
                 yield fh
         finally:
-- 
2.43.0


From 2762977443c8a9b54c83c4196f3c7e575daa3af1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:24:23 +0000
Subject: [PATCH 014/113] fix: MemoryFile append mode, iteration, seek result
 and modification time

---
 lsl/misc/file_cache.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index bb4d610..d2299be 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -219,8 +219,9 @@ class MemoryFile(object):
         
     def __iter__(self):
         contents = self.readline()
-        if len(contents) > 0:
+        while len(contents) > 0:
             yield contents
+            contents = self.readline()
             
     @property
     def closed(self):
@@ -265,6 +266,8 @@ class MemoryFile(object):
         self._atime = time.time()
         if mode.startswith('w'):
             self._ctime = time.time()
+        if mode.startswith('a'):
+            self._buffer.seek(0, 2)
         self._closed = False
         self._is_binary = (mode.find('b') != -1)
         
@@ -283,7 +286,7 @@ class MemoryFile(object):
         if self._closed:
             raise IOError(f"MemoryFile:{self.name} is closed")
             
-        self._buffer.seek(pos, whence)
+        return self._buffer.seek(pos, whence)
         
     def tell(self):
         """
@@ -368,6 +371,8 @@ class MemoryFile(object):
         """
         
         self._buffer.flush()
+        if not self._closed and (self.mode.startswith('w') or self.mode.startswith('a')):
+            self._mtime = time.time()
         self._buffer.seek(0)
         self._closed = True
         if self._lock.locked():
@@ -490,7 +495,7 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            mtime = self._cache[filename].stat['st_mtime']
+            mtime = self._cache[filename].stat.st_mtime
         except KeyError:
             raise OSError()
         finally:
-- 
2.43.0


From 4335fa6f70d6a22181f078d467e6e5fd28dd4b08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:24:23 +0000
Subject: [PATCH 015/113] fix: MemoryCache clean up keeps the file being
 opened; reading a missing file is an error

---
 lsl/misc/file_cache.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/lsl/misc/file_cache.py b/lsl/misc/file_cache.py
index d2299be..5f7d4cf 100644
--- a/lsl/misc/file_cache.py
+++ b/lsl/misc/file_cache.py
@@ -6,6 +6,7 @@ Module that provides classes for file cache management.
 
 import os
 import glob
+import errno
 import time
 import contextlib
 from threading import Lock
@@ -402,7 +403,7 @@ class MemoryCache(object):
     def __contains__(self, filename):
         return filename in self._cache
             
-    def _cache_management(self):
+    def _cache_management(self, current):
         try:
             max_size = self.max_size()
         except TypeError:
@@ -413,6 +414,9 @@ class MemoryCache(object):
             sizes = [self._cache[filename].size/1024.**2 for filename in filenames]
             mtimes = [self._cache[filename]._mtime for filename in filenames]
             
+            # The file that is being opened is the most recent one
+            mtimes[filenames.index(current)] = float('inf')
+            
             # Delete until we mee the cache size limit or until there is only one
             # file left (the most recent one)
             while sum(sizes) > max_size and len(filenames) > 1:
@@ -439,19 +443,25 @@ class MemoryCache(object):
         assert(self._lock.locked())
         
         try:
-            fh = self._cache[filename]
-        except KeyError:
-            self._cache[filename] = MemoryFile(filename)
-            fh = self._cache[filename]
-        if mode.startswith('w'):
-            fh.truncate(0)
-        if mode.startswith('w') or mode.startswith('a'):
-            self._cache_management()
+            try:
+                fh = self._cache[filename]
+            except KeyError:
+                if mode.startswith('r'):
+                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), filename)
+                self._cache[filename] = MemoryFile(filename)
+                fh = self._cache[filename]
+            fh.open(mode=mode)
             
-        try:
-            yield fh.open(mode=mode)
+            try:
+                if mode.startswith('w'):
+                    fh.truncate(0)
+                if mode.startswith('w') or mode.startswith('a'):
+                    self._cache_management(filename)
+                    
+                yield fh
+            finally:
+                fh.close()
         finally:
-            fh.close()
             self._lock.release()
             
     def remove(self, filename):
-- 
2.43.0


From 11d8049da0a2c2afef2a5a13c59714c0e1112597 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:28:30 +0000
Subject: [PATCH 016/113] fix: FileLock does not mistake another process's lock
 for its own

The thread ID in the lock file could be read, and was taken as ours, when a
process with the same thread ID (forks share them) wrote it between our open and
our read.
---
 lsl/misc/file_lock.py | 50 +++++++++++++++++--------------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/lsl/misc/file_lock.py b/lsl/misc/file_lock.py
index 08872ca..767c9da 100644
--- a/lsl/misc/file_lock.py
+++ b/lsl/misc/file_lock.py
@@ -80,38 +80,28 @@ class FileLock(object):
         ident = current_thread().ident
         while not self._locked:
             try:
-                # Open the lock file and try to read the thread ID of who owns
-                # it
+                # Open the lock file and try to claim an exclusive lock on it.
+                # Only the lock itself says who owns the file:  thread IDs are
+                # not unique across processes.
                 fh = open(self._lockname, 'a+')
-                try:
-                    owner_ident = int(fh.read(), 10)
-                except ValueError:
-                    owner_ident = 0
-                    
-                if ident != owner_ident:
-                    ## If we don't own it, try to claim an exclusive lock on it.
-                    fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
+                fcntl.flock(fh, fcntl.LOCK_EX|fcntl.LOCK_NB)
+                
+                # Verify that the lock file and what we just opened are the
+                # the same file.  If not then give up.
+                fh_stat = os.fstat(fh.fileno())
+                lock_stat  = os.stat(fh.name)
+                if fh_stat.st_ino != lock_stat.st_ino:
+                    err = IOError()
+                    err.errno = errno.EAGAIN
+                    raise err
                     
-                    ## Verify that the lock file and what we just opened are the
-                    ## the same file.  If not then give up.
-                    fh_stat = os.fstat(fh.fileno())
-                    lock_stat  = os.stat(fh.name)
-                    if fh_stat.st_ino != lock_stat.st_ino:
-                        err = IOError()
-                        err.errno = errno.EAGAIN
-                        raise err
-                        
-                    ## Write our thread ID to the file and save the file handle
-                    ## to _our_lock so that we know that we need to clean things
-                    ## up when we are done.
-                    fh.truncate(0)
-                    fh.write("%i" % ident)
-                    fh.flush()
-                    self._our_lock = fh
-                else:
-                    ## If we do already own it then there is nothing else to do.
-                    fh.close()
-                    self._our_lock = None
+                # Write our thread ID to the file and save the file handle
+                # to _our_lock so that we know that we need to clean things
+                # up when we are done.
+                fh.truncate(0)
+                fh.write("%i" % ident)
+                fh.flush()
+                self._our_lock = fh
                 self._locked = True
                 
             except IOError as e:
-- 
2.43.0


From d93669bfe00e881acfa0fe14d6c50e2c96ffa7d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:44:56 +0000
Subject: [PATCH 017/113] fix: configuration views set parameters of other
 sections, as they get them

---
 lsl/config.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 9a38c92..07b2b09 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -451,10 +451,9 @@ class LSLConfigSubContainer(object):
         Set the value of a parameter.
         """
         
-        try:
-            self.container.set(self.section+'.'+name, value)
-        except KeyError:
-            self.container.set(name, value)
+        if self.section+'.'+name in self.container._parameters:
+            name = self.section+'.'+name
+        self.container.set(name, value)
         
     def set_temp(self, name, value):
         """
@@ -462,10 +461,9 @@ class LSLConfigSubContainer(object):
         across Python sessions.
         """
         
-        try:
-            return self.container.set_temp(self.section+'.'+name, value)
-        except KeyError:
-            return self.container.set_temp(name, value)
+        if self.section+'.'+name in self.container._parameters:
+            name = self.section+'.'+name
+        return self.container.set_temp(name, value)
 
 
 #: The LSLConfigContainer that users should use
-- 
2.43.0


From 5e68174ce290c795df1cf3e0cb6d050044da618e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:44:56 +0000
Subject: [PATCH 018/113] fix: a KeyError raised in a configuration set_temp
 block is not an unknown parameter

---
 lsl/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index 07b2b09..77e0a5f 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -415,14 +415,14 @@ class LSLConfigContainer(object):
                 raise TypeError("Expected %s but found %s for '%s'" % (type(old_value).__name__,
                                                                        type(value).__name__,
                                                                        name))
-            self._parameters[name].value = value
-            try:
-                yield
-            finally:
-                self._parameters[name].value = old_value
-                
         except KeyError:
             raise ValueError(f"Unknown parameter '{name}'")
+            
+        self._parameters[name].value = value
+        try:
+            yield
+        finally:
+            self._parameters[name].value = old_value
 
 
 class LSLConfigSubContainer(object):
-- 
2.43.0


From 1bb422f639c60acedfff9cb6b827ec1ed3719e45 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:45:34 +0000
Subject: [PATCH 019/113] fix: an optional configuration parameter set to None
 stays None

---
 lsl/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/config.py b/lsl/config.py
index 77e0a5f..c8c8deb 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -192,7 +192,9 @@ class LSLConfigParameter(object):
             
         section, item = self.name.rsplit('.', 1)
         if self.value is None:
-            output += f"#{item} = \n"
+            # Leave it out only if None is what it then is
+            default = DEFAULTS_ALL.get(section, {}).get(item, {}).get('value', None)
+            output += f"{'#' if default is None else ''}{item} = \n"
         else:
             output += f"{item} = {self.value}\n"
         return output
-- 
2.43.0


From 167af7551a61702dafab3d5e6a81f28f64938e31 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:45:35 +0000
Subject: [PATCH 020/113] fix: saving the configuration keeps what other
 sessions saved

A session that only had to create or update the file, or that abandoned its
changes, wrote its own values over those of other sessions; a session that saved
twice took its own first save for someone else's.
---
 lsl/config.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/lsl/config.py b/lsl/config.py
index c8c8deb..63c5b03 100644
--- a/lsl/config.py
+++ b/lsl/config.py
@@ -315,26 +315,30 @@ class LSLConfigContainer(object):
         Save the configuation to disk.
         """
         
-        if not _IS_READONLY:
-            if os.path.exists(self.filename) and len(self._param_changed_list) > 0:
-                mtime = os.path.getmtime(self.filename)
-                if mtime > self._loaded:
-                    # The file was modified on disk after we loaded it
-                    # Abandon our parameter changes but still save if version changed
-                    warnings.warn('\u001b[33mConfiguration file changed on disk, abandoning changes from this session\u001b[0m', RuntimeWarning)
-                    for key,value in self._param_changed_list.items():
-                        warnings.warn("\u001b[33m  %s: %s -> %s\u001b[0m" % (key, value[0], value[1]), RuntimeWarning)
-                    self._param_changed_list.clear()
-                    # Don't reset _param_changed if version changed - we still need to update the file
-                    if not self._version_changed:
+        if not _IS_READONLY and self._param_changed:
+            with FileLock(self.filename) as lock:
+                assert(lock.locked())
+                
+                if os.path.exists(self.filename):
+                    mtime = os.path.getmtime(self.filename)
+                    if mtime > self._loaded:
+                        # The file was modified on disk after we loaded it
+                        # Abandon our parameter changes but still save if version changed
+                        if len(self._param_changed_list) > 0:
+                            warnings.warn('\u001b[33mConfiguration file changed on disk, abandoning changes from this session\u001b[0m', RuntimeWarning)
+                        for key,value in self._param_changed_list.items():
+                            warnings.warn("\u001b[33m  %s: %s -> %s\u001b[0m" % (key, value[0], value[1]), RuntimeWarning)
+                        self._param_changed_list.clear()
+                        # Use what is there now.  This also finds out if the file
+                        # still needs to be updated for the version.
+                        self._version_changed = False
                         self._param_changed = False
+                        self._load_config()
                         
-            if self._param_changed:
-                with FileLock(self.filename) as lock:
-                    assert(lock.locked())
-                    
+                if self._param_changed:
                     with open(self.filename, 'w') as fh:
                         fh.write(str(self))
+                    self._loaded = os.path.getmtime(self.filename)
                     self._version_changed = False
                     self._param_changed = False
                     self._param_changed_list.clear()
-- 
2.43.0


From cf35af81fe29aee86bbf2edfc492005f11558315 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 021/113] fix: complex VDIF data read as integers

---
 lsl/reader/vdif.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index a69caa9..3625ac3 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -328,10 +328,10 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         
-        float *a;
+        T *a;
         std::complex<float> *b;
         
-        a = (float *) PyArray_DATA(data);
+        a = (T *) PyArray_DATA(data);
         b = (std::complex<float> *) PyArray_DATA(tempArrayComplex);
         for(i=0; i<nSamples; i+=2) {
             *(b+i/2) = std::complex<float>(*(a+i+0), *(a+i+1));
-- 
2.43.0


From b68804f89dc05cecc20a55a01d69da01d099a217 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 022/113] fix: VDIF and DR spectrometer readers release the
 buffer once when a frame cannot be decoded

---
 lsl/reader/drspec.cpp | 4 ++--
 lsl/reader/vdif.cpp   | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index 6aa65d7..f720562 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -274,7 +274,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(&header, PyBytes_AS_STRING(buffer), sizeof(header));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Check the header's magic numbers
     if( header.MAGIC1 != 0xC0DEC0DE || header.MAGIC2 != 0xED0CED0C) {
@@ -369,7 +369,7 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
         goto fail;
     }
     memcpy(data, PyBytes_AS_STRING(buffer), nBytes);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     Py_BEGIN_ALLOW_THREADS
     
diff --git a/lsl/reader/vdif.cpp b/lsl/reader/vdif.cpp
index 3625ac3..b85a23a 100644
--- a/lsl/reader/vdif.cpp
+++ b/lsl/reader/vdif.cpp
@@ -210,7 +210,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(&bHeader, PyBytes_AS_STRING(buffer), sizeof(bHeader));
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Fix up various bits in the basic header
     uint32_t nChan;
@@ -249,7 +249,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
             goto fail;
         }
         memcpy(&eHeader, PyBytes_AS_STRING(buffer), sizeof(eHeader));
-        Py_XDECREF(buffer);
+        Py_CLEAR(buffer);
         
     } else {
         // Legacy headers are missing this information
@@ -290,7 +290,7 @@ PyObject *read_vdif(PyObject *self, PyObject *args, PyObject *kwds) {
         goto fail;
     }
     memcpy(rawData, PyBytes_AS_STRING(buffer), sizeof(uint8_t)*dataLength);
-    Py_XDECREF(buffer);
+    Py_CLEAR(buffer);
     
     // Parse it out
     if( bitsPerSample == 8 ) {
-- 
2.43.0


From 468b10aae46488b9e38bd2e8544deeb3ea639f32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 023/113] fix: undefined names in the TBX reader

---
 lsl/reader/tbx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index 4909ff6..ea2664f 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -82,7 +82,7 @@ class FrameHeader(FrameHeaderBase):
         """
         
         fC = ndp_common.fC
-        return (np.arange(FRAME_CHANNEL_COUNT, dtype=np.float32)+self.first_chan) * fC
+        return (np.arange(self.nchan, dtype=np.float32)+self.first_chan) * fC
 
 
 class FramePayload(FramePayloadBase):
@@ -203,7 +203,7 @@ def read_frame_ci8(filehandle):
         newFrame = read_tbx_ci8(filehandle, Frame())
         newFrame.payload._data = newFrame.payload.data.view(CI8)
     except gSyncError:
-        mark = filehandle.tell() - FRAME_SIZE
+        mark = filehandle.tell()
         raise SyncError(location=mark)
     except gEOFError:
         raise EOFError
-- 
2.43.0


From 95f25926c81082aaaaa2a4096f116c970f05d0f9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:56:52 +0000
Subject: [PATCH 024/113] fix: read TBX frames that are smaller than the mode
 of the last read at the end of a file

---
 lsl/reader/tbx.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 13be605..46ae3ee 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -78,25 +78,35 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
             PyErr_Format(PyExc_AttributeError, "Object does not have a read() method");
         }
         return NULL;
-    } else if( PyBytes_GET_SIZE(buffer) != frameSize ) {
+    }
+    
+    // Near the end of the file there may be less than what we expect but still
+    // enough for a frame with fewer stands or channels
+    Py_ssize_t nread = PyBytes_GET_SIZE(buffer);
+    if( nread < (Py_ssize_t) sizeof(TBXHeader) || nread > frameSize ) {
         PyErr_Format(EOFError, "End of file encountered during filehandle read");
         Py_XDECREF(buffer);
         return NULL;
     }
-    memcpy(&cFrame, PyBytes_AS_STRING(buffer), frameSize);
+    memcpy(&cFrame, PyBytes_AS_STRING(buffer), nread);
     Py_XDECREF(buffer);
     
     // Determine the number of stands and channels in the frame 
     nstand = __bswap_16(cFrame.header.nstand);
     nchan = __bswap_16(cFrame.header.nchan);
     
+    if( nread != frameSize && ( !validSync5C(cFrame.header.syncWord) || nread < (Py_ssize_t) sizeof(TBXHeader)+8+nchan*nstand*2*1 ) ) {
+        PyErr_Format(EOFError, "End of file encountered during filehandle read");
+        return NULL;
+    }
+    
     // If nstand is not what we expect, update the cache and retry with correct size
     if( nstand != NSTAND || nchan != NCHAN ) {
         cached_nstand = nstand; // Update for next time
         cached_nchan = nchan;
         Py_XDECREF(tbx_size);   // Update for next time
         tbx_size = NULL;        // Force NULL since Py_XDECREF isn't guaranteed to change tbx_size
-        PyObject_CallMethod(ph, "seek", "ii", -frameSize, 1);
+        PyObject_CallMethod(ph, "seek", "ii", (int) -nread, 1);
         
 #define MATCH_TBX_MODE(MNSTAND,MNCHAN) \
     case MNCHAN: \
-- 
2.43.0


From 1511fe1187ccfd791cfdb228efa16244c8eaa594 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 03:56:52 +0000
Subject: [PATCH 025/113] fix: do not unpack DR spectrometer data past its end
 when the format is unknown

---
 lsl/reader/drspec.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lsl/reader/drspec.cpp b/lsl/reader/drspec.cpp
index f720562..e0a6d16 100644
--- a/lsl/reader/drspec.cpp
+++ b/lsl/reader/drspec.cpp
@@ -286,6 +286,27 @@ PyObject *read_drspec(PyObject *self, PyObject *args) {
     // Get the data format
     nSets = pol_count(header.stokes_format)*2;
     
+    // Make sure that it is one that we know how to unpack
+    switch( header.stokes_format ) {
+        case LINEAR_XX:
+        case LINEAR_XY_RE:
+        case LINEAR_XY_IM:
+        case LINEAR_YY:
+        case (LINEAR_XX | LINEAR_YY):
+        case (LINEAR_XY_RE | LINEAR_XY_IM):
+        case (LINEAR_XX | LINEAR_XY_RE | LINEAR_XY_IM | LINEAR_YY):
+        case STOKES_I:
+        case STOKES_Q:
+        case STOKES_U:
+        case STOKES_V:
+        case (STOKES_I | STOKES_V):
+        case (STOKES_I | STOKES_Q | STOKES_U | STOKES_V):
+            break;
+        default:
+            PyErr_Format(PyExc_RuntimeError, "Cannot parse data with format 0x%02x", header.stokes_format);
+            goto fail;
+    }
+    
     // Create the output data arrays
     npy_intp dims[1];
     dims[0] = (npy_intp) header.nFreqs;
-- 
2.43.0


From 198aa624eea7d666bd5ad38a2aa8e4bb9f8f21d6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:03:00 +0000
Subject: [PATCH 026/113] fix: TBX first_chan is a 32-bit field

---
 lsl/reader/tbx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/tbx.cpp b/lsl/reader/tbx.cpp
index 46ae3ee..13ade04 100644
--- a/lsl/reader/tbx.cpp
+++ b/lsl/reader/tbx.cpp
@@ -217,7 +217,7 @@ PyObject *read_tbx_impl(PyObject *self, PyObject *args) {
     PyObject_SetAttrString(fHeader, "second_count", temp);
     Py_XDECREF(temp);
     
-    temp = Py_BuildValue("h", cFrame.header.first_chan);
+    temp = Py_BuildValue("I", cFrame.header.first_chan);
     PyObject_SetAttrString(fHeader, "first_chan", temp);
     Py_XDECREF(temp);
     
-- 
2.43.0


From fbc03f196fcd025ab07279d0015837b05cfe091f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:03:00 +0000
Subject: [PATCH 027/113] fix: undefined names when combining DR spectrometer
 frames with different products

---
 lsl/reader/drspec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/drspec.py b/lsl/reader/drspec.py
index cff2a52..7573534 100644
--- a/lsl/reader/drspec.py
+++ b/lsl/reader/drspec.py
@@ -387,7 +387,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) + getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) + np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -416,7 +416,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) - getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot add {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) - np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -445,7 +445,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) * getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) * np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -474,7 +474,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) // getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) // np.float32(y)
                 setattr(self.payload, attr, temp)
@@ -503,7 +503,7 @@ class Frame(FrameBase):
                 try:
                     temp = getattr(self.payload, attr, None) / getattr(y.payload, attr, None)
                 except TypeError:
-                    raise RuntimeError(f"Cannot multiply {str(attrs)} with {str(y.header.get_data_products())}")
+                    raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) / np.float32(y)
                 setattr(self.payload, attr, temp)
-- 
2.43.0


From 83e8b614578dac2c8f6b6ad984528ccc0906bbac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:03:23 +0000
Subject: [PATCH 028/113] fix: TBX file descriptions get past a frame with a
 bad sync word

---
 lsl/reader/tbx.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lsl/reader/tbx.py b/lsl/reader/tbx.py
index ea2664f..c226833 100644
--- a/lsl/reader/tbx.py
+++ b/lsl/reader/tbx.py
@@ -248,15 +248,18 @@ def get_frames_per_obs(filehandle):
         # Build up the list-of-lists that store the index of the first frequency
         # channel in each frame.
         channels = []
+        frame_size = 1
         for i in range(2500):
             try:
+                cPos = filehandle.tell()
                 cFrame = read_frame(filehandle)
                 if not cFrame.is_tbx:
                     continue
+                frame_size = filehandle.tell() - cPos
             except EOFError:
                 break
             except SyncError:
-                filehandle.seek(0, 1)
+                filehandle.seek(frame_size, 1)
                 continue
                 
             chan = cFrame.header.first_chan
@@ -312,7 +315,7 @@ def get_channel_count(filehandle):
             except EOFError:
                 break
             except SyncError:
-                filehandle.seek(0, 1)
+                filehandle.seek(1, 1)
                 continue
                 
             channel_count = cFrame.header.nchan
-- 
2.43.0


From f7217c136502134034523d80e51d8e0736b26c41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:16:48 +0000
Subject: [PATCH 029/113] fix: VDIF frames per second of a file that starts
 with the last frame of a second or without one thread

---
 lsl/reader/vdif.py | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index cef3d73..910e4f7 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -514,24 +514,8 @@ def get_frames_per_second(filehandle):
     nThreads = get_thread_count(filehandle)
     
     with FilePositionSaver(filehandle):
-        # Get the current second counts for all threads
+        # Read frames until we see a change in the second counter for all threads
         ref = {}
-        i = 0
-        while i < nThreads:
-            try:
-                cFrame = read_frame(filehandle)
-            except SyncError:
-                filehandle.seek(frame_size, 1)
-                continue
-            except EOFError:
-                break
-                
-            cID = cFrame.header.thread_id
-            cSC = cFrame.header.seconds_from_epoch
-            ref[cID] = cSC
-            i += 1
-            
-        # Read frames until we see a change in the second counter
         cur = {}
         fnd = []
         while True:
@@ -550,7 +534,7 @@ def get_frames_per_second(filehandle):
             cFC = cFrame.header.frame_in_second
             
             ## Figure out what to do with it
-            if cSC == ref[cID]:
+            if cSC == ref.setdefault(cID, cSC):
                 ### Same second as the reference, save the frame number
                 cur[cID] = cFC
             else:
-- 
2.43.0


From 613434282eb7f50f0144963dd24a91ada7270004 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 04:54:13 +0000
Subject: [PATCH 030/113] fix: COR first_chan is unsigned

---
 lsl/reader/cor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/reader/cor.cpp b/lsl/reader/cor.cpp
index 73e4070..5c4fe82 100644
--- a/lsl/reader/cor.cpp
+++ b/lsl/reader/cor.cpp
@@ -24,7 +24,7 @@ typedef struct __attribute__((packed)) {
         uint32_t frame_count_word;
     };
     uint32_t second_count;
-    int16_t  first_chan;
+    uint16_t first_chan;
     int16_t  gain;
 } CORHeader;
 
-- 
2.43.0


From 2d61c652eb9eb03f67070d9f2732bd2df386904b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:27:21 +0000
Subject: [PATCH 031/113] fix: F engines count the windows when the overlap
 does not divide the window

---
 lsl/correlator/core.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/correlator/core.cpp b/lsl/correlator/core.cpp
index c84ec3c..9db41d3 100644
--- a/lsl/correlator/core.cpp
+++ b/lsl/correlator/core.cpp
@@ -425,7 +425,8 @@ static PyObject *FEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    // NOTE: The j-th window starts at floor(window length * j / Overlap)
+    nFFT = ((nSamps - fifoMax - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
@@ -627,7 +628,8 @@ static PyObject *PFBEngine(PyObject *self, PyObject *args, PyObject *kwds) {
                                        (double*) PyArray_DATA(delay), fifo, frac);
     
     // Find out how large the output array needs to be and initialize it
-    nFFT = (nSamps - fifoMax) / (((1+isReal)*nChan)/Overlap) - ((1+isReal)*nChan)/(((1+isReal)*nChan)/Overlap) + 1;
+    // NOTE: The j-th window starts at floor(window length * j / Overlap)
+    nFFT = ((nSamps - fifoMax - (1+isReal)*nChan + 1)*Overlap + (1+isReal)*nChan - 1) / ((1+isReal)*nChan);
     npy_intp dims[3];
     dims[0] = (npy_intp) nStand;
     dims[1] = (npy_intp) nChan;
-- 
2.43.0


From 1095052fab9896031c7d5b89aeba93030ce4b63d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:27:21 +0000
Subject: [PATCH 032/113] fix: FXStokes corrects the gain of all baselines

---
 lsl/correlator/fx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index fad91b8..0ee52c4 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -483,7 +483,7 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
         
     # Apply cable gain corrections (if needed)
     if gain_correct:
-        for bl in range(output.shape[0]):
+        for bl in range(output.shape[1]):
             cableGain1 = baselines[bl][0].cable.gain(freq)
             cableGain2 = baselines[bl][1].cable.gain(freq)
             
-- 
2.43.0


From 28e825f7f3e6f1e823fdc40f4f30fe0137fc421a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:27:21 +0000
Subject: [PATCH 033/113] fix: cross-polarization correlations when the delays
 of the polarizations differ

---
 lsl/correlator/fx.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index 0ee52c4..b97902d 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -322,6 +322,11 @@ def FXMaster(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     else:
         signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
         
+        # The delays of the two polarizations can leave different numbers of windows
+        nWin = min([signalsF1.shape[2], signalsF2.shape[2]])
+        signalsF1, validF1 = signalsF1[:,:,:nWin], validF1[:,:nWin]
+        signalsF2, validF2 = signalsF2[:,:,:nWin], validF2[:,:nWin]
+        
     # X
     output = _core.XEngine2(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
@@ -470,6 +475,11 @@ def FXStokes(signals, antennas, LFFT=64, overlap=1, include_auto=False, window=n
     
     signalsF2, validF2 = func(signals[signalsIndex2,:], freq, delays2, LFFT=LFFT, overlap=overlap, sample_rate=sample_rate, clip_level=clip_level, window=window)
     
+    # The delays of the two polarizations can leave different numbers of windows
+    nWin = min([signalsF1.shape[2], signalsF2.shape[2]])
+    signalsF1, validF1 = signalsF1[:,:,:nWin], validF1[:,:nWin]
+    signalsF2, validF2 = signalsF2[:,:,:nWin], validF2[:,:nWin]
+    
     # X
     output = _stokes.XEngine3(signalsF1, signalsF2, validF1, validF2)
     if not include_auto:
-- 
2.43.0


From 874002350bf9b9c7fac98374c2a39a039f3804ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:27:21 +0000
Subject: [PATCH 034/113] fix: antennas_to_baseline with auto-correlations

---
 lsl/correlator/uvutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/correlator/uvutils.py b/lsl/correlator/uvutils.py
index 1296b1a..14b908f 100644
--- a/lsl/correlator/uvutils.py
+++ b/lsl/correlator/uvutils.py
@@ -118,7 +118,7 @@ def antennas_to_baseline(ant1, ant2, antennas, antennas2=None, baseline_list=Non
     # Loop over the baselines until we find one that matches.  If we don't find 
     # one, return -1
     for i,baseline in enumerate(baseline_list):
-        if ant1 in baseline and ant2 in baseline:
+        if (ant1, ant2) in (tuple(baseline), tuple(baseline)[::-1]):
             return i
             
     return -1
-- 
2.43.0


From 7d85768c37b5b15e51c27abf4a7bd64dadb22a25 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:27:39 +0000
Subject: [PATCH 035/113] fix: XStokes applies the delays before the Stokes
 parameters are formed

---
 lsl/correlator/fx.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/lsl/correlator/fx.py b/lsl/correlator/fx.py
index b97902d..64b25ad 100644
--- a/lsl/correlator/fx.py
+++ b/lsl/correlator/fx.py
@@ -691,13 +691,12 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         minDelay = delays2[:,dlyRef].min()
     delays1 -= minDelay
     delays2 -= minDelay
-    delays1 = {antennas1[i].stand.id: delays1[i] for i in list(range(nStands))}
-    delays2 = {antennas2[i].stand.id: delays2[i] for i in list(range(nStands))}
     
-    # Polarization split
-    signals1 = signals[signalsIndex1,...]
+    # Polarization split with the delays applied since they do not commute with
+    # forming the Stokes parameters
+    signals1 = signals[signalsIndex1,...] * np.exp(2j*np.pi*freq*delays1)[:,:,np.newaxis]
     valid1 = np.ones((signals1.shape[0],signals1.shape[2]), dtype=np.uint8)
-    signals2 = signals[signalsIndex2,...]
+    signals2 = signals[signalsIndex2,...] * np.exp(2j*np.pi*freq*delays2)[:,:,np.newaxis]
     valid2 = np.ones((signals2.shape[0],signals2.shape[2]), dtype=np.uint8)
     
     # X
@@ -712,13 +711,8 @@ def XStokes(freq, signals, antennas, include_auto=False, gain_correct=False, ret
         output = output[:,nonAuto,:]
         
     # Apply cable gain corrections (if needed)
-    for bl in range(output.shape[1]):
-        phaseRot1 = np.exp(2j*np.pi*freq*delays1[baselines[bl][0].stand.id])
-        phaseRot2 = np.exp(2j*np.pi*freq*delays2[baselines[bl][1].stand.id])
-        
-        output[:,bl,:] *= phaseRot2.conj()*phaseRot1
-        
-        if gain_correct:
+    if gain_correct:
+        for bl in range(output.shape[1]):
             cableGain1 = baselines[bl][0].cable.gain(freq)
             cableGain2 = baselines[bl][1].cable.gain(freq)
             
-- 
2.43.0


From 2a91f1bce5f9f80df91fffacb56b85ed0248a142 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:16 +0000
Subject: [PATCH 036/113] fix: visibility writers label each integration with
 its own baselines and refuse incomplete ones

---
 lsl/writer/fitsidi.py        | 57 +++++++++++++++++++++---------------
 lsl/writer/measurementset.py | 42 ++++++++++++--------------
 lsl/writer/uvfits.py         | 44 +++++++++++++---------------
 3 files changed, 73 insertions(+), 70 deletions(-)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 8567fe2..4845bbe 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -363,6 +363,19 @@ class WriterBase(object):
             
         self.data.append( self._UVData(obsTime, intTime, baselines, visibilities, weights=weights, pol=numericPol, source=source) )
         
+    def _validate_integrations(self):
+        """
+        Make sure that each integration in the (sorted) list of data sets has
+        one data set for each of the polarizations, raise a RuntimeError if this
+        is not the case.
+        """
+        
+        for i in range(0, len(self.data), self.nStokes):
+            integration = self.data[i:i+self.nStokes]
+            if [d.pol for d in integration] != self.stokes \
+               or any(d.obsTime != integration[0].obsTime for d in integration):
+                raise RuntimeError(f"Data at MJD {integration[0].obsTime} do not have one data set for each polarization")
+                
     def write(self):
         """
         Fill in the file will all of the required supporting metadata.
@@ -507,6 +520,7 @@ class Idi(WriterBase):
             
         # Sort the data set
         self.data.sort()
+        self._validate_integrations()
         
         self._write_primary_hdu()
         self._write_geometry_hdu()
@@ -1052,6 +1066,7 @@ class Idi(WriterBase):
         blineList = []
         nameList = []
         sourceList = []
+        baselines = None
         while True:
             # Get the next data set to process
             try:
@@ -1059,17 +1074,19 @@ class Idi(WriterBase):
             except IndexError:
                 break
                 
-            # Sort the data by packed baseline
-            try:
-                if len(dataSet.visibilities) != len(order):
-                    raise NameError
-            except NameError:
+            # Sort the data by packed baseline, if the baselines are new
+            if dataSet.baselines is not baselines:
+                baselines = dataSet.baselines
                 order = dataSet.argsort(mapper=mapper, shift=self._PACKING_BIT_SHIFT)
-                try:
-                    del baselineMapped
-                except NameError:
-                    pass
-                    
+                packed = []
+                for o in order:
+                    antenna1, antenna2 = dataSet.baselines[o]
+                    if mapper is None:
+                        stand1, stand2 = antenna1.stand.id, antenna2.stand.id
+                    else:
+                        stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
+                    packed.append( merge_baseline(stand1, stand2, shift=self._PACKING_BIT_SHIFT) )
+                
             # Deal with defininig the values of the new data set
             if dataSet.pol == self.stokes[0]:
                 ## Figure out the new date/time for the observation
@@ -1112,19 +1129,9 @@ class Idi(WriterBase):
                 
                 ## Populate the metadata
                 ### Add in the new baselines
-                try:
-                    blineList.extend( baselineMapped )
-                except NameError:
-                    baselineMapped = []
-                    for o in order:
-                        antenna1, antenna2 = dataSet.baselines[o]
-                        if mapper is None:
-                            stand1, stand2 = antenna1.stand.id, antenna2.stand.id
-                        else:
-                            stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
-                        baselineMapped.append( merge_baseline(stand1, stand2, shift=self._PACKING_BIT_SHIFT) ) 
-                    blineList.extend( baselineMapped )
-                    
+                baselineMapped = packed
+                blineList.extend( baselineMapped )
+                
                 ### Add in the new u, v, and w coordinates
                 uList.extend( uvwCoords[order,0] )
                 vList.extend( uvwCoords[order,1] )
@@ -1149,6 +1156,10 @@ class Idi(WriterBase):
                     matrix = np.zeros((len(order), self.nStokes*self.nChan*nBand), dtype=np.complex64)
                     weights = np.ones((len(order), self.nStokes*self.nChan*nBand), dtype=np.float32)
                     
+            # Make sure that all of the polarizations have the same baselines
+            if packed != baselineMapped:
+                raise RuntimeError(f"Baselines of polarization {dataSet.pol} at MJD {dataSet.obsTime} do not match those of polarization {self.stokes[0]}")
+                
             # Save the visibility data in the right order
             # NOTE:  This is this conjugate since there seems to be a convention mis-match
             #        between LSL and AIPS/the FITS-IDI convention.
diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 55ac5d1..69a7ef6 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -210,6 +210,7 @@ try:
                 
             # Sort the data set
             self.data.sort()
+            self._validate_integrations()
             
             # Write the tables
             self._write_main_table()
@@ -796,18 +797,18 @@ try:
             i = 0
             s = 1
             _sourceTable = []
+            baselines = None
             for dataSet in self.data:
-                # Sort the data by packed baseline
-                try:
-                    if len(dataSet.visibilities) != len(order):
-                        raise NameError
-                except NameError:
+                # Sort the data by packed baseline, if the baselines are new
+                if dataSet.baselines is not baselines:
+                    baselines = dataSet.baselines
                     order = dataSet.argsort(mapper=mapper, shift=16)
-                    try:
-                        del baselineMapped
-                    except NameError:
-                        pass
-                        
+                    a1List, a2List = [], []
+                    for o in order:
+                        antenna1, antenna2 = dataSet.baselines[o]
+                        a1List.append( mapper.index(antenna1.stand.id) )
+                        a2List.append( mapper.index(antenna2.stand.id) )
+                    
                 # Deal with defininig the values of the new data set
                 if dataSet.pol == self.stokes[0]:
                     ## Figure out the new date/time for the observation
@@ -849,20 +850,9 @@ try:
                     
                     ## Populate the metadata
                     ### Add in the baselines
-                    try:
-                        ant1List
-                        ant2List
-                    except NameError:
-                        a1List, a2List = [], []
-                        for o in order:
-                            antenna1, antenna2 = dataSet.baselines[o]
-                            a1 = mapper.index(antenna1.stand.id)
-                            a2 = mapper.index(antenna2.stand.id)
-                            a1List.append( a1 )
-                            a2List.append( a2 )
-                        ant1List = a1List
-                        ant2List = a2List
-                        
+                    ant1List = a1List
+                    ant2List = a2List
+                    
                     ### Add in the new u, v, and w coordinates
                     uvwList = uvwCoords[order,:]
                     
@@ -883,6 +873,10 @@ try:
                     except NameError:
                         matrix = np.zeros((len(order), self.nStokes, self.nChan*nBand), dtype=np.complex64)
                         
+                # Make sure that all of the polarizations have the same baselines
+                if (a1List, a2List) != (ant1List, ant2List):
+                    raise RuntimeError(f"Baselines of polarization {dataSet.pol} at MJD {dataSet.obsTime} do not match those of polarization {self.stokes[0]}")
+                    
                 # Save the visibility data in the right order
                 matrix[:,self.stokes.index(dataSet.pol),:] = dataSet.visibilities[order,:]
                 
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index e9dc125..b885ba2 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -193,6 +193,7 @@ class Uv(WriterBase):
             
         # Sort the data set
         self.data.sort()
+        self._validate_integrations()
         
         self._write_aipssu_hdu(dummy=True)
         self._write_primary_hdu()
@@ -255,18 +256,21 @@ class Uv(WriterBase):
         blineList = []
         nameList = []
         sourceList = []
+        baselines = None
         for dataSet in self.data:
-            # Sort the data by packed baseline
-            try:
-                if len(dataSet.visibilities) != len(order):
-                    raise NameError
-            except NameError:
+            # Sort the data by packed baseline, if the baselines are new
+            if dataSet.baselines is not baselines:
+                baselines = dataSet.baselines
                 order = dataSet.argsort(mapper=mapper)
-                try:
-                    del baselineMapped
-                except NameError:
-                    pass
-                    
+                packed = []
+                for o in order:
+                    antenna1, antenna2 = dataSet.baselines[o]
+                    if mapper is None:
+                        stand1, stand2 = antenna1.stand.id, antenna2.stand.id
+                    else:
+                        stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
+                    packed.append( merge_baseline(stand1, stand2) )
+                
             # Deal with defininig the values of the new data set
             if dataSet.pol == self.stokes[0]:
                 ## Figure out the new date/time for the observation
@@ -314,19 +318,9 @@ class Uv(WriterBase):
                 
                 ## Populate the metadata
                 ### Add in the new baselines
-                try:
-                    blineList.extend( baselineMapped )
-                except NameError:
-                    baselineMapped = []
-                    for o in order:
-                        antenna1, antenna2 = dataSet.baselines[o]
-                        if mapper is None:
-                            stand1, stand2 = antenna1.stand.id, antenna2.stand.id
-                        else:
-                            stand1, stand2 = mapper[antenna1.stand.id], mapper[antenna2.stand.id]
-                        baselineMapped.append( merge_baseline(stand1, stand2) ) 
-                    blineList.extend( baselineMapped )
-                    
+                baselineMapped = packed
+                blineList.extend( baselineMapped )
+                
                 ### Add in the new u, v, and w coordinates
                 uList.extend( uvwCoords[order,0] )
                 vList.extend( uvwCoords[order,1] )
@@ -349,6 +343,10 @@ class Uv(WriterBase):
                 except NameError:
                     matrix = np.zeros((len(order), 1, 1, self.nChan, self.nStokes, 2), dtype=np.float32)
                     
+            # Make sure that all of the polarizations have the same baselines
+            if packed != baselineMapped:
+                raise RuntimeError(f"Baselines of polarization {dataSet.pol} at MJD {dataSet.obsTime} do not match those of polarization {self.stokes[0]}")
+                
             # Save the visibility data in the right order
             matrix[:,0,0,:,self.stokes.index(dataSet.pol),0] = dataSet.visibilities[order,:].real
             matrix[:,0,0,:,self.stokes.index(dataSet.pol),1] = dataSet.visibilities[order,:].imag
-- 
2.43.0


From 8fd855b487a4084caca4630d8034731bac6fbffd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:16 +0000
Subject: [PATCH 037/113] fix: measurement set antenna positions are already
 geocentric

---
 lsl/writer/measurementset.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lsl/writer/measurementset.py b/lsl/writer/measurementset.py
index 69a7ef6..69466e7 100644
--- a/lsl/writer/measurementset.py
+++ b/lsl/writer/measurementset.py
@@ -287,9 +287,7 @@ try:
             
             for i,ant in enumerate(self.array[0]['ants']):
                 #tb.putcell('OFFSET', i, [0.0, 0.0, 0.0])
-                tb.putcell('POSITION', i, [ant.x + self.array[0]['center'][0],
-                                           ant.y + self.array[0]['center'][1], 
-                                           ant.z + self.array[0]['center'][2]])
+                tb.putcell('POSITION', i, [ant.x, ant.y, ant.z])
                 #tb.putcell('TYPE', i, 'GROUND-BASED')
                 #tb.putcell('DISH_DIAMETER', i, 2.0)
                 #tb.putcell('FLAG_ROW', i, False)
-- 
2.43.0


From 5db29c3a94cc10364ff4282bfc020e09b32f5612 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:16 +0000
Subject: [PATCH 038/113] fix: measurement sets with more than two spectral
 windows

---
 lsl/imaging/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 51efcbc..2b2e50b 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1101,7 +1101,7 @@ try:
                     baselines.append( (a1,a2) )
                     select.append( b )
                 if len(self._windows) > 1:
-                    baselines = baselines[:len(baselines)//2]
+                    baselines = baselines[:len(baselines)//len(self._windows)]
                     selectU = select[:len(baselines)]
                 else:
                     selectU = select
-- 
2.43.0


From 2f6b1d2874e9530e66886921575e1036185f08e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 039/113] fix: refuse polarizations that a FITS IDI or UVFITS
 Stokes axis cannot label

---
 lsl/writer/fitsidi.py | 2 ++
 lsl/writer/uvfits.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/lsl/writer/fitsidi.py b/lsl/writer/fitsidi.py
index 4845bbe..2784f29 100644
--- a/lsl/writer/fitsidi.py
+++ b/lsl/writer/fitsidi.py
@@ -511,6 +511,8 @@ class Idi(WriterBase):
         # Validate
         if self.nStokes == 0:
             raise RuntimeError("No polarization setups defined")
+        if any(abs(s1 - s0) != 1 for s0,s1 in zip(self.stokes, self.stokes[1:])):
+            raise RuntimeError("FITS IDI supports contiguous polarization setups only")
         if len(self.freq) == 0:
             raise RuntimeError("No frequency setups defined")
         if self.nAnt == 0:
diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index b885ba2..8fd5867 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -182,6 +182,8 @@ class Uv(WriterBase):
         # Validate
         if self.nStokes == 0:
             raise RuntimeError("No polarization setups defined")
+        if any(abs(s1 - s0) != 1 for s0,s1 in zip(self.stokes, self.stokes[1:])):
+            raise RuntimeError("UVFITS supports contiguous polarization setups only")
         if len(self.freq) == 0:
             raise RuntimeError("No frequency setups defined")
         if len(self.freq) > 1:
-- 
2.43.0


From 4ee487adff13c5a26789e81291f4080381e86fb3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:38 +0000
Subject: [PATCH 040/113] fix: UVFITS files keep the visibility weights

---
 lsl/writer/uvfits.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 8fd5867..6b6e6c8 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -247,6 +247,9 @@ class Uv(WriterBase):
         el = EarthLocation.from_geodetic(arrPos.lng*astrounits.deg, arrPos.lat*astrounits.deg,
                                          height=arrPos.elv*astrounits.m)
         
+        # The weights are only stored if there are any
+        nComplex = 3 if any(dataSet.weights is not None for dataSet in self.data) else 2
+        
         first = True
         mList = []
         uList = []
@@ -343,7 +346,7 @@ class Uv(WriterBase):
                         raise NameError
                     matrix *= 0.0
                 except NameError:
-                    matrix = np.zeros((len(order), 1, 1, self.nChan, self.nStokes, 2), dtype=np.float32)
+                    matrix = np.zeros((len(order), 1, 1, self.nChan, self.nStokes, nComplex), dtype=np.float32)
                     
             # Make sure that all of the polarizations have the same baselines
             if packed != baselineMapped:
@@ -352,6 +355,8 @@ class Uv(WriterBase):
             # Save the visibility data in the right order
             matrix[:,0,0,:,self.stokes.index(dataSet.pol),0] = dataSet.visibilities[order,:].real
             matrix[:,0,0,:,self.stokes.index(dataSet.pol),1] = dataSet.visibilities[order,:].imag
+            if nComplex == 3:
+                matrix[:,0,0,:,self.stokes.index(dataSet.pol),2] = 1.0 if dataSet.weights is None else dataSet.weights[order,:]
             
             # Deal with saving the data once all of the polarizations have been added to 'matrix'
             if dataSet.pol == self.stokes[-1]:
-- 
2.43.0


From 32429535a8c5003b25c477219e7eaf6df9e6fdf2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:40:53 +0000
Subject: [PATCH 041/113] fix: appending visibilities to a PolarizationDataSet

---
 lsl/imaging/data.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 13e428d..e830656 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -58,35 +58,26 @@ class PolarizationDataSet(object):
         Append a new visibility to the object.
         """
         
+        data = np.atleast_2d(data)
+        if weight is None:
+            weight = np.ones(data.shape, dtype=np.float32)
+        weight = np.atleast_2d(weight)
+        if weight.shape != data.shape:
+            raise ValueError("weight shape does not match the data shape")
+        if mask is None:
+            mask = np.zeros(data.shape, dtype=bool)
+        mask = np.atleast_2d(mask)
+        if mask.shape != data.shape:
+            raise ValueError("mask shape does not match the data shape")
+            
         if self.data.size == 0:
             ## Deal with the first batch of data being added
             self.data = data
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = weight
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = mask
-            
         else:
             self.data = np.vstack([self.data, data])
-            
-            if weight is None:
-                weight = np.ones(data.shape, dtype=np.float32)
-            if self.weight.shape != data.shape:
-                raise ValueError("weight shape does not match the data shape")
             self.weight = np.vstack([self.weight, weight])
-            
-            if mask is None:
-                mask = np.zeros(data.shape, dtype=bool)
-            if self.mask.shape != data.shape:
-                raise ValueError("mask shape does not match the data shape")
             self.mask = np.vstack([self.mask, mask])
             
     def extend(self, data, weight=None, mask=None):
-- 
2.43.0


From 05d78c0bf9e537e6f2c7b0adca9e3db2fe558b28 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 042/113] fix: antenna subsets by stand number and without an
 antennaarray

---
 lsl/imaging/data.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index e830656..848fb2f 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -348,17 +348,18 @@ class VisibilityDataSet(object):
                 raise AttributeError("No anntennaarray defined for this data set")
                 
         # Convert to indicies, if needed
-        stands = list(self.antennaarray.get_stands())
         if not indicies:
+            stands = list(self.antennaarray.get_stands())
             if include is not None:
                 include = [stands.index(i) for i in include if i in stands]
             if exclude is not None:
                 exclude = [stands.index(e) for e in exclude if e in stands]
                 
         # Merge include and exclude
-        to_keep = list(range(len(stands)))
         if include is not None:
-            to_keep = include
+            to_keep = list(include)
+        else:
+            to_keep = sorted(set(a for bl in self.baselines for a in bl))
         for e in exclude:
             ## Don't exclude things in the include list
             if include is not None:
@@ -610,6 +611,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=True) )
+            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
         return new_data
         
-- 
2.43.0


From 408835b64e1748a8ea55ba4b13c25590044eda3b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 043/113] fix: uv ranges that keep different numbers of
 baselines in different integrations

---
 lsl/imaging/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 848fb2f..ec1d6bb 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -593,7 +593,8 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_uv_range(min_uv=min_uv, max_uv=max_uv) )
+            # NOTE: Integrations can have different baselines in the range
+            new_data.extend( [data_set.get_uv_range(min_uv=min_uv, max_uv=max_uv),] )
         return new_data
         
     def get_antenna_subset(self, include=None, exclude=None, indicies=True):
-- 
2.43.0


From b63ab4e9b0ffbcb02f1e73fd3bd4975fb31a85d7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 05:41:05 +0000
Subject: [PATCH 044/113] fix: VisibilityData does not share the list it is
 created from

---
 lsl/imaging/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index ec1d6bb..4b889e8 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -404,7 +404,7 @@ class VisibilityData(object):
                     if not isinstance(d, VisibilityDataSet):
                         ### Is everybody in the list a VisibilityDataSet?
                         raise TypeError(f"Excepted element {i} to be a VisibilityDataSet object")
-                self._data = data
+                self._data = list(data)
             elif isinstance(data, VisibilityDataSet):
                 ## Do we have a single VisibilityDataSet?
                 self._data = [data,]
-- 
2.43.0


From acc688b5efe7f02c42cd4adf0e766655fca696ad Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 045/113] fix: UVFITS dates of data that cross midnight

---
 lsl/writer/uvfits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/writer/uvfits.py b/lsl/writer/uvfits.py
index 6b6e6c8..be0c8c1 100644
--- a/lsl/writer/uvfits.py
+++ b/lsl/writer/uvfits.py
@@ -371,9 +371,11 @@ class Uv(WriterBase):
                                           np.array(blineList), np.array(sourceList), 
                                           np.array(intTimeList)], 
                                  parbscales=[1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0, 1.0], 
-                                 parbzeros=[0.0, 0.0, 0.0, utcR, 0.0, 0.0, 0.0, 0.0], 
+                                 parbzeros=[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0], 
                                  bitpix=-32)
         primary = astrofits.GroupsHDU(uv)
+        # NOTE: The dates are stored relative to the first one
+        primary.header.set('PZERO4', utcR, after='PTYPE4')
         
         primary.header['EXTEND'] = (True, 'indicates UVFITS file')
         primary.header['GROUPS'] = (True, 'indicates UVFITS file')
-- 
2.43.0


From f21ec3e7f75d1a9241a0ce28b5cce1c34c0af6ab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:01:05 +0000
Subject: [PATCH 046/113] fix: measurement sets from arrays with a few antennas

---
 lsl/imaging/utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 2b2e50b..72cc995 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -933,9 +933,15 @@ try:
                 elv = np.append(elv, el)
                 
             ## Estimate the center of the station
-            sLat = robust.mean(lat)
-            sLng = robust.mean(lng)
-            sElv = robust.mean(elv)
+            try:
+                sLat = robust.mean(lat)
+                sLng = robust.mean(lng)
+                sElv = robust.mean(elv)
+            except ValueError:
+                ### Catch for when there are too few antennas for a robust estimate
+                sLat = np.mean(lat)
+                sLng = np.mean(lng)
+                sElv = np.mean(elv)
             
             ## Build a preliminayr represenation of the station
             self.station = stations.LWAStation(ants.col('STATION')[0], sLat, sLng, sElv)
-- 
2.43.0


From 3625cc37bea598d3007b862b98218c4ae8ce972a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:03:38 +0000
Subject: [PATCH 047/113] fix: copies, subsets and conversions of visibility
 data whose integrations differ in baselines

---
 lsl/imaging/data.py  | 4 ++--
 lsl/imaging/utils.py | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lsl/imaging/data.py b/lsl/imaging/data.py
index 4b889e8..072da69 100644
--- a/lsl/imaging/data.py
+++ b/lsl/imaging/data.py
@@ -525,7 +525,7 @@ class VisibilityData(object):
         
         data_copy = VisibilityData()
         for data_set in self:
-            data_copy.append( data_set.copy(include_pols=include_pols) )
+            data_copy.extend( [data_set.copy(include_pols=include_pols),] )
         return data_copy
         
     def append(self, value):
@@ -612,6 +612,6 @@ class VisibilityData(object):
         
         new_data = VisibilityData()
         for data_set in self:
-            new_data.append( data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies) )
+            new_data.extend( [data_set.get_antenna_subset(include=include, exclude=exclude, indicies=indicies),] )
         return new_data
         
diff --git a/lsl/imaging/utils.py b/lsl/imaging/utils.py
index 72cc995..0ce608f 100644
--- a/lsl/imaging/utils.py
+++ b/lsl/imaging/utils.py
@@ -1185,7 +1185,7 @@ def convert_to_stokes(data_set):
         new_data = VisibilityData()
         for ds in data_set:
             new_data_set = convert_to_stokes(ds)
-            new_data.append(new_data_set)
+            new_data.extend([new_data_set,])
         return new_data
         
     if 'I' in data_set.pols or 'Q' in data_set.pols or 'U' in data_set.pols or 'V' in data_set.pols:
@@ -1253,7 +1253,7 @@ def convert_to_linear(data_set):
         new_data = VisibilityData()
         for ds in data_set:
             new_data_set = convert_to_linear(ds)
-            new_data.append(new_data_set)
+            new_data.extend([new_data_set,])
         return new_data
         
     if 'XX' in data_set.pols or 'YY' in data_set.pols or 'XY' in data_set.pols or 'YX' in data_set.pols:
@@ -1320,7 +1320,7 @@ def convert_to_circular(data_set):
         new_data = VisibilityData()
         for ds in data_set:
             new_data_set = convert_to_circular(ds)
-            new_data.append(new_data_set)
+            new_data.extend([new_data_set,])
         return new_data
         
     if 'RR' in data_set.pols or 'RL' in data_set.pols or 'LR' in data_set.pols or 'LL' in data_set.pols:
-- 
2.43.0


From be4ee13ca67f72dc365fba546ae50317c822cc3a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 048/113] fix: parse_sdf no longer carries settings from one
 observation into the next

---
 lsl/common/sdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 590c747..e5f7432 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2141,12 +2141,13 @@ def parse_sdf(filename):
     project.project_office.sessions = []
     project.project_office.observations = [[],]
     
-    obs_temp = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
+    obs_blank = {'id': 0, 'name': '', 'target': '', 'ra': 0.0, 'dec': 0.0, 'start': '', 'duration': '', 'mode': '', 
                 'beamDipole': None, 'freq1': 0, 'freq2': 0, 'filter': 0, 'HighDR': False, 'comments': None, 
                 'stpRADec': True, 'tbtSamples': 0, 'gain': -1, 
                 'obsFEE': [[-1,-1] for n in range(LWA_MAX_NSTD)], 
                 'aspFlt': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT1': [-1 for n in range(LWA_MAX_NSTD)], 
                 'aspAT2': [-1 for n in range(LWA_MAX_NSTD)], 'aspAT3': [-1 for n in range(LWA_MAX_NSTD)]}
+    obs_temp = copy.deepcopy(obs_blank)
     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
     beam_temps = []
     
@@ -2287,6 +2288,9 @@ def parse_sdf(filename):
                     project.sessions[0].observations.append( _parse_create_obs_object(obs_temp, beam_temps=beam_temps) )
                     beam_temp = {'id': 0, 'c1': 0.0, 'c2': 0.0, 'duration': 0, 'freq1': 0, 'freq2': 0, 'HighDR': False, 'delays': None, 'gains': None}
                     beam_temps = []
+                # Start from a clean slate so that nothing carries over from the 
+                # previous observation
+                obs_temp = copy.deepcopy(obs_blank)
                 obs_temp['id'] = int(value)
                 project.project_office.observations[0].append( None )
             
-- 
2.43.0


From 95efcce141b9e8d58e681932139fc2b1d617e0a9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 049/113] fix: a step read by parse_sdf no longer inherits the
 beam type of the previous step

---
 lsl/common/sdf.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index e5f7432..873549b 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2438,6 +2438,11 @@ def parse_sdf(filename):
                         beam_temps.append( copy.deepcopy(beam_temps[-1]) )
                         beam_temps[-1]['id'] = ids[0]
                     
+                    # The new step may be a copy of the previous one
+                    beam_temps[-1]['HighDR'] = False
+                    beam_temps[-1]['delays'] = None
+                    beam_temps[-1]['gains'] = None
+                    
                     if value in ('HIGH_DR', '2'):
                         beam_temps[-1]['HighDR'] = True
                     
-- 
2.43.0


From f00b9e9a88f8bba6661ab41f583599158b4f76b7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 050/113] fix: parse_sdf reads a SESSION_LOG_*/SESSION_INC_*
 value of 0 as False

---
 lsl/common/sdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 873549b..a3a176d 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -2248,16 +2248,16 @@ def parse_sdf(filename):
                 project.sessions[0].update_mib[component] = int(value)
                 continue
             if keyword == 'SESSION_LOG_SCH':
-                project.sessions[0].include_mcssch_log = bool(value)
+                project.sessions[0].include_mcssch_log = bool(int(value))
                 continue
             if keyword == 'SESSION_LOG_EXE':
-                project.sessions[0].include_mcsexe_log = bool(value)
+                project.sessions[0].include_mcsexe_log = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_SMIB':
-                project.sessions[0].include_station_smib = bool(value)
+                project.sessions[0].include_station_smib = bool(int(value))
                 continue
             if keyword == 'SESSION_INC_DES':
-                project.sessions[0].include_station_design = bool(value)
+                project.sessions[0].include_station_design = bool(int(value))
                 continue
             if keyword == 'SESSION_DRX_BEAM':
                 project.sessions[0].drx_beam = int(value)
-- 
2.43.0


From e0cfb289969a17cd7ff21f9e3922b32557e16729 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 051/113] fix: _TypedParentList.extend refuses entries of the
 wrong type and accepts any iterable

---
 lsl/common/sdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index a3a176d..8fcb0a6 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -113,9 +113,7 @@ class _TypedParentList(list):
             self.parent = None
             
         if iterable is not None:
-            if not all([isinstance(value, self.allowed_types) for value in iterable]):
-                raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
-            list.extend(self, iterable)
+            self.extend(iterable)
             
     def append(self, value):
         if isinstance(value, self.allowed_types):
@@ -126,11 +124,14 @@ class _TypedParentList(list):
             raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
             
     def extend(self, values):
+        values = list(values)
         if all([isinstance(value, self.allowed_types) for value in values]):
             if self.parent is not None:
                 for value in values:
                     value._parent = self.parent
             list.extend(self, values)
+        else:
+            raise TypeError("Expected one of: %s" % (', '.join([t.__name__ for t in self.allowed_types])))
             
     def insert(self, index, value):
         if isinstance(value, self.allowed_types):
-- 
2.43.0


From 8ca4d26de5c971633a3121e239a5d92def26a536 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 052/113] fix: observation and step durations can be astropy
 quantities

---
 lsl/common/sdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 8fcb0a6..451e923 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -630,7 +630,7 @@ class Observation(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
@@ -1628,7 +1628,7 @@ class BeamStep(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From 88acf4631f7071189b7ab1a6a9e97445741dc620 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 053/113] fix: tuning frequencies and step coordinates can be
 given to the constructors in every form the attributes accept

---
 lsl/common/sdf.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 451e923..e02ab20 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -551,8 +551,8 @@ class Observation(object):
         self.duration = duration
         self.mode = mode
         self.beamDipole = None
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.filter = int(filter)
         self.high_dr = bool(high_dr)
         self.comments = comments
@@ -1511,19 +1511,15 @@ class BeamStep(object):
     
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
-        if self.is_radec:
-            convFactor = 12.0/math.pi
-        else:
-            convFactor = 180.0/math.pi
-        self.c1 = float(c1) * (convFactor if type(c1).__name__ == 'Angle' else 1.0)
-        self.c2 = float(c2) * (180.0/math.pi if type(c2).__name__ == 'Angle' else 1.0)
+        self.c1 = c1
+        self.c2 = c2
         if isinstance(duration, timedelta):
             # Make sure the number of microseconds agree with milliseconds
             us = int(round(duration.microseconds/1000.0))*1000
             duration = timedelta(days=duration.days, seconds=duration.seconds, microseconds=us)
         self.duration = duration
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.high_dr = bool(high_dr)
         self.delays = spec_delays
         self.gains = spec_gains
-- 
2.43.0


From 1ed3b3d225f7adba6b4ed1598aa7096796c62be5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 054/113] fix: an out-of-range declination is a ValueError

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index e02ab20..bffe1e4 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -670,7 +670,7 @@ class Observation(object):
         elif isinstance(value, str):
             value = AstroAngle(value).to('deg').value
         if value < -90.0 or value > 90.0:
-            raise ValueError(f"Invalid value for dec. '{dec:+.6f}' deg")
+            raise ValueError(f"Invalid value for dec. '{value:+.6f}' deg")
         self._dec = value
         
     @property
-- 
2.43.0


From 8308e87226892b57c08b031fbf624d31cb6ff80e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 055/113] fix: parse_time handles times that round up to the
 next second, astropy times, and offsets with one-digit hours

---
 lsl/common/_sdf_utils.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/lsl/common/_sdf_utils.py b/lsl/common/_sdf_utils.py
index 2a2caff..3da9240 100644
--- a/lsl/common/_sdf_utils.py
+++ b/lsl/common/_sdf_utils.py
@@ -113,7 +113,7 @@ def parse_time(s, station=lwa1):
     """
     
     if isinstance(s, AstroTime):
-        s = s.utc.datetime
+        s = s.utc.datetime.replace(tzinfo=timezone.utc)
         
     if isinstance(s, datetime):
         if s.tzinfo is None:
@@ -122,7 +122,7 @@ def parse_time(s, station=lwa1):
         # Round the microsecond value to milliseconds
         us = s.microsecond
         us = int(round(us/1000.0))*1000
-        dtObject = s.replace(microsecond=us)
+        dtObject = s.astimezone(timezone.utc).replace(microsecond=0) + timedelta(microseconds=us)
         
     else:
         mtch = _dtRE.match(s)
@@ -175,8 +175,13 @@ def parse_time(s, station=lwa1):
                 tzOffsetSign = 1
                 if mtch.group('tzOffset')[0] == '-':
                     tzOffsetSign = -1
-                tzOffsetHours = int( mtch.group('tzOffset').replace(':', '')[1:3] )
-                tzOffsetMinutes = int( mtch.group('tzOffset').replace(':', '')[3:5] )
+                tzOffset = mtch.group('tzOffset')[1:]
+                if ':' in tzOffset:
+                    tzOffset = tzOffset.split(':', 1)
+                else:
+                    tzOffset = (tzOffset[:2], tzOffset[2:])
+                tzOffsetHours = int( tzOffset[0] )
+                tzOffsetMinutes = int( tzOffset[1] )
                 
                 tzOffsetSeconds = tzOffsetHours*3600 + tzOffsetMinutes*60
                 tzOffsetSeconds *= tzOffsetSign
@@ -272,8 +277,10 @@ def parse_time(s, station=lwa1):
                 ## Trim the microsecond down to the millisecond level
                 microsecond = int(round(microsecond/1000.0))*1000
                 
-            # Localize as the appropriate time zone
-            dtObject = datetime(year, month, day, hour, minute, second, microsecond, tzinfo=tz)
+            # Localize as the appropriate time zone.  The microseconds are added 
+            # in UTC since they may have rounded up to a full second
+            dtObject = datetime(year, month, day, hour, minute, second, tzinfo=tz)
+            dtObject = dtObject.astimezone(timezone.utc) + timedelta(microseconds=microsecond)
             
     # Return as UTC
     return dtObject.astimezone(timezone.utc)
-- 
2.43.0


From 72e1de6fad3bd4605a99e7a24d6556f788a87887 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 056/113] fix: validation of STEPPED observations without
 steps, with the maximum number of steps, and of the visibility of each step

---
 lsl/common/sdf.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index bffe1e4..f1ed19e 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -1408,7 +1408,7 @@ class Stepped(Observation):
                 pnt = step.fixed_body
                 
                 dt = 0.0
-                while dt <= self.dur/1000.0:
+                while dt <= step.dur/1000.0:
                     station.date = self.mjd + (relStart/1000.0 + self.mpm/1000.0 + dt)/3600/24.0 + MJD_OFFSET - DJD_OFFSET
                     pnt.compute(station)
                     max_alt = max([max_alt, pnt.alt])
@@ -1431,6 +1431,8 @@ class Stepped(Observation):
             #warnings.warn("Maximum altitude for this observation is %.1f degrees" % (max_alt*180/math.pi))
             pass
             
+        if cnt == 0:
+            return 0.0
         return float(vis)/float(cnt)
         
     def validate(self):
@@ -1446,6 +1448,10 @@ class Stepped(Observation):
             failures += 1
             
         # Basic - steps
+        if len(self.steps) == 0:
+            LSL_LOGGER.error("No steps set for this observation")
+            failures += 1
+            
         stepCount = 1
         for step in self.steps:
             LSL_LOGGER.info(f"Validating step {stepCount}")
@@ -1457,8 +1463,8 @@ class Stepped(Observation):
                 
             stepCount += 1
             
-        if stepCount > MAX_STP_N:
-            LSL_LOGGER.error(f"Too many steps ({stepCount}) set for this observation")
+        if len(self.steps) > MAX_STP_N:
+            LSL_LOGGER.error(f"Too many steps ({len(self.steps)}) set for this observation")
             failures += 1
             
         # Advanced - Target Visibility
@@ -1509,6 +1515,8 @@ class BeamStep(object):
         instances
     """
     
+    _parent = None
+    
     def __init__(self, c1, c2, duration, frequency1, frequency2, is_radec=True, high_dr=False, spec_delays=None, spec_gains=None):
         self.is_radec = bool(is_radec)
         self.c1 = c1
-- 
2.43.0


From e9d667056d069099675e5e75bc1e93af2f57aade Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 057/113] fix: rendering a session again, or one that was read
 from a file, does not change its comments

---
 lsl/common/sdf.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index f1ed19e..b6cb1ee 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -309,10 +309,14 @@ class Project(object):
             clean = ''
             if ses.comments:
                 clean = UCF_USERNAME_RE.sub('', ses.comments)
+                if clean != ses.comments and clean[:2] == ';;':
+                    clean = clean[2:]
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
         ## Project office comments, including the data return method
+        if pos == '':
+            pos = None
         if pos != 'None' and pos is not None:
             pos = f"Requested data return method is {ses.dataReturnMethod};;{pos}"
             
-- 
2.43.0


From bfed055b18b71ea40737fb35cd64ad845719ef21 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 058/113] fix: an FEE power setting of only one of the
 polarizations is written to the file

---
 lsl/common/sdf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index b6cb1ee..417656d 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -447,8 +447,9 @@ class Project(object):
             ## FEE power settings
             if all(j == obs.fee_power[0] for j in obs.fee_power):
                 ### All the same
-                if obs.fee_power[0][0] != -1 and obs.fee_power[0][1] != -1:
+                if obs.fee_power[0][0] != -1:
                     output += "OBS_FEE[%i][1]  %i\n" % (0, obs.fee_power[0][0])
+                if obs.fee_power[0][1] != -1:
                     output += "OBS_FEE[%i][2]  %i\n" % (0, obs.fee_power[0][1])
             else:
                 ### Some different
-- 
2.43.0


From 6d8bf33c7cc593ee4478f03b38e3cb4b86e271fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 06:58:21 +0000
Subject: [PATCH 059/113] fix: Project.autofilled uses its sessions argument

---
 lsl/common/sdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/sdf.py b/lsl/common/sdf.py
index 417656d..bb2d276 100644
--- a/lsl/common/sdf.py
+++ b/lsl/common/sdf.py
@@ -233,7 +233,7 @@ class Project(object):
         id = OBSV_CONFIG.get('project_id')
         if name is None or id is None:
             raise RuntimeError("Auto-fill values for the project cannot be loaded from the configuration file")
-        return cls(observer, name, id, sessions=session, comments=comments, project_office=project_office)
+        return cls(observer, name, id, sessions=sessions, comments=comments, project_office=project_office)
         
     def update(self):
         """Update the various sessions that are part of this project."""
-- 
2.43.0


From 88e47549c6e8a6507f475405e49ccbb2595e47bc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 060/113] fix: parse_idf no longer carries settings from one
 scan, or alternate phase center, into the next

---
 lsl/common/idf.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 22c6661..5242aef 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1267,9 +1267,10 @@ def parse_idf(filename):
     project.project_office.runs = []
     project.project_office.scans = [[],]
     
-    obs_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
-                'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
-                'aspFlt': -1}
+    obs_default = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0], 'start': '', 'duration': '', 'mode': '', 
+                   'freq1': 0, 'freq2': 0, 'filter': 0, 'comments': None, 'nAlt': 0, 'gain': -1, 
+                   'aspFlt': -1}
+    obs_temp = copy.deepcopy(obs_default)
     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
     alt_temps = []
     
@@ -1390,6 +1391,7 @@ def parse_idf(filename):
                     project.runs[0].scans.append( _parse_create_scan_object(obs_temp, alt_temps=alt_temps) )
                     alt_temp = {'id': 0, 'target': '', 'intent': '', 'ra': 0.0, 'dec': 0.0, 'pm':[0.0, 0.0]}
                     alt_temps = []
+                obs_temp = copy.deepcopy(obs_default)
                 obs_temp['id'] = int(value)
                 project.project_office.scans[0].append( None )
             
@@ -1453,7 +1455,7 @@ def parse_idf(filename):
                     alt_temps[-1]['target'] = value
                 else:
                     if alt_temps[-1]['id'] != ids[0]:
-                        alt_temps.append( copy.deepcopy(alt_temps[-1]) )
+                        alt_temps.append( copy.deepcopy(alt_temp) )
                         alt_temps[-1]['id'] = ids[0]
                     alt_temps[-1]['target'] = value
                 continue
-- 
2.43.0


From d2744f11dbdad4a5655e35298605d4ad1206b9eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 061/113] fix: scan durations and frequencies can be astropy
 quantities

---
 lsl/common/idf.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 5242aef..cc1b71a 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -613,8 +613,8 @@ class Scan(object):
         self.duration = duration
         self.mode = mode
         self.beamDipole = None
-        self.frequency1 = float(frequency1)
-        self.frequency2 = float(frequency2)
+        self.frequency1 = frequency1
+        self.frequency2 = frequency2
         self.filter = int(filter)
         self.comments = comments
         
@@ -710,7 +710,7 @@ class Scan(object):
             seconds = seconds + ms
             
         elif isinstance(value, astrounits.quantity.Quantity):
-            seconds = seconds.to('s').value
+            seconds = value.to('s').value
             
         else:
             seconds = value
-- 
2.43.0


From c3367f52eaaf69f3386c276e9abc9a5be5aaa7f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 062/113] fix: rendering a run again, or one that was read from
 a file, does not change its comments

---
 lsl/common/idf.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index cc1b71a..b49bd0f 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -194,10 +194,14 @@ class Project(object):
             clean = ''
             if ses.comments:
                 clean = UCF_USERNAME_RE.sub('', ses.comments)
+                if clean != ses.comments and clean[:2] == ';;':
+                    clean = clean[2:]
             ses.comments = f"ucfuser:{ses.ucf_username}"
             if len(clean) > 0:
                 ses.comments += ';;%s' % clean
         ## Project office comments, including the data return method
+        if pos == '':
+            pos = None
         if pos != 'None' and pos is not None:
             pos = f"Requested data return method is {ses.dataReturnMethod};;{pos}"
             
@@ -1365,7 +1369,10 @@ def parse_idf(filename):
                     project.runs[0].ucf_username = mtch.group('username')
                     if mtch.group('subdir') is not None:
                         project.runs[0].ucf_username = os.path.join(project.runs[0].ucf_username, mtch.group('subdir'))
-                project.runs[0].comments = UCF_USERNAME_RE.sub('', value)
+                    value = UCF_USERNAME_RE.sub('', value)
+                    if value[:2] == ';;':
+                        value = value[2:]
+                project.runs[0].comments = value
                 continue
             if keyword == 'RUN_REMPO':
                 project.project_office.runs.append(None)
-- 
2.43.0


From 8986e6f08a08dd7d56e9c30f07b021cad765224b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 063/113] fix: generate_sdfs works for runs that were not read
 from a file and for targets that move across 0 hours

---
 lsl/common/idf.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index b49bd0f..e160f77 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -302,6 +302,18 @@ class Project(object):
         self.runs[run].scans.sort()   
         ses = self.runs[run]
         
+        # Load in the project office comments about the run and the scans
+        try:
+            pos = self.project_office.runs[run]
+        except (TypeError, IndexError):
+            pos = None
+        try:
+            poo = list(self.project_office.scans[run])
+        except (TypeError, IndexError):
+            poo = []
+        while (len(ses.scans) - len(poo)) > 0:
+            poo.append(None)
+            
         # Build the SDFs
         ## Setup the common information
         start = mjdmpm_to_datetime(ses.scans[0].mjd, ses.scans[0].mpm)
@@ -318,8 +330,8 @@ class Project(object):
             
             ## Project Office
             new_projoff = sdf.ProjectOffice(project=copy.deepcopy(self.project_office.project), 
-                                               sessions=copy.deepcopy([self.project_office.runs[run],]), 
-                                               observations=copy.deepcopy([self.project_office.scans[run],]))
+                                               sessions=[pos,], 
+                                               observations=[list(poo),])
             
             ## Observations
             for o,obs in enumerate(ses.scans):
@@ -329,8 +341,9 @@ class Project(object):
                     delta_epoch = (obs.mjd + obs.mpm/1000.0/86400.0 - 51544.5) / 365.25
                     ra = obs.ra + delta_epoch * obs.pm[0]/math.cos(obs.dec*math.pi/180)/1000.0/3600.0/15.0
                     dec = obs.dec + delta_epoch * obs.pm[1]/1000.0/3600.0
+                    ra %= 24.0
                     comments = ''
-                    if comments is not None:
+                    if obs.comments is not None:
                         comments += obs.comments
                     if obs.pm[0] != 0.0 or obs.pm[1] != 0.0:
                         comments = comments+";;Applied proper motion of %+.1f mas/yr in RA and %+.1f mas/yr in dec" % (obs.pm[0], obs.pm[1])
@@ -362,10 +375,8 @@ class Project(object):
                     alt_r = alt_r + delta_epoch * alt_pr/math.cos(alt_d*math.pi/180)/1000.0/3600.0/15.0
                     alt_d = alt_d + delta_epoch * alt_pd/1000.0/3600.0
                     
-                    try:
-                        new_projoff.observations[0][o]
-                    except IndexError:
-                        new_projoff.observations[0][o] = None
+                    alt_r %= 24.0
+                    
                     if new_projoff.observations[0][o] is None:
                         new_projoff.observations[0][o] = ''
                     new_projoff.observations[0][o] = "alttarget%i:%s;;altintent%i:%s;;altra%i:%.9f;;altdec%i:%+.9f;;%s" % (cid, alt_t, cid, alt_i, cid, alt_r, cid, alt_d, new_projoff.observations[0][o])
-- 
2.43.0


From 17747e0ad6567e9c68966e50d81ebd130814268d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:12:51 +0000
Subject: [PATCH 064/113] fix: an alternate phase center that is not part of a
 scan has no parent

---
 lsl/common/idf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index e160f77..0496a27 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -1052,6 +1052,8 @@ class Jovian(Scan):
 class AlternatePhaseCenter(object):
     """Class to hold an alternate phase center for a scan."""
     
+    _parent = None
+    
     def __init__(self, target, intent, ra, dec, pm=[0.0, 0.0]):
         self.target = target
         self.intent = intent
-- 
2.43.0


From 0979cace40fd6a12d8acb6469a6ff2cc5f8dffaa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 07:15:10 +0000
Subject: [PATCH 065/113] fix: validating a scan with alternate phase centers
 and no tuning does not raise

---
 lsl/common/idf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/idf.py b/lsl/common/idf.py
index 0496a27..e647e9f 100644
--- a/lsl/common/idf.py
+++ b/lsl/common/idf.py
@@ -934,7 +934,8 @@ class Scan(object):
 
             alt_sep = ephem.separation(pnt, alt_pnt) * 180/math.pi
 
-            beam = 2.0*74e6/max([self.frequency1, self.frequency2])
+            freq_max = max([self.frequency1, self.frequency2])
+            beam = 2.0*74e6/freq_max if freq_max > 0.0 else 180.0
             if alt_sep > beam/2.0:
                 LSL_LOGGER.error(f"Error: alternate phase center {j+1} is {alt_sep:.1f} degrees from pointing center")
                 failures += 1
-- 
2.43.0


From 8d14e47190c5969ed62a21b7cf509b85def62591 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:06:47 +0000
Subject: [PATCH 066/113] fix: metadata bundles that are replaced, or that have
 the same name in another directory, are read again

---
 lsl/common/_metabundle_utils.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 656daae..378ffb6 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -23,12 +23,25 @@ __all__ = ['FILENAME_RE', '_open_tarball', '_get_members', 'managed_mkdtemp',
 FILENAME_RE = re.compile(r'(?P<projectID>[a-zA-Z0-9]{1,8})_(?P<sessionID>\d+)(_(?P<obsID>\d+)(_(?P<obsOutcome>\d+))?)?.*\..*')
 
 
+def _get_identity(tarname):
+    """
+    Return a tuple that changes whenever a different file is found under the 
+    provided name.
+    """
+    
+    stat = os.stat(tarname)
+    return (os.path.abspath(tarname), stat.st_dev, stat.st_ino, stat.st_size, stat.st_mtime_ns)
+
+
 @lru_cache(maxsize=1)
-def _open_tarball(tarname):
+def _open_tarball_cached(tarname, identity):
     return tarfile.open(tarname, mode='r:*')
 
 
-@lru_cache(maxsize=1)
+def _open_tarball(tarname):
+    return _open_tarball_cached(tarname, _get_identity(tarname))
+
+
 def _get_members(tarname):
     tf = _open_tarball(tarname)
     return tf.getmembers()
-- 
2.43.0


From e5eacbc16212c21912d7b1093281f11f1c69ed96 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:06:47 +0000
Subject: [PATCH 067/113] fix: links in metadata bundles are not followed and
 members that are skipped are not read from elsewhere

---
 lsl/common/_metabundle_utils.py | 48 +++++++++------------
 lsl/common/metabundle.py        | 75 +++++++--------------------------
 2 files changed, 34 insertions(+), 89 deletions(-)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 378ffb6..90651bb 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -14,7 +14,7 @@ from lsl.common.mcs import MIB
 
 
 __version__ = '0.1'
-__all__ = ['FILENAME_RE', '_open_tarball', '_get_members', 'managed_mkdtemp',
+__all__ = ['FILENAME_RE', '_open_tarball', '_get_members', '_extract_member', 'managed_mkdtemp',
            'get_beamformer_min_delay', 'get_session_metadata',
            'get_asp_configuration', 'get_asp_configuration_summary']
 
@@ -47,6 +47,20 @@ def _get_members(tarname):
     return tf.getmembers()
 
 
+def _extract_member(tf, member, path):
+    """
+    Extract a regular file from a tarball into the directory `path` and return 
+    the name of the extracted file.  Links, devices, etc. and members that would
+    end up outside of the directory raise a RuntimeError.
+    """
+    
+    mname = os.path.abspath(os.path.normpath(os.path.join(path, member.name)))
+    if not member.isfile() or os.path.commonpath([path, mname]) != path:
+        raise RuntimeError(f"Refusing to extract '{member.name}'")
+    tf.extract(member, path)
+    return mname
+
+
 class managed_mkdtemp(object):
     """
     Wrapper class around tempfile.mkdtemp to enable 'with' statements with 
@@ -82,17 +96,10 @@ def get_beamformer_min_delay(tarname):
             ti = tf.getmember('mindelay.txt')
         except KeyError:
             return None
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Parse the SDM file and build the SDM instance
-        with open(os.path.join(tempDir, 'mindelay.txt'), 'r') as fh:
+        with open(filename, 'r') as fh:
             try:
                 mindelay = int(fh.read(), 10)
             except ValueError:
@@ -124,17 +131,9 @@ def get_session_metadata(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SMF
-        filename = os.path.join(tempDir, ti.name)
         with open(filename, 'r') as fh:
             # Define a regular expresion to match the latest format
             lineRE = re.compile(r"\s*(?P<id>\d{1,}?)\s+\[(?P<tag>[\d_]+?)\]\s+\['?(?P<barcode>.+?)'?\]\s+(?P<outcome>\d)\s+\[(?P<msg>.*?)\]")
@@ -224,15 +223,6 @@ def get_asp_configuration(tarname, which='beginning'):
                     mibs.append(ti)
                     
         if len(mibs) > 0:
-            for member in mibs:
-                mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-                try:
-                    if os.path.commonpath([tempDir, mname]) != tempDir:
-                        continue
-                except ValueError:
-                    continue
-                tf.extract(member, tempDir)
-            
             # Read in the right MIB
             aspMIB = {}
             for mib in mibs:
@@ -241,7 +231,7 @@ def get_asp_configuration(tarname, which='beginning'):
                 if which == 'end' and mib.name.find('_ASP_end') == -1:
                     continue
                     
-                aspMIB = MIB.from_file(os.path.join(tempDir, mib.name))
+                aspMIB = MIB.from_file(_extract_member(tf, mib, tempDir))
                 break
                 
             # Extract the configuration
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 3bd84e7..d69288e 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -200,17 +200,10 @@ def get_sdm(tarname):
             ti = tf.getmember('dynamic/sdm.dat')
         except KeyError:
             return None
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Parse the SDM file and build the SDM instance
-        dynamic = sdm.parse_sdm(os.path.join(tempDir, 'dynamic', 'sdm.dat'))
+        dynamic = sdm.parse_sdm(filename)
         
     return dynamic
 
@@ -231,17 +224,10 @@ def get_mcs_hostname(tarname):
             ti = tf.getmember('mcs.host')
         except KeyError:
             return 'unknown'
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the name
-        with open(os.path.join(tempDir, 'mcs.host'), 'r') as fh:
+        with open(filename, 'r') as fh:
             name = fh.read().strip()
             
     # Return
@@ -269,17 +255,10 @@ def get_station(tarname, apply_sdm=True):
             hostname = get_mcs_hostname(tarname)
             hostname = hostname.split('-')[0]
             return getattr(stations, hostname, None)
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SSMIF
-        station = stations.parse_ssmif(os.path.join(tempDir, 'ssmif.dat'))
+        station = stations.parse_ssmif(filename)
         
         # Get the beamformer minimum delay, if found
         mindelay = get_beamformer_min_delay(tarname)
@@ -320,17 +299,10 @@ def get_session_spec(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-4:] == '.ses':
                     break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SES
-        ses = read_ses_file(os.path.join(tempDir, ti.name))
+        ses = read_ses_file(filename)
         
     # Return
     return ses
@@ -351,14 +323,11 @@ def get_observation_spec(tarname, obs_id=None):
         for ti in _get_members(tarname):
             if ti.name[-4:] == '.obs':
                 tis.append(ti)
-        for member in tis:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
+        for ti in tis:
             try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
+                _extract_member(tf, ti, tempDir)
+            except (ValueError, RuntimeError):
                 continue
-            tf.extract(member, tempDir)
         
         # Read in the OBS files
         obsList = []
@@ -409,17 +378,10 @@ def get_sdf(tarname):
         for ti in _get_members(tarname):
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Parse it
-        project = sdf.parse_sdf(os.path.join(tempDir, ti.name))
+        project = sdf.parse_sdf(filename)
         
     # Return the filled-in SDF instance
     return project
@@ -437,17 +399,10 @@ def get_command_script(tarname):
         for ti in _get_members(tarname):
             if ti.name[-3:] == '.cs':
                 break
-        for member in [ti,]:
-            mname = os.path.abspath(os.path.normpath(os.path.join(tempDir, member.name)))
-            try:
-                if os.path.commonpath([tempDir, mname]) != tempDir:
-                    continue
-            except ValueError:
-                continue
-            tf.extract(member, tempDir)
+        filename = _extract_member(tf, ti, tempDir)
         
         # Read in the CS
-        cs = read_cs_file(os.path.join(tempDir, ti.name))
+        cs = read_cs_file(filename)
         
     # Return
     return cs
-- 
2.43.0


From e4a5373e4e6c432104651195eee3bca47bcb3e0c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:06:47 +0000
Subject: [PATCH 068/113] fix: a metadata bundle without the requested file
 raises instead of parsing some other file

---
 lsl/common/_metabundle_utils.py | 2 ++
 lsl/common/metabundle.py        | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/lsl/common/_metabundle_utils.py b/lsl/common/_metabundle_utils.py
index 90651bb..c3594fa 100644
--- a/lsl/common/_metabundle_utils.py
+++ b/lsl/common/_metabundle_utils.py
@@ -131,6 +131,8 @@ def get_session_metadata(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-13:] == '_metadata.txt':
                     break
+            else:
+                raise RuntimeError("No session meta-data file found in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SMF
diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index d69288e..0867111 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -299,6 +299,8 @@ def get_session_spec(tarname):
             for ti in _get_members(tarname):
                 if ti.name[-4:] == '.ses':
                     break
+            else:
+                raise RuntimeError("No session specification file found in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Read in the SES
@@ -378,6 +380,8 @@ def get_sdf(tarname):
         for ti in _get_members(tarname):
             if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
                 break
+        else:
+            raise RuntimeError("No session definition file found in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Parse it
@@ -399,6 +403,8 @@ def get_command_script(tarname):
         for ti in _get_members(tarname):
             if ti.name[-3:] == '.cs':
                 break
+        else:
+            raise RuntimeError("No command script found in the tarball")
         filename = _extract_member(tf, ti, tempDir)
         
         # Read in the CS
-- 
2.43.0


From 3dded295e26876d29cb343cb74e05b8db27c3b41 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:06:47 +0000
Subject: [PATCH 069/113] fix: get_sdf does not mistake mindelay.txt for the
 session definition file

---
 lsl/common/metabundle.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 0867111..2e3e739 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -375,10 +375,11 @@ def get_sdf(tarname):
     
     # Find the SDF file contained in the tarball
     with managed_mkdtemp(prefix='metadata-bundle-') as tempDir:
-        # Find the right .txt file (not the metadata one) and extract it
+        # Find the right .txt file (not the metadata or minimum delay ones) and extract it
         tf = _open_tarball(tarname)
         for ti in _get_members(tarname):
-            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1:
+            if ti.name[-4:] == '.txt' and ti.name.find('metadata') == -1 \
+               and os.path.basename(ti.name) != 'mindelay.txt':
                 break
         else:
             raise RuntimeError("No session definition file found in the tarball")
-- 
2.43.0


From 2ae5444931e9776b7a63daf3b02947accc648088 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:06:47 +0000
Subject: [PATCH 070/113] fix: binary MIB values that contain zero bytes are
 not read as zero

---
 lsl/common/mcs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lsl/common/mcs.py b/lsl/common/mcs.py
index e1d26bc..fc90c87 100644
--- a/lsl/common/mcs.py
+++ b/lsl/common/mcs.py
@@ -1144,7 +1144,13 @@ class MIBEntry(object):
         mibe = klass()
         mibe.eType = int(record.eType)
         mibe.index = index
-        mibe.value = mibe._parse_value(record.val, dbmType)
+        val = record.val
+        if dbmType[:1] in ('i', 'f'):
+            ## ctypes only returns what is in front of the first NULL, which
+            ## does not work for binary values
+            offset = type(record).val.offset
+            val = value[offset:offset+int(dbmType[1:2])]
+        mibe.value = mibe._parse_value(val, dbmType)
         mibe.dbmType = dbmType
         mibe.icdType = icdType
         mibe._tv = (int(record.tv[0]), int(record.tv[1]))
-- 
2.43.0


From e831818d569e14ec787b579926c00e67d7b228e0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:06:47 +0000
Subject: [PATCH 071/113] fix: the MIB settings of the fifth data recorder are
 read from session specification and SDM files

---
 lsl/common/metabundle.py | 4 ++--
 lsl/common/sdm.py        | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lsl/common/metabundle.py b/lsl/common/metabundle.py
index 2e3e739..1df3eb8 100644
--- a/lsl/common/metabundle.py
+++ b/lsl/common/metabundle.py
@@ -44,11 +44,11 @@ def read_ses_file(filename):
         
     record = {'ASP': bses.SESSION_MRP_ASP, 'NDP': bses.SESSION_MRP_NDP, 'SHL': bses.SESSION_MRP_SHL, 
               'MCS': bses.SESSION_MRP_MCS, 'DR1': bses.SESSION_MRP_DR1, 'DR2': bses.SESSION_MRP_DR2,
-              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4}
+              'DR3': bses.SESSION_MRP_DR3, 'DR4': bses.SESSION_MRP_DR4, 'DR5': bses.SESSION_MRP_DR5}
     
     update = {'ASP': bses.SESSION_MUP_ASP, 'NDP': bses.SESSION_MUP_NDP, 'SHL': bses.SESSION_MUP_SHL, 
               'MCS': bses.SESSION_MUP_MCS, 'DR1': bses.SESSION_MUP_DR1, 'DR2': bses.SESSION_MUP_DR2,
-              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4}
+              'DR3': bses.SESSION_MUP_DR3, 'DR4': bses.SESSION_MUP_DR4, 'DR5': bses.SESSION_MUP_DR5}
     
     return {'version': bses.FORMAT_VERSION,
             'project_id': bses.PROJECT_ID.lstrip().rstrip(), 'session_id': bses.SESSION_ID, 
diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 02bbbe7..21d0949 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -175,6 +175,7 @@ class StationSettings(object):
         self.report['DR2'] = ssStruct.mrp_dr2
         self.report['DR3'] = ssStruct.mrp_dr3
         self.report['DR4'] = ssStruct.mrp_dr4
+        self.report['DR5'] = ssStruct.mrp_dr5
         self.report['SHL'] = ssStruct.mrp_shl
         self.report['MCS'] = ssStruct.mrp_mcs
         
@@ -184,6 +185,7 @@ class StationSettings(object):
         self.update['DR2'] = ssStruct.mup_dr2
         self.update['DR3'] = ssStruct.mup_dr3
         self.update['DR4'] = ssStruct.mup_dr4
+        self.update['DR5'] = ssStruct.mup_dr5
         self.update['SHL'] = ssStruct.mup_shl
         self.update['MCS'] = ssStruct.mup_mcs
         
-- 
2.43.0


From 4c6d2e99a252c85e120f4c0fb511d2ec1e926a3f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 072/113] fix: ASP_AT3 of a single stand is read from its own
 line

---
 lsl/common/stations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 580cb22..7460f61 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1561,7 +1561,7 @@ def _parse_ssmif_text(filename_or_fh):
                 if ids[0] == -1:
                     aspAT3 = [at3 for n in range(nStand)]
                 else:
-                    aspAT3[ids[0]-1] = at1
+                    aspAT3[ids[0]-1] = at3
                 continue
                 
             #
-- 
2.43.0


From 372ca41c284707ab02027381c69f30038d3dea24 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 073/113] fix: SSMIF values do not keep the white space before
 a comment and indented comments are comments

---
 lsl/common/stations.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 7460f61..e8ff3cc 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1090,15 +1090,14 @@ def _parse_ssmif_text(filename_or_fh):
             
     try:
         for line in fh:
-            line = line.replace('\n', '')
-            line = line.replace('\r', '')
-            if len(line) == 0 or line.isspace():
+            line = line.strip()
+            if len(line) == 0:
                 continue
             if line[0] == '#':
                 continue
                 
             keywordSection, value = line.split(None, 1)
-            value = value.split('#', 1)[0]
+            value = value.split('#', 1)[0].strip()
             
             mtch = kwdRE.match(keywordSection)
             keyword = mtch.group('keyword')
-- 
2.43.0


From 56992830e3d9154408348ed4107db2d500eaa152 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:54:40 +0000
Subject: [PATCH 074/113] fix: spare ARX channels and digitizer inputs do not
 rewire the last antenna

---
 lsl/common/stations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index e8ff3cc..4efb62f 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1869,7 +1869,7 @@ def parse_ssmif(filename_or_fh):
     for i in range(len(arxAnt)):
         for j in range(len(arxAnt[i])):
             ant = arxAnt[i][j]
-            if ant == 0 or ant > 512:
+            if ant < 1 or ant > len(antennas):
                 continue
                 
             boardID = arxID[i]
@@ -1881,9 +1881,10 @@ def parse_ssmif(filename_or_fh):
     j = 1
     for brd,inp in zip(snapAnt,snapInR):
         for ant,con in zip(brd,inp):
-            antennas[ant-1].board = i
-            antennas[ant-1].digitizer = j
-            antennas[ant-1].input = con
+            if ant >= 1 and ant <= len(antennas):
+                antennas[ant-1].board = i
+                antennas[ant-1].digitizer = j
+                antennas[ant-1].input = con
             j += 1
         i += 1
         
-- 
2.43.0


From 09acc188b5936ab7c3c1ccc62638237ac0afd07f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:55:23 +0000
Subject: [PATCH 075/113] fix: the strings of a binary SSMIF end at the first
 NUL

---
 lsl/common/stations.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 4efb62f..6c66918 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1615,7 +1615,7 @@ def _parse_ssmif_binary(filename_or_fh):
         # Station Data
         #
         idn = [chr(i) for i in bssmif.sStationID]
-        idn = ''.join([i for i in idn if i != '\x00'])
+        idn = ''.join(idn).split('\x00', 1)[0]
         lat = bssmif.fGeoN
         lon = bssmif.fGeoE
         elv = bssmif.fGeoEl
@@ -1635,7 +1635,7 @@ def _parse_ssmif_binary(filename_or_fh):
         # FEE, Cable, & SEP Data
         #
         feeID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sFEEID], *bssmif.dims['sFEEID'])
-        feeID   = [''.join([k for k in i if k != '\x00']) for i in feeID]
+        feeID   = [''.join(i).split('\x00', 1)[0] for i in feeID]
         feeStat = list(bssmif.iFEEStat)
         feeDesi = list(bssmif.eFEEDesi)
         feeGai1 = list(bssmif.fFEEGai1)
@@ -1644,7 +1644,7 @@ def _parse_ssmif_binary(filename_or_fh):
         feeAnt2 = list(bssmif.iFEEAnt2)
         
         rpdID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sRPDID], *bssmif.dims['sRPDID'])
-        rpdID   = [''.join([k for k in i if k != '\x00']) for i in rpdID]
+        rpdID   = [''.join(i).split('\x00', 1)[0] for i in rpdID]
         rpdStat = list(bssmif.iRPDStat)
         rpdDesi = list(bssmif.eRPDDesi)
         rpdLeng = list(bssmif.fRPDLeng)
@@ -1657,7 +1657,7 @@ def _parse_ssmif_binary(filename_or_fh):
         rpdAnt  = list(bssmif.iRPDAnt)
         
         sepCbl  = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSEPCabl], *bssmif.dims['sSEPCabl'])
-        sepCbl  = [''.join([k for k in i if k != '\x00']) for i in sepCbl]
+        sepCbl  = [''.join(i).split('\x00', 1)[0] for i in sepCbl]
         sepLeng = list(bssmif.fSEPLeng)
         sepDesi = list(bssmif.eSEPDesi)
         sepGain = list(bssmif.fSEPGain)
@@ -1668,7 +1668,7 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         nChanARX = bssmif.nARBCH
         arxID    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBID], *bssmif.dims['sARBID'])
-        arxID    = [''.join([k for k in i if k != '\x00']) for i in arxID]
+        arxID    = [''.join(i).split('\x00', 1)[0] for i in arxID]
         arxSlot  = list(bssmif.iARBSlot)
         arxDesi  = list(bssmif.eARBDesi)
         arxRack  = list(bssmif.iARBRack)
@@ -1676,29 +1676,29 @@ def _parse_ssmif_binary(filename_or_fh):
         arxStat  = mcs_mod.flat_to_multi(bssmif.eARBStat, *bssmif.dims['eARBStat'])
         arxAnt   = mcs_mod.flat_to_multi(bssmif.iARBAnt, *bssmif.dims['iARBAnt'])
         arxIn    = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBIN], *bssmif.dims['sARBIN'])
-        arxIn    = [[''.join(i) for i in j] for j in arxIn]
+        arxIn    = [[''.join(i).split('\x00', 1)[0] for i in j] for j in arxIn]
         arxOut   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sARBOUT], *bssmif.dims['sARBOUT'])
-        arxOut   = [[''.join(i) for i in j] for j in arxOut]
+        arxOut   = [[''.join(i).split('\x00', 1)[0] for i in j] for j in arxOut]
         
         #
         # SNAP & Server Data
         #
         snapID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSnapID], *bssmif.dims['sSnapID'])
-        snapID   = [''.join([k for k in i if k != '\x00']) for i in snapID]
+        snapID   = [''.join(i).split('\x00', 1)[0] for i in snapID]
         snapSlot = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSnapSlot], *bssmif.dims['sSnapSlot'])
-        snapSlot = [''.join([k for k in i if k != '\x00']) for i in snapSlot]
+        snapSlot = [''.join(i).split('\x00', 1)[0] for i in snapSlot]
         snapDesi = list(bssmif.eSnapDesi)
         snapStat = list(bssmif.eSnapStat)
         snapInR  = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSnapINR], *bssmif.dims['sSnapINR'])
-        snapInR  = [[''.join([k for k in i if k != '\x00']) for i in j] for j in snapInR]
+        snapInR  = [[''.join(i).split('\x00', 1)[0] for i in j] for j in snapInR]
         snapInC  = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sSnapINC], *bssmif.dims['sSnapINC'])
-        snapInC  = [[''.join([k for k in i if k != '\x00']) for i in j] for j in snapInC]
+        snapInC  = [[''.join(i).split('\x00', 1)[0] for i in j] for j in snapInC]
         snapAnt  = mcs_mod.flat_to_multi(bssmif.iSnapAnt, *bssmif.dims['iSnapAnt'])
         
         serverID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sServerID], *bssmif.dims['sServerID'])
-        serverID   = [''.join([k for k in i if k != '\x00']) for i in serverID]
+        serverID   = [''.join(i).split('\x00', 1)[0] for i in serverID]
         serverSlot = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sServerSlot], *bssmif.dims['sServerSlot'])
-        serverSlot = [''.join([k for k in i if k != '\x00']) for i in serverSlot]
+        serverSlot = [''.join(i).split('\x00', 1)[0] for i in serverSlot]
         serverStat = list(bssmif.eServerStat)
         serverDesi = list(bssmif.eServerDesi)
         
@@ -1707,10 +1707,10 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         drStat = list(bssmif.eDRStat)
         drID   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sDRID], *bssmif.dims['sDRID'])
-        drID   = [''.join([k for k in i if k != '\x00']) for i in drID]
+        drID   = [''.join(i).split('\x00', 1)[0] for i in drID]
         drShlf = [0 for i in range(bssmif.nDR)]
         drPC   = mcs_mod.flat_to_multi([chr(i) for i in bssmif.sDRPC], *bssmif.dims['sDRPC'])
-        drPC   = [''.join([k for k in i if k != '\x00']) for i in drPC]
+        drPC   = [''.join(i).split('\x00', 1)[0] for i in drPC]
         drNDP   = list(bssmif.iDRNDP)
         
         fh.readinto(bsettings)
-- 
2.43.0


From 3062f1b5149a29086f6586c34e66d2e115fcccd3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:55:23 +0000
Subject: [PATCH 076/113] fix: the unused parts of the tables in a binary SSMIF
 are not part of the station

---
 lsl/common/stations.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 6c66918..0918e00 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1728,6 +1728,23 @@ def _parse_ssmif_binary(filename_or_fh):
         #
         drxGai = bsettings.drx_gain
         
+        #
+        # Only keep the part of each table that is in use
+        #
+        stdPos = stdPos[:bssmif.nStd]
+        stdAnt, stdOrie, stdStat, stdTheta, stdPhi, stdDesi = [x[:2*bssmif.nStd] for x in (stdAnt, stdOrie, stdStat, stdTheta, stdPhi, stdDesi)]
+        aspFlt, aspAT1, aspAT2, aspAT3 = [x[:bssmif.nStd] for x in (aspFlt, aspAT1, aspAT2, aspAT3)]
+        feeID, feeStat, feeDesi, feeGai1, feeGai2, feeAnt1, feeAnt2 = [x[:bssmif.nFEE] for x in (feeID, feeStat, feeDesi, feeGai1, feeGai2, feeAnt1, feeAnt2)]
+        rpdID, rpdStat, rpdDesi, rpdLeng, rpdVF, rpdDD = [x[:bssmif.nRPD] for x in (rpdID, rpdStat, rpdDesi, rpdLeng, rpdVF, rpdDD)]
+        rpdA0, rpdA1, rpdFre, rpdStr, rpdAnt = [x[:bssmif.nRPD] for x in (rpdA0, rpdA1, rpdFre, rpdStr, rpdAnt)]
+        sepCbl, sepLeng, sepDesi, sepGain, sepAnt = [x[:bssmif.nSEP] for x in (sepCbl, sepLeng, sepDesi, sepGain, sepAnt)]
+        arxID, arxSlot, arxDesi, arxRack, arxPort = [x[:bssmif.nARB] for x in (arxID, arxSlot, arxDesi, arxRack, arxPort)]
+        arxStat, arxAnt, arxIn, arxOut = [[y[:bssmif.nARBCH] for y in x[:bssmif.nARB]] for x in (arxStat, arxAnt, arxIn, arxOut)]
+        snapID, snapSlot, snapDesi = [x[:bssmif.nSnap] for x in (snapID, snapSlot, snapDesi)]
+        snapInR, snapInC, snapAnt = [[y[:bssmif.nSnapCh] for y in x[:bssmif.nSnap]] for x in (snapInR, snapInC, snapAnt)]
+        serverID, serverSlot, serverStat, serverDesi = [x[:bssmif.nServer] for x in (serverID, serverSlot, serverStat, serverDesi)]
+        drStat, drID, drPC, drNDP = [x[:bssmif.nDR] for x in (drStat, drID, drPC, drNDP)]
+        
     except Exception as e:
         if close_at_end:
             fh.close()
-- 
2.43.0


From 860945329cf10fee5b224943bc306b856eadbb08 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:55:23 +0000
Subject: [PATCH 077/113] fix: the ASP attenuator settings of a stand apply to
 the cables of that stand

---
 lsl/common/stations.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 0918e00..ce826ee 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -1846,16 +1846,6 @@ def parse_ssmif(filename_or_fh):
         cables.append(Cable(id, length, vf=vf/100.0, dd=float(dd)*1e-9, a0=a0, a1=a1, ref_freq=ref_freq, stretch=stretch))
         i += 1
         
-    # Apply corrections for the default ASP attenuator settings to the cables
-    minAT1 = min(aspAT1)
-    minAT2 = min(aspAT2)
-    minAT3 = min(aspAT3)
-    for cbl,at1,at2,at3 in zip(cables, aspAT1, aspAT2, aspAT3):
-        asp_atten_db = (at1 - minAT1)*2     # AT1 is 2 dB per step
-        asp_atten_db += (at2 - minAT2)*2    # AT2 is 2 dB per step
-        asp_atten_db += (at3 - minAT3)*0.5  # AT3 is 0.5 dB per step
-        cbl.asp_atten_db = asp_atten_db
-        
     # Build up a list of Antenna instances and load them with antenna-level
     # data
     i = 1
@@ -1893,6 +1883,21 @@ def parse_ssmif(filename_or_fh):
             channel = j + 1
             antennas[ant-1].arx = ARX(boardID, channel=channel, asp_channel=i*nChanARX + j + 1, input=arxIn[i][j], output=arxOut[i][j])
             
+    # Apply corrections for the default ASP attenuator settings to the cables.
+    # There is one setting for the two ASP channels of a stand.
+    minAT1 = min(aspAT1)
+    minAT2 = min(aspAT2)
+    minAT3 = min(aspAT3)
+    for ant in antennas:
+        i = (ant.arx.asp_channel - 1)//2
+        if i < 0 or i >= len(aspAT1):
+            continue
+            
+        asp_atten_db = (aspAT1[i] - minAT1)*2     # AT1 is 2 dB per step
+        asp_atten_db += (aspAT2[i] - minAT2)*2    # AT2 is 2 dB per step
+        asp_atten_db += (aspAT3[i] - minAT3)*0.5  # AT3 is 0.5 dB per step
+        ant.cable.asp_atten_db = asp_atten_db
+        
     # Associate SNAP2/ZCU102 board and digitizer numbers with Antennas.
     i = 1
     j = 1
-- 
2.43.0


From 919ce9267964d7378642a966403a14166f05f22c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:55:23 +0000
Subject: [PATCH 078/113] fix: copies of a cable keep its clock offset and its
 ASP attenuation

---
 lsl/common/stations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index ce826ee..286b6eb 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -764,7 +764,8 @@ class Cable(object):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch))
+        return (Cable, (self.id, self.length, self.vf, self.dd, self.a0, self.a1, self.ref_freq, self.stretch),
+                {'clock_offset': self.clock_offset, 'asp_atten_db': self.asp_atten_db})
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
-- 
2.43.0


From c9383257530ac4aa5dd2f7f4fac69ec081bcfa5f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:55:23 +0000
Subject: [PATCH 079/113] fix: stations can be copied and copies keep the
 beamformer delay and the DRX gain

---
 lsl/common/stations.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 286b6eb..80634ba 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -244,7 +244,14 @@ class LWAStation(ephem.Observer, LWAStationBase):
         return tw_fill(_build_repr(n, a), subsequent_indent='    ')
         
     def __reduce__(self):
-        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface))
+        state = {attr: getattr(self, attr) for attr in ('beamformer_min_delay', 'beamformer_min_delay_samples', 'default_drx_gain') if hasattr(self, attr)}
+        return (LWAStation, (self.name, self.lat*180/np.pi, self.long*180/np.pi, self.elev, self.id, tuple(self.antennas), self.interface), state)
+        
+    def __copy__(self):
+        func, args, state = self.__reduce__()
+        station = func(*args)
+        station.__dict__.update(state)
+        return station
         
     def __hash__(self):
         return hash(self.__reduce__()[1])
-- 
2.43.0


From 32ec77d48d5c66a3e1ee10e4d72aeef2abf45908 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:55:23 +0000
Subject: [PATCH 080/113] fix: stands still know their station after a copy of
 the station is gone

---
 lsl/common/stations.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/common/stations.py b/lsl/common/stations.py
index 80634ba..c7c31bf 100644
--- a/lsl/common/stations.py
+++ b/lsl/common/stations.py
@@ -7,7 +7,6 @@ import re
 import numpy as np
 import ephem
 import struct
-import weakref
 import importlib.util
 from textwrap import fill as tw_fill
 from functools import total_ordering
@@ -152,10 +151,10 @@ class LWAStationBase(object):
         """
         
         if index is not None:
-            self._antennas[index].stand._parent = weakref.proxy(self)
+            self._antennas[index].stand._parent = self
         else:
             for a in self._antennas:
-                a.stand._parent = weakref.proxy(self)
+                a.stand._parent = self
 
 
 class LWAStation(ephem.Observer, LWAStationBase):
-- 
2.43.0


From 1b851a8f4183d661b52037892568b61281b08e55 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 08:56:25 +0000
Subject: [PATCH 081/113] fix: updating antennas from a SDM leaves the antennas
 it is given alone

---
 lsl/common/sdm.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/common/sdm.py b/lsl/common/sdm.py
index 21d0949..2d74f2f 100644
--- a/lsl/common/sdm.py
+++ b/lsl/common/sdm.py
@@ -3,6 +3,8 @@ Module for reading in and interpreting binary-packed Station Dynamic MIB (SDM)
 files (as defined in MCS0031, v5).
 """
 
+import copy
+
 from datetime import datetime, timezone
 
 from lsl.common.mcs import SummaryCode, parse_c_struct, flat_to_multi, \
@@ -254,7 +256,7 @@ class SDM(object):
         
         updatedAntennas = []
         for ant in antennas:
-            updatedAntennas.append(ant)
+            updatedAntennas.append(copy.copy(ant))
             
             index0 = ant.stand.id - 1
             index1 = ant.pol
-- 
2.43.0


From a13f27e5662aa280c5109a66c1bea4399be0d4c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 082/113] fix: angles turned into degrees or hours, minutes and
 seconds keep their minute

---
 lsl/astro.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 20fade9..43c6a22 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1768,9 +1768,8 @@ def _float_to_sexa(value):
         sgn = -1.0
         value *= -1
         
-    d = int(value)
-    m = int(value * 60) % 60
-    s = (value * 3600.0) % 60.0
+    m, s = divmod(value * 3600.0, 60.0)
+    d, m = divmod(int(m), 60)
     
     return sgn, d, m, s
 
-- 
2.43.0


From 6caf67a312f2d8894ce183487f124c538079d4fd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 083/113] fix: hours, minutes and seconds of angles outside of
 0 to 360 degrees name the same angle

---
 lsl/astro.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 43c6a22..3ac5986 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1844,8 +1844,8 @@ def deg_to_hms(degrees):
     Returns object of type hms representing angle.
     """
     
-    sgn,h,m,s = _float_to_sexa(degrees / 15.0)
-    return hms(h, m, s)
+    sgn,h,m,s = _float_to_sexa(range_degrees(degrees) / 15.0)
+    return hms(h % 24, m, s)
 
 
 def rad_to_hms(radians):
-- 
2.43.0


From bbd81078ce03bba6a08954fbcd1dafab8ea51cc8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 084/113] fix: adding hours, minutes and seconds adds the hours

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 3ac5986..cf7eda8 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1891,7 +1891,7 @@ def add_hms(source, dest):
     degrees1 += degrees2
     _hms = deg_to_hms(degrees1)
     
-    dest.degrees = 1*_hms.hours
+    dest.hours = 1*_hms.hours
     dest.minutes = 1*_hms.minutes
     dest.seconds = 1*_hms.seconds
     
-- 
2.43.0


From 645469508dedf92f057f70e59be93caed0d906e3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 085/113] fix: loading a date with a bad second raises a
 ValueError

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index cf7eda8..b8a2265 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -481,7 +481,7 @@ class date(object):
         except ValueError:
             raise ValueError(f"seconds incorrectly formatted: {secondStr}")
         if second < 0.0 or second >= 60.0:
-            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {seconds:0.3f}")
+            raise ValueError(f"seconds parameter range is [0.0, 60.0), is set to {second:0.3f}")
             
         # set attributes
         self.years = year
-- 
2.43.0


From cc8f841c8bb719cb66970a2995448634a2c43550 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 086/113] fix: dates moved between zones are not a second off
 when their milliseconds round up

---
 lsl/astro.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index b8a2265..87cab57 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1669,7 +1669,7 @@ def date_to_zonedate(date, gmtoff):
     Returns object of type zonedate representing local time.
     """
     
-    t0 = time.strptime(str(date), "%Y-%m-%d %H:%M:%S.%f")
+    t0 = datetime(date.years, date.months, date.days, date.hours, date.minutes, int(date.seconds)).timetuple()
     fracSec = date.seconds - int(date.seconds)
     t1 = timegm(t0) + gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
@@ -1694,8 +1694,7 @@ def zonedate_to_date(zonedate):
     Returns object of type date representing UTC time.
     """
     
-    t0, junk = str(zonedate).rsplit(None, 1)
-    t0 = time.strptime(t0, "%Y-%m-%d %H:%M:%S.%f")
+    t0 = datetime(zonedate.years, zonedate.months, zonedate.days, zonedate.hours, zonedate.minutes, int(zonedate.seconds)).timetuple()
     fracSec = zonedate.seconds - int(zonedate.seconds)
     t1 = timegm(t0) - zonedate.gmtoff
     years, months, days, hours, minutes, seconds, wday, yday, dst = time.gmtime(t1)
-- 
2.43.0


From 19e67f836b597ef5d19163b601592bb5d78bde93 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 087/113] fix: the day of the week is right at midnight

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 87cab57..804a89d 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1994,7 +1994,7 @@ def get_day_of_week(date):
     """
     
     jd = date.to_jd()
-    return (int(round(jd)) + 1) % 7
+    return (int(math.floor(jd + 0.5)) + 1) % 7
 
 
 def get_julian_from_sys():
-- 
2.43.0


From e82e7433a273f4fd2433e691173cc164017f1c5c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 088/113] fix: TDB is worked out from TT, not from TAI

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 804a89d..2099da0 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -3127,7 +3127,7 @@ def tt_to_tdb(ttJD):
     Returns: The TDB JD value (float).
     """    
     
-    t = AstroTime(ttJD, format='jd', scale='tai')
+    t = AstroTime(ttJD, format='jd', scale='tt')
     return t.tdb.jd  
 
 
-- 
2.43.0


From d721b927ed274217e84ef027753370eaf16f350b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 089/113] fix: leap_secs() is a whole number on days that end
 with a leap second

---
 lsl/astro.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 2099da0..a072152 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2953,7 +2953,8 @@ def leap_secs(utcJD):
     if utcJD < FIRST_LEAP_UTC:
         raise ValueError(f"utcJD must be greater than {FIRST_LEAP_UTC}")
         
-    t = AstroTime(utcJD, format='jd', scale='utc')
+    # A UTC JD is stretched on days with a leap second so use the start of the day
+    t = AstroTime(math.floor(utcJD - 0.5) + 0.5, format='jd', scale='utc')
     diff_unix = t.unix
     diff_jd = (t - _UNIX_EPOCH_AT).sec
     return round(diff_jd - diff_unix, 1) + 8   # +8 for initial 10 s offset between TAI and UTC
-- 
2.43.0


From dd3b5777798260a2d6906e8f05a3c36f7a2a7f1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 090/113] fix: angular separations and position angles work for
 positions made from coordinates

---
 lsl/astro.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index a072152..48278c1 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2268,11 +2268,11 @@ def get_angular_separation(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     sep = sc1.separation(sc2)
     
@@ -2292,11 +2292,11 @@ def get_rel_posn_angle(posn1, posn2):
     sc1 = posn1.astropy
     if sc1 is None:
         sc1 = SkyCoord(posn1.ra*astrounits.deg, posn1.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
     sc2 = posn2.astropy
     if sc2 is None:
         sc2 = SkyCoord(posn2.ra*astrounits.deg, posn2.dec*astrounits.deg,
-                       format='fk5', equinox='J2000')
+                       frame='fk5', equinox='J2000')
         
     pa = sc1.position_angle(sc2)
     
-- 
2.43.0


From cc24b749aa4988cec52af66542e3417c8c14da81 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 091/113] fix: equatorial positions made from another frame can
 be turned into horizontal, ecliptic and galactic ones

---
 lsl/astro.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 48278c1..b0d4130 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -923,7 +923,9 @@ class equ_posn(object):
         if isinstance(value, SkyCoord):
             if not isinstance(value.frame, (ICRS, FK4, FK5, PrecessedGeocentric)):
                 raise TypeError("Expected a SkyCoord in the frame of ICRS, FK4, FK5, or PrecessedGeocentric")
-                
+        else:
+            value = SkyCoord(value)
+            
         _posn = kls()
         _posn._astropy = value
         _posn._ra = value.ra.deg
-- 
2.43.0


From 865a6a94778b59ba0e44f0bf45b9fbaa0cc6cbe1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 092/113] fix: rectangular coordinates can be turned into
 ecliptic ones

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index b0d4130..c969847 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2124,7 +2124,7 @@ def get_ecl_from_rect(rect):
     sc = GeocentricTrueEcliptic(CartesianRepresentation(x*astrounits.au, y*astrounits.au, z*astrounits.au),
                                 equinox='J2000')
 
-    return ecl_posn.from_astropy(sc)
+    return ecl_posn.from_astropy(SkyCoord(sc))
 
 
 def get_equ_from_ecl(target, jD):
-- 
2.43.0


From e1b32cfbf55d67319a193ad2098b043f98b8a39b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 093/113] fix: a galactic longitude can be given in degrees,
 minutes and seconds

---
 lsl/astro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index c969847..b4a0f1c 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -1214,7 +1214,7 @@ class gal_posn(object):
         if self.astropy is not None:
             raise RuntimeError("Cannot set l when this.astropy is not None")
             
-        if isinstance(value, hms):
+        if isinstance(value, (dms, hms)):
             value = value.to_deg()
         if value < -360.0 or value >= 360.0:
             raise ValueError(f"l parameter range is [-360.0, 360.0), is set to {value:0.3f}")
-- 
2.43.0


From 497ef36dc44a621141435a9e26af4956d5ca6c32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 094/113] fix: rise, set and transit times of objects seen from
 every latitude

---
 lsl/astro.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index b4a0f1c..039ba12 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2429,14 +2429,21 @@ def get_object_rst(jD, observer, target):
     t = AstroTime(jD+np.linspace(-1, 1, 192), format='jd', scale='utc')
     aa = AltAz(location=el, obstime=t)
     aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
+    alt = aa.alt.deg
+    antitransits = np.where((alt[1:-1] < alt[:-2]) & (alt[1:-1] <= alt[2:]))[0] + 1
     if len(antitransits) == 0:
         # No anti-transits = it never rises or never sets
         return None
         
     # Part 2 - Determine the approximate rise, set, and transit times
     #          based on when the source is up.
-    above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
+    try:
+        above = np.where(alt[antitransits[0]:antitransits[1]] >= 0)[0]
+    except IndexError:
+        above = np.where(alt[antitransits[0]:] >= 0)[0]
+    if len(above) == 0:
+        # It never rises
+        return None
     rise = above[0] + antitransits[0]
     set = above[-1] + antitransits[0]
     transit = (rise + set) // 2
@@ -2520,7 +2527,8 @@ def _get_solar_system_rst(jD, observer, body):
         sc = get_body(body, t, location=el)
         aa = AltAz(location=el, obstime=t)
         aa = sc.transform_to(aa)
-    antitransits = np.where(np.diff(aa.az[...].deg) < -180)[0]
+    alt = aa.alt.deg
+    antitransits = np.where((alt[1:-1] < alt[:-2]) & (alt[1:-1] <= alt[2:]))[0] + 1
     if len(antitransits) == 0:
         # No anti-transits = it never rises or never sets
         return None
@@ -2528,9 +2536,12 @@ def _get_solar_system_rst(jD, observer, body):
     # Part 2 - Determine the approximate rise, set, and transit times
     #          based on when the source is up.
     try:
-        above = np.where(aa.alt[antitransits[0]:antitransits[1]] >= 0)[0]
+        above = np.where(alt[antitransits[0]:antitransits[1]] >= 0)[0]
     except IndexError:
-        above = np.where(aa.alt[antitransits[0]:] >= 0)[0]
+        above = np.where(alt[antitransits[0]:] >= 0)[0]
+    if len(above) == 0:
+        # It never rises
+        return None
     rise = above[0] + antitransits[0]
     set = above[-1] + antitransits[0]
     transit = (rise + set) // 2
-- 
2.43.0


From dee229582a0607eedd431920e80b1f9bf2be4a7f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 09:46:46 +0000
Subject: [PATCH 095/113] fix: the transit is where the altitude is the highest

---
 lsl/astro.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lsl/astro.py b/lsl/astro.py
index 039ba12..c343e61 100644
--- a/lsl/astro.py
+++ b/lsl/astro.py
@@ -2487,8 +2487,8 @@ def get_object_rst(jD, observer, target):
     aa = AltAz(location=el, obstime=tt)
     aa = sc.transform_to(aa)
     ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
+    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 3*ttf[0]*ttf[2])
+    tt /= 3*ttf[0]
     tt += aa.obstime.jd[np.argmax(aa.alt)]
     
     _rst.rise = tr
@@ -2592,8 +2592,8 @@ def _get_solar_system_rst(jD, observer, body):
         aa = AltAz(location=el, obstime=tt)
         aa = sc.transform_to(aa)
     ttf = np.polyfit(aa.obstime.jd-aa.obstime.jd[np.argmax(aa.alt)], aa.alt, 3)
-    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 4*ttf[0]*ttf[2])
-    tt /= 2*ttf[0]
+    tt = -ttf[1] - np.sqrt(ttf[1]**2 - 3*ttf[0]*ttf[2])
+    tt /= 3*ttf[0]
     tt += aa.obstime.jd[np.argmax(aa.alt)]
     
     _rst.rise = tr
-- 
2.43.0


From 47c369adcfc730f99e022e7a91039a9c6915b149 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 096/113] fix: a problem with a download is told by zeros
 whatever the problem is

---
 lsl/common/data_access.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 3069976..4e402a4 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -4,14 +4,13 @@ import sys
 import time
 import zlib
 import shutil
-import socket
 import logging
 import calendar
 import warnings
 import contextlib
 from datetime import datetime
 from urllib.request import Request, urlopen
-from urllib.error import HTTPError
+from http.client import HTTPException
 
 from lsl.common.paths import DATA as DATA_PATH
 from lsl.common.progress import DownloadBar
@@ -64,7 +63,8 @@ def check_url(url, byte_range=None, verbose=True):
     except Exception as e:
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error polling metadata from %s: %s}}" % (url, str(e))), RuntimeWarning)
-            
+        remote_size, mtime = 0, 0.0
+        
     return remote_size, mtime
 
 
@@ -142,14 +142,12 @@ def download_file(url, filename_or_fh, byte_range=None, verbose=True):
             if is_interactive:
                 sys.stdout.write(pbar.show()+'\n')
                 sys.stdout.flush()
-    except IOError as e:
+    except (IOError, HTTPException, TypeError, ValueError, zlib.error) as e:
+        # IOError also covers timeouts and HTTP errors, the others are for
+        # responses and headers that do not make sense
         if verbose:
             warnings.warn(colorfy("{{%%yellow Error downloading file from %s: %s}}" % (url, str(e))), RuntimeWarning)
-        received = 0
-    except (socket.timeout, TimeoutError):
-        received = 0
-    except HTTPError:
-        received = 0
+        remote_size, received, mtime = 0, 0, 0.0
         
     if do_close:
         filename_or_fh.close()
-- 
2.43.0


From 2d9c8d2375c0363a75ca53687ab4ac2c4d571bc0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 097/113] fix: data files that were not downloaded whole are
 neither kept nor used

---
 lsl/common/data_access.py | 44 ++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index 4e402a4..d1eb3b0 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -7,6 +7,7 @@ import shutil
 import logging
 import calendar
 import warnings
+import threading
 import contextlib
 from datetime import datetime
 from urllib.request import Request, urlopen
@@ -195,7 +196,10 @@ class _DataAccess(object):
         local_path = os.path.join(DATA_PATH, relative_url)
         
         received = 0
-        if os.path.exists(local_path):
+        if os.path.exists(local_path) and os.path.getsize(local_path) >= 3:
+            # The metadata comes last and says that the file is complete
+            self._data_cache.remove(metaname)
+            
             with open(local_path, 'rb') as uh:
                 with self._data_cache.open(filename, 'wb') as fh:
                     while True:
@@ -214,13 +218,7 @@ class _DataAccess(object):
                 
         # Did we get anything or, at least, enough of something like it looks like 
         # a real file?
-        if received < 3:
-            ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
-            return False
-            
-        return True
+        return received >= 3
         
     def _download_mtime(self, relative_url, use_backup=False, verbose=True):
         url = self._BASE_URL+'/'+relative_url
@@ -247,23 +245,31 @@ class _DataAccess(object):
             url = self._BACKUP_URL+'/'+relative_url
             
         mtime = 0
-        with self._data_cache.open(filename, 'wb') as fh:
+        partname = f"{filename}_part{os.getpid()}_{threading.get_ident()}"
+        with self._data_cache.open(partname, 'wb') as fh:
             remote_size, received, mtime = download_file(url, fh, verbose=verbose)
             
+        # Did we get all of it and, at least, enough of something like it looks
+        # like a real file?
+        if received < 3 or received != remote_size:
+            ## Fail
+            self._data_cache.remove(partname)
+            return False
+            
+        # Put it in place.  The metadata comes last and says that the file is complete
+        self._data_cache.remove(metaname)
+        with self._data_cache.open(partname, 'rb') as fh:
+            data = fh.read()
+        with self._data_cache.open(filename, 'wb') as fh:
+            fh.write(data)
+        self._data_cache.remove(partname)
+        
         with self._data_cache.open(metaname, 'w') as fh:
             fh.write(f"created: {time.time():.0f}\n")
             fh.write(f"source: {url}\n")
             fh.write(f"source size: {remote_size} B\n")
             fh.write(f"source last modified: {mtime:.0f}\n")
             
-        # Did we get anything or, at least, enough of something like it looks like 
-        # a real file?
-        if received < 3:
-            ## Fail
-            self._data_cache.remove(filename)
-            self._data_cache.remove(metaname)
-            return False
-            
         return True
         
     def fetch_data_file(self, filename):
@@ -274,8 +280,8 @@ class _DataAccess(object):
         
         verbose = not filename.endswith('-ssmif.txt')
         
-        if filename not in self._data_cache:
-            # No file, go get one.
+        if filename not in self._data_cache or filename+'_meta' not in self._data_cache:
+            # No file or an incomplete one, go get one.
             status = self._local_copy_worker(filename, filename, verbose=verbose)
             if not status:
                 status = self._download_worker(filename, filename, use_backup=False, verbose=verbose)
-- 
2.43.0


From 19c7ae381bf0042a9d0212012d92b2eca6355e5b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:06:33 +0000
Subject: [PATCH 098/113] fix: data files are refreshed from where the newer
 version is

---
 lsl/common/data_access.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lsl/common/data_access.py b/lsl/common/data_access.py
index d1eb3b0..a8ee33a 100644
--- a/lsl/common/data_access.py
+++ b/lsl/common/data_access.py
@@ -303,10 +303,14 @@ class _DataAccess(object):
                     remote_mtime = self._download_mtime(filename, use_backup=True, verbose=verbose)
                     
                 if max([local_mtime, remote_mtime]) > cache_mtime:
-                    ## Found something newer.  Delete the current version and
-                    ## copy/download again.
-                    self._data_cache.remove(filename)
-                    self.fetch_data_file(filename)
+                    ## Found something newer.  Replace the current version with
+                    ## it or keep the current version if that does not work out.
+                    if remote_mtime > local_mtime:
+                        status = self._download_worker(filename, filename, use_backup=False, verbose=verbose)
+                        if not status:
+                            self._download_worker(filename, filename, use_backup=True, verbose=verbose)
+                    else:
+                        self._local_copy_worker(filename, filename, verbose=verbose)
                     
     @contextlib.contextmanager
     def open(self, filename, mode='r'):
-- 
2.43.0


From 94b31f83d636423224480d0c32b93793f5271a06 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 099/113] fix: telemetry.ignore() stops the logging of usage
 data

---
 lsl/misc/telemetry/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 174d27c..5cbda9d 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -221,8 +221,7 @@ class _TelemetryClient(object):
         Disable saving data to the telemetry cache in a temporary way.
         """
         
-        TELE_CONFIG.set_temp('enabled', False)
-        self.active = TELE_CONFIG.get('enabled')
+        self.active = False
 
 
 # Create an instance of the telemetry client to use.
-- 
2.43.0


From 162f426f3d15bb40db11b6e38b8bd06c86d691cd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 100/113] fix: telemetry data written within the same second do
 not replace each other

---
 lsl/misc/telemetry/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 5cbda9d..0d0e0c7 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -87,6 +87,7 @@ class _TelemetryClient(object):
         # Telemetry cache
         self._cache = {}
         self._cache_count = 0
+        self._write_count = 0
         if not _IS_READONLY:
             # Reporting lockout
             self.active = TELE_CONFIG.get('enabled')
@@ -169,9 +170,10 @@ class _TelemetryClient(object):
                                'elapsed_time': tNow-self._session_start,
                                'calls':        call_payload}
                     
-                    filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i.log' % (int(tNow), os.getpid()))
+                    filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i_%i.log' % (int(tNow), os.getpid(), self._write_count))
                     with open(filename, 'w') as lf:
                         lf.write(json.dumps(payload))
+                    self._write_count += 1
                     self.clear()
                     success = True
                     
-- 
2.43.0


From 44494b3ab7c9025698a3a1d8d35de8b50be39a1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 101/113] fix: telemetry data that are being written are not
 removed by the upload of older data

---
 lsl/misc/telemetry/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lsl/misc/telemetry/__init__.py b/lsl/misc/telemetry/__init__.py
index 0d0e0c7..cd1c803 100644
--- a/lsl/misc/telemetry/__init__.py
+++ b/lsl/misc/telemetry/__init__.py
@@ -171,8 +171,11 @@ class _TelemetryClient(object):
                                'calls':        call_payload}
                     
                     filename = os.path.join(_CACHE_DIR, 'telemetry_%i_%i_%i.log' % (int(tNow), os.getpid(), self._write_count))
-                    with open(filename, 'w') as lf:
+                    # Use a name that is not picked up for sending until it is complete
+                    partname = os.path.join(_CACHE_DIR, 'telemetry_%i.part' % os.getpid())
+                    with open(partname, 'w') as lf:
                         lf.write(json.dumps(payload))
+                    os.rename(partname, filename)
                     self._write_count += 1
                     self.clear()
                     success = True
-- 
2.43.0


From b1e378eb193f0938b2992da043e8dd1da30c4fbd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:07:58 +0000
Subject: [PATCH 102/113] fix: keep the tuning word when a DRX frame is loaded
 into a SimFrame and written again

---
 lsl/sim/drx.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index 6b9c0a0..a189be2 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -59,15 +59,16 @@ def frame_to_frame(drx_frame):
     rawFrame[21] = (drx_frame.payload.timetag>>16) & 255
     rawFrame[22] = (drx_frame.payload.timetag>>8) & 255
     rawFrame[23] = drx_frame.payload.timetag & 255
-    ## Flags
-    rawFrame[24] = (drx_frame.payload.flags>>56) & 255
-    rawFrame[25] = (drx_frame.payload.flags>>48) & 255
-    rawFrame[26] = (drx_frame.payload.flags>>40) & 255
-    rawFrame[27] = (drx_frame.payload.flags>>32) & 255
-    rawFrame[28] = (drx_frame.payload.flags>>24) & 255
-    rawFrame[29] = (drx_frame.payload.flags>>16) & 255
-    rawFrame[30] = (drx_frame.payload.flags>>8) & 255
-    rawFrame[31] = drx_frame.payload.flags & 255
+    ## Tuning word and flags
+    flags = drx_frame.payload.flags | ((drx_frame.payload.tuning_word or 0) << 32)
+    rawFrame[24] = (flags>>56) & 255
+    rawFrame[25] = (flags>>48) & 255
+    rawFrame[26] = (flags>>40) & 255
+    rawFrame[27] = (flags>>32) & 255
+    rawFrame[28] = (flags>>24) & 255
+    rawFrame[29] = (flags>>16) & 255
+    rawFrame[30] = (flags>>8) & 255
+    rawFrame[31] = flags & 255
     ## Data
     if drx_frame.payload.data.dtype == CI8:
         i = drx_frame.payload.data['re'].copy()
-- 
2.43.0


From e5ff1e06eeaa5e438f67ec08d40db0106ffc77b9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:08:27 +0000
Subject: [PATCH 103/113] fix: validate the beam, tuning and polarization given
 to a simulated DRX frame, not what is left of them after masking

---
 lsl/sim/drx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lsl/sim/drx.py b/lsl/sim/drx.py
index a189be2..949b390 100644
--- a/lsl/sim/drx.py
+++ b/lsl/sim/drx.py
@@ -187,7 +187,7 @@ class SimFrame(drx.Frame):
         if self.header.time_offset >= fS:
             return False
 
-        beam, tune, pol = self.id
+        beam, tune, pol = self.beam, self.tune, self.pol
         # Is the beam number reasonable?
         if beam not in [1, 2, 3, 4]:
             if raise_errors:
-- 
2.43.0


From 2b5e85be2d14d14eed8e0df68f0ca0c6361badbd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:09:04 +0000
Subject: [PATCH 104/113] fix: VDIF times that round up to a whole second are
 the first frame of that second

---
 lsl/writer/vdif.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lsl/writer/vdif.py b/lsl/writer/vdif.py
index 596137a..9367e28 100644
--- a/lsl/writer/vdif.py
+++ b/lsl/writer/vdif.py
@@ -84,17 +84,23 @@ class Frame(object):
             seconds_i = int(self.time)
             seconds_f = self.time - seconds_i
             
+        # Frames since the beginning of the second, carrying into the next second
+        # if that is the nearest frame
+        frame_rate = self.sample_rate/(len(self.data)//(2-self.dataReal))
+        seconds_w = int(np.floor(seconds_f))
+        frame = int(round(float(seconds_f - seconds_w) * frame_rate))
+        if frame >= frame_rate:
+            seconds_w += 1
+            frame = 0
+        self.frame = frame
+        
         # Seconds since the UNIX epoch
-        curEpoch = AstroTime(seconds_i, seconds_f, format='unix', scale='utc')
+        curEpoch = AstroTime(seconds_i + seconds_w, 0.0, format='unix', scale='utc')
         # Seconds since the VDIF epoch
         self.epoch = 2*(curEpoch.ymdhms[0] - 2000) + (curEpoch.ymdhms[1] > 6)
         epochSeconds = curEpoch - AstroTime(f"{curEpoch.ymdhms[0]}-{(curEpoch.ymdhms[1]//7)*6+1}-1 00:00:00", format='iso', scale='utc')
         # Integer seconds
-        self.seconds = int(epochSeconds.sec)
-        
-        # Compute the frames since the beginning of the second
-        frame = (epochSeconds.sec - self.seconds) * (self.sample_rate/(len(self.data)//(2-self.dataReal)))
-        self.frame = int(round(frame))
+        self.seconds = int(round(epochSeconds.sec))
         
     def create_raw_frame(self):
         """
-- 
2.43.0


From e5ca60e7174f804577c8ae5da6764b9f24743f13 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:09:04 +0000
Subject: [PATCH 105/113] fix: VDIF frame times in the half years that follow a
 leap second were a second late

---
 lsl/reader/vdif.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lsl/reader/vdif.py b/lsl/reader/vdif.py
index 910e4f7..326329e 100644
--- a/lsl/reader/vdif.py
+++ b/lsl/reader/vdif.py
@@ -32,7 +32,7 @@ from functools import lru_cache
 
 from astropy.time import Time as AstroTime, TimeDelta as AstroDelta
 
-from lsl.astro import leap_secs
+from lsl.astro import leap_secs, MJD_OFFSET
 from lsl.common.mcs import datetime_to_mjdmpm
 from lsl.reader.base import *
 from lsl.reader._gofast import read_vdif, read_vdif_i8
@@ -131,9 +131,9 @@ class FrameHeader(FrameHeaderBase):
         # and convert it to a MJD
         frameDT = AstroTime(f"{2000+self.ref_epoch//2}-{(self.ref_epoch % 2)*6+1}-1 00:00:00",
                             format='iso', scale='utc')
-        frameJD = int(frameDT.jd)
+        frameJD = int(frameDT.mjd) + MJD_OFFSET
         frameDT += AstroDelta(self.seconds_from_epoch, format='sec')
-        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.jd)), format='sec')
+        frameDT -= AstroDelta(_ls_tracker(frameJD, int(frameDT.mjd) + MJD_OFFSET), format='sec')
         
         if self.sample_rate == 0.0:
             # Try to get the sub-second time by parsing the extended user data
-- 
2.43.0


From a14d995d45c5de489e9a01335c84085733e8856f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:10:05 +0000
Subject: [PATCH 106/113] fix: order SDFITS integrations by time and then
 polarization, and name code -4 LR

---
 lsl/writer/sdfits.py | 23 +++--------------------
 1 file changed, 3 insertions(+), 20 deletions(-)

diff --git a/lsl/writer/sdfits.py b/lsl/writer/sdfits.py
index 0de1136..92c76b8 100644
--- a/lsl/writer/sdfits.py
+++ b/lsl/writer/sdfits.py
@@ -17,7 +17,6 @@ import numpy as np
 from astropy.time import Time as AstroTime
 from astropy.io import fits as astrofits
 from datetime import datetime
-from functools import cmp_to_key
 
 from lsl import astro
 from lsl.misc import telemetry
@@ -39,7 +38,7 @@ STOKES_CODES = { 'I':  1,  'Q': 2,   'U':  3,  'V':  4,
                 'XX': -5, 'YY': -6, 'XY': -7, 'YX': -8}
 
 NUMERIC_STOKES = { 1: 'I',   2: 'Q',   3: 'U',   4: 'V', 
-                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'RL', 
+                  -1: 'RR', -2: 'LL', -3: 'RL', -4: 'LR', 
                   -5: 'XX', -6: 'YY', -7: 'XY', -8: 'YX'}
 
 
@@ -154,24 +153,8 @@ class Sd(WriterBase):
         Fill in the SDFITS file will all of the tables in the correct order.
         """
         
-        def __sortData(x, y):
-            """
-            Function to sort the self.data list in order of time and then 
-            polarization code.
-            """
-            
-            xID = x.obsTime*10000000 + abs(x.pol)
-            yID = y.obsTime*10000000 + abs(y.pol)
-            
-            if xID > yID:
-                return 1
-            elif xID < yID:
-                return -1
-            else:
-                return 0
-                
-        # Sort the data set
-        self.data.sort(key=cmp_to_key(__sortData))
+        # Sort the data set in order of time and then polarization code
+        self.data.sort(key=lambda x: (x.obsTime, abs(x.pol)))
         
         self._write_primary_hdu()
         self._write_singledish_hdu()
-- 
2.43.0


From 65ed5315c4d23ad76f9d494832fc590f6a0029dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:25:31 +0000
Subject: [PATCH 107/113] fix: lists of angles on the command line may have
 empty items, which are not zeros, and must not be empty

---
 lsl/misc/parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 9cabf38..3844067 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -409,13 +409,15 @@ def csv_hours_list(string):
     of ephem.hours instances.
     """
     
-    string = string.rstrip()
-    if string[-1] == ',':
-        string = string[:-1]
-        
     value = []
     for item in string.split(','):
+        item = item.strip()
+        if item == '':
+            continue
         value.append( hours(item) )
+    if len(value) == 0:
+        msg = f"'{string}' does not contain any values"
+        raise ArgumentTypeError(msg)
     return value
 
 
@@ -438,13 +440,15 @@ def csv_degrees_list(string):
     of ephem.degrees instances.
     """
     
-    string = string.rstrip()
-    if string[-1] == ',':
-        string = string[:-1]
-        
     value = []
     for item in string.split(','):
+        item = item.strip()
+        if item == '':
+            continue
         value.append( degrees(item) )
+    if len(value) == 0:
+        msg = f"'{string}' does not contain any values"
+        raise ArgumentTypeError(msg)
     return value
 
 
-- 
2.43.0


From ac276d7af94825a83e630596c83c45bf0d6a2add Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:25:31 +0000
Subject: [PATCH 108/113] fix: a positive float on the command line is a
 number, not NaN

---
 lsl/misc/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lsl/misc/parser.py b/lsl/misc/parser.py
index 3844067..d2efc7a 100644
--- a/lsl/misc/parser.py
+++ b/lsl/misc/parser.py
@@ -64,6 +64,9 @@ def positive_or_zero_float(string):
     except ValueError:
         msg = f"{string} is a non-float value"
         raise ArgumentTypeError(msg)
+    if value != value:
+        msg = f"{string} is not a number"
+        raise ArgumentTypeError(msg)
     if value < 0.0:
         msg = f"{string} < 0.0"
         raise ArgumentTypeError(msg)
-- 
2.43.0


From b482f0cd0a6e3e53ef2155886b18e8de52de5ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 109/113] fix: incoherent() with boundary='fill' fills what
 wraps for negative DMs as well

The delays are negative for a negative DM and the data were wrapped around the
start of the time range in spite of the 'fill' boundary.
---
 lsl/misc/dedispersion.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index 654acd6..e680f92 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -87,6 +87,8 @@ def incoherent(freq, waterfall, tInt, dm, boundary='wrap', fill_value=np.nan):
         ddWaterfall[:,i] = np.roll(waterfall[:,i], -d)
         if boundary == 'fill' and d > 0:
             ddWaterfall[-d:,i] = fill_value
+        elif boundary == 'fill' and d < 0:
+            ddWaterfall[:-d,i] = fill_value
             
     # Return
     return ddWaterfall
-- 
2.43.0


From 37b4aca36d9dfd446b8a4bf81a92f030a9b0e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:08 +0000
Subject: [PATCH 110/113] fix: coherent() dedisperses the whole of a block that
 is followed by more data

With more than half a window of samples after the last whole window the end of
the block was returned as zeros, data and times, although 'next_data' was given.
---
 lsl/misc/dedispersion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lsl/misc/dedispersion.py b/lsl/misc/dedispersion.py
index e680f92..c703bda 100644
--- a/lsl/misc/dedispersion.py
+++ b/lsl/misc/dedispersion.py
@@ -200,7 +200,8 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
         raise RuntimeWarning("Too few data samples for proper dedispersion")
         
     # Go!
-    for i in range(2*nSets+1):
+    nHalves = -(-timeseries.size // (N//2))
+    for i in range(nHalves):
         start = N//2*i - N//4
         stop = start + N
         
@@ -256,7 +257,7 @@ def coherent(t, timeseries, central_freq, sample_rate, dm, taper=False, previous
             
         if i == 0 and previous_data is None:
             continue
-        if i == (2*nSets) and next_data is None:
+        if i >= (2*nSets) and next_data is None:
             continue
             
         outT[outStart:outStop] = timeOut[dataStart:dataStop]
-- 
2.43.0


From c366f649b5afb068df96101a441a7eb0102b56c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:35 +0000
Subject: [PATCH 111/113] fix: a console or log file that cannot be set up does
 not end the logging to the one before

The existing handler was removed, and closed, before the new one was known to be
good, so that an error in the new file name or level stopped the logging.
---
 lsl/logger.py | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/lsl/logger.py b/lsl/logger.py
index 1472c7b..6b9daec 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -162,20 +162,21 @@ def enable_console_logging(level=None, stream=None):
 
     global _console_handler, LSL_LOGGER
 
-    # Remove existing console handler if present
-    if _console_handler is not None:
-        LSL_LOGGER.removeHandler(_console_handler)
-
     # Create and configure new console handler
     if stream is None:
         stream = sys.stderr
 
-    _console_handler = logging.StreamHandler(stream)
-    _console_handler.setFormatter(LSL_LOG_FORMAT)
+    new_handler = logging.StreamHandler(stream)
+    new_handler.setFormatter(LSL_LOG_FORMAT)
 
     if level is not None:
-        _console_handler.setLevel(level)
+        new_handler.setLevel(level)
+
+    # Remove existing console handler if present
+    if _console_handler is not None:
+        LSL_LOGGER.removeHandler(_console_handler)
 
+    _console_handler = new_handler
     LSL_LOGGER.addHandler(_console_handler)
 
 
@@ -200,19 +201,26 @@ def enable_file_logging(filename, level=None, mode='a'):
 
     global _file_handler, LSL_LOGGER
 
-    # Remove existing file handler if present
     if _file_handler is not None:
         warnings.warn(f"Closing existing log file '{_file_handler.baseFilename}' and switching to '{filename}'", RuntimeWarning)
-        LSL_LOGGER.removeHandler(_file_handler)
-        _file_handler.close()
 
     # Create and configure new file handler
-    _file_handler = logging.FileHandler(filename, mode=mode)
-    _file_handler.setFormatter(LSL_LOG_FORMAT)
+    new_handler = logging.FileHandler(filename, mode=mode)
+    new_handler.setFormatter(LSL_LOG_FORMAT)
 
     if level is not None:
-        _file_handler.setLevel(level)
+        try:
+            new_handler.setLevel(level)
+        except (TypeError, ValueError):
+            new_handler.close()
+            raise
+
+    # Remove existing file handler if present
+    if _file_handler is not None:
+        LSL_LOGGER.removeHandler(_file_handler)
+        _file_handler.close()
 
+    _file_handler = new_handler
     LSL_LOGGER.addHandler(_file_handler)
 
 
-- 
2.43.0


From 840a820e766182366835b924af1fe2ba2fcaf80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:36 +0000
Subject: [PATCH 112/113] fix: captured warnings obey the logging level

logging.Logger.handle() does not look at the level of the logger, so warnings
were logged for any setting of set_log_level().
---
 lsl/logger.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lsl/logger.py b/lsl/logger.py
index 6b9daec..57dadde 100644
--- a/lsl/logger.py
+++ b/lsl/logger.py
@@ -134,7 +134,8 @@ class _WarningHandler(logging.Handler):
         from lsl.common.color import uncolorfy
         
         record.msg = uncolorfy(record.msg)
-        LSL_LOGGER.handle(record)
+        if LSL_LOGGER.isEnabledFor(record.levelno):
+            LSL_LOGGER.handle(record)
 
 
 # Setup the py.warnings logger in case the user wants to redirect those as well
-- 
2.43.0


From 5c2f95829439b0aab44632c638428ad18341f12f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:07:42 +0000
Subject: [PATCH 113/113] fix: spectrometer frames that do not match are
 refused before anything has been changed

---
 lsl/reader/drspec.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lsl/reader/drspec.py b/lsl/reader/drspec.py
index 7573534..a2c4dc9 100644
--- a/lsl/reader/drspec.py
+++ b/lsl/reader/drspec.py
@@ -381,6 +381,7 @@ class Frame(FrameBase):
         a number to every element in the data section.
         """
         
+        updated = {}
         for attrBase in self.header.data_products:
             for tuning in (0, 1):
                 attr = "%s%i" % (attrBase, tuning)
@@ -390,7 +391,9 @@ class Frame(FrameBase):
                     raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) + np.float32(y)
-                setattr(self.payload, attr, temp)
+                updated[attr] = temp
+        for attr,temp in updated.items():
+            setattr(self.payload, attr, temp)
             
         return self
         
@@ -410,6 +413,7 @@ class Frame(FrameBase):
         a number from every element in the data section.
         """
         
+        updated = {}
         for attrBase in self.header.data_products:
             for tuning in (0, 1):
                 attr = "%s%i" % (attrBase, tuning)
@@ -419,7 +423,9 @@ class Frame(FrameBase):
                     raise RuntimeError(f"Cannot add {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) - np.float32(y)
-                setattr(self.payload, attr, temp)
+                updated[attr] = temp
+        for attr,temp in updated.items():
+            setattr(self.payload, attr, temp)
             
         return self
         
@@ -439,6 +445,7 @@ class Frame(FrameBase):
         multiply a number to every element in the data section.
         """
         
+        updated = {}
         for attrBase in self.header.data_products:
             for tuning in (0, 1):
                 attr = "%s%i" % (attrBase, tuning)
@@ -448,7 +455,9 @@ class Frame(FrameBase):
                     raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) * np.float32(y)
-                setattr(self.payload, attr, temp)
+                updated[attr] = temp
+        for attr,temp in updated.items():
+            setattr(self.payload, attr, temp)
                 
         return self
         
@@ -468,6 +477,7 @@ class Frame(FrameBase):
         divide a number from every element in the data section.
         """
         
+        updated = {}
         for attrBase in self.header.data_products:
             for tuning in (0, 1):
                 attr = "%s%i" % (attrBase, tuning)
@@ -477,7 +487,9 @@ class Frame(FrameBase):
                     raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) // np.float32(y)
-                setattr(self.payload, attr, temp)
+                updated[attr] = temp
+        for attr,temp in updated.items():
+            setattr(self.payload, attr, temp)
                 
         return self
         
@@ -497,6 +509,7 @@ class Frame(FrameBase):
         divide a number from every element in the data section.
         """
         
+        updated = {}
         for attrBase in self.header.data_products:
             for tuning in (0, 1):
                 attr = "%s%i" % (attrBase, tuning)
@@ -506,7 +519,9 @@ class Frame(FrameBase):
                     raise RuntimeError(f"Cannot multiply {str(self.header.data_products)} with {str(y.header.data_products)}")
                 except AttributeError:
                     temp = getattr(self.payload, attr, None) / np.float32(y)
-                setattr(self.payload, attr, temp)
+                updated[attr] = temp
+        for attr,temp in updated.items():
+            setattr(self.payload, attr, temp)
                 
         return self
 
-- 
2.43.0

