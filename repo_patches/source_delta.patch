From aee5fb289684553ee41d7f9a2b106eb240849446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 01/26] fix: unbuffered read of uncompressed OpenFAST binary
 files (file ID 3)

---
 weio/fast_output_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 94ee22c..cb3e3e8 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -277,8 +277,8 @@ def load_binary_output(filename, use_buffer=True):
             TimeIncr = fread(fid, 1, 'float64')  #;           % The time increment, REAL(8)
 
         if FileID == FileFmtID_NoCompressWithoutTime:
-            ColScl = np.ones ((NumOutChans, 1)) # The channel slopes for scaling, REAL(4)
-            ColOff = np.zeros((NumOutChans, 1)) # The channel offsets for scaling, REAL(4)
+            ColScl = np.ones (NumOutChans) # The channel slopes for scaling, REAL(4)
+            ColOff = np.zeros(NumOutChans) # The channel offsets for scaling, REAL(4)
         else:
             ColScl = fread(fid, NumOutChans, 'float32')  # The channel slopes for scaling, REAL(4)
             ColOff = fread(fid, NumOutChans, 'float32')  # The channel offsets for scaling, REAL(4)
-- 
2.43.0


From 7fd617ae43da140efe368d9df9ea21eca5b74f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 02/26] fix: OpenFAST binary files with more channels than the
 read buffer

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index cb3e3e8..6b55034 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -224,7 +224,7 @@ def load_binary_output(filename, use_buffer=True):
         fmt, nbytes = {'uint8': ('B', 1), 'int16':('h', 2), 'int32':('i', 4), 'float32':('f', 4), 'float64':('d', 8)}[type_in]
         nLines          = int(n/nCols)
         GoodBufferSize  = 4096*40
-        nLinesPerBuffer = int(GoodBufferSize/nCols)
+        nLinesPerBuffer = max(int(GoodBufferSize/nCols), 1)
         BufferSize      = nCols * nLinesPerBuffer
         nBuffer         = int(n/BufferSize)
         # Allocation of data
-- 
2.43.0


From 3c1396c7ab585d5f8369038e9af2ca5dd8b282dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 03/26] fix: writeDataFrame with unit-less labels or blank
 before the unit

---
 weio/fast_output_file.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 6b55034..7a84da2 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -366,7 +366,7 @@ def writeDataFrame(df, filename, binary=True):
     for c in df.columns:
         c     = c.strip()
         name  = c
-        units = ''
+        unit  = ''
         if c[-1]==']':
             chars=['[',']']
         elif c[-1]==')':
@@ -376,8 +376,8 @@ def writeDataFrame(df, filename, binary=True):
         if len(chars)>0:
             op,cl = chars
             iu=c.rfind(op)
-            if iu>1:
-                name = c[:iu]
+            if iu>0:
+                name = c[:iu].strip()
                 unit = c[iu+1:].replace(cl,'')
                 if name[-1]=='_':
                     name=name[:-1]
@@ -410,7 +410,7 @@ def writeBinary(fileName, channels, chanNames, chanUnits, fileID=2, descStr=''):
     # Data sanitization
     chanNames = list(chanNames)
     channels  = np.asarray(channels)
-    if chanUnits[0][0]!='(':
+    if not chanUnits[0].startswith('('):
         chanUnits = ['('+u+')' for u in chanUnits] # units surrounded by parenthesis to match OpenFAST convention
 
     nT, nChannelsWithTime = np.shape(channels)
-- 
2.43.0


From 9000bc6d31a5dbf423203f32d159f9a8b0d07f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 04/26] fix: int16 wrap-around and truncation when writing
 (nearly) constant TurbSim components

---
 weio/turbsim_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index 5cee26a..b83a097 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -145,8 +145,9 @@ class TurbSimFile(File):
             else:
                 scl[k] = intrng / (all_max-all_min)
             off[k]    = intmin - scl[k] * all_min
-            out[k]    = (ts[k]    * scl[k] + off[k]).astype(np.int16)
-            outTwr[k] = (tsTwr[k] * scl[k] + off[k]).astype(np.int16)
+            # NOTE: rounding and clipping needed: single precision `off` and `scl` may lead outside of int16 range
+            out[k]    = np.clip(np.rint(ts[k]    * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
+            outTwr[k] = np.clip(np.rint(tsTwr[k] * scl[k] + off[k]), intmin, intmin+intrng).astype(np.int16)
         z0 = self['z'][0]
         dz = self['z'][1]- self['z'][0]
         dy = self['y'][1]- self['y'][0]
-- 
2.43.0


From fd156075376da8dc99799a77c25ce1dd4acfe15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:54 +0000
Subject: [PATCH 05/26] fix: TurbSim line and plane extraction with removeMean
 modified the field in place

---
 weio/turbsim_file.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/weio/turbsim_file.py b/weio/turbsim_file.py
index b83a097..9f6a458 100644
--- a/weio/turbsim_file.py
+++ b/weio/turbsim_file.py
@@ -249,9 +249,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,iz0]
         w = ts['u'][2,:,iy0,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _latline(ts, ix0=None, iz0=None, removeMean=False):
@@ -265,9 +265,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,:,iz0]
         w = ts['u'][2,ix0,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def _vertline(ts, ix0=None, iy0=None, removeMean=False):
@@ -281,9 +281,9 @@ class TurbSimFile(File):
         v = ts['u'][1,ix0,iy0,:]
         w = ts['u'][2,ix0,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
@@ -302,9 +302,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,:,iz0]
         w = ts['u'][2,:,:,iz0]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     def verticalPlane(ts, y=None, iy0=None, removeMean=False):
@@ -320,9 +320,9 @@ class TurbSimFile(File):
         v = ts['u'][1,:,iy0,:]
         w = ts['u'][2,:,iy0,:]
         if removeMean:
-            u -= np.mean(u)
-            v -= np.mean(v)
-            w -= np.mean(w)
+            u = u - np.mean(u)
+            v = v - np.mean(v)
+            w = w - np.mean(w)
         return u, v, w
 
     # --------------------------------------------------------------------------------}
-- 
2.43.0


From cca4c8aa4b33f69cd75744bb4679ada80b26e391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 06/26] fix: FLEX time vector could get one sample too many for
 non-zero start times

---
 weio/flex_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/flex_out_file.py b/weio/flex_out_file.py
index d9c95e5..f05439d 100644
--- a/weio/flex_out_file.py
+++ b/weio/flex_out_file.py
@@ -41,7 +41,7 @@ class FLEXOutFile(File):
             raise WrongFormatError('FLEX File {}: '.format(self.filename)+'\n'+e.args[0])
         self.nt       = np.size(self.data,0)
         self.nSensors = np.size(self.data,1)
-        self.time = np.arange(self.tmin, self.tmin +  self.nt * self.dt, self.dt).reshape(self.nt,1).astype(dtype)
+        self.time = (self.tmin + np.arange(self.nt) * self.dt).reshape(self.nt,1).astype(dtype)
 
         # --- Then the sensor file
         sensor_filename = os.path.join(os.path.dirname(self.filename), "sensor")
-- 
2.43.0


From a167bafcf2a63cdbea3a50a0ca5c6563b863c739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 07/26] fix: truncated HAWC2 binary file with a single
 remaining value was accepted

---
 weio/wetb/hawc2/Hawc2io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/weio/wetb/hawc2/Hawc2io.py b/weio/wetb/hawc2/Hawc2io.py
index 192ab50..97fbdbf 100644
--- a/weio/wetb/hawc2/Hawc2io.py
+++ b/weio/wetb/hawc2/Hawc2io.py
@@ -246,7 +246,10 @@ class ReadHawc2(object):
             j = 0
             for i in ChVec:
                 fid.seek(i * self.NrSc * 2, 0)
-                data[:, j] = np.fromfile(fid, 'int16', self.NrSc) * self.ScaleFactor[i]
+                chan = np.fromfile(fid, 'int16', self.NrSc)
+                if len(chan) != self.NrSc:
+                    raise Exception('Data file shorter than announced in sel file: channel {} has {} scans instead of {}'.format(i, len(chan), self.NrSc))
+                data[:, j] = chan * self.ScaleFactor[i]
                 j += 1
         return data
 ################################################################################
-- 
2.43.0


From 2262b9519a65355ad500a66509fea052c3297bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:59 +0000
Subject: [PATCH 08/26] fix: Bladed 2D ascii files with only one time step

---
 weio/bladed_out_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index 1315fb2..c4ac438 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -196,7 +196,7 @@ def read_bladed_output(sensorFilename, readTimeFilesOnly=False):
         if sensorInfo['NDIMENS'] == 2:
             try:
                 # Data is stored as time, signal, we reshape to signal, time
-                data = np.loadtxt(dataFilename)
+                data = np.loadtxt(dataFilename, ndmin=2)
             except ValueError as e:
                 # Most likely this was a binary file...
                 data = np.empty((nMajor, nSensors)) * np.nan
-- 
2.43.0


From 8daa8cd7b8099e5e13d780c5910b77329bf2fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 09/26] fix: EmptyFileError not imported, opening an empty file
 raised a NameError

---
 weio/bladed_out_file.py        | 2 +-
 weio/bmodes_out_file.py        | 2 +-
 weio/cactus_element_file.py    | 2 +-
 weio/fast_input_file.py        | 2 +-
 weio/raawmat_file.py           | 2 +-
 weio/rosco_performance_file.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/weio/bladed_out_file.py b/weio/bladed_out_file.py
index c4ac438..f557771 100644
--- a/weio/bladed_out_file.py
+++ b/weio/bladed_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import glob
 import shlex
 # try:
-from .file import File, WrongFormatError, BrokenFormatError, isBinary
+from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError, isBinary
 # except:
 #     EmptyFileError    = type('EmptyFileError', (Exception,),{})
 #     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/bmodes_out_file.py b/weio/bmodes_out_file.py
index 9022ccf..ca6f705 100644
--- a/weio/bmodes_out_file.py
+++ b/weio/bmodes_out_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/cactus_element_file.py b/weio/cactus_element_file.py
index b899787..5173181 100644
--- a/weio/cactus_element_file.py
+++ b/weio/cactus_element_file.py
@@ -3,7 +3,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 51a6868..90c75d1 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -8,7 +8,7 @@ from builtins import str
 from future import standard_library
 standard_library.install_aliases()
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     # --- Allowing this file to be standalone..
     class WrongFormatError(Exception):
diff --git a/weio/raawmat_file.py b/weio/raawmat_file.py
index fc5661e..dc7d063 100644
--- a/weio/raawmat_file.py
+++ b/weio/raawmat_file.py
@@ -111,7 +111,7 @@ def matfile(path_file,output='pandas',path_key=None):
         return ds
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 18deea1..00c44c8 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -6,7 +6,7 @@ import pandas as pd
 import os
 
 try:
-    from .file import File, WrongFormatError, BrokenFormatError
+    from .file import File, WrongFormatError, BrokenFormatError, EmptyFileError
 except:
     EmptyFileError    = type('EmptyFileError', (Exception,),{})
     WrongFormatError  = type('WrongFormatError', (Exception,),{})
-- 
2.43.0


From 74083f44dfdb7f3bf79893f2341ca2a3ec6345fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 10/26] fix: VTKFile.read() without argument did not read the
 remembered file

---
 weio/vtk_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/vtk_file.py b/weio/vtk_file.py
index e3ed2f7..d3426e0 100644
--- a/weio/vtk_file.py
+++ b/weio/vtk_file.py
@@ -97,7 +97,7 @@ class VTKFile(File):
         if os.stat(self.filename).st_size == 0:
             raise EmptyFileError('File is empty:',self.filename)
 
-        with open(filename, "rb") as f:
+        with open(self.filename, "rb") as f:
             # initialize output data
             # skip header and title
             f.readline()
-- 
2.43.0


From f5c03e94e70f241cdc29c8686cf891188de8f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 11/26] fix: weio.read dropped the reader options when the
 format is given

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index cc31316..c93bb57 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -246,7 +246,7 @@ def read(filename, fileformat=None, **kwargs):
         fileformat,F = detectFormat(filename, **kwargs)
     # Reading the file with the appropriate class if necessary
     if not isinstance(F, fileformat.constructor):
-        F=fileformat.constructor(filename=filename)
+        F=fileformat.constructor(filename=filename, **kwargs)
     return F
 
 
-- 
2.43.0


From 07a59f5209ed6e2804bbfaf8fb2b2cec02cb2b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 12/26] fix: formats registered with an upper case extension
 were never detected

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index c93bb57..7cef0b5 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -217,7 +217,7 @@ def detectFormat(filename, **kwargs):
     i = 0 
     while not detected and i<len(formats):
         myformat = formats[i]
-        if ext in myformat.extensions:
+        if ext in [ef.lower() for ef in myformat.extensions]:
             extMatch = True
         else:
             # Try patterns if present
-- 
2.43.0


From 42f1d9b79c29a1ad6ae61f9ce21d1b1bba738108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:01 +0000
Subject: [PATCH 13/26] fix: TecplotFile.read() without argument did not read
 the remembered file

---
 weio/tecplot_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/tecplot_file.py b/weio/tecplot_file.py
index 1c9aa2d..38f3567 100644
--- a/weio/tecplot_file.py
+++ b/weio/tecplot_file.py
@@ -174,7 +174,7 @@ class TecplotFile(File):
             raise EmptyFileError('File is empty:',self.filename)
 
         try:
-            read_tecplot(filename,self)
+            read_tecplot(self.filename,self)
         except BrokenFormatError:
             raise 
         except WrongFormatError:
-- 
2.43.0


From 53cc0decb24967519e9d05027ee34a1a0f019b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 14/26] fix: HAWC2DatFile.toDataFrame modified the channel
 names of the object

---
 weio/hawc2_dat_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_dat_file.py b/weio/hawc2_dat_file.py
index 3a3bab4..ac5a50f 100644
--- a/weio/hawc2_dat_file.py
+++ b/weio/hawc2_dat_file.py
@@ -57,7 +57,7 @@ class HAWC2DatFile(File):
         import re
 
         # Simplify output names
-        names=self.info['attribute_names']
+        names=list(self.info['attribute_names']) # copy, the object is left untouched
         for i,desc in enumerate(self.info['attribute_descr']):
             elem = re.findall(r'E-nr:\s*(\d+)', desc)
             zrel = re.findall(r'Z-rel:\s*(\d+.\d+)', desc)
-- 
2.43.0


From 178a15b1987428a07a88f689354d45911cafe072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 15/26] fix: FASTOutputFile.toDataFrame renamed the columns of
 the object's data (.elm files)

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 7a84da2..6672ef5 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -124,7 +124,7 @@ class FASTOutputFile(File):
         else:
             cols=self.info['attribute_names']
         if isinstance(self.data, pd.DataFrame):
-            df= self.data
+            df= self.data.copy()
             df.columns=cols
         else:
             df = pd.DataFrame(data=self.data,columns=cols)
-- 
2.43.0


From 371a955c83cbf34595a928b1a157da1778eb4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 16/26] fix: setting a missing key of a FAST input file was
 silently ignored, KeyError for objects without file name

---
 weio/fast_input_file.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 90c75d1..62150f0 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -195,7 +195,7 @@ class FASTInputFileBase(File):
     def getID(self,label):
         i=self.getIDSafe(label)
         if i<0:
-            raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
+            raise KeyError('Variable `'+ label+'` not found in FAST file:'+str(self.filename))
         else:
             return i
 
@@ -206,8 +206,8 @@ class FASTInputFileBase(File):
             d = self.data[i]
             if d['label'].lower()==label.lower():
                 I.append(i)
-        if len(I)<0:
-            raise KeyError('Variable `'+ label+'` not found in FAST file:'+self.filename)
+        if len(I)==0:
+            raise KeyError('Variable `'+ label+'` not found in FAST file:'+str(self.filename))
         else:
             return I
 
-- 
2.43.0


From 36fb268fe6a1768b6beaa85a86a70b0c49260629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 17/26] fix: iterating over a FAST input file ended with an
 IndexError

---
 weio/fast_input_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_input_file.py b/weio/fast_input_file.py
index 62150f0..b87daa5 100644
--- a/weio/fast_input_file.py
+++ b/weio/fast_input_file.py
@@ -226,7 +226,7 @@ class FASTInputFileBase(File):
         return self
 
     def __next__(self): # Python 2: def next(self)
-        if self.iCurrent > self.iMax:
+        if self.iCurrent >= self.iMax:
             raise StopIteration
         else:
             self.iCurrent += 1
-- 
2.43.0


From 4db9979237e939fb40249975760ae83793ea76d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:42 +0000
Subject: [PATCH 18/26] fix: CSVFile.write lost the column names when the file
 has header lines

---
 weio/csv_file.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index 5e8197c..daad2dd 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -258,14 +258,18 @@ class CSVFile(File):
             self.sep='\t'
         # Write
         if len(self.header)>0:
+            # The column names are written unless they are part of the header (or not part of the file)
+            writeNames = self.colNamesLine is not None and self.colNamesLine>=0
             with open(self.filename, 'w', encoding='utf-8') as f:
                 f.write('\n'.join(self.header)+'\n')
             with open(self.filename, 'a', encoding='utf-8') as f:
                 try:
-                    self.data.to_csv(f,   sep=self.sep,     index=False,header=False, line_terminator='\n')
+                    self.data.to_csv(f,   sep=self.sep,     index=False,header=writeNames, lineterminator='\n')
                 except TypeError:
                     print('[WARN] CSVFile: Pandas failed, likely encoding error. Attempting a quick and dirty fix.')
                     s=''
+                    if writeNames:
+                        s+=(self.sep).join([str(c) for c in self.data.columns])+'\n'
                     vals=self.data.values
                     for l in vals:
                         sLine=(self.sep).join([str(v) for v in l])
-- 
2.43.0


From f356c5957344d04fef9a0d11667d514f190b5857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:19 +0000
Subject: [PATCH 19/26] fix: writing a ROSCO performance file always failed
 (undefined date)

---
 weio/rosco_performance_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/rosco_performance_file.py b/weio/rosco_performance_file.py
index 00c44c8..74568cf 100644
--- a/weio/rosco_performance_file.py
+++ b/weio/rosco_performance_file.py
@@ -185,6 +185,8 @@ def write_rotor_performance(txt_filename, pitch, TSR, CP, CT, CQ, WS=None, Turbi
         txt_filename: str, optional
                         Desired output filename to print rotor performance data. Default is Cp_Ct_Cq.txt
     '''
+    import datetime
+    now = datetime.datetime.now()
     file = open(txt_filename,'w')
     # Headerlines
     file.write('# ----- Rotor performance tables for the {} wind turbine ----- \n'.format(TurbineName))
-- 
2.43.0


From 9241259990ce922ac0fc00459089a89741001bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:28 +0000
Subject: [PATCH 20/26] fix: CSVFile.write of blank separated files lost the
 column names found in the header

---
 weio/csv_file.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/weio/csv_file.py b/weio/csv_file.py
index daad2dd..245b162 100644
--- a/weio/csv_file.py
+++ b/weio/csv_file.py
@@ -256,6 +256,8 @@ class CSVFile(File):
         # --- Safety
         if self.sep==r'\s+' or self.sep=='':
             self.sep='\t'
+            if len(self.header)>0 and self.colNamesLine is None and not any('\t' in l for l in self.header):
+                self.sep=' ' # the column names found in the header are separated by blanks
         # Write
         if len(self.header)>0:
             # The column names are written unless they are part of the header (or not part of the file)
-- 
2.43.0


From ecd011b7f49d1cbf0b33407893f2b954bffb907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:39 +0000
Subject: [PATCH 21/26] fix: wildcard extensions match regardless of case and
 '*' stands for any text

---
 weio/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/__init__.py b/weio/__init__.py
index 7cef0b5..1d58ef8 100644
--- a/weio/__init__.py
+++ b/weio/__init__.py
@@ -221,7 +221,7 @@ def detectFormat(filename, **kwargs):
             extMatch = True
         else:
             # Try patterns if present
-            extPatterns = [ef.replace('.','\.').replace('$','\$').replace('*','[.]*') for ef in myformat.extensions if '*' in ef]
+            extPatterns = [re.escape(ef.lower()).replace('\\*','.*')+'$' for ef in myformat.extensions if '*' in ef]
             if len(extPatterns)>0:
                 extPatMatch = [re.match(pat, ext) is not None for pat in extPatterns]
                 extMatch = any(extPatMatch)
-- 
2.43.0


From 17c534c588c0c60d60ea6d03e889f7caabe162f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:17 +0000
Subject: [PATCH 22/26] fix: CactusFile.toDataFrame modified the time data of
 the object (second call failed)

---
 weio/cactus_file.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/weio/cactus_file.py b/weio/cactus_file.py
index 7745a39..088fffb 100644
--- a/weio/cactus_file.py
+++ b/weio/cactus_file.py
@@ -184,6 +184,7 @@ class CactusFile(File):
         """ Convert to similar labels as OpenFAST"""
         if df is None:
             return None
+        df = df.copy() # the data of the object is not modified
         nRot      = self['configinputs']['nr']
         nPerRot   = self['configinputs']['nti']
         TSR       = self.TSR
-- 
2.43.0


From d9ef0543881332caf76b81dee06be013048259b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:18 +0000
Subject: [PATCH 23/26] fix: ASCII outputs of OpenFAST with a single time step
 (or a single channel) could not be converted or written

---
 weio/fast_output_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 6672ef5..93f945a 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -187,7 +187,7 @@ def load_ascii_output(filename):
         # Data, up to end of file or empty line (potential comment line at the end)
 #         data = np.array([l.strip().split() for l in takewhile(lambda x: len(x.strip())>0, f.readlines())]).astype(np.float)
         # ---
-        data = np.loadtxt(f, comments=('This')) # Adding "This" for the Hydro Out files..
+        data = np.loadtxt(f, comments=('This'), ndmin=2) # Adding "This" for the Hydro Out files..
         return data, info
 
 
-- 
2.43.0


From 8a490bb13d7337ca472ac17278a4598aa67dcad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:24 +0000
Subject: [PATCH 24/26] fix: element outputs (.elm) could not be written after
 being read, nor re-read after being written as .elm

---
 weio/fast_output_file.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weio/fast_output_file.py b/weio/fast_output_file.py
index 93f945a..fae7875 100644
--- a/weio/fast_output_file.py
+++ b/weio/fast_output_file.py
@@ -113,10 +113,12 @@ class FASTOutputFile(File):
         else:
             # ascii output
             with open(self.filename,'w') as f:
+                if os.path.splitext(self.filename.lower())[1]=='.elm':
+                    f.write('Element output'+'\n') # the names are on the second line of these files
                 f.write('\t'.join(['{:>10s}'.format(c)         for c in self.info['attribute_names']])+'\n')
                 f.write('\t'.join(['{:>10s}'.format('('+u+')') for u in self.info['attribute_units']])+'\n')
                 # TODO better..
-                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in self.data]))
+                f.write('\n'.join(['\t'.join(['{:10.4f}'.format(y[0])]+['{:10.3e}'.format(x) for x in y[1:]]) for y in np.asarray(self.data)]))
 
     def _toDataFrame(self):
         if self.info['attribute_units'] is not None:
-- 
2.43.0


From b573c36be261ef632bfa80602d522e9429599f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:12 +0000
Subject: [PATCH 25/26] fix: TurbSim time series: adjacent columns merged for
 values with three-digit exponents

---
 weio/turbsim_ts_file.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/weio/turbsim_ts_file.py b/weio/turbsim_ts_file.py
index b9383bb..a0bc7db 100644
--- a/weio/turbsim_ts_file.py
+++ b/weio/turbsim_ts_file.py
@@ -76,12 +76,12 @@ class TurbSimTSFile(File):
         s+='{:^16s}{:^16s} {}\n'.format('Pointyi','Pointzi','! nPoints listed in order of increasing height')
         s+='{:^16s}{:^16s}\n'.format('(m)','(m)')
         for row in self['Points']:
-            s+=''.join(['{:16.8e}'.format(v) for v in row])+'\n'
+            s+=''.join([' {:15.8e}'.format(v) for v in row])+'\n'
 
         s+='--------Time Series-------------------------------------------------------------\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.columns()])+'\n'
         s+=''.join(['{:^16s}'.format(c) for c in self.units()])+'\n'
-        s+='\n'.join(''.join('{:16.8e}'.format(x) for x in y) for y in self['data'])
+        s+='\n'.join(''.join(' {:15.8e}'.format(x) for x in y) for y in self['data'])
         return s
 
     def _write(self):
-- 
2.43.0


From 939267e8d87660d6fe632282f8d3806f1aa09262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:14 +0000
Subject: [PATCH 26/26] fix: HAWC2 st file: adjacent columns merged for
 negative values with three-digit exponents

---
 weio/hawc2_st_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weio/hawc2_st_file.py b/weio/hawc2_st_file.py
index 0b484f9..57591d3 100644
--- a/weio/hawc2_st_file.py
+++ b/weio/hawc2_st_file.py
@@ -41,7 +41,7 @@ class HAWC2StFile(File):
         self.data = StFile(self.filename)
 
     def _write(self):
-        self.data.save(self.filename, precision='%15.07e', encoding='utf-8')
+        self.data.save(self.filename, precision=' %14.07e', encoding='utf-8')
 
     def __repr__(self):
         s='<{} object> with attribute `data`\n'.format(type(self).__name__)
-- 
2.43.0

