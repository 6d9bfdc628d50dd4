From aed3596c1f1672f5882f268edc0bc312660ea649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 001/241] fix: truncated archives are reported instead of
 yielding short or empty records

---
 hyperion/utils/kaldi_matrix.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index 04f20b9..c7b9382 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -109,6 +109,7 @@ class KaldiMatrix(object):
                 f.seek(rows_left*num_cols*np.dtype(dtype).itemsize, 1)
                 
             vec = np.frombuffer(data, dtype=dtype)
+            assert len(vec) == num_rows*num_cols, 'EOF reading matrix'
             
             if ndim == 2:
                 return cls(np.reshape(vec, (num_rows, num_cols)))
@@ -151,7 +152,7 @@ class KaldiMatrix(object):
                         mat = mat.ravel()
                     return cls(mat)
                 
-            return cls(np.array([], dtype='float32'))
+            raise ValueError('EOF reading matrix') # eof, should not happen!
             
 
         
@@ -730,6 +731,7 @@ class KaldiCompressedMatrix(object):
                             f.seek(bytes_left*num_cols, 1)
                         data = header + data
                     
+                assert len(data) == cls._data_size(header), 'EOF reading matrix'
                 return cls(data)
             else:
                 matrix = KaldiMatrix.read(f, binary, row_offset, num_rows)
-- 
2.43.0


From 6a22e43170f35a006a9af5dff73cfd05242f17a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 002/241] fix: sequential ark reader accepts per-record row
 offsets and row counts

---
 hyperion/io/ark_data_reader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index 3385d20..f91087b 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -234,8 +234,8 @@ class SequentialArkFileDataReader(SequentialArkDataReader):
                 self._eof = True
                 break
             
-            row_offset_i = row_offset[i] if row_offset_is_list else row_offset
-            num_rows_i = num_rows[i] if num_rows_is_list else num_rows
+            row_offset_i = row_offset[count] if row_offset_is_list else row_offset
+            num_rows_i = num_rows[count] if num_rows_is_list else num_rows
             
             binary = init_kaldi_input_stream(self.f)
             data_i = KaldiMatrix.read(
-- 
2.43.0


From 54665fc2a57946878f074f5b2d1b34cc9350b105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 003/241] fix: SCPList keeps row ranges given as a list

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index f26a932..49e3348 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -52,7 +52,7 @@ class SCPList(object):
                 self.range_spec = None
             else:
                 if isinstance(self.range_spec, list):
-                    self.range_spec = np.array(self.offset, dtype=np.int64)
+                    self.range_spec = np.array(self.range_spec, dtype=np.int64)
                 assert len(self.key) == self.range_spec.shape[0]
                 assert self.range_spec.shape[1] == 2
 
-- 
2.43.0


From 5508d805fb3e8f281299f470123b441eb3ffad52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:37 +0000
Subject: [PATCH 004/241] fix: sequential script reader seeks to offset zero
 too

---
 hyperion/io/ark_data_reader.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index f91087b..dac1076 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -73,8 +73,7 @@ class SequentialArkDataReader(SequentialDataReader):
             self.cur_file = file_path
             self.f = open(file_path, 'rb')
 
-        if offset > 0:
-            self._seek(offset)
+        self._seek(offset)
         
 
             
-- 
2.43.0


From a1479035313da8885ea1615c8d254db6923a9b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 005/241] fix: row offsets inside a script row range do not
 reach beyond the range

---
 hyperion/io/data_reader.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index dbe384c..5069440 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -124,15 +124,16 @@ class DataReader(object):
         if read_range is None:
             return row_offset, num_rows
 
-        row_offset = row_offset + read_range[0]
-            
-        if num_rows == 0:
-            num_rows = read_range[1]
-        else:
-            if read_range[1] > 0:
-                assert read_range[1] >= num_rows
-
-        return row_offset, num_rows
+        if read_range[1] > 0:
+            # rows of the range that are left after skipping row_offset
+            rows_left = read_range[1] - row_offset
+            assert rows_left > 0
+            if num_rows == 0:
+                num_rows = rows_left
+            else:
+                assert rows_left >= num_rows
+
+        return row_offset + read_range[0], num_rows
 
 
     
-- 
2.43.0


From 8c0b7f524845b03c7b4e7bb40f01a1150fded5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 006/241] fix: reading shapes at the end of a script returns
 empty lists

---
 hyperion/io/ark_data_reader.py | 2 +-
 hyperion/io/h5_data_reader.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/ark_data_reader.py b/hyperion/io/ark_data_reader.py
index dac1076..9d06362 100644
--- a/hyperion/io/ark_data_reader.py
+++ b/hyperion/io/ark_data_reader.py
@@ -346,7 +346,7 @@ class SequentialArkScriptDataReader(SequentialArkDataReader):
             shapes.append(shape_i)
             self.cur_item += 1
 
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=int)
             assert np.all(dims == dims[0])
             
diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 33f4936..82d15b0 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -356,7 +356,7 @@ class SequentialH5ScriptDataReader(SequentialH5DataReader):
             shapes.append(shape_i)
             self.cur_item += 1
             
-        if assert_same_dim:
+        if assert_same_dim and len(shapes)>0:
             dims = np.array([s[-1] for s in shapes], dtype=np.int32)
             assert np.all(dims == dims[0])
             
-- 
2.43.0


From a1755a17052982090b2eea37e899e17b50a471e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 007/241] fix: squeezing permissive reads works when the first
 key is missing

---
 hyperion/io/data_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/data_reader.py b/hyperion/io/data_reader.py
index 5069440..c30b3af 100644
--- a/hyperion/io/data_reader.py
+++ b/hyperion/io/data_reader.py
@@ -81,8 +81,13 @@ class DataReader(object):
           2D or 3D numpy array.
         """
 
-        ndim = data[0].ndim
         shape = data[0].shape
+        for data_i in data:
+            if len(data_i) > 0:
+                # missing items take the shape of the first one available
+                shape = data_i.shape
+                break
+        ndim = len(shape)
         for i in xrange(len(data)):
             if len(data[i]) == 0:
                 if permissive:
-- 
2.43.0


From 1f7a788f5b985f7539e7c458a4275c4abc1c825a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 008/241] fix: read specifiers ignore the b and t options as
 documented

---
 hyperion/io/rw_specifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 814cae5..905d371 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -327,7 +327,7 @@ class RSpecifier(object):
                     spec_type = RSpecType.SCRIPT
                 elif option == 'p':
                     permissive = True
-                elif option in ['o', 's', 'cs', 'bg']:
+                elif option in ['o', 's', 'cs', 'bg', 'b', 't']:
                     pass
                 else:
                     raise ValueError('Wrong wspecifier options %s'
-- 
2.43.0


From aa0f4a5df277d3407fe7a6591df73229811f1ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 009/241] fix: reader factories use the script separator to
 find the type of archive

---
 hyperion/io/data_rw_factory.py | 4 ++--
 hyperion/io/rw_specifiers.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 0357249..463aa48 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -93,7 +93,7 @@ class SequentialDataReaderFactory(object):
     def create(rspecifier, path_prefix=None, scp_sep=' ', **kwargs):
         
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep=scp_sep)
             
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
@@ -148,7 +148,7 @@ class RandomAccessDataReaderFactory(object):
     @staticmethod
     def create(rspecifier, path_prefix=None, transform=None, scp_sep=' '):
         if isinstance(rspecifier, string_types):
-            rspecifier = RSpecifier.create(rspecifier)
+            rspecifier = RSpecifier.create(rspecifier, scp_sep=scp_sep)
         logging.debug(rspecifier.__dict__)
         if rspecifier.spec_type ==  RSpecType.ARCHIVE:
             if rspecifier.archive_type == ArchiveType.H5:
diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index 905d371..d887907 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -294,7 +294,7 @@ class RSpecifier(object):
 
     
     @classmethod
-    def create(cls, rspecifier):
+    def create(cls, rspecifier, scp_sep=' '):
         fields = rspecifier.strip().split(':')
         if len(fields) == 1:
             assert len(fields[0]) > 0
@@ -338,7 +338,7 @@ class RSpecifier(object):
             
             if spec_type == RSpecType.SCRIPT:
                 with open(archive, 'r') as f:
-                    scp = f.readline().strip().split(' ')[1].split('[')[0].split(':')
+                    scp = f.readline().strip().split(scp_sep)[1].split('[')[0].split(':')
                     if len(scp) == 1:
                         archive_type = ArchiveType.H5
                     else:
-- 
2.43.0


From 6ec00dd714fbe581b3344cd02d4731c1a11993d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 010/241] fix: sequential audio reader reads all the segments
 when asked for all

---
 hyperion/io/audio_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index acf1b27..eeaf886 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -220,7 +220,10 @@ class SequentialAudioReader(AudioReader):
           data: List of waveforms
         """
         if num_records == 0:
-            num_records = len(self.scp) - self.cur_item
+            if self.with_segments:
+                num_records = len(self.segments) - self.cur_item
+            else:
+                num_records = len(self.scp) - self.cur_item
 
         keys = []
         data = []
-- 
2.43.0


From a00469756ff41514500d62bbbad03feaff99ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 011/241] fix: audio readers accept a SegmentList object

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index eeaf886..f551d12 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -44,7 +44,7 @@ class AudioReader(object):
             self.with_segments = False
         else:
             self.with_segments = True
-            if isinstance(file_path, SegmentList):
+            if isinstance(segments_path, SegmentList):
                 self.segments = segments_path
             else:
                 self.segments = SegmentList.load(segments_path, sep=' ', index_by_file=False)
-- 
2.43.0


From dfc82483dbb817c462fe5e89199e506afd64764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:58 +0000
Subject: [PATCH 012/241] fix: identifiers that look like numbers or NA keep
 their spelling when lists are loaded

---
 hyperion/utils/rttm.py         | 3 ++-
 hyperion/utils/segment_list.py | 3 ++-
 hyperion/utils/utt2info.py     | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 3abbdb6..f43ba59 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -296,7 +296,8 @@ class RTTM(object):
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
                          names=['segment_type','file_id','chnl','tbeg','tdur',
-                                'ortho','stype','name','conf','slat'])
+                                'ortho','stype','name','conf','slat'],
+                         dtype={'file_id': str, 'name': str}, keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 6819738..449d6ac 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -244,7 +244,8 @@ class SegmentList(object):
           SegmentList object.
         """
         df = pd.read_csv(file_path, sep=sep, header=None,
-                         names=['segment_id','file_id','tbeg','tend'])
+                         names=['segment_id','file_id','tbeg','tend'],
+                         dtype={'segment_id': str, 'file_id': str}, keep_default_na=False)
         return cls(df, index_by_file=index_by_file)
 
 
diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 4bd1adc..01e2136 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -175,7 +175,7 @@ class Utt2Info(object):
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype)
+        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype, keep_default_na=False)
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From ab892004d7cf337a49fbb7cde1de96058a10b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 013/241] fix: SegmentList.create and to_bin_vad use names that
 exist

---
 hyperion/utils/segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 449d6ac..2a14929 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -5,7 +5,7 @@
 from __future__ import absolute_import
 from __future__ import print_function
 from __future__ import division
-#from six.moves import xrange
+from six.moves import xrange
 from six import string_types
 
 #import os.path as path
@@ -43,7 +43,7 @@ class SegmentList(object):
         
     @classmethod
     def create(cls, segment_id, file_id, tbeg, tend, index_by_file=True):
-        segments = pd.Dataframe({'segment_id': segment_id,
+        segments = pd.DataFrame({'segment_id': segment_id,
                                  'file_id': file_id,
                                  'tbeg': tbeg,
                                  'tend': tend})
-- 
2.43.0


From 56aed5fc6267e805154bf51512e0db34eb48a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 014/241] fix: files with a single segment can be indexed

---
 hyperion/utils/rttm.py         | 2 +-
 hyperion/utils/segment_list.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index f43ba59..523c4d9 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -261,7 +261,7 @@ class RTTM(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return RTTM(df, index_by_file=False)
         else:
             return self.segments.iloc[key]
diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 2a14929..3083b93 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -110,7 +110,7 @@ class SegmentList(object):
         """Returns segments_ids corresponding to a given file_id
         """
         if self.index_by_file:
-            return np.asarray(self.segments.loc[file_id]['segment_id'])
+            return np.asarray(self.segments.loc[[file_id]]['segment_id'])
         index = self.segments['file_id']==file_id
         return np.asarray(self.segments.loc[index]['segment_id'])
         
@@ -163,7 +163,7 @@ class SegmentList(object):
           in SegmentsList format, else it returns DataFrame
         """
         if self.index_by_file:
-            df = self.segments.loc[key]
+            df = self.segments.loc[[key]]
             return SegmentList(df, index_by_file=False)
         else:
             return self.segments.loc[key]
-- 
2.43.0


From ffff2a0a283b1d64b0ab5fd10dd0aa5fed931e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 015/241] fix: SegmentList indexing by position and membership
 look at what was asked for

---
 hyperion/utils/segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index 3083b93..cce99d3 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -146,7 +146,7 @@ class SegmentList(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.segment_id.values
 
 
     
@@ -184,7 +184,7 @@ class SegmentList(object):
         """
         if self.index_by_file:
             if index < len(self.uniq_file_id):
-                return self.getitem_by_key(self.uniq_file_id[self.iter_idx])
+                return self.getitem_by_key(self.uniq_file_id[index])
             else:
                 raise Exception('SegmentList error index>=num_files (%d,%d)' % (index,len(self.uniq_file_id)))
         else:
-- 
2.43.0


From 9a6b1efa84297a810445e46068f8817d5a44e031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 016/241] fix: the default length of a binary vad is the end of
 the last segment of the file

---
 hyperion/utils/segment_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/segment_list.py b/hyperion/utils/segment_list.py
index cce99d3..a64152e 100644
--- a/hyperion/utils/segment_list.py
+++ b/hyperion/utils/segment_list.py
@@ -298,11 +298,11 @@ class SegmentList(object):
 
         if num_frames is None:
             if self.index_by_file:
-                num_frames=tend[-1]
+                num_frames=np.max(tend)
             else:
                 file_id = self.segments.loc[key]['file_id']
                 sel_idx = self.segments['file_id'] == file_id
-                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/self.frame_shift))
+                num_frames = int(np.round(self.segments[sel_idx]['tend'].max() * 1000/frame_shift))
                 
         tend = np.minimum(num_frames-1, tend)                
         vad = np.zeros((num_frames,), dtype=int)
-- 
2.43.0


From 3f3942126a0553cdc4bf40c25e93bebd9d4108f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 017/241] fix: RTTM membership, filtering out, splitting and
 reindexing use attributes that exist

---
 hyperion/utils/rttm.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 523c4d9..98e00a8 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -52,7 +52,7 @@ class RTTM(object):
         if tbeg is None:
             tbeg = nans
         if tdur is None:
-            tend = nans
+            tdur = nans
         if ortho is None:
             ortho = nans
         if stype is None:
@@ -151,9 +151,9 @@ class RTTM(object):
     def index_by_file(self, value):
         self._index_by_file = value
         if self._index_by_file:
-            self.segments.index = self.segments.file_key
+            self.segments.index = self.segments.file_id
         else:
-            self.segments.index = self.segments.segment
+            self.segments.index = [i for i in xrange(len(self.segments))]
         
     
             
@@ -243,7 +243,7 @@ class RTTM(object):
     
     def __contains__(self, key):
         """ Returns True if the segments contains the key"""
-        return key in self.segments.segment_id
+        return key in self.segments.index
 
 
     
@@ -305,14 +305,17 @@ class RTTM(object):
     def filter(self, filter_key, keep=True):
         if not keep :
             filter_key = np.setdiff1d(
-                np.asrray(self.segments.index), filter_key)
+                np.asarray(self.segments.index), filter_key)
         df = self.segments.loc[filter_key]
         return RTTM(df, index_by_file=self.index_by_file)
     
 
     
     def split(self, idx, num_parts):
-        key, _ = split_list(self.index, idx, num_parts)
+        if self.index_by_file:
+            key, _ = split_list(self.unique_file_id, idx, num_parts)
+        else:
+            key, _ = split_list(self.segments.index, idx, num_parts)
         df = self.segments.loc[key]
         return RTTM(df, index_by_file=self.index_by_file)
 
-- 
2.43.0


From 09247be6a3038994439c63cd17cea53b2c136892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 018/241] fix: Utt2Info.info returns the information fields
 when there are several

---
 hyperion/utils/utt2info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 01e2136..7eb9283 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -70,7 +70,7 @@ class Utt2Info(object):
     @property
     def info(self):
         if self.utt_info.shape[1] > 2:
-            return np.asarray(self.utt_info[1:])
+            return np.asarray(self.utt_info.iloc[:,1:])
         else:
             return np.asarray(self.utt_info[1])
 
-- 
2.43.0


From 7a26d57d63981d62f8f0c18ffbdb49a514707579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 019/241] fix: TrialKey conditions follow the models and
 segments when sorting, merging, filtering, splitting

---
 hyperion/utils/trial_key.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index e1aed9a..002df25 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -73,11 +73,11 @@ class TrialKey(object):
         self.tar = self.tar[ix]
         self.non = self.non[ix]
         if self.model_cond is not None:
-            self.model_cond = self.model_cond[m_idx]
+            self.model_cond = self.model_cond[:, m_idx]
         if self.seg_cond is not None:
-            self.seg_cond = self.seg_cond[s_idx]
+            self.seg_cond = self.seg_cond[:, s_idx]
         if self.trial_cond is not None:
-            self.trial_cond = self.trial_cond[:, ix]
+            self.trial_cond = self.trial_cond[(slice(None),) + ix]
         
         
     def save(self, file_path):
@@ -281,11 +281,11 @@ class TrialKey(object):
                 model_cond_1 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_1[:, mi_a] = model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_1 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_1[:, mi_a] = seg_cond[:, mi_b]
+                seg_cond_1 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_1[:, si_a] = seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_1 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_1[:, ix_a] = trial_cond[:, ix_b]
+                trial_cond_1 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_1[(slice(None),) + ix_a] = trial_cond[(slice(None),) + ix_b]
 
                 
             _, mi_a, mi_b = intersect(new_model_set, key_i.model_set,
@@ -302,11 +302,11 @@ class TrialKey(object):
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
                 model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
             if seg_cond is not None:
-                seg_cond_2 = np.zeros((num_seg_cond, shape[0]), dtype ='bool')
-                seg_cond_2[:, mi_a] = key_i.seg_cond[:, mi_b]
+                seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
+                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
             if trial_cond is not None:
-                trial_cond_2 = np.zeros((num_trial_cond, shape), dtype ='bool')
-                trial_cond_2[:, ix_a] = key_i.trial_cond[:, ix_b]
+                trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
+                trial_cond_2[(slice(None),) + ix_a] = key_i.trial_cond[(slice(None),) + ix_b]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -317,7 +317,7 @@ class TrialKey(object):
             if seg_cond is not None:
                 seg_cond = np.logical_or(seg_cond_1, seg_cond_2)
             if trial_cond is not None:
-                trial_cond = np.logical_or(trial_cond_1, seg_cond_2)
+                trial_cond = np.logical_or(trial_cond_1, trial_cond_2)
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
@@ -363,7 +363,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -403,7 +403,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             seg_cond = self.seg_cond[:, seg_idx1]
         if self.trial_cond is not None:
-            trial_cond = self.trial_cond[:, ix]
+            trial_cond = self.trial_cond[(slice(None),) + ix]
         
         return TrialKey(model_set, seg_set, tar, non,
                         model_cond, seg_cond, trial_cond,
@@ -474,7 +474,7 @@ class TrialKey(object):
         if self.seg_cond is not None:
             eq = eq and np.all(self.seg_cond == other.seg_cond)
         if self.trial_cond is not None:
-            eq = eq and np.all(self.triall_cond == other.trial_cond)
+            eq = eq and np.all(self.trial_cond == other.trial_cond)
 
         eq = eq and (
             (self.model_cond_name is None) == (other.model_cond_name is None))
@@ -488,7 +488,7 @@ class TrialKey(object):
         if self.seg_cond_name is not None:
             eq = eq and np.all(self.seg_cond_name == other.seg_cond_name)
         if self.trial_cond_name is not None:
-            eq = eq and np.all(self.triall_cond_name == other.trial_cond_name) 
+            eq = eq and np.all(self.trial_cond_name == other.trial_cond_name) 
 
         return eq
 
-- 
2.43.0


From d658bef2d33bc0bdbaa7277384397982801e8876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 020/241] fix: TrialScores filtering out and default scores use
 the sets of the object

---
 hyperion/utils/trial_scores.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 3cf58e8..8e8e394 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -247,7 +247,7 @@ class TrialScores(object):
 
         if not(keep):
             model_set=np.setdiff1d(self.model_set, model_set)
-            seg_set=np.setdiff1d(self.model_set, seg_set)
+            seg_set=np.setdiff1d(self.seg_set, seg_set)
 
         f_mod, mod_idx = ismember(model_set, self.model_set)
         f_seg, seg_idx = ismember(seg_set, self.seg_set)
@@ -311,7 +311,7 @@ class TrialScores(object):
         assert(len(np.unique(self.model_set)) == len(self.model_set))
         assert(len(np.unique(self.seg_set)) == len(self.seg_set))
         if self.scores is None:
-            self.scores = np.zeros((len(model_set), len(seg_set)))
+            self.scores = np.zeros((len(self.model_set), len(self.seg_set)))
         else:
             assert(self.scores.shape ==
                    (len(self.model_set), len(self.seg_set)))
-- 
2.43.0


From 180c723a0ed9d44d84fd54394a3256ba668ba620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 021/241] fix: merged scores do not mix with values of trials
 that have no score

---
 hyperion/utils/trial_scores.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 8e8e394..5fd17bd 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -223,7 +223,7 @@ class TrialScores(object):
 
             model_set = new_model_set
             seg_set = new_seg_set
-            scores = scores_1 + scores_2
+            scores = np.where(score_mask_2, scores_2, scores_1)
             assert(not(np.any(np.logical_and(score_mask_1, score_mask_2))))
             score_mask= np.logical_or(score_mask_1, score_mask_2)
                             
-- 
2.43.0


From a50649b5ba7efc69f61112c647901a6288f0c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:31 +0000
Subject: [PATCH 022/241] fix: cohort segments of the trial list are the keys
 of the test list

---
 hyperion/utils/trial_ndx.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index bf96196..9deacb8 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -227,12 +227,12 @@ class TrialNdx(object):
         if eval_set == 'enroll-test':
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'enroll-coh':
-            ndx = TrialNdx(ndx.model_set, test.file_path)
+            ndx = TrialNdx(ndx.model_set, test.key)
             enroll = enroll.filter_info(ndx.model_set)
         if eval_set == 'coh-test':
             ndx = TrialNdx(enroll.key, ndx.seg_set)
         if eval_set == 'coh-coh':
-            ndx = TrialNdx(enroll.key, test.file_path)
+            ndx = TrialNdx(enroll.key, test.key)
         return ndx, enroll
 
     
-- 
2.43.0


From a0a9aba58deb514cc7e5e185b0de2efb3fb61043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 023/241] fix: merging adjacent segments keeps the end of a
 segment that contains the next one

---
 hyperion/utils/rttm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 98e00a8..8698aee 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -346,7 +346,8 @@ class RTTM(object):
         for i in xrange(len(self.segments)-1, 0, -1):
             if index.iloc[i]:
                 tbeg = segm.iloc[i-1].tbeg
-                tend = segm.iloc[i].tbeg + segm.iloc[i].tdur
+                tend = max(segm.iloc[i-1].tbeg + segm.iloc[i-1].tdur,
+                           segm.iloc[i].tbeg + segm.iloc[i].tdur)
                 self.segments.iloc[i-1, self.segments.columns.get_loc('tdur')] = tend - tbeg
                 self.segments.iloc[i, self.segments.columns.get_loc('segment_type')] = 'DROP'
         #logging.debug(self.segments[ix])
-- 
2.43.0


From 7aa68c6d499af0d56e5a59c24e3616a66f595d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 024/241] fix: identifiers that look like numbers keep their
 spelling in the tables of numbers of frames

---
 hyperion/bin/rttm-to-bin-vad.py     | 3 ++-
 hyperion/bin/segments-to-bin-vad.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index d3191c6..6bc7b4d 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -26,7 +26,8 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'],
+                                     dtype={'file_id': str}, keep_default_na=False, index_col=0)
 
     segments = RTTM.load(rttm_file).to_segment_list()
     segments_orig = copy.deepcopy(segments)
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 73e89d5..991cf05 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -25,7 +25,8 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
 
     num_frames = None
     if num_frames_file is not None:
-        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'], index_col=0)
+        utt2num_frames = pd.read_csv(num_frames_file, sep='\s+', header=None, names=['file_id','num_frames'],
+                                     dtype={'file_id': str}, keep_default_na=False, index_col=0)
 
     segments = SegmentList.load(segments_file)
     if num_parts  > 1:
-- 
2.43.0


From 45deb9f8d4a56a0df57fcc7d214bea7c8a7a9f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 025/241] fix: segments and rttm to vad programs work without a
 table of numbers of frames

---
 hyperion/bin/rttm-to-bin-vad.py     | 4 ++--
 hyperion/bin/segments-to-bin-vad.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/rttm-to-bin-vad.py b/hyperion/bin/rttm-to-bin-vad.py
index 6bc7b4d..351c36f 100755
--- a/hyperion/bin/rttm-to-bin-vad.py
+++ b/hyperion/bin/rttm-to-bin-vad.py
@@ -42,10 +42,10 @@ def rttm_to_bin_vad(rttm_file, num_frames_file, frame_shift, output_path, part_i
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
-        if part_idx == 1:
+        if part_idx == 1 and num_frames_file is not None:
             for file_id in utt2num_frames.index:
                 if not(file_id in segments_orig.uniq_file_id):
                     logging.warning('not speeech detected in %s, putting all to 1' % (file_id))
diff --git a/hyperion/bin/segments-to-bin-vad.py b/hyperion/bin/segments-to-bin-vad.py
index 991cf05..75c2e94 100755
--- a/hyperion/bin/segments-to-bin-vad.py
+++ b/hyperion/bin/segments-to-bin-vad.py
@@ -40,7 +40,7 @@ def segments_to_bin_vad(segments_file, num_frames_file, frame_shift, output_path
             vad = segments.to_bin_vad(file_id, frame_shift=frame_shift, num_frames=num_frames)
             num_speech_frames = np.sum(vad)
             logging.info('for %s detected %d/%d (%.2f %%) speech frames' % (
-                file_id, num_speech_frames, num_frames, num_speech_frames/num_frames*100))
+                file_id, num_speech_frames, len(vad), num_speech_frames/len(vad)*100))
             writer.write(file_id, vad)
 
             
-- 
2.43.0


From 89abe28fc5f84d628f05ae1327e4cf2611aceb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:55 +0000
Subject: [PATCH 026/241] fix: length of a FoldList is its number of folds

---
 hyperion/utils/fold_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index 71b6750..bb2c4a4 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -59,7 +59,7 @@ class FoldList(object):
     def __len__(self):
         """Returns number of folds.
         """
-        return self.num_folds()
+        return self.num_folds
 
 
     @property
-- 
2.43.0


From 45bac391039aff6daf88ed4465a428eea7597dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 027/241] fix: TrainValEvalList returns the keys of a part and
 keeps part names when saved and loaded

---
 hyperion/utils/train_val_eval_list.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/hyperion/utils/train_val_eval_list.py b/hyperion/utils/train_val_eval_list.py
index eba6f55..19b243a 100644
--- a/hyperion/utils/train_val_eval_list.py
+++ b/hyperion/utils/train_val_eval_list.py
@@ -131,8 +131,7 @@ class TrainValEvalList(object):
           test_key: Keys of the elements used for test
         """
 
-        train_idx, test_idx = self.get_part_idx(part)
-        return self.key[train_idx], self.key[test_idx]
+        return self.key[self.get_part_idx(part)]
 
 
     
@@ -163,7 +162,7 @@ class TrainValEvalList(object):
                 if self.part_names is None:
                     f.write('%s%s%d\n' % (k,sep,p))
                 else:
-                    f.write('%s%s%d%s\n' % (k,sep,p,self.part_names[p]))
+                    f.write('%s%s%d%s%s\n' % (k,sep,p,sep,self.part_names[p]))
 
 
                     
@@ -186,7 +185,7 @@ class TrainValEvalList(object):
         if len(fields[0]) == 2:
             part_names = None
         else:
-            part_names = np.asarray([f[2] for f in fields], dtype=int)
+            part_names = np.asarray([f[2] for f in fields])
             _, part_idx = np.unique(part, return_index=True)
             part_names = part_names[part_idx]
             
-- 
2.43.0


From 92dfd07ecdd6f7dc88440abdd864adbd7c14cf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 028/241] fix: ThreadSafeIter.next works in python 3

---
 hyperion/utils/multithreading.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/multithreading.py b/hyperion/utils/multithreading.py
index 6f1062a..8eda086 100644
--- a/hyperion/utils/multithreading.py
+++ b/hyperion/utils/multithreading.py
@@ -25,7 +25,7 @@ class ThreadSafeIter:
     
     def next(self):
         with self.lock:
-            return self.it.next()
+            return next(self.it)
 
 
 def threadsafe_generator(f):
-- 
2.43.0


From f64245b1c95b3ab8ab0d65d77173b09edec3f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 029/241] fix: OrderedQueue has the thread pool and the getter
 that it uses

---
 hyperion/utils/queues.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 11d6c4b..5099eab 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -7,9 +7,11 @@ from __future__ import absolute_import
 
 import warnings
 import copy
+import random
 import time
 import numpy as np
 import multiprocessing
+from multiprocessing.pool import ThreadPool
 import threading
 import six
 from abc import abstractmethod
@@ -81,6 +83,10 @@ class SequenceQueue(object):
         raise NotImplemented
 
 
+def get_index(sequence, i):
+    return sequence[i]
+
+
 class OrderedQueue(SequenceQueue):
     """Builds a Queue from a Sequence.
 
-- 
2.43.0


From 7acbe95dbd9d0bd15c8cf15e0ac3972e08144bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:19 +0000
Subject: [PATCH 030/241] fix: FoldList can be saved

---
 hyperion/utils/fold_list.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/fold_list.py b/hyperion/utils/fold_list.py
index bb2c4a4..427b166 100644
--- a/hyperion/utils/fold_list.py
+++ b/hyperion/utils/fold_list.py
@@ -150,8 +150,8 @@ class FoldList(object):
           sep: Separator between fold field and key field
         """
         with open(file_path, 'w') as f:
-            for f,k in zip(self.fold, self.key):
-                f.write('%s%s%s\n' % (f,sep,k))
+            for i,k in zip(self.fold, self.key):
+                f.write('%s%s%s\n' % (i,sep,k))
 
 
     @classmethod
-- 
2.43.0


From 6223a219db5edaedfd86b695cfc7b06505c0a594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:37 +0000
Subject: [PATCH 031/241] fix: Cllr penalises non-target scores that are high

---
 hyperion/metrics/cllr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/cllr.py b/hyperion/metrics/cllr.py
index fd9ce0e..1c1b9b2 100644
--- a/hyperion/metrics/cllr.py
+++ b/hyperion/metrics/cllr.py
@@ -25,7 +25,7 @@ def compute_cllr(tar, non):
 
     """
     c1 = np.mean(neglogsigmoid(tar))/np.log(2)
-    c2 = np.mean(neglogsigmoid(non))/np.log(2)
+    c2 = np.mean(neglogsigmoid(-non))/np.log(2)
 
     return (c1 + c2)/2
 
-- 
2.43.0


From b68f8d59565e2ac9597e47b04b4eac819a69944c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 032/241] fix: area under the ROC convex hull uses both ends of
 each segment

---
 hyperion/metrics/roc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 80b6be9..6969614 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -204,7 +204,7 @@ def compute_area_under_rocch(p_miss, p_fa):
     
     auc = 0
     for i in xrange(1, len(p_miss)):
-        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i+1])
+        auc += 0.5 * (p_miss[i] - p_miss[i-1]) * (p_fa[i] + p_fa[i-1])
 
     return auc
 
-- 
2.43.0


From 61f83dbcb4c3ee9a3a147b88c1677a3174757eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 033/241] fix: filter_roc works and keeps the last point

---
 hyperion/metrics/roc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/metrics/roc.py b/hyperion/metrics/roc.py
index 6969614..96e476b 100644
--- a/hyperion/metrics/roc.py
+++ b/hyperion/metrics/roc.py
@@ -164,8 +164,8 @@ def filter_roc(p_miss,p_fa):
                             input vectors.  
     """
     out = 0
-    new_p_miss = np.copy(p_miss)
-    new_p_fa = np.copy(p_fa)
+    new_p_miss = np.append(p_miss, p_miss[-1])
+    new_p_fa = np.append(p_fa, p_fa[-1])
 
     for i in xrange(1,len(p_miss)):
         if p_miss[i] == new_p_miss[out] or p_fa[i] == new_p_fa[out]:
@@ -180,8 +180,8 @@ def filter_roc(p_miss,p_fa):
     out = out+1
     new_p_miss[out] = p_miss[-1]
     new_p_fa[out] = p_fa[-1]
-    new_p_miss = new_p_miss[:out]
-    new_p_fa = new_fa[:out]
+    new_p_miss = new_p_miss[:out+1]
+    new_p_fa = new_p_fa[:out+1]
 
     return new_p_miss, new_p_fa
 
-- 
2.43.0


From d0e6560cb06d55da211272d5f8fa080b0548ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:38 +0000
Subject: [PATCH 034/241] fix: cross-label confusion matrix accepts strings,
 any integer labels, and leaves its inputs unmodified

---
 hyperion/metrics/confusion_matrix.py | 31 ++++++++++++----------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 8789d6b..e019a99 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -67,28 +67,23 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     else:
         labels_test = list2ndarray(labels_test)
 
-    assert y_true.dtype == y_pred.dtype, 'y_true and y_pred labels does not have the same type'
-    assert labels_train.dtype == labels_test.dtype, 'Train and test labels does not have the same type'
-    assert labels_train.dtype == y_pred.dtype, 'Labels, y_true and y_pred does not have the same type'
+    assert y_true.dtype.kind == y_pred.dtype.kind, 'y_true and y_pred labels does not have the same type'
+    assert labels_train.dtype.kind == labels_test.dtype.kind, 'Train and test labels does not have the same type'
+    assert labels_train.dtype.kind == y_pred.dtype.kind, 'Labels, y_true and y_pred does not have the same type'
 
     num_classes_test = len(labels_test)
     
     if issubclass(y_true.dtype.type, np.integer):
-        y_pred += num_classes_test
-    elif issubclass(y_true.dtype.type, np.dtype('U')) or issubclass(
-    y_true.dtype.type, np.dtype('S')): 
-        y_true = np.asarray(['TEST_' + s for s in y_true])
-        y_pred = np.asarray(['TRAIN_' + s for s in y_pred])
-    else:
-        raise Exception()
-
-
-    if issubclass(labels_train.dtype.type, np.integer):
-        labels_train += num_classes_test
-    elif issubclass(labels_train.dtype.type, np.dtype('U')) or issubclass(
-    labels_train.dtype.type, np.dtype('S')): 
-        labels_test = np.asarray(['TEST_' + s for s in labels_test])
-        labels_train = np.asarray(['TRAIN_' + s for s in labels_train])
+        # shift train labels beyond the test labels
+        shift = 1 + max(np.max(y_true), np.max(labels_test)) - min(
+            np.min(y_pred), np.min(labels_train))
+        y_pred = y_pred + shift
+        labels_train = labels_train + shift
+    elif y_true.dtype.kind in ('U', 'S'):
+        y_true = np.asarray(['TEST_' + s for s in y_true.astype('U')])
+        y_pred = np.asarray(['TRAIN_' + s for s in y_pred.astype('U')])
+        labels_test = np.asarray(['TEST_' + s for s in labels_test.astype('U')])
+        labels_train = np.asarray(['TRAIN_' + s for s in labels_train.astype('U')])
     else:
         raise Exception()
 
-- 
2.43.0


From 3eb1e6fb331a0a1ef65fe229fbdea9ced2ac4b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 035/241] fix: print_confusion_matrix finds the standard output

---
 hyperion/metrics/confusion_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index e019a99..436c09d 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -7,6 +7,7 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import sys
 import numpy as np
 import matplotlib.pyplot as plt
 from sklearn.metrics import confusion_matrix
-- 
2.43.0


From 65fbd6232e7dde5560a163b368bd2a75321a9d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 036/241] fix: optimal LLRs go back to the scores they come
 from

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index 00053a2..bae6ea7 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -151,7 +151,7 @@ def opt_loglr(tar, non, method='laplace'):
     llr = post_log_odds - prior_log_odds
     llr += 1e-6 * np.arange(n)/n
 
-    llr[sort_idx] = llr
+    llr[sort_idx] = np.copy(llr)
     tar_llr = llr[:ntar]
     non_llr = llr[ntar:]
     
-- 
2.43.0


From 3c6eef2f7087ecdee8f379fe0cd13aa8e84b9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 037/241] fix: optimal LLRs of equal scores are equal

---
 hyperion/metrics/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index bae6ea7..cb7357e 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -149,7 +149,9 @@ def opt_loglr(tar, non, method='laplace'):
     post_log_odds = np.log(p_opt) - np.log(1-p_opt)
     prior_log_odds = np.log(ntar/nnon)
     llr = post_log_odds - prior_log_odds
-    llr += 1e-6 * np.arange(n)/n
+    # small slope that does not separate equal scores
+    _, rank = np.unique(scores[sort_idx], return_inverse=True)
+    llr += 1e-6 * rank/n
 
     llr[sort_idx] = np.copy(llr)
     tar_llr = llr[:ntar]
-- 
2.43.0


From 2e6490e4e09859f24b6197ab0839215c0a9ba97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 038/241] fix: EnergyVAD works with context of frames, returns
 the log-energy when asked and does not print

---
 hyperion/feats/energy_vad.py | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 803541a..77987ad 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -13,6 +13,7 @@ import numpy as np
 from scipy.signal import lfilter
 
 from ..hyp_defs import float_cpu
+from ..utils.misc import str2bool
 from .stft import st_logE
 
 
@@ -105,28 +106,20 @@ class EnergyVAD(object):
             
 
         # compute VAD from logE
-        print(np.mean(logE))
         e_thr = self.vad_energy_threshold + self.vad_energy_mean_scale * np.mean(logE)
-        print(e_thr)
-        print(logE)
         vad = (logE > e_thr)
 
         context = self.vad_frames_context
-        if context == 0:
-            return vad
- 
-        window = 2*context + 1
-        if len(vad0) < window:
-            context = int(len(vad0)-1/2)
-
-        h = np.ones((window,), dtype='float32')
-        num_count = np.convolve(vad.astype('float32'), h, 'same')
-        den_count_boundary = np.arange(context+1, window, dtype='float32')
-        num_count[:context] /= den_count_boundary
-        num_count[-context:] /= den_count_boundary[::-1]
-        num_count[context:-context] /= window
-        
-        vad = num_count > self.vad_proportion_threshold
+        if context > 0:
+            # proportion of active frames in the part of the window that is in the file
+            h = np.ones((2*context + 1,), dtype=float_cpu())
+            sel = slice(context, context + len(vad))
+            num_count = np.convolve(vad.astype(float_cpu()), h)[sel]
+            den_count = np.convolve(np.ones((len(vad),), dtype=float_cpu()), h)[sel]
+            vad = num_count/den_count > self.vad_proportion_threshold
+
+        if return_loge:
+            return vad, logE
         return vad
         
     
-- 
2.43.0


From 04c8308acb2184f97ef6079d491048c14d7fd51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 039/241] fix: compute-energy-vad runs

---
 hyperion/bin/compute-energy-vad.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/hyperion/bin/compute-energy-vad.py b/hyperion/bin/compute-energy-vad.py
index 03a1c60..8a72f5a 100755
--- a/hyperion/bin/compute-energy-vad.py
+++ b/hyperion/bin/compute-energy-vad.py
@@ -17,14 +17,13 @@ from six.moves import xrange
 
 from hyperion.hyp_defs import config_logger
 from hyperion.io import SequentialAudioReader as AR
-#from hyperion.io import SequentialDataReaderFactory as DRF
 from hyperion.io import DataWriterFactory as DWF
-from hyperion.feats import energy_vad
+from hyperion.feats import EnergyVAD
 
 def compute_vad(input_path, output_path,  **kwargs):
 
-    mfcc_args = EnergyVAD.filter_args(**kwargs)
-    mfcc = EnergVAD(**mfcc_args)
+    vad_args = EnergyVAD.filter_args(**kwargs)
+    vad = EnergyVAD(**vad_args)
     
     input_args = AR.filter_args(**kwargs)
     reader = AR(input_path, **input_args)
@@ -40,7 +39,7 @@ def compute_vad(input_path, output_path,  **kwargs):
         rtf = vad.frame_shift*y.shape[0]/dt
         logging.info('Extracted VAD for %s num-frames=%d elapsed-time=%.2f ms. real-time-factor=%.2f' %
                      (key, y.shape[0], dt, rtf))
-        writer.write([key], [y])
+        writer.write([key], [y.astype('float32')])
         
         vad.reset()
             
@@ -56,7 +55,7 @@ if __name__ == "__main__":
     parser.add_argument('--input', dest='input_path', required=True)
     parser.add_argument('--output', dest='output_path', required=True)
 
-    DRF.add_argparse_args(parser)
+    AR.add_argparse_args(parser)
     EnergyVAD.add_argparse_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int,
                         help='Verbose level')
-- 
2.43.0


From dcf59e977b586e53d557f886697125b43c75ce7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 040/241] fix: FrameSelector.filter_args keeps the tolerance

---
 hyperion/feats/frame_selector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 24f3cae..77cea7f 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -66,7 +66,7 @@ class FrameSelector(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('tol_num_frames')
+        valid_args = ('tol_num_frames',)
 
         d = dict((k, kwargs[p+k])
                  for k in valid_args if p+k in kwargs)
-- 
2.43.0


From 4f0f02a579396eb245ef86cebc16a349b0c3559c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 041/241] fix: MFCC from FFT keeps the sign of the log-energy,
 and from filter-banks works without energy

---
 hyperion/feats/mfcc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 2c74474..55c9cd1 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -225,7 +225,7 @@ class MFCC(object):
             X = x
             F = np.abs(X)
             if self.use_energy:
-                logE = F[:,0]
+                logE = np.real(X[:,0])
         elif self._input_step == MFCCSteps.FFT_MAG:
             F = x
             if self.use_energy:
@@ -238,6 +238,8 @@ class MFCC(object):
             if self.use_energy:
                 B = x[:,1:]
                 logE = x[:,0]
+            else:
+                B = x
 
         if self._input_step == MFCCSteps.WAVE:
             if self.snip_edges:
-- 
2.43.0


From f7c4111006693e94a39b014d9073510ebeef04e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:52 +0000
Subject: [PATCH 042/241] fix: data writers accept file names without directory

---
 hyperion/io/data_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/data_writer.py b/hyperion/io/data_writer.py
index 272b0b8..ae3dcd1 100644
--- a/hyperion/io/data_writer.py
+++ b/hyperion/io/data_writer.py
@@ -37,12 +37,12 @@ class DataWriter(object):
         self.scp_sep = scp_sep
         
         archive_dir = os.path.dirname(archive_path)
-        if not os.path.exists(archive_dir):
+        if archive_dir and not os.path.exists(archive_dir):
             os.makedirs(archive_dir)
 
         if script_path is not None:
             script_dir = os.path.dirname(script_path)
-            if not os.path.exists(script_dir):
+            if script_dir and not os.path.exists(script_dir):
                 os.makedirs(script_dir)
             
 
-- 
2.43.0


From 65759b61af2962c15967063abbdb44b64d57b8f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:42 +0000
Subject: [PATCH 043/241] fix: features without snip-edges do not fail for long
 frame shifts

---
 hyperion/feats/energy_vad.py | 2 +-
 hyperion/feats/mfcc.py       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/energy_vad.py b/hyperion/feats/energy_vad.py
index 77987ad..c693920 100644
--- a/hyperion/feats/energy_vad.py
+++ b/hyperion/feats/energy_vad.py
@@ -85,7 +85,7 @@ class EnergyVAD(object):
                 len_x = (num_frames-1)*self._shift + self._length
                 dlen_x = len_x - len(x)
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(int(dlen_x - dlen1_x), 0)
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
diff --git a/hyperion/feats/mfcc.py b/hyperion/feats/mfcc.py
index 55c9cd1..2715a9d 100644
--- a/hyperion/feats/mfcc.py
+++ b/hyperion/feats/mfcc.py
@@ -250,7 +250,7 @@ class MFCC(object):
                 dlen_x = len_x - len(x)
                 #x = np.pad(x, (0, dlen_x), mode='reflect')
                 dlen1_x = int(np.floor((self._length-self._shift)/2))
-                dlen2_x = int(dlen_x - dlen1_x)
+                dlen2_x = max(int(dlen_x - dlen1_x), 0)
                 x = np.pad(x, (dlen1_x, dlen2_x), mode='reflect')
 
             # add dither
-- 
2.43.0


From f8ed9a2784d5e7d396ee9f54525f4ae0bf4be654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 044/241] fix: models with parameters that are None, or file
 names without directory, can be saved and loaded

---
 hyperion/hyp_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/hyp_model.py b/hyperion/hyp_model.py
index 3082a3c..fcdcad7 100644
--- a/hyperion/hyp_model.py
+++ b/hyperion/hyp_model.py
@@ -57,7 +57,7 @@ class HypModel(object):
     @abstractmethod
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
         with h5py.File(file_path,'w') as f:
             config=self.to_json()
@@ -124,7 +124,11 @@ class HypModel(object):
         param_dict = {}
         for k in params:
             p_name = prefix + k
-            param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            # parameters that are None are not saved
+            if p_name in f:
+                param_dict[k] = np.asarray(f[p_name], dtype=dtypes[k])
+            else:
+                param_dict[k] = None
         return param_dict
 
     
-- 
2.43.0


From c3da34a5b987cd88ad7ac7280b21c935dabad9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 045/241] fix: CentWhiten applies diagonal transforms

---
 hyperion/transforms/cent_whiten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 5241cb0..4959ce5 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -32,7 +32,7 @@ class CentWhiten(HypModel):
             x = x - self.mu
         if self.T is not None:
             if self.T.ndim == 1:
-                x = x*T
+                x = x*self.T
             else:
                 x = np.dot(x, self.T)
         return x
-- 
2.43.0


From b9124813526b2f15110c10a0feec7b721cc08e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 046/241] fix: loaded transforms keep what they update when
 fitted again

---
 hyperion/transforms/cent_whiten.py | 3 ++-
 hyperion/transforms/lda.py         | 3 ++-
 hyperion/transforms/pca.py         | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index 4959ce5..b29d999 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -89,7 +89,8 @@ class CentWhiten(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'],
+                   update_mu=config['update_mu'], update_T=config['update_t'], name=config['name'])
 
     
     
diff --git a/hyperion/transforms/lda.py b/hyperion/transforms/lda.py
index e7bb778..f629bc5 100644
--- a/hyperion/transforms/lda.py
+++ b/hyperion/transforms/lda.py
@@ -86,7 +86,8 @@ class LDA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], lda_dim=config['lda_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'], name=config['name'])
 
         
     # @classmethod
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index bd93077..73629d9 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -85,7 +85,8 @@ class PCA(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu', 'T']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'], name=config['name'])
+        return cls(mu=params['mu'], T=params['T'], pca_dim=config['pca_dim'],
+                   update_mu=config['update_mu'], update_T=config['update_t'], name=config['name'])
     
 
     
-- 
2.43.0


From 7200fff1b9b5136c8e9bc135b15ba54d0a798252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 047/241] fix: CentWhitenUP does not modify the covariances of
 its input

---
 hyperion/transforms/cent_whiten_up.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 855385b..98daa09 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -30,8 +30,7 @@ class CentWhitenUP(CentWhiten):
         m_x = x[:,:x_dim]
         s2_x = x[:,x_dim:]
         m_x = super(CentWhitenUP, self).predict(m_x)
-        for i in xrange(x.shape[0]):
-            s2_x[i] = np.diag(np.dot(self.T.T * s2_x[i], self.T))
+        s2_x = np.dot(s2_x, self.T**2)
         return np.hstack((m_x, s2_x))
 
 
-- 
2.43.0


From e38f2c5853ea308026144611f7b251c97d56c079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:00 +0000
Subject: [PATCH 048/241] fix: NAP.fit works

---
 hyperion/transforms/nap.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/transforms/nap.py b/hyperion/transforms/nap.py
index bbd54bf..af8711d 100644
--- a/hyperion/transforms/nap.py
+++ b/hyperion/transforms/nap.py
@@ -28,15 +28,15 @@ class NAP(HypModel):
     
     def fit(self, x, U_dim, class_ids):
         x_hat = np.zeros_like(x)
-        u_ids = np.uniqe(class_ids)
+        u_ids = np.unique(class_ids)
         M = np.sqrt(len(u_ids))
         for i in u_ids:
-            idx = np.nonzero(i==class_ids)
+            idx = np.nonzero(i==class_ids)[0]
             N = np.sqrt(len(idx))
             mu_i = np.mean(x[idx,:], axis=0)
-            xx[idx, :] = (x[idx, :] - mu_i)/N
-        xx /= M
-        _, s, Vt = np.svd(xx, full_matrices=False, overwrite_a=True)
+            x_hat[idx, :] = (x[idx, :] - mu_i)/N
+        x_hat /= M
+        _, s, Vt = la.svd(x_hat, full_matrices=False, overwrite_a=True)
         idx = (np.argsort(s)[::-1])[:U_dim]
         self.U = Vt[idx, :]
 
-- 
2.43.0


From 67aab53a9d4b70e1b78fa47c5549d942b6ac051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 049/241] fix: accumulated between and within class statistics
 are kept, and can be loaded

---
 hyperion/transforms/sb_sw.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/hyperion/transforms/sb_sw.py b/hyperion/transforms/sb_sw.py
index 7507fcd..efd90a8 100644
--- a/hyperion/transforms/sb_sw.py
+++ b/hyperion/transforms/sb_sw.py
@@ -21,9 +21,9 @@ class SbSw(HypModel):
     """
     def __init__(self, Sb=None, Sw=None, mu=None, num_classes=0, **kwargs):
         super(SbSw, self).__init__(**kwargs)
-        self.Sb = None
-        self.Sw = None
-        self.mu = None
+        self.Sb = Sb
+        self.Sw = Sw
+        self.mu = mu
         self.num_classes = num_classes
 
         
@@ -82,13 +82,12 @@ class SbSw(HypModel):
 
         
     @classmethod
-    def load(cls, file_path):
-        with h5py.File(file_path,'r') as f:
-            config = self.load_config_from_json(f['config'])
-            param_list = ['mu', 'Sb', 'Sw', 'num_classes']
-            params = cls._load_params_to_dict(f, config['name'], param_list)
-            kwargs = dict(list(config.items()) + list(params.items()))
-            return cls(**kwargs)
+    def load_params(cls, f, config):
+        param_list = ['mu', 'Sb', 'Sw', 'num_classes']
+        params = cls._load_params_to_dict(f, config['name'], param_list)
+        params['num_classes'] = int(params['num_classes'])
+        kwargs = dict(list(config.items()) + list(params.items()))
+        return cls(**kwargs)
         
         
 
-- 
2.43.0


From 3e3221c2db2f6907663cf075b8e9ce0e26ae438c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 050/241] fix: Gaussianizer without maximum of vectors can be
 fitted

---
 hyperion/transforms/gaussianizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 3850d86..58ed0c3 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -50,7 +50,7 @@ class Gaussianizer(HypModel):
 
         x = np.zeros((1, x.shape[-1]), dtype=float_cpu())
 
-        if r.shape[0] > self.max_vectors:
+        if self.max_vectors is not None and r.shape[0] > self.max_vectors:
             index = np.round(np.linspace(0, r.shape[0]-1, self.max_vectors, dtype=float)).astype(int)
             r = r[index, :]
 
-- 
2.43.0


From b7ad668c863d1bbb9f612ed7caeb37b3ac1d0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 051/241] fix: a value that an ark writer refuses leaves no key
 in the archive

---
 hyperion/io/ark_data_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/ark_data_writer.py b/hyperion/io/ark_data_writer.py
index 7ec4cd5..68837bf 100644
--- a/hyperion/io/ark_data_writer.py
+++ b/hyperion/io/ark_data_writer.py
@@ -123,10 +123,10 @@ class ArkDataWriter(DataWriter):
             
         for i, key_i in enumerate(keys):
             assert is_token(key_i), 'Token %s not valid' % key_i
+            data_i = self._convert_data(data[i])
             write_token(self.f, self.binary, key_i)
 
             pos = self.f.tell()
-            data_i = self._convert_data(data[i])
         
             init_kaldi_output_stream(self.f, self.binary)
             data_i.write(self.f, self.binary)
-- 
2.43.0


From ca8591443165b09c133bbd9d8bbbf747c2905fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 052/241] fix: OrderedQueue in io has the thread pool and the
 getter that it uses

---
 hyperion/io/queues.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 11d6c4b..5099eab 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -7,9 +7,11 @@ from __future__ import absolute_import
 
 import warnings
 import copy
+import random
 import time
 import numpy as np
 import multiprocessing
+from multiprocessing.pool import ThreadPool
 import threading
 import six
 from abc import abstractmethod
@@ -81,6 +83,10 @@ class SequenceQueue(object):
         raise NotImplemented
 
 
+def get_index(sequence, i):
+    return sequence[i]
+
+
 class OrderedQueue(SequenceQueue):
     """Builds a Queue from a Sequence.
 
-- 
2.43.0


From 5bfe4e36987016ea15259b852cc5db0dd5e2eb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 053/241] fix: weighting sufficient statistics does not modify
 the ones given

---
 hyperion/pdfs/core/exp_family.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index f252af2..a601e51 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -84,7 +84,7 @@ class ExpFamily(PDF):
         if sample_weight is None:
             N = u_x.shape[0]
         else:
-            u_x *= sample_weight[:, None]
+            u_x = u_x*sample_weight[:, None]
             N = np.sum(sample_weight)
         acc_u_x = np.sum(u_x, axis=0)
         return N, acc_u_x
-- 
2.43.0


From 06f038efaa53cfd8857e633588355d87e99dbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 054/241] fix: add_suff_stats adds all the statistics of the
 list

---
 hyperion/pdfs/core/exp_family.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/exp_family.py b/hyperion/pdfs/core/exp_family.py
index a601e51..6eba563 100644
--- a/hyperion/pdfs/core/exp_family.py
+++ b/hyperion/pdfs/core/exp_family.py
@@ -111,11 +111,11 @@ class ExpFamily(PDF):
     
     def add_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
     
-- 
2.43.0


From 9081dd0ce8c6f1741691f84b526ff98dab0b2e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 055/241] fix: PDF.generate samples instead of calling itself

---
 hyperion/pdfs/core/pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/core/pdf.py b/hyperion/pdfs/core/pdf.py
index faa2e48..9402de7 100644
--- a/hyperion/pdfs/core/pdf.py
+++ b/hyperion/pdfs/core/pdf.py
@@ -41,5 +41,5 @@ class PDF(HypModel):
 
     
     def generate(self, num_samples, **kwargs):
-        return self.generate(num_samples, **kwargs)
+        return self.sample(num_samples, **kwargs)
 
-- 
2.43.0


From 919518a6b28d4f4b825993cdb2c0ebd2e8898333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 056/241] fix: normalized statistics of Normal are those of the
 whitened data

---
 hyperion/pdfs/core/normal.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 39342a5..d0ca162 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -121,12 +121,12 @@ class Normal(ExpFamily):
         assert self.is_init
         
         F, S = self.unstack_suff_stats(u_x)
-        F_norm = np.dot(F-N*self.mu, self.cholLambda.T)
+        F_norm = np.dot(F-N*self.mu, self.cholLambda)
         if return_order2:
-            SS = vec2symat(S)
-            Fmu = np.outer(self.F, self.mu)
+            SS = vec2symmat(S)
+            Fmu = np.outer(F, self.mu)
             SS = SS-Fmu-Fmu.T+N*np.outer(self.mu,self.mu)
-            SS = np.dot(self.cholLambda, np.dot(SS, self.cholLambda.T))
+            SS = np.dot(self.cholLambda.T, np.dot(SS, self.cholLambda))
             S = symmat2vec(SS)
             return N, self.stack_suff_stats(F_norm, S)
         return N, F_norm
-- 
2.43.0


From e4bb1eaa4c6674a707d26ef5ccc1532c8ac280b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 057/241] fix: covariance of Gaussians whose mean is not
 updated is taken around that mean

---
 hyperion/pdfs/core/normal.py          | 3 ++-
 hyperion/pdfs/core/normal_diag_cov.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index d0ca162..40d0280 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -142,7 +142,8 @@ class Normal(ExpFamily):
 
         if self.update_Lambda:
             S = vec2symmat(S/N)
-            S -= np.outer(self.mu,self.mu)
+            Fmu = np.outer(F/N, self.mu)
+            S += np.outer(self.mu,self.mu) - Fmu - Fmu.T
             # S = fullcov_varfloor(S, self.var_floor)
             self.Lambda = invert_pdmat(S, return_inv=True)[-1]
             self._Sigma = None
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index 6048f80..d80fd5d 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -119,7 +119,7 @@ class NormalDiagCov(ExpFamily):
             self.mu = F/N
 
         if self.update_Lambda:
-            S = S/N-self.mu**2
+            S = S/N-2*self.mu*F/N+self.mu**2
             S[S<self.var_floor] = self.var_floor
             self.Lambda=1/S
             self._Sigma = S
-- 
2.43.0


From aa584076abb21ed4ff2c2a7373b0d8f79a3b29df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 058/241] fix: Gaussians can be loaded

---
 hyperion/pdfs/core/normal.py          | 2 +-
 hyperion/pdfs/core/normal_diag_cov.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/core/normal.py b/hyperion/pdfs/core/normal.py
index 40d0280..e642ba1 100644
--- a/hyperion/pdfs/core/normal.py
+++ b/hyperion/pdfs/core/normal.py
@@ -208,7 +208,7 @@ class Normal(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
diff --git a/hyperion/pdfs/core/normal_diag_cov.py b/hyperion/pdfs/core/normal_diag_cov.py
index d80fd5d..10b5f3d 100644
--- a/hyperion/pdfs/core/normal_diag_cov.py
+++ b/hyperion/pdfs/core/normal_diag_cov.py
@@ -173,7 +173,7 @@ class NormalDiagCov(ExpFamily):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From 528bab71ef4859b6d81624069908ac50b93ddf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 059/241] fix: transforms of a loaded TransformList keep their
 names

---
 hyperion/transforms/transform_list.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/transform_list.py b/hyperion/transforms/transform_list.py
index 8d4c0b0..dbe20b0 100644
--- a/hyperion/transforms/transform_list.py
+++ b/hyperion/transforms/transform_list.py
@@ -82,5 +82,8 @@ class TransformList(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # names of the transforms already have the name of the list
+        transform_list = cls(transforms)
+        transform_list.name = config['name']
+        return transform_list
             
-- 
2.43.0


From c5c98a48241f9f8c520302320093cc24330a798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 060/241] fix: mixtures use their current weights after a M
 step or an initialization

---
 hyperion/pdfs/mixtures/gmm.py          | 4 ++++
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index d84b230..1641177 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -403,6 +403,10 @@ class GMM(ExpFamilyMixture):
     def _compute_nat_params(self):
         self.eta = self.compute_eta(self.mu, self.Lambda)
         self.A = self.compute_A_nat(self.eta)
+        self._log_pi = None
+        self._cholLambda = None
+        self._logLambda = None
+        self._Sigma = None
 
 
         
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 266a95a..00cf87c 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -376,6 +376,10 @@ class GMMDiagCov(ExpFamilyMixture):
     def _compute_nat_params(self):
         self.eta = self.compute_eta(self.mu, self.Lambda)
         self.A = self.compute_A_nat(self.eta)
+        self._log_pi = None
+        self._cholLambda = None
+        self._logLambda = None
+        self._Sigma = None
 
 
         
-- 
2.43.0


From 7ca6737466b3fe6c82dad944e1dfa18bd138e527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 061/241] fix: weights of full covariance GMM are updated

---
 hyperion/pdfs/mixtures/gmm.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 1641177..7634ca3 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -188,6 +188,9 @@ class GMM(ExpFamilyMixture):
             self._logLambda = None
             self._cholLambda = None
 
+        if self.update_pi:
+            self.pi = N/np.sum(N)
+
         self._compute_nat_params()
 
 
-- 
2.43.0


From 7c5b63c0a3a73c5f2919155ec1731b63f2b7fe4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 062/241] fix: covariances of mixtures are around the means in
 use when these are not updated

---
 hyperion/pdfs/mixtures/gmm.py               | 3 ++-
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 7634ca3..50bacc8 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -177,8 +177,9 @@ class GMM(ExpFamilyMixture):
         if self.update_Lambda:
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
+                Fmu = np.outer(F[k]/N[k], self.mu[k])
                 C[k] = vec2symmat(S[k]/N[k])
-                C[k] -= np.outer(self.mu[k],self.mu[k])
+                C[k] -= Fmu + Fmu.T - np.outer(self.mu[k],self.mu[k])
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             for k in xrange(self.num_comp):
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 00cf87c..01e04a5 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -151,7 +151,7 @@ class GMMDiagCov(ExpFamilyMixture):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = (S-2*self.mu*F)/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index a528c76..b591d60 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -83,7 +83,7 @@ class GMMTiedDiagCov(GMMDiagCov):
             self.mu = F/N[:, None]
 
         if self.update_Lambda:
-            S = S/N[:,None] - self.mu**2
+            S = (S-2*self.mu*F)/N[:,None] + self.mu**2
             S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
             S = np.maximum(S, S_floor)
             Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
-- 
2.43.0


From 0f3738f8e79c964bfe5fcea035dfbf6e9d1ae05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 063/241] fix: the M step of GMM does not write in the
 precisions given by the user

---
 hyperion/pdfs/mixtures/gmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 50bacc8..a4611bd 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -182,6 +182,7 @@ class GMM(ExpFamilyMixture):
                 C[k] -= Fmu + Fmu.T - np.outer(self.mu[k],self.mu[k])
             Sfloor = self.var_floor*np.mean(C, axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
+            self.Lambda = np.zeros_like(C)
             for k in xrange(self.num_comp):
                 C[k] = fullcov_varfloor(C[k], cholfloor, F_is_chol=True)
                 self.Lambda[k] = invert_pdmat(C[k], return_inv=True)[-1]
@@ -376,7 +377,7 @@ class GMM(ExpFamilyMixture):
     def compute_std(eta):
         x_dim = Normal.compute_x_dim_from_eta(eta)
         mu = np.zeros((eta.shape[0], x_dim), dtype=float_cpu())
-        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype='float32')
+        Lambda = np.zeros((eta.shape[0], x_dim, x_dim), dtype=float_cpu())
         for k in xrange(eta.shape[0]):
             mu[k], Lambda[k] = Normal.compute_std(eta[k])
 
-- 
2.43.0


From 55236a1d1b7ea10c2a09415e701fea620b389280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:26 +0000
Subject: [PATCH 064/241] fix: normalized statistics of mixtures are those of
 the whitened data

---
 hyperion/pdfs/mixtures/gmm.py          | 15 ++++++++-------
 hyperion/pdfs/mixtures/gmm_diag_cov.py |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index a4611bd..63ef581 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -153,16 +153,17 @@ class GMM(ExpFamilyMixture):
     def norm_suff_stats(self, N, u_x, return_order2=False):
         F, S = self.unstack_suff_stats(u_x)
         F_norm = F - N[:,None]*self.mu
+        S_norm = np.zeros_like(S)
         for k in xrange(self.num_comp):
-            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k].T)
+            F_norm[k] = np.dot(F_norm[k], self.cholLambda[k])
             if return_order2:
-                SS = vec2symat(S[k])
-                Fmu = np.outer(self.F[k], self.mu[k])
-                SS = SS-Fmu-Fmu.T+N*np.outer(self.mu[k],self.mu[k])
-                SS = np.dot(self.cholLambda[k], np.dot(SS, self.cholLambda[k].T))
-                S[k] = symmat2vec(SS)
+                SS = vec2symmat(S[k])
+                Fmu = np.outer(F[k], self.mu[k])
+                SS = SS-Fmu-Fmu.T+N[k]*np.outer(self.mu[k],self.mu[k])
+                SS = np.dot(self.cholLambda[k].T, np.dot(SS, self.cholLambda[k]))
+                S_norm[k] = symmat2vec(SS)
         if return_order2:
-            return N, self.stack_suff_stats(F_norm, S)
+            return N, self.stack_suff_stats(F_norm, S_norm)
         return N, F_norm
 
     
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 01e04a5..a4d265d 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -132,10 +132,10 @@ class GMMDiagCov(ExpFamilyMixture):
 
     
     def norm_suff_stats(self, N, u_x, return_order2=False):
-        F, S = self.unstack_suff_stats(acc_u_x)
+        F, S = self.unstack_suff_stats(u_x)
         F_norm = self.cholLambda*(F-N[:,None]*self.mu)
         if return_order2:
-            S=S-2*self.mu*F+N*self.mu**2
+            S=S-2*self.mu*F+N[:,None]*self.mu**2
             S *= self.Lambda
             return N, self.stack_suff_stats(F_norm, S)    
 
-- 
2.43.0


From da2a62e452cf2cbd858e8ec1eeb089679d35f9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 065/241] fix: components of mixtures with few or no data get
 no weight instead of failing

---
 hyperion/pdfs/mixtures/gmm.py               | 14 +++++++++++---
 hyperion/pdfs/mixtures/gmm_diag_cov.py      | 19 ++++++++++---------
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 21 +++++++++++----------
 3 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 63ef581..69387c5 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -171,17 +171,24 @@ class GMM(ExpFamilyMixture):
     def Mstep(self, N, u_x):
 
         F, S = self.unstack_suff_stats(u_x)
+        # components with few or no data
+        N0 = np.logical_or(N < self.min_N, N == 0)
+        N_safe = np.where(N0, 1, N)
 
         if self.update_mu:
-            self.mu = F/N[:,None]
+            self.mu = F/N_safe[:,None]
+            self.mu[N0] = 0
 
         if self.update_Lambda:
             C = np.zeros((self.num_comp, self.x_dim, self.x_dim), dtype=float_cpu())
             for k in xrange(self.num_comp):
+                if N0[k]:
+                    C[k] = np.eye(self.x_dim)
+                    continue
                 Fmu = np.outer(F[k]/N[k], self.mu[k])
                 C[k] = vec2symmat(S[k]/N[k])
                 C[k] -= Fmu + Fmu.T - np.outer(self.mu[k],self.mu[k])
-            Sfloor = self.var_floor*np.mean(C, axis=0)
+            Sfloor = self.var_floor*np.mean(C[~N0], axis=0)
             cholfloor = la.cholesky(Sfloor, overwrite_a=True)
             self.Lambda = np.zeros_like(C)
             for k in xrange(self.num_comp):
@@ -192,7 +199,8 @@ class GMM(ExpFamilyMixture):
             self._cholLambda = None
 
         if self.update_pi:
-            self.pi = N/np.sum(N)
+            self.pi = np.where(N0, 0, N)
+            self.pi = self.pi/np.sum(self.pi)
 
         self._compute_nat_params()
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index a4d265d..e56f68a 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -146,13 +146,18 @@ class GMMDiagCov(ExpFamilyMixture):
     def Mstep(self, N, u_x):
 
         F, S = self.unstack_suff_stats(u_x)
+        # components with few or no data
+        N0 = np.logical_or(N < self.min_N, N == 0)
+        N_safe = np.where(N0, 1, N)
 
         if self.update_mu:
-            self.mu = F/N[:, None]
+            self.mu = F/N_safe[:, None]
+            self.mu[N0] = 0
 
         if self.update_Lambda:
-            S = (S-2*self.mu*F)/N[:,None] + self.mu**2
-            S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
+            S = (S-2*self.mu*F)/N_safe[:,None] + self.mu**2
+            S[N0] = 1
+            S_floor = self.var_floor * np.mean(S[~N0], axis=0)
             S = np.maximum(S, S_floor)
             self.Lambda=1/S
             self._Sigma = S
@@ -160,12 +165,8 @@ class GMMDiagCov(ExpFamilyMixture):
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
-            if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
-            self.pi = N/np.sum(N)
+            self.pi = np.where(N0, 0, N)
+            self.pi = self.pi/np.sum(self.pi)
             
         self._compute_nat_params()
         
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index b591d60..fb8c39e 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -78,27 +78,28 @@ class GMMTiedDiagCov(GMMDiagCov):
     def Mstep(self, N, u_x):
 
         F, S = self.unstack_suff_stats(u_x)
+        # components with few or no data
+        N0 = np.logical_or(N < self.min_N, N == 0)
+        N_safe = np.where(N0, 1, N)
 
         if self.update_mu:
-            self.mu = F/N[:, None]
+            self.mu = F/N_safe[:, None]
+            self.mu[N0] = 0
 
         if self.update_Lambda:
-            S = (S-2*self.mu*F)/N[:,None] + self.mu**2
-            S_floor = self.var_floor * np.mean(S[N>self.min_N], axis=0)
+            S = (S-2*self.mu*F)/N_safe[:,None] + self.mu**2
+            S[N0] = 1
+            S_floor = self.var_floor * np.mean(S[~N0], axis=0)
             S = np.maximum(S, S_floor)
-            Spool = np.sum(N[:, None]*S, axis=0)/np.sum(N)
+            Spool = np.sum((N[:, None]*S)[~N0], axis=0)/np.sum(N[~N0])
             self.Lambda=1/Spool
             self._Sigma = Spool
             self._cholLambda = None
             self._logLambda = None
 
         if self.update_pi:
-            N0 = N < self.min_N
-            if np.any(N0):
-                N[N0] = 0
-                mu[N0] = 0
-                S[N0] = 1
-            self.pi = N/np.sum(N)
+            self.pi = np.where(N0, 0, N)
+            self.pi = self.pi/np.sum(self.pi)
             
         self._compute_nat_params()
         
-- 
2.43.0


From b62840fb00e6eebc05bb55d7711fbc03a426d8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 066/241] fix: full covariance GMM can be saved

---
 hyperion/pdfs/mixtures/gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index 69387c5..c7f11b1 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -264,7 +264,7 @@ class GMM(ExpFamilyMixture):
         config = {'var_floor': self.var_floor,
                   'update_mu': self.update_mu,
                   'update_lambda': self.update_Lambda }
-        base_config = super(DiagGMM, self).get_config()
+        base_config = super(GMM, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
 
-- 
2.43.0


From 6a4461ffcc67ff98259c44b271ab1a9eb51024a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 067/241] fix: diagonal GMM can be loaded

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index e56f68a..7a54b41 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -250,7 +250,7 @@ class GMMDiagCov(ExpFamilyMixture):
     @classmethod
     def load_params(cls, f, config):
         param_list = ['pi', 'mu', 'Lambda']
-        params = self._load_params_to_dict(f, config['name'], param_list)
+        params = cls._load_params_to_dict(f, config['name'], param_list)
         return cls(x_dim=config['x_dim'], pi=params['pi'],
                    mu=params['mu'], Lambda=params['Lambda'],
                    var_floor=config['var_floor'],
-- 
2.43.0


From 3511df98a6f8364cf25198ba5d6eaebf3eea8ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 068/241] fix: tied GMM with one component can be initialized

---
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index fb8c39e..bf107e6 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -56,7 +56,7 @@ class GMMTiedDiagCov(GMMDiagCov):
         if num_comp==1:
             self.pi=np.array([1], dtype=float_cpu())
             self.mu=np.mean(x, axis=0, keepdims=True)
-            self.Lambda=1/np.std(x, axis=0, keepdims=True)**2
+            self.Lambda=1/np.std(x, axis=0)**2
             return
 
         kmeans = KMeans(num_clusters=num_comp)
-- 
2.43.0


From 20afdb02df3ba9530474e177d1ed11b204bdeee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 069/241] fix: splitting the components keeps the configuration
 and splits along the principal axes

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 12 ++++++++++++
 hyperion/pdfs/mixtures/gmm.py                |  4 ++--
 hyperion/pdfs/mixtures/gmm_diag_cov.py       |  2 +-
 hyperion/pdfs/mixtures/gmm_tied_diag_cov.py  |  2 +-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 72608bf..cbada74 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -493,6 +493,18 @@ class ExpFamilyMixture(PDF):
 
 
     
+    def _get_split_config(self):
+        # arguments of the constructor, for the models made from this one
+        return {'x_dim': self.x_dim,
+                'name': self.name,
+                'min_N': self.min_N,
+                'update_pi': self.update_pi,
+                'var_floor': self.var_floor,
+                'update_mu': self.update_mu,
+                'update_Lambda': self.update_Lambda}
+
+
+    
     @staticmethod
     def tuple2data(data):
         if isinstance(data, tuple):
diff --git a/hyperion/pdfs/mixtures/gmm.py b/hyperion/pdfs/mixtures/gmm.py
index c7f11b1..6d1a641 100644
--- a/hyperion/pdfs/mixtures/gmm.py
+++ b/hyperion/pdfs/mixtures/gmm.py
@@ -215,7 +215,7 @@ class GMM(ExpFamilyMixture):
         
         for g in xrange(self.num_comp):
             w, v = la.eigh(self.Sigma[g])
-            v *= np.sqrt(v)
+            v *= np.sqrt(w)
             if K==2:
                 std_dev = np.sum(v, axis=1)
                 mu[2*g] += std_dev
@@ -226,7 +226,7 @@ class GMM(ExpFamilyMixture):
                     std_dev = np.sum(v*factor, axis=1)
                     mu[K*g+k] += std_dev
 
-        config = self.get_config()
+        config = self._get_split_config()
         return GMM(pi=pi, mu=mu, Lambda=Lambda, **config)
     
 
diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 7a54b41..11c6eca 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -189,7 +189,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
+        config = self._get_split_config()
         return GMMDiagCov(pi=pi, mu=mu, Lambda=Lambda, **config)
         
 
diff --git a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
index bf107e6..183a192 100644
--- a/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_tied_diag_cov.py
@@ -121,7 +121,7 @@ class GMMTiedDiagCov(GMMDiagCov):
                 factor = 2*(np.random.uniform(size=std_dev.shape) > 0.5) - 1 
                 mu[k::K] += factor*std_dev
 
-        config = self.get_config()
+        config = self._get_split_config()
         return DiagGMMTiedCov(pi=pi, mu=mu, Lambda=self.Lambda, **config)
         
 
-- 
2.43.0


From 072bc8f72bd0f457ed965b12832f944aba759c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 070/241] fix: the validation objective of mixtures is divided
 by the validation frames

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index cbada74..4907368 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -84,7 +84,7 @@ class ExpFamilyMixture(PDF):
         if x_val is None:
             return elbo, elbo/x.shape[0]
         else:
-            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x.shape[0]
+            return elbo, elbo/x.shape[0], elbo_val, elbo_val/x_val.shape[0]
 
 
         
-- 
2.43.0


From 63d0bb699a122946fb1e403c7c639e9221de43f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 071/241] fix: sum_suff_stats of mixtures adds all the
 statistics

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index 4907368..b008050 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -407,11 +407,11 @@ class ExpFamilyMixture(PDF):
     
     def sum_suff_stats(self, N, u_x):
         assert(len(N)==len(u_x))
-        acc_N = N[1]
-        acc_u_x = u_x[1]
+        acc_N = N[0]
+        acc_u_x = u_x[0]
         for i in xrange(1,len(N)):
-            acc_N += N
-            acc_u_x += u[i]
+            acc_N = acc_N + N[i]
+            acc_u_x = acc_u_x + u_x[i]
         return acc_N, acc_u_x
 
 
-- 
2.43.0


From c96b67d7fc7609a46a91a499bcc060d1a4ce9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:58 +0000
Subject: [PATCH 072/241] fix: log-likelihood of the n-best components

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index b008050..d04da8d 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -470,10 +470,9 @@ class ExpFamilyMixture(PDF):
         if nbest_mode == 'master':
             assert(isinstance(nbest, int))
             llk_k = np.dot(u_x, self.eta.T) - self.A + self.log_pi
-            nbest = np.argsort(llk_k)[:-(nbest+1):-1]
-            llk_k = llk_k[nbest]
+            llk_k = -np.sort(-llk_k, axis=-1)[:,:nbest]
         else:
-            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A + self.log_pi
+            llk_k = np.dot(u_x, self.eta[nbest,:].T) - self.A[nbest] + self.log_pi[nbest]
         llk = logsumexp(llk_k)
         return self.log_h(x) + llk
         
-- 
2.43.0


From e285acccbcf77f9a982c80b102198f75d90e561a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 073/241] fix: statistics of sliding windows with one window,
 or with frames left at the end

---
 hyperion/pdfs/mixtures/exp_family_mixture.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hyperion/pdfs/mixtures/exp_family_mixture.py b/hyperion/pdfs/mixtures/exp_family_mixture.py
index d04da8d..638f872 100644
--- a/hyperion/pdfs/mixtures/exp_family_mixture.py
+++ b/hyperion/pdfs/mixtures/exp_family_mixture.py
@@ -299,8 +299,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         if u_x is None:
             u_x = self.compute_suff_stats(x)
@@ -335,8 +333,6 @@ class ExpFamilyMixture(PDF):
         K = len(self.pi)
         num_frames = x.shape[0]
         num_segments = int(np.floor((num_frames-frame_length)/frame_shift + 1))
-        if num_segments == 1:
-            return self._accum_suff_stats_1batch(self, x, u_x, sample_weight)
 
         num_segments_per_batch = np.floor((num_frames-frame_length)/frame_shift + 1)
         batch_size = int((num_segments_per_batch-1)*frame_shift+frame_length)
@@ -347,7 +343,7 @@ class ExpFamilyMixture(PDF):
         
         sw_i = None
         cur_segment=0
-        for i1 in xrange(0, x.shape[0], batch_shift):
+        for i1 in xrange(0, num_segments*frame_shift, batch_shift):
             i2 = np.minimum(i1+batch_size, x.shape[0])
             x_i = x[i1:i2,:]
             if sample_weight is not None:
-- 
2.43.0


From d4a7defc1d6bdef19d3bf0a20eaacd1421a96762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 074/241] fix: Kaldi diagonal GMM with one component can be
 loaded

---
 hyperion/pdfs/mixtures/gmm_diag_cov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/mixtures/gmm_diag_cov.py b/hyperion/pdfs/mixtures/gmm_diag_cov.py
index 11c6eca..8ba043b 100644
--- a/hyperion/pdfs/mixtures/gmm_diag_cov.py
+++ b/hyperion/pdfs/mixtures/gmm_diag_cov.py
@@ -280,7 +280,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 elif fields[0]=="<MEANS_INVVARS>":
                     for k in xrange(num_comp):
                         line = f.readline()
-                        fields = line.split()
+                        fields = line.replace(']', ' ').split()
                         if x_dim == 0:
                             x_dim = len(fields)
                             eta1 = np.zeros((num_comp, x_dim), dtype=float_cpu())
@@ -291,7 +291,7 @@ class GMMDiagCov(ExpFamilyMixture):
                 elif fields[0]=="<INV_VARS>":
                     for k in xrange(num_comp):
                         line = f.readline()
-                        fields = line.split()
+                        fields = line.replace(']', ' ').split()
                         assert(len(fields) == x_dim or len(fields) == x_dim+1)
                         eta2[k] = [ -0.5*float(v) for v in fields[:x_dim] ]
                         if k == num_comp-1:
-- 
2.43.0


From 27c7c7150b0d039d0f9366ef085464d661b58f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 075/241] fix: PLDA training uses the sample weights and
 scaling does not change the posteriors

---
 hyperion/pdfs/plda/plda_base.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/hyperion/pdfs/plda/plda_base.py b/hyperion/pdfs/plda/plda_base.py
index 83a6449..ffe5990 100644
--- a/hyperion/pdfs/plda/plda_base.py
+++ b/hyperion/pdfs/plda/plda_base.py
@@ -48,17 +48,17 @@ class PLDABase(PDF):
         
         assert(not(class_ids is  None and ptheta is None))
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert(not(class_ids_val is  None and ptheta_val is None))        
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
 
         if not self.is_init:
@@ -125,17 +125,17 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
             
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
@@ -174,9 +174,9 @@ class PLDABase(PDF):
         
         assert  not(class_ids is  None and ptheta is None)
         if class_ids is None:
-            D = self.compute_stats_soft(x, ptheta)
+            D = self.compute_stats_soft(x, ptheta, sample_weight)
         else:
-            D = self.compute_stats_hard(x, class_ids)
+            D = self.compute_stats_hard(x, class_ids, sample_weight)
 
         if x0 is not None:
             assert not(class_ids0 is  None and ptheta0 is None)
@@ -189,9 +189,9 @@ class PLDABase(PDF):
         if x_val is not None:
             assert not(class_ids_val is  None and ptheta_val is None)
             if class_ids_val is None:
-                D_val = self.compute_stats_soft(x_val, ptheta_val)
+                D_val = self.compute_stats_soft(x_val, ptheta_val, sample_weight_val)
             else:
-                D_val = self.compute_stats_hard(x_val, class_ids_val)
+                D_val = self.compute_stats_hard(x_val, class_ids_val, sample_weight_val)
 
                 
         elbo = np.zeros((epochs,), dtype=float_cpu())
@@ -224,7 +224,7 @@ class PLDABase(PDF):
         if sample_weight is not None:
             p_theta = sample_weight[:, None]*p_theta
         if scal_factor is not None:
-            p_theta *= scal_factor
+            p_theta = p_theta*scal_factor
         N = np.sum(p_theta, axis=0)
         F = np.dot(p_theta.T, x)
         wx = np.sum(p_theta, axis=1, keepdims=True)*x
-- 
2.43.0


From e1ee06a4f89941036c87faa10afee3256687f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 076/241] fix: within-class covariance of FRPLDA counts the
 posterior covariances

---
 hyperion/pdfs/plda/frplda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 49aa4c7..be027c0 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -147,6 +147,7 @@ class FRPLDA(PLDABase):
                 
             if return_acc:
                 Py += M_i*iL
+                Ry += N_i*M_i*iL
 
         if not return_tuple:
             return y
-- 
2.43.0


From 7c5fea633b554557376faab2154db94c201d087a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 077/241] fix: between-class covariance of FRPLDA around a mean
 that is not updated

---
 hyperion/pdfs/plda/frplda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index be027c0..97e98f2 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -222,7 +222,7 @@ class FRPLDA(PLDABase):
                 iB = Py/M - np.outer(self.mu, self.mu)
             else:
                 muybar = np.outer(self.mu, ybar)
-                iB = Py/M - muybar - muybar + np.outer(self.mu, self.mu)
+                iB = Py/M - muybar - muybar.T + np.outer(self.mu, self.mu)
             self.B = invert_pdmat(iB, return_inv=True)[-1]
         if self.update_W:
             iW = (S - Cy - Cy.T + Ry)/N
-- 
2.43.0


From e58e003bea77125a10f6f5640b0b3970e1afaed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 078/241] fix: class posteriors of SPLDA and PLDA with several
 samples per class

---
 hyperion/pdfs/plda/plda.py  | 2 +-
 hyperion/pdfs/plda/splda.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index dbda90f..1509138 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -118,7 +118,7 @@ class PLDA(PLDABase):
         assert self.is_init
         
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M=F.shape[0]
         y_dim = self.y_dim
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index c37f3de..f72ca1e 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -78,7 +78,7 @@ class SPLDA(PLDABase):
     def compute_py_g_x(self, D, return_cov=False, return_logpy_0=False,
                        return_acc=False):
         N, F, S = D
-        Fc = F - self.mu
+        Fc = F - N[:, None]*self.mu
         
         M = F.shape[0]
         y_dim = self.y_dim
-- 
2.43.0


From dd9965e51f55fe352095392adb24bd9b658a9964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 079/241] fix: initial diagonal W of SPLDA

---
 hyperion/pdfs/plda/splda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index f72ca1e..35c0ac1 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -68,7 +68,7 @@ class SPLDA(PLDABase):
         if self.fullcov_W:
             W = invert_pdmat(C, return_inv=True)[-1]
         else:
-            W = 1/np.diag(C)
+            W = np.diag(1/np.diag(C))
         
         self.mu = mu
         self.V = V
-- 
2.43.0


From af232b936daff0bee5920295f1bd0abe7713af29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 080/241] fix: likelihood ratios by the book of SPLDA and PLDA

---
 hyperion/pdfs/plda/plda.py  | 13 +++++++------
 hyperion/pdfs/plda/splda.py | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1509138..1b42d41 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -470,18 +470,18 @@ class PLDA(PLDABase):
         N1, F1, _ = D1
         N2, F2, _ = D2
 
-        WV = self._WV
+        WV = self._VW
         VV = self._VWV
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -519,9 +519,10 @@ class PLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 35c0ac1..85fc586 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -328,14 +328,14 @@ class SPLDA(PLDABase):
         VV = np.dot(self.V, WV)
         I = np.eye(self.y_dim, dtype=float_cpu())
 
-        F1 -= N1[:, None]*self.mu
-        F2 -= N2[:, None]*self.mu
+        F1 = F1 - N1[:, None]*self.mu
+        F2 = F2 - N2[:, None]*self.mu
 
         scores = np.zeros((len(N1), len(N2)), dtype=float_cpu())
         for N1_i in np.unique(N1):
             for N2_j in np.unique(N2):
-                i = np.where(N1 == N1_i)
-                j = np.where(N2 == N2_j)
+                i = np.where(N1 == N1_i)[0]
+                j = np.where(N2 == N2_j)[0]
 
                 L1 = I + N1_i*VV
                 mult_icholL1, logcholL1 = invert_trimat(
@@ -373,9 +373,10 @@ class SPLDA(PLDABase):
                 scores_ij = 2*np.dot(gamma_tar_1, gamma_tar_2.T)
                 scores_ij += (Qtar_1 - Qnon_1 + Qtar_2 - Qnon_2)
                 scores_ij += (logL1 + logL2 - logLtar)
-                scores[i,j] = scores_ij
+                scores[np.ix_(i,j)] = scores_ij
                 
         scores *= 0.5
+        return scores
 
                 
 
-- 
2.43.0


From 9e093a486014d4c4491333eb88e88991db5f7545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 081/241] fix: channel noise of PLDA samples

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 1b42d41..f7e5481 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -534,7 +534,7 @@ class PLDA(PLDABase):
         x_dim = self.mu.shape[0]
 
         z1 = rng.normal(size=(num_classes*num_samples_per_class, x_dim)).astype(dtype=float_cpu(), copy=False)
-        z1 /= self.D
+        z1 /= np.sqrt(self.D)
         
         z2 = rng.normal(size=(num_classes*num_samples_per_class, self.z_dim)).astype(dtype=float_cpu(), copy=False)
         z2 = np.dot(z2, self.U)
-- 
2.43.0


From 8b427e78233b42f1101c7b32859052cd0af6f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 082/241] fix: PLDA density given the class variable

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index f7e5481..987ca10 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -402,7 +402,7 @@ class PLDA(PLDABase):
     
     def log_probx_g_y(self, x, y):
         iW = np.diag(1/self.D) + np.dot(self.U.T, self.U)
-        mult_W, _, logiW = invert_pdmat(iW, return_logdet=True)
+        mult_W, _, logiW = invert_pdmat(iW, right_inv=True, return_logdet=True)
         delta = x - self.mu - np.dot(y, self.V)
         logp = - x.shape[-1]*np.log(2*np.pi) - logiW - np.sum(
             mult_W(delta)*delta, axis=-1)
-- 
2.43.0


From 51820c7efe1e4ec850855178c9cf70a9ec0bb327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 083/241] fix: channel statistics of PLDA with a mean

---
 hyperion/pdfs/plda/plda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 987ca10..779e0a8 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -211,7 +211,7 @@ class PLDA(PLDABase):
         Cy = np.dot(F.T, y)
         
         #Cz
-        A = np.dot(S - np.dot(F_tot.T,self.mu), self._DU.T)-np.dot(Cy, self._J)
+        A = np.dot(S - np.outer(F_tot, self.mu), self._DU.T)-np.dot(Cy, self._J)
         Cz = self._mult_iLz(A)
         
         #Ry Ry1, Py
-- 
2.43.0


From fa984fb45a5c0684ef85557766e511ae5e971fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 084/241] fix: M step of PLDA when only V or U is updated with
 the mean

---
 hyperion/pdfs/plda/plda.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 779e0a8..4465ff3 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -298,25 +298,25 @@ class PLDA(PLDABase):
             b = np.hstack((Rz1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
-            a = Cz.T - np.outer(Ryz, self.V)
-            b = F[:,None] - np.outer(Ry1, self.V)
+            a = Cz.T - np.dot(Ryz.T, self.V)
+            b = F - np.dot(Ry1, self.V)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.U = Vtilde[:-1]
             self.mu = Vtilde[-1]
         
 
-        if not self.update_mu and self.update_V and not self.update_U:
+        if self.update_mu and self.update_V and not self.update_U:
             a = np.hstack((Ry, Ry1[:,None]))
             b = np.hstack((Ry1, N))
             Rytilde = np.vstack((a,b))
             iRytilde_mult = invert_pdmat(Rytilde, right_inv=False)[0]
             a = Cy.T - np.dot(Ryz, self.U)
-            b = F[:,None] - np.dot(Rz1, self.U)
+            b = F - np.dot(Rz1, self.U)
             C = np.vstack((a,b))
             Vtilde = iRytilde_mult(C)
             self.V = Vtilde[:-1]
-            self.U = Vtilde[-1]
+            self.mu = Vtilde[-1]
 
         a = np.hstack((Ry, Ryz, Ry1[:, None]))
         b = np.hstack((Ryz.T, Rz, Rz1[:, None]))
-- 
2.43.0


From c2a172706ba09431437983c8870191c73b788060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 085/241] fix: minimum divergence of SPLDA and PLDA when some
 parameters are not updated

---
 hyperion/pdfs/plda/plda.py  | 11 +++++++++--
 hyperion/pdfs/plda/splda.py |  4 ++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 4465ff3..884f741 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -345,13 +345,20 @@ class PLDA(PLDABase):
             
     def MstepMD(self, stats):
         N, M, F, S, _, y_acc, Ry1, Ry, Cy, Py, Rz1, Rz, Ryz, Cz = stats
+        if not self.update_mu:
+            # the means of the hidden variables stay at zero
+            y_acc, Ry1, Rz1 = np.zeros_like(y_acc), np.zeros_like(Ry1), np.zeros_like(Rz1)
+
         mu_y = y_acc/M
         Cov_y = Py/M - np.outer(mu_y, mu_y)
         chol_Cov_y = sla.cholesky(Cov_y, lower=False, overwrite_a=True)
 
         R = Ry - np.outer(Ry1,Ry1)/N
         mult_iR = invert_pdmat(R, right_inv=True)[0]
-        H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        if self.update_V:
+            H = mult_iR(Ryz.T-np.outer(Rz1, Ry1)/N)
+        else:
+            H = np.zeros_like(Ryz.T)
         mu_z = (Rz1 - np.dot(Ry1, H.T))/N
         RzyH = np.dot(Ryz.T, H.T)
         Cov_z = ((Rz - RzyH - RzyH.T + np.dot(np.dot(H,Ry), H.T))/N -
@@ -359,7 +366,7 @@ class PLDA(PLDABase):
         chol_Cov_z = sla.cholesky(Cov_z, lower=False, overwrite_a=True)
         
         if self.update_mu:
-            self.mu += (np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
+            self.mu = self.mu + (np.dot(mu_y, self.V + np.dot(H.T, self.U)) +
                         np.dot(mu_z, self.U))
 
         if self.update_V:
diff --git a/hyperion/pdfs/plda/splda.py b/hyperion/pdfs/plda/splda.py
index 85fc586..3600bdc 100644
--- a/hyperion/pdfs/plda/splda.py
+++ b/hyperion/pdfs/plda/splda.py
@@ -235,10 +235,10 @@ class SPLDA(PLDABase):
                 
     def MstepMD(self, stats):
         N, M, F, S, _, y_acc, Ry1, Ry, Cy, Py = stats
-        mu_y = y_acc/M
+        mu_y = y_acc/M if self.update_mu else np.zeros_like(y_acc)
         
         if self.update_mu:
-            self.mu += np.dot(mu_y, self.V)
+            self.mu = self.mu + np.dot(mu_y, self.V)
 
         if self.update_V:
             Cov_y = Py/M - np.outer(mu_y, mu_y)
-- 
2.43.0


From d8708637c0d9d7b85f5df2cbacf03c2d245ccc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:18 +0000
Subject: [PATCH 086/241] fix: weighted average of PLDA models updates the
 auxiliary matrices

---
 hyperion/pdfs/plda/plda.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/pdfs/plda/plda.py b/hyperion/pdfs/plda/plda.py
index 884f741..3d87571 100644
--- a/hyperion/pdfs/plda/plda.py
+++ b/hyperion/pdfs/plda/plda.py
@@ -580,6 +580,8 @@ class PLDA(PLDABase):
             iD[iD<self.floor_iD] = self.floor_iD
             self.D = 1/iD
 
+        self.compute_aux()
+
         # if w_W > 0:
         #     Sw0 = np.dot(self.U.T, self.U)
         #     Sw = np.dot(U.T, U)
-- 
2.43.0


From da40b932dadfe02eadb584f88abc87dfdc881282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 087/241] fix: initial diagonal W of FRPLDA

---
 hyperion/pdfs/plda/frplda.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/pdfs/plda/frplda.py b/hyperion/pdfs/plda/frplda.py
index 97e98f2..ea39b97 100644
--- a/hyperion/pdfs/plda/frplda.py
+++ b/hyperion/pdfs/plda/frplda.py
@@ -70,7 +70,10 @@ class FRPLDA(PLDABase):
         iW = C/N_tot
 
         B = invert_pdmat(iB, return_inv=True)[-1]
-        W = invert_pdmat(iW, return_inv=True)[-1]
+        if self.fullcov_W:
+            W = invert_pdmat(iW, return_inv=True)[-1]
+        else:
+            W = np.diag(1/np.diag(iW))
 
         self.mu = mu
         self.B = B
-- 
2.43.0


From 5246d1cb6bfdba18652c65c75f3110b323acfe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 088/241] fix: filter_train_args of the PLDA factory

---
 hyperion/helpers/plda_factory.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 2713f77..0d346e9 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -65,9 +65,10 @@ class PLDAFactory(object):
         neg_args2 = ('fullcov_W', 'update_mu', 'update_V', 'update_U',
                       'update_B', 'update_W', 'update_D')
 
-        for a,b in zip(ne_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+        for a,b in zip(neg_args1, neg_args2):
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From c4786351f0ee6b8444ef42eaa7b55404e3bfcaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 089/241] fix: --diag-W option of the PLDA factory

---
 hyperion/helpers/plda_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 0d346e9..3d05efe 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -96,7 +96,7 @@ class PLDAFactory(object):
                             help='num. of eigenchannels')
 
         parser.add_argument(p1+'diag-W', dest=(p2+'diag_W'),
-                            default=False, action='store_false',
+                            default=False, action='store_true',
                             help='use diagonal covariance W')
         parser.add_argument(p1+'no-update-mu', dest=(p2+'no_update_mu'),
                             default=False, action='store_true',
-- 
2.43.0


From f6f56c6f393b564e27c8a3db25ef9c48ca62723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 090/241] fix: --md-epochs option of the PLDA factory with a
 prefix

---
 hyperion/helpers/plda_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index 3d05efe..ff91868 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -130,7 +130,7 @@ class PLDAFactory(object):
                             choices=['ml+md', 'ml', 'md'],
                             help=('optimization type'))
 
-        parser.add_argument('--md-epochs', dest='md_epochs', default=None,
+        parser.add_argument(p1+'md-epochs', dest=(p2+'md_epochs'), default=None,
                             type=int, nargs = '+',
                             help=('epochs in which we do MD, if None we do it in all the epochs'))
 
-- 
2.43.0


From b84acc793e8d11f3675f233b7ffbcfa99f9e1d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:24 +0000
Subject: [PATCH 091/241] fix: eval-plda-nvs1 takes the type of PLDA

---
 hyperion/bin/eval-plda-nvs1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index f12c13d..8cd2324 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -29,7 +29,7 @@ from hyperion.transforms import TransformList
 
 def eval_plda(iv_file, ndx_file, enroll_file, test_file,
               preproc_file,
-              model_file, score_file, pool_method, **kwargs):
+              model_file, score_file, pool_method, plda_type, **kwargs):
     
     if preproc_file is not None:
         preproc = TransformList.load(preproc_file)
-- 
2.43.0


From 5836edee6a45eddcfadc7647a5cd9136ab509502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 092/241] fix: predictive density of the Gaussian back-end is
 normalised

---
 hyperion/classifiers/linear_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index cfd642a..0346153 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -115,7 +115,7 @@ class LinearGBE(HypModel):
 
         # 0.5*log|L| = 0.5*log|K| + 0.5*d*log(c r) 
         logK = logdet_pdmat(K)
-        logL_div_2 = 0.5*logK + 0.5*self.x_dim*r 
+        logL_div_2 = 0.5*logK + 0.5*self.x_dim*np.log(c*r) 
         
         # delta2_0 = (x-mu)^T W (x-mu)
         delta2_0 = np.sum(np.dot(x, self.W)*x, axis=1, keepdims=True) - 2*(
-- 
2.43.0


From 00b489194dfb16762d1ae7e79f94db346d414aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 093/241] fix: Gaussian back-end with uncertainty propagation
 takes an integer dimension

---
 hyperion/classifiers/linear_gbe_up.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index 5b5d005..edf67c8 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -42,12 +42,12 @@ class LinearGBEUP(LinearGBE):
     
 
     def eval_linear(self, x):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         try:
             S = invert_pdmat(self.W, return_inv=True)[-1]
         except:
-#            self.W += np.mean(np.diag(self.W))/1000*np.eye(x.shape[-1]/2)
+#            self.W += np.mean(np.diag(self.W))/1000*np.eye(x.shape[-1]//2)
             S = invert_pdmat(self.W, return_inv=True)[-1]
             
         logp = np.zeros((len(x), self.num_classes), dtype=float_cpu())
@@ -103,8 +103,8 @@ class LinearGBEUP(LinearGBE):
 
     
     def fit(self, x, class_ids=None, p_theta=None, sample_weight=None):
-        x_m = x[:,:x.shape[-1]/2]
-        x_s = x[:,x.shape[-1]/2:]
+        x_m = x[:,:x.shape[-1]//2]
+        x_s = x[:,x.shape[-1]//2:]
         x = x_m
         assert class_ids is not None or p_theta is not None
 
-- 
2.43.0


From 33ee8f386cc02f3c7d967e78820963aad466f405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 094/241] fix: variance floor of the Gaussian back-end with
 uncertainty propagation

---
 hyperion/classifiers/linear_gbe_up.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_gbe_up.py b/hyperion/classifiers/linear_gbe_up.py
index edf67c8..5917001 100644
--- a/hyperion/classifiers/linear_gbe_up.py
+++ b/hyperion/classifiers/linear_gbe_up.py
@@ -173,7 +173,7 @@ class LinearGBEUP(LinearGBE):
                 S /= (nu0+np.sum(N))
 
             x_s_mean=np.diag(np.mean(x_s, axis=0))
-            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1)
+            S = fullcov_varfloor(S, np.sqrt(x_s_mean)*1.1, F_is_chol=True)
             S -= x_s_mean
             
             self.W = invert_pdmat(S, return_inv=True)[-1]
-- 
2.43.0


From 1f6a8b0716b8b1fc41df8e623bbf51211077c50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 095/241] fix: prior of QScoringHomoGBE can be rescaled

---
 hyperion/classifiers/q_scoring_homo_gbe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 304127f..dea7e77 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -64,7 +64,7 @@ class QScoringHomoGBE(HypModel):
             self.prior = QScoringHomoGBE.load(self.prior)
         num_classes = self.prior.mu.shape[0]
         if self.prior_N is not None:
-            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.W-1)
+            self.prior.W = 1 + self.prior_N/np.mean(self.prior.N)*(self.prior.W-1)
             self.prior.N = self.prior_N*np.ones((num_classes,), dtype=float_cpu())
 
 
-- 
2.43.0


From 327e4d4282cbad3988c5c6b6e108d2f0e1fac1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 096/241] fix: bias of logistic regression and SVM with bias
 scaling

---
 hyperion/classifiers/linear_svmc.py         | 2 +-
 hyperion/classifiers/logistic_regression.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 06de3d4..ac67bf9 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -60,7 +60,7 @@ class LinearSVMC(HypModel):
 
     @property
     def b(self):
-        return self.svm.intercept_*self.bias_scaling
+        return self.svm.intercept_
 
 
     def get_config(self):
diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 3283492..8e89e64 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -99,7 +99,7 @@ class LogisticRegression(HypModel):
             self.lr.coef_ = A.T
 
         if b is not None:
-            self.lr.intercept_ = b/self.bias_scaling
+            self.lr.intercept_ = b
 
 
     @property
@@ -108,7 +108,7 @@ class LogisticRegression(HypModel):
 
     @property
     def b(self):
-        return self.lr.intercept_*self.bias_scaling
+        return self.lr.intercept_
 
 
     def get_config(self):
@@ -159,10 +159,10 @@ class LogisticRegression(HypModel):
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
                 priors = self.priors[1]
-            self.lr.intercept_ -= np.log(priors/(1-priors))/self.bias_scaling
+            self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)/self.bias_scaling
+            self.lr.intercept_ -= np.log(self.priors)
 
 
             
-- 
2.43.0


From 03997878179a6d85df7e82b645a9dbbe7f6cc3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 097/241] fix: sign of the log-posteriors of the SVM

---
 hyperion/classifiers/linear_svmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index ac67bf9..5f65d05 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,7 +77,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return np.log(1+np.exp(-s))
+            return -np.log(1+np.exp(-s))
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-- 
2.43.0


From f121d4efe23bf9de6e56fa2763d01eb421c79c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 098/241] fix: binary logistic regression uses its
 regularisation and seed

---
 hyperion/classifiers/binary_logistic_regression.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index 2eb6045..b3735f7 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -21,11 +21,11 @@ class BinaryLogisticRegression(LogisticRegression):
         
         priors = {0:1-prior, 1:prior}
         super(BinaryLogisticRegression, self).__init__(
-            A=A, b=b, penalty=penalty, labmda_reg=lambda_reg,
+            A=A, b=b, penalty=penalty, lambda_reg=lambda_reg,
             use_bias=use_bias, bias_scaling=bias_scaling, priors=priors,
             random_state=random_state, solver=solver, max_iter=max_iter,
             dual=dual, tol=tol, verbose=verbose, warm_start=warm_start,
-            multi_class='ovr', lr_seed=1024, **kwargs)
+            multi_class='ovr', lr_seed=lr_seed, **kwargs)
 
 
 
-- 
2.43.0


From 1ff58e6d6c6a79c221206b444866a0ad67293424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 099/241] fix: logistic regression without priors or with a
 list of priors

---
 hyperion/classifiers/logistic_regression.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 8e89e64..a872001 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -120,6 +120,13 @@ class LogisticRegression(HypModel):
 
 
     
+    def _log_priors(self, num_classes):
+        if self.priors is None:
+            return -np.log(num_classes)*np.ones((num_classes,), dtype=float_cpu())
+        return np.log([self.priors[i] for i in xrange(num_classes)])
+
+
+
     def predict(self, x, eval_type='logit'):
         if x.ndim == 1:
             x = x[:, None]
@@ -127,9 +134,9 @@ class LogisticRegression(HypModel):
         y = np.dot(x, self.A) + self.b
 
         if eval_type == 'log-post':
-            y = np.log(softmax(y + np.log(self.priors), axis=1)+1e-10)
+            y = np.log(softmax(y + self._log_priors(y.shape[1]), axis=1)+1e-10)
         if eval_type == 'post':
-            y = softmax(y + np.log(self.priors))
+            y = softmax(y + self._log_priors(y.shape[1]))
         
         return y
         
@@ -145,7 +152,7 @@ class LogisticRegression(HypModel):
         if self.priors is None:
             priors = 1/num_classes * np.ones((num_classes,), dtype=float_cpu())
         else:
-            priors = [self.priors[i] for i in xrange(num_classes)]
+            priors = np.array([self.priors[i] for i in xrange(num_classes)], dtype=float_cpu())
         class_weights = priors/counts
         
         if sample_weight is None:
@@ -158,11 +165,11 @@ class LogisticRegression(HypModel):
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
             if len(self.lr.intercept_) == 1:
-                priors = self.priors[1]
+                priors = priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
             #adjust bias to produce log-llk
-            self.lr.intercept_ -= np.log(self.priors)
+            self.lr.intercept_ -= np.log(priors)
 
 
             
-- 
2.43.0


From 3c255b5dbe5c3804c3f072e0487ff11ac295ac07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 100/241] fix: logistic regression does not modify the sample
 weights

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index a872001..a9c1db5 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -158,7 +158,7 @@ class LogisticRegression(HypModel):
         if sample_weight is None:
             sample_weight = class_weights[class_ids]
         else:
-            sample_weight *= class_weights[class_ids]
+            sample_weight = sample_weight*class_weights[class_ids]
             
         self.lr.fit(x, class_ids, sample_weight=sample_weight)
 
-- 
2.43.0


From 78bcc21ead267f91e59af4146bbf76ed879669aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:39 +0000
Subject: [PATCH 101/241] fix: Gaussian calibration can be loaded

---
 hyperion/calibration/gauss_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/calibration/gauss_calibration.py b/hyperion/calibration/gauss_calibration.py
index f1d613f..70f083d 100644
--- a/hyperion/calibration/gauss_calibration.py
+++ b/hyperion/calibration/gauss_calibration.py
@@ -75,6 +75,6 @@ class GaussCalibration(HypModel):
     def load_params(cls, f, config):
         param_list = ['mu1', 'mu2', 'sigma2']
         params = cls._load_params_to_dict(f, config['name'], param_list)
-        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=config['sigma2'], name=config['name'])
+        return cls(mu1=params['mu1'], mu2=params['mu2'], sigma2=params['sigma2'], name=config['name'])
 
     
-- 
2.43.0


From cc3f8883e64ce10e531377fad452a48921b36c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:34 +0000
Subject: [PATCH 102/241] fix: binary logistic regression without bias can be
 trained

---
 hyperion/classifiers/logistic_regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index a9c1db5..2352ef0 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -164,7 +164,7 @@ class LogisticRegression(HypModel):
 
         if self.multi_class == 'ovr':
             #adjust bias to produce log-llk ratios
-            if len(self.lr.intercept_) == 1:
+            if np.size(self.lr.intercept_) == 1:
                 priors = priors[1]
             self.lr.intercept_ -= np.log(priors/(1-priors))
         else:
-- 
2.43.0


From b7489bc9d83e6325ef0e179da61b420a96a81e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 103/241] fix: score normalisers pass on their arguments;
 TZ-norm and ZT-norm can be created

---
 hyperion/score_norm/adapt_s_norm.py | 2 +-
 hyperion/score_norm/s_norm.py       | 2 +-
 hyperion/score_norm/score_norm.py   | 2 +-
 hyperion/score_norm/tz_norm.py      | 2 +-
 hyperion/score_norm/zt_norm.py      | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index abf7351..0448449 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -18,7 +18,7 @@ class AdaptSNorm(ScoreNorm):
     """Class for adaptive S-Norm
     """
     def __init__(self, nbest=100, nbest_discard=0, **kwargs):
-        super(AdaptSNorm, self).__init__(*kwargs)
+        super(AdaptSNorm, self).__init__(**kwargs)
         self.nbest = nbest
         self.nbest_discard = nbest_discard
 
diff --git a/hyperion/score_norm/s_norm.py b/hyperion/score_norm/s_norm.py
index deae2a8..f93a320 100644
--- a/hyperion/score_norm/s_norm.py
+++ b/hyperion/score_norm/s_norm.py
@@ -18,7 +18,7 @@ class SNorm(ScoreNorm):
     """ Class for S-Norm, symmetric score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(SNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/score_norm.py b/hyperion/score_norm/score_norm.py
index f81d99a..19e573d 100644
--- a/hyperion/score_norm/score_norm.py
+++ b/hyperion/score_norm/score_norm.py
@@ -16,7 +16,7 @@ class ScoreNorm(HypModel):
     Base class for score normalization
     """
     def __init__(self, std_floor=1e-5, **kwargs):
-        super(ScoreNorm, self).__init__(*kwargs)
+        super(ScoreNorm, self).__init__(**kwargs)
         self.std_floor = std_floor
 
     
diff --git a/hyperion/score_norm/tz_norm.py b/hyperion/score_norm/tz_norm.py
index 89bca45..164f5c8 100644
--- a/hyperion/score_norm/tz_norm.py
+++ b/hyperion/score_norm/tz_norm.py
@@ -17,7 +17,7 @@ class TZNorm(ScoreNorm):
     """Class for TZ-Norm score normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(TZNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index b0f9f9b..e3f7b05 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -18,7 +18,7 @@ class ZTNorm(ScoreNorm):
     """Class ZT-Norm score-normalization.
     """
     def __init__(self, **kwargs):
-        super(SNorm, self).__init__(*kwargs)
+        super(ZTNorm, self).__init__(**kwargs)
         self.t_norm = TNorm(**kwargs)
         self.z_norm = ZNorm(**kwargs)
 
-- 
2.43.0


From 1fcaead2941a8bd8e2c285981764f6ece3c717d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 104/241] fix: score normalisation with masks does not modify
 the cohort scores

---
 hyperion/score_norm/adapt_s_norm.py | 4 ++--
 hyperion/score_norm/t_norm.py       | 2 +-
 hyperion/score_norm/z_norm.py       | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 0448449..db134b0 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -34,9 +34,9 @@ class AdaptSNorm(ScoreNorm):
             nbest = self.nbest
 
         if mask_coh_test is not None:
-            scores_coh_test[mask_coh_test == False] = 0
+            scores_coh_test = np.where(mask_coh_test, scores_coh_test, 0)
         if mask_enr_coh is not None:
-            scores_enr_coh[mask_enr_coh == False] = 0
+            scores_enr_coh = np.where(mask_enr_coh, scores_enr_coh, 0)
             
         best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 11999e9..2299446 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -21,7 +21,7 @@ class TNorm(ScoreNorm):
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)
             s_t = np.std(scores_coh_test, axis=0, keepdims=True)
         else:
-            scores_coh_test[mask==False] = 0
+            scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
             s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b758268..9b968d8 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -22,7 +22,7 @@ class ZNorm(ScoreNorm):
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)
             s_z = np.std(scores_enr_coh, axis=1, keepdims=True)
         else:
-            scores_enr_coh[mask==False] = 0
+            scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
             s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
-- 
2.43.0


From 408e182d29d38c6981f4f4959324d04171904255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 105/241] fix: score normalisation with masks when the
 deviation rounds to less than zero

---
 hyperion/score_norm/t_norm.py | 2 +-
 hyperion/score_norm/z_norm.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 2299446..271c94a 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -24,7 +24,7 @@ class TNorm(ScoreNorm):
             scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2)
+            s_t = np.sqrt(np.maximum(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2, 0))
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index 9b968d8..b021220 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -25,7 +25,7 @@ class ZNorm(ScoreNorm):
             scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2)
+            s_z = np.sqrt(np.maximum(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2, 0))
 
         s_z[s_z<self.std_floor] = self.std_floor
         
-- 
2.43.0


From cefb908bbe656e64f9e69f1372aba3cb70bcfbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 106/241] fix: ZT-norm uses the mask of the cohort

---
 hyperion/score_norm/zt_norm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/score_norm/zt_norm.py b/hyperion/score_norm/zt_norm.py
index e3f7b05..9906b47 100644
--- a/hyperion/score_norm/zt_norm.py
+++ b/hyperion/score_norm/zt_norm.py
@@ -30,7 +30,7 @@ class ZTNorm(ScoreNorm):
         scores_z_norm = self.z_norm.predict(
             scores, scores_enr_coh, mask_enr_coh)
         scores_coh_test_z_norm = self.z_norm.predict(
-            scores_coh_test, scores_coh_coh, mask_enr_coh)
+            scores_coh_test, scores_coh_coh, mask_coh_coh)
         scores_zt_norm = self.t_norm.predict(
             scores_z_norm, scores_coh_test_z_norm, mask_coh_test)
         
-- 
2.43.0


From eb4bd147d9d3713003b57b175893c17276beb9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 107/241] fix: adaptive S-norm floors the deviations

---
 hyperion/score_norm/adapt_s_norm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index db134b0..3f788ee 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -56,6 +56,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
                                       axis=1, keepdims=True)/norm - mu_z**2)
 
+            s_z = np.maximum(s_z, self.std_floor)
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
@@ -77,6 +78,7 @@ class AdaptSNorm(ScoreNorm):
                 s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
                                       axis=0, keepdims=True)/norm - mu_z**2)
 
+            s_z = np.maximum(s_z, self.std_floor)
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
 
         
-- 
2.43.0


From 947a9e47e5d9f18f7aa057449e17be55587a9038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 108/241] fix: AHC flat clusters can be computed

---
 hyperion/clustering/ahc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index e0fe037..5d7a165 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -87,7 +87,7 @@ class AHC(HypModel):
 
     
 
-    def compute_flat_clusters():
+    def compute_flat_clusters(self):
         N = self.Z.shape[0]+1
         flat_clusters = np.zeros((N,N), dtype=int)
         flat_clusters[0] = np.arange(N, dtype=int)
@@ -98,7 +98,7 @@ class AHC(HypModel):
             flat_clusters[i+1][segm_idx] = N + i
 
         for i in xrange(1,N):
-            _, flat_clusters[i] = np.unique(flat_clusters, return_inverse=True)
+            _, flat_clusters[i] = np.unique(flat_clusters[i], return_inverse=True)
         self.flat_clusters = flat_clusters
 
 
-- 
2.43.0


From 0cb5035dc137f02ff151838856bbcbfd5d568551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 109/241] fix: AHC forgets the flat clusters of the previous
 data

---
 hyperion/clustering/ahc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 5d7a165..4d6c644 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -30,6 +30,7 @@ class AHC(HypModel):
         
     def fit(self, x, mask=None):
 
+        self.flat_clusters = None
         if mask is not None:
             x = copy(x)
             x[mask==False] = -1e10
-- 
2.43.0


From 360a4bcf110088e1ad55c644099863951584bb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 110/241] fix: AHC does not join masked pairs first when scores
 are distances

---
 hyperion/clustering/ahc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index 4d6c644..a5fe86c 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -33,7 +33,7 @@ class AHC(HypModel):
         self.flat_clusters = None
         if mask is not None:
             x = copy(x)
-            x[mask==False] = -1e10
+            x[mask==False] = -1e10 if self.metric in ('llr', 'prob') else 1e10
 
         idx = np.triu(np.ones_like(x, dtype=bool), k=1)
         scores = x[idx]
-- 
2.43.0


From c0843cb46f05161b4b83367e977f1f22fc47933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 111/241] fix: k-means keeps the centroids of empty clusters

---
 hyperion/clustering/kmeans.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/clustering/kmeans.py b/hyperion/clustering/kmeans.py
index ce09a4e..67d199a 100644
--- a/hyperion/clustering/kmeans.py
+++ b/hyperion/clustering/kmeans.py
@@ -57,7 +57,8 @@ class KMeans(HypModel):
 
     
     def _compute_centroids(self, x, index):
-        mu = np.zeros((self.num_clusters, x.shape[-1]), dtype=float_cpu())
+        # empty clusters keep their centroids
+        mu = np.array(self.mu, dtype=float_cpu())
         for k in xrange(self.num_clusters):
             r = index == k
             if np.sum(r)>0:
-- 
2.43.0


From f35dc4f02202713951e85bc3acfd1a984d134ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:59 +0000
Subject: [PATCH 112/241] fix: k-means does not choose the same seed twice

---
 hyperion/clustering/kmeans.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/clustering/kmeans.py b/hyperion/clustering/kmeans.py
index 67d199a..c4299ad 100644
--- a/hyperion/clustering/kmeans.py
+++ b/hyperion/clustering/kmeans.py
@@ -47,9 +47,10 @@ class KMeans(HypModel):
         mu = np.zeros((self.num_clusters, x.shape[-1]), dtype=float_cpu())
         mu[0] = x[0]
         for i in xrange(1, self.num_clusters):
-            d = np.zeros((x.shape[0],), dtype=float_cpu())
+            # distance to the closest seed, so that seeds are not repeated
+            d = np.inf*np.ones((x.shape[0],), dtype=float_cpu())
             for j in xrange(i):
-                d += np.sum(np.square(x-mu[j]), axis=-1)
+                d = np.minimum(d, np.sum(np.square(x-mu[j]), axis=-1))
             index = np.argmax(d)
             mu[i] = x[index]
         return mu
-- 
2.43.0


From b91307181e48f170d3f86941f999a9d69dafc2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:00 +0000
Subject: [PATCH 113/241] fix: AHC class impurity of a single cluster is zero

---
 hyperion/clustering/ahc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hyperion/clustering/ahc.py b/hyperion/clustering/ahc.py
index a5fe86c..fc1e2fb 100644
--- a/hyperion/clustering/ahc.py
+++ b/hyperion/clustering/ahc.py
@@ -117,5 +117,11 @@ class AHC(HypModel):
             h[i] = homogeneity_score(labels_true, self.flat_clusters[i])
             c[i] = completeness_score(labels_true, self.flat_clusters[i])
 
+        # with a single label the scores are 1 by definition, but
+        # rounding of its zero entropy can make them 0
+        c[N-1] = 1
+        if len(np.unique(labels_true)) == 1:
+            h[:] = 1
+
         return 1-h, 1-c
     
-- 
2.43.0


From 9043b5dc70d479003388918a1779ecc7b3cc889a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:26 +0000
Subject: [PATCH 114/241] fix: stop of OrderedQueue could hang if a task was
 submitted while closing

---
 hyperion/io/queues.py    | 3 ++-
 hyperion/utils/queues.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/queues.py b/hyperion/io/queues.py
index 5099eab..6bb9231 100644
--- a/hyperion/io/queues.py
+++ b/hyperion/io/queues.py
@@ -175,9 +175,10 @@ class OrderedQueue(SequenceQueue):
             self.queue.queue.clear()
             self.queue.unfinished_tasks = 0
             self.queue.not_full.notify()
+        # the thread submits tasks to the executor, it has to end first
+        self.run_thread.join(timeout)
         self.executor.close()
         self.executor.join()
-        self.run_thread.join(timeout)
 
 
 class GeneratorQueue(SequenceQueue):
diff --git a/hyperion/utils/queues.py b/hyperion/utils/queues.py
index 5099eab..6bb9231 100644
--- a/hyperion/utils/queues.py
+++ b/hyperion/utils/queues.py
@@ -175,9 +175,10 @@ class OrderedQueue(SequenceQueue):
             self.queue.queue.clear()
             self.queue.unfinished_tasks = 0
             self.queue.not_full.notify()
+        # the thread submits tasks to the executor, it has to end first
+        self.run_thread.join(timeout)
         self.executor.close()
         self.executor.join()
-        self.run_thread.join(timeout)
 
 
 class GeneratorQueue(SequenceQueue):
-- 
2.43.0


From c9c9c1eeb53f9ae2c0b0edfa4f37c4f7be29dfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 115/241] fix: rounding gives cohorts with masks a wrong
 deviation

---
 hyperion/score_norm/t_norm.py | 3 ++-
 hyperion/score_norm/z_norm.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/score_norm/t_norm.py b/hyperion/score_norm/t_norm.py
index 271c94a..69085c0 100644
--- a/hyperion/score_norm/t_norm.py
+++ b/hyperion/score_norm/t_norm.py
@@ -24,7 +24,8 @@ class TNorm(ScoreNorm):
             scores_coh_test = np.where(mask, scores_coh_test, 0)
             n_t = np.mean(mask, axis=0, keepdims=True)
             mu_t = np.mean(scores_coh_test, axis=0, keepdims=True)/n_t
-            s_t = np.sqrt(np.maximum(np.mean(scores_coh_test**2, axis=0, keepdims=True)/n_t - mu_t**2, 0))
+            delta = np.where(mask, scores_coh_test - mu_t, 0)
+            s_t = np.sqrt(np.mean(delta**2, axis=0, keepdims=True)/n_t)
             
         s_t[s_t<self.std_floor] = self.std_floor
         
diff --git a/hyperion/score_norm/z_norm.py b/hyperion/score_norm/z_norm.py
index b021220..ca582bc 100644
--- a/hyperion/score_norm/z_norm.py
+++ b/hyperion/score_norm/z_norm.py
@@ -25,7 +25,8 @@ class ZNorm(ScoreNorm):
             scores_enr_coh = np.where(mask, scores_enr_coh, 0)
             n_z = np.mean(mask, axis=1, keepdims=True)
             mu_z = np.mean(scores_enr_coh, axis=1, keepdims=True)/n_z
-            s_z = np.sqrt(np.maximum(np.mean(scores_enr_coh**2, axis=1, keepdims=True)/n_z - mu_z**2, 0))
+            delta = np.where(mask, scores_enr_coh - mu_z, 0)
+            s_z = np.sqrt(np.mean(delta**2, axis=1, keepdims=True)/n_z)
 
         s_z[s_z<self.std_floor] = self.std_floor
         
-- 
2.43.0


From c19566345ca81dfe8a50e9f1854fe1612a6a8a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 116/241] fix: trial data readers failed when dividing the
 trials in parts

---
 hyperion/helpers/classif_trial_data_reader.py    | 2 +-
 hyperion/helpers/multi_test_trial_data_reader.py | 2 +-
 hyperion/helpers/trial_data_reader.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/classif_trial_data_reader.py b/hyperion/helpers/classif_trial_data_reader.py
index 44e9b3b..b0c32a1 100644
--- a/hyperion/helpers/classif_trial_data_reader.py
+++ b/hyperion/helpers/classif_trial_data_reader.py
@@ -41,7 +41,7 @@ class ClassifTrialDataReader(object):
         ndx = TrialNdx(model_set, seg_set)
         logging.debug(num_seg_parts)
         if num_seg_parts > 1:
-            ndx = TrialNdx.split(1, 1, seg_idx, num_seg_parts)
+            ndx = ndx.split(1, 1, seg_idx, num_seg_parts)
 
         self.ndx = ndx
 
diff --git a/hyperion/helpers/multi_test_trial_data_reader.py b/hyperion/helpers/multi_test_trial_data_reader.py
index 71ac5a0..b8c7b3e 100644
--- a/hyperion/helpers/multi_test_trial_data_reader.py
+++ b/hyperion/helpers/multi_test_trial_data_reader.py
@@ -45,7 +45,7 @@ class MultiTestTrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
             subseg2orig =subseg2orig.filter_info(ndx.seg_set)
 
diff --git a/hyperion/helpers/trial_data_reader.py b/hyperion/helpers/trial_data_reader.py
index 1fdbeea..9ce9dd8 100644
--- a/hyperion/helpers/trial_data_reader.py
+++ b/hyperion/helpers/trial_data_reader.py
@@ -43,7 +43,7 @@ class TrialDataReader(object):
                 
         ndx, enroll = TrialNdx.parse_eval_set(ndx, enroll, test, eval_set)
         if num_model_parts > 1 or num_seg_parts > 1:
-            ndx = TrialNdx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
+            ndx = ndx.split(model_idx, num_model_parts, seg_idx, num_seg_parts)
             enroll = enroll.filter_info(ndx.model_set)
 
         self.enroll = enroll
-- 
2.43.0


From 4e76e764f4e52594fcc797a1c7e355677349f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 117/241] fix: VectorReader.filter_args lost the separator

---
 hyperion/helpers/vector_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_reader.py b/hyperion/helpers/vector_reader.py
index e19b913..7f9985a 100644
--- a/hyperion/helpers/vector_reader.py
+++ b/hyperion/helpers/vector_reader.py
@@ -45,7 +45,7 @@ class VectorReader(object):
         else:
             p = prefix + '_'
             
-        valid_args = ('vlist_sep')
+        valid_args = ('vlist_sep',)
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 2fbf999f4e9ab645f875d0dde32123a7f209893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 118/241] fix: options of VectorClassReader to split classes
 failed

---
 hyperion/helpers/vector_class_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 4c29374..957cd62 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -243,7 +243,7 @@ class VectorClassReader(object):
                             choices=['random', 'first', 'last'],
                             help=('vector pruning method when spc > max-spc'))
         parser.add_argument(p1+'csplit-min-spc', dest=(p2+'csplit_min_spc'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum samples per class when doing class spliting'))
         parser.add_argument(p1+'csplit-max-spc', dest=(p2+'csplit_max_spc'), type=int,
                             default=None,
@@ -252,9 +252,9 @@ class VectorClassReader(object):
 
         parser.add_argument(p1+'csplit-mode', dest=(p2+'csplit_mode'), 
                             default='random', type=str.lower,
-                            choices = ['sequential', 'random', 'random_1subclass'],
+                            choices = ['sequential', 'random', 'random_1part'],
                             help=('class splitting mode'))
-        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=float,
+        parser.add_argument(p1+'csplit-overlap', dest=(p2+'csplit_overlap'), type=int,
                             default=0, help=('overlap between subclasses'))
         parser.add_argument(p1+'no-csplit-once', dest=(p2+'csplit_once'), 
                             default=True, action='store_false',
-- 
2.43.0


From 669349cdacb8fd3a0b5dd50e649154b5279cc760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:39 +0000
Subject: [PATCH 119/241] fix: splitting several classes at random could
 overflow the list of vectors

---
 hyperion/helpers/vector_class_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/vector_class_reader.py b/hyperion/helpers/vector_class_reader.py
index 957cd62..b4a7e61 100644
--- a/hyperion/helpers/vector_class_reader.py
+++ b/hyperion/helpers/vector_class_reader.py
@@ -159,7 +159,7 @@ class VectorClassReader(object):
         num_classes = np.max(class_ids)+1
 
         shift = max_spc-overlap
-        new_indx = np.zeros(max_spc*int(np.max(num_spc)*num_classes/shift+1), dtype=int)
+        new_indx = np.zeros(max_spc*num_classes*int(np.ceil(np.max(num_spc)/shift)+1), dtype=int)
         new_class_ids = np.zeros_like(new_indx)
         
         j = 0
-- 
2.43.0


From 28c9e9260a1f1ce47633e488dfa5dc0f10f3f94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 120/241] fix: sequences with exactly the minimum length were
 counted but not read

---
 hyperion/helpers/sequence_post_reader.py | 2 +-
 hyperion/helpers/sequence_reader.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index b8b3425..e686487 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -101,7 +101,7 @@ class SequencePostReader(SequenceReader):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 99dae7d..8252921 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -193,7 +193,7 @@ class SequenceReader(object):
             seq_length = self.seq_length
             for i in xrange(self.cur_seq, self.num_seqs):
                 self.cur_seq += 1
-                if seq_length[i] > self.min_seq_length:
+                if seq_length[i] >= self.min_seq_length:
                     keys.append(self.scp.file_path[i])
                     j +=1
                     if j == self.batch_size:
-- 
2.43.0


From 09569401ebdea809fc1aa6e0c85d038a94f59496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 121/241] fix: sequences shorter than the overlap had a
 negative number of sub-sequences

---
 hyperion/helpers/sequence_reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 8252921..84bc36d 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -97,7 +97,8 @@ class SequenceReader(object):
                 num_subseqs = (seq_length >= self.min_seq_length).astype(int)
             else:
                 shift = self.max_seq_length - self.seq_split_overlap
-                num_subseqs = (np.floor((seq_length-self.seq_split_overlap)/shift)).astype(int)
+                num_subseqs = np.maximum(0, np.floor(
+                    (seq_length-self.seq_split_overlap)/shift)).astype(int)
                 remainder = seq_length - num_subseqs*shift
                 num_subseqs += (remainder >= self.min_seq_length).astype(int)
             self._num_subseqs = num_subseqs
-- 
2.43.0


From 66d546be3448d00fe9d4c5a065d86707cab473d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 122/241] fix: batches of sub-sequences failed when most of the
 sequences had been used

---
 hyperion/helpers/sequence_post_reader.py | 4 ++--
 hyperion/helpers/sequence_reader.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index e686487..c2a2e0f 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -124,7 +124,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -210,7 +210,7 @@ class SequencePostReader(SequenceReader):
         x = []
         keys = []
         r = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 84bc36d..c54253b 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -211,7 +211,7 @@ class SequenceReader(object):
         seq_length = self.seq_length
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 key = self.scp.file_path[self.cur_seq]
                 seq_length_i = min(
@@ -275,7 +275,7 @@ class SequenceReader(object):
         
         x = []
         keys = []
-        for i in xrange(np.sum(num_subseqs)):
+        for i in xrange(self.num_seqs*self.batch_size):
             if self.cur_subseq[self.cur_seq] < num_subseqs[self.cur_seq]:
                 if num_subseqs[self.cur_seq] == 1:
                     seq_length_i = min(self.max_seq_length, seq_length[self.cur_seq])
-- 
2.43.0


From 4bc04f83f422f64943694689967b6970432ddd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 123/241] fix: default minimum sequence length of the command
 line failed

---
 hyperion/helpers/sequence_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index c54253b..4063dda 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -344,7 +344,7 @@ class SequenceReader(object):
                             help=('keeps SUBSAMPLE %% of frames of the seq'))
 
         parser.add_argument(p1+'min-seq-length', dest=(p2+'min_seq_length'), type=int,
-                            default=None,
+                            default=1,
                             help=('minimum number of frames '
                                   'when we doing sequence splitting'))
         parser.add_argument(p1+'max-seq-length', dest=(p2+'max_seq_length'), type=int,
-- 
2.43.0


From fbfd90d8d83937cb70bae7b59bc8a1a08e716c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:40 +0000
Subject: [PATCH 124/241] fix: evaluation options of SequencePostReader without
 prefix lacked the number of components

---
 hyperion/helpers/sequence_post_reader.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/helpers/sequence_post_reader.py b/hyperion/helpers/sequence_post_reader.py
index c2a2e0f..d963756 100644
--- a/hyperion/helpers/sequence_post_reader.py
+++ b/hyperion/helpers/sequence_post_reader.py
@@ -302,9 +302,9 @@ class SequencePostReader(SequenceReader):
             p1 = '--' + prefix + '-'
             p2 = prefix + '_'
 
-            parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
-                                type=int,
-                                help=('number of GMM components'))
+        parser.add_argument(p1+'num-comp', dest=(p2+'num_comp'), default=2048,
+                            type=int,
+                            help=('number of GMM components'))
         
 
     
-- 
2.43.0


From a00814e4d17cef2adc48050c00c096e1efc1a984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 125/241] fix: lengths of pruned and balanced lists belonged to
 other sequences in SequenceBatchGeneratorV1

---
 hyperion/generators/sequence_batch_generator_v1.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 5f2a28d..cda01c4 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -160,7 +160,8 @@ class SequenceBatchGeneratorV1(object):
     def _prune_min_length(self, min_length):
         keep_idx = self.seq_lengths >= min_length
         self.u2c = self.u2c.filter_index(keep_idx)
-        self._seq_lengths = None
+        self._seq_lengths = self.seq_lengths[keep_idx]
+        self._init_seq_lengths = self._seq_lengths
 
 
         
@@ -205,8 +206,8 @@ class SequenceBatchGeneratorV1(object):
         # self.u2c.save('tmp.u2c')
         # self.u2c.save('/tmp.u2c')
         if self._init_seq_lengths is not None:
-            self._init_seq_legths = self._init_seq_lengths[idx]
-            self._seq_lengths = self._init_seq_legths
+            self._init_seq_lengths = self._init_seq_lengths[idx]
+            self._seq_lengths = self._init_seq_lengths
         
 
             
-- 
2.43.0


From 8dadbf21314ce8c8ed69a2ce5d4b31c51d8b8e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 126/241] fix: dividing the list of SequenceBatchGeneratorV1 in
 parts failed

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index cda01c4..71bde9e 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -49,7 +49,7 @@ class SequenceBatchGeneratorV1(object):
         self.r = RF.create(rspecifier, path_prefix=path_prefix, transform=transform, scp_sep=scp_sep)
         self.u2c = Utt2Info.load(key_file, sep=scp_sep)
         if num_parts > 1:
-            self.u2c = self.u2c.split(part_idx, num_parts, group_by_key=False)
+            self.u2c = self.u2c.split(part_idx, num_parts)
         self.batch_size = batch_size
 
         self.cur_epoch = init_epoch
-- 
2.43.0


From 89d2556084f91bf1a2235f09590795b8ac911ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 127/241] fix: second epoch of the batch generators repeated
 the first one

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 hyperion/generators/sequence_batch_generator_v2.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 71bde9e..810fcf3 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -293,8 +293,8 @@ class SequenceBatchGeneratorV1(object):
 
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 18806a9..19544b8 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -222,8 +222,8 @@ class SequenceBatchGeneratorV2(object):
         
         self.cur_step = (self.cur_step + 1) % self.steps_per_epoch
         if self.cur_step == 0:
-            self.reset()
             self.cur_epoch += 1
+            self.reset()
 
         r = [keys]
             
-- 
2.43.0


From d89ac6a0a0b54f38f84e6420fab2f294a000309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 128/241] fix: sequential SequenceBatchGeneratorV1 without
 balanced weights hung after one pass

---
 hyperion/generators/sequence_batch_generator_v1.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index 810fcf3..aab0d96 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -368,6 +368,9 @@ class SequenceBatchGeneratorV1(object):
             full_seq_length = self.seq_lengths[self.cur_seq]
             remainder_seq_length =  full_seq_length - first_frame
             if self.cur_subseq[self.cur_seq] == self.num_subseqs[self.cur_seq]:
+                if np.all(self.cur_subseq == self.num_subseqs):
+                    self.cur_subseq[:] = 0
+                    continue
                 self.cur_seq = (self.cur_seq + 1) % self.num_seqs
                 continue
             if self.cur_subseq[self.cur_seq] == self.num_subseqs[self.cur_seq]-1:
-- 
2.43.0


From bc0e9a074d0ae7f30447ef8165987aec3f1cacc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 129/241] fix: sequential pieces reached out of sequences
 shorter than the minimum length

---
 hyperion/generators/sequence_batch_generator_v1.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index aab0d96..b9fd292 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -380,12 +380,12 @@ class SequenceBatchGeneratorV1(object):
                 max_seq_length = min(
                     max(self.min_seq_length,
                         remainder_seq_length-self.min_seq_length),
-                    self.max_seq_length)
+                    self.max_seq_length, remainder_seq_length)
                 min_seq_length = min(remainder_seq_length, self.min_seq_length)
                 seq_length = self.rng.randint(low=min_seq_length, high=max_seq_length+1)
-                self.cur_frame[self.cur_seq] = min(
+                self.cur_frame[self.cur_seq] = max(0, min(
                     full_seq_length - self.min_seq_length,
-                    first_frame + seq_length - self.seq_overlap)
+                    first_frame + seq_length - self.seq_overlap))
             
             keys.append(key)
             seq_lengths.append(seq_length)
-- 
2.43.0


From 9810e6e0dcc76ce53619c3daeae0aad6acaaf970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 130/241] fix: utterance labels of SequenceBatchGeneratorV2
 failed

---
 hyperion/generators/sequence_batch_generator_v2.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/generators/sequence_batch_generator_v2.py b/hyperion/generators/sequence_batch_generator_v2.py
index 19544b8..777c3b5 100644
--- a/hyperion/generators/sequence_batch_generator_v2.py
+++ b/hyperion/generators/sequence_batch_generator_v2.py
@@ -243,8 +243,8 @@ class SequenceBatchGeneratorV2(object):
 
         if self.return_utt1hot:
             num_utts = int(np.ceil(self.batch_size/self.num_egs_per_utt))
-            _, utt_ids = np.unique(utt_idx, return_inverse=True)
-            z = np.zeros((len(keys), self.num_utts), dtype=float_cpu())
+            _, utt_ids = np.unique(utt_idx[:len(keys)], return_inverse=True)
+            z = np.zeros((len(keys), num_utts), dtype=float_cpu())
             for i,k in enumerate(utt_ids):
                 z[i,k] = 1
             r.append(z)
-- 
2.43.0


From cdf633f3f38661856b67bc9dfd8d5892da983d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:15 +0000
Subject: [PATCH 131/241] fix: batches of whole sequences failed at the end of
 the list

---
 hyperion/generators/sequence_batch_generator_v1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/generators/sequence_batch_generator_v1.py b/hyperion/generators/sequence_batch_generator_v1.py
index b9fd292..e22e3f3 100644
--- a/hyperion/generators/sequence_batch_generator_v1.py
+++ b/hyperion/generators/sequence_batch_generator_v1.py
@@ -322,7 +322,7 @@ class SequenceBatchGeneratorV1(object):
         
         if len(keys) < self.batch_size:
             delta = self.batch_size - len(keys)
-            keys += self.u2c.key[:delta]
+            keys += list(self.u2c.key[:delta])
             self.cur_seq = delta
             assert len(keys) == self.batch_size
 
-- 
2.43.0


From d03c312601e08f4fe306f037212f3556fba8e53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 132/241] fix: most command-line tools stopped with a
 SyntaxError (two docstrings before the __future__ imports)

---
 hyperion/bin/ark2hyp.py                   | 3 +--
 hyperion/bin/arkvad2nist.py               | 3 +--
 hyperion/bin/compute-gmm-post.py          | 3 +--
 hyperion/bin/eval-2class-performance.py   | 3 +--
 hyperion/bin/eval-cos-1vs1.py             | 3 +--
 hyperion/bin/eval-elbo-ubm.py             | 3 +--
 hyperion/bin/eval-linear-gbe-up.py        | 3 +--
 hyperion/bin/eval-linear-gbe.py           | 3 +--
 hyperion/bin/eval-linear-svmc.py          | 3 +--
 hyperion/bin/eval-logistic-regression.py  | 3 +--
 hyperion/bin/eval-plda-1vs1.py            | 3 +--
 hyperion/bin/eval-plda-nvs1.py            | 3 +--
 hyperion/bin/eval-q-scoring-homo-gbe.py   | 3 +--
 hyperion/bin/eval-score-norm.py           | 3 +--
 hyperion/bin/h5vad2nist.py                | 3 +--
 hyperion/bin/init-ubm.py                  | 2 --
 hyperion/bin/merge-h5-files.py            | 3 +--
 hyperion/bin/plot-vector-hist.py          | 3 +--
 hyperion/bin/plot-vector-tsne.py          | 3 +--
 hyperion/bin/train-cw-up.py               | 3 +--
 hyperion/bin/train-cw.py                  | 3 +--
 hyperion/bin/train-gaussianizer.py        | 3 +--
 hyperion/bin/train-lda.py                 | 3 +--
 hyperion/bin/train-linear-gbe-up.py       | 3 +--
 hyperion/bin/train-linear-gbe.py          | 3 +--
 hyperion/bin/train-linear-svmc.py         | 3 +--
 hyperion/bin/train-logistic-regression.py | 3 +--
 hyperion/bin/train-mvn.py                 | 3 +--
 hyperion/bin/train-nda.py                 | 3 +--
 hyperion/bin/train-pca.py                 | 3 +--
 hyperion/bin/train-plda.py                | 3 +--
 hyperion/bin/train-q-scoring-homo-gbe.py  | 3 +--
 32 files changed, 31 insertions(+), 64 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index cca7a23..784d0f8 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to h5 format (deprecated, use copy-feats.py)
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 9a09582..2186efd 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 5a16bf5..1720b37 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Computes GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index f47c805..aea9ef6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals EER, DCF, DET
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-cos-1vs1.py b/hyperion/bin/eval-cos-1vs1.py
index c8a0217..36f0e76 100755
--- a/hyperion/bin/eval-cos-1vs1.py
+++ b/hyperion/bin/eval-cos-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals cosine scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-elbo-ubm.py b/hyperion/bin/eval-elbo-ubm.py
index 9a4e960..d5e7bc7 100755
--- a/hyperion/bin/eval-elbo-ubm.py
+++ b/hyperion/bin/eval-elbo-ubm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evaluate the likelihood of the ubm on some data
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe-up.py b/hyperion/bin/eval-linear-gbe-up.py
index 3aeec95..85a401a 100755
--- a/hyperion/bin/eval-linear-gbe-up.py
+++ b/hyperion/bin/eval-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE with uncertainty propagation.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-gbe.py b/hyperion/bin/eval-linear-gbe.py
index 7fdcd7e..9ff4413 100755
--- a/hyperion/bin/eval-linear-gbe.py
+++ b/hyperion/bin/eval-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals linear GBE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-linear-svmc.py b/hyperion/bin/eval-linear-svmc.py
index a13a08f..7d4895e 100755
--- a/hyperion/bin/eval-linear-svmc.py
+++ b/hyperion/bin/eval-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals SVM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-logistic-regression.py b/hyperion/bin/eval-logistic-regression.py
index 28cb9a0..635ae85 100755
--- a/hyperion/bin/eval-logistic-regression.py
+++ b/hyperion/bin/eval-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals logistic regression
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-1vs1.py b/hyperion/bin/eval-plda-1vs1.py
index 35380da..4ead233 100755
--- a/hyperion/bin/eval-plda-1vs1.py
+++ b/hyperion/bin/eval-plda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-plda-nvs1.py b/hyperion/bin/eval-plda-nvs1.py
index 8cd2324..5612716 100755
--- a/hyperion/bin/eval-plda-nvs1.py
+++ b/hyperion/bin/eval-plda-nvs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PLDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-q-scoring-homo-gbe.py b/hyperion/bin/eval-q-scoring-homo-gbe.py
index de1b70c..5d4b2ab 100755
--- a/hyperion/bin/eval-q-scoring-homo-gbe.py
+++ b/hyperion/bin/eval-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals Q-scoring back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 52d0076..c54ec4f 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Score Normalization
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index 347fbff..f0e51cf 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Converts from Ark format to NIST OpenSAT
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index bbcf4be..5556315 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -2,9 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
 
-"""
 Initialize UBM
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/merge-h5-files.py b/hyperion/bin/merge-h5-files.py
index 2a2b6c0..0a95940 100755
--- a/hyperion/bin/merge-h5-files.py
+++ b/hyperion/bin/merge-h5-files.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Merges multiple hdf5 files into one file
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-hist.py b/hyperion/bin/plot-vector-hist.py
index 6af79db..981d315 100755
--- a/hyperion/bin/plot-vector-hist.py
+++ b/hyperion/bin/plot-vector-hist.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plot histogram of i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/plot-vector-tsne.py b/hyperion/bin/plot-vector-tsne.py
index 9aea1ff..63bd0ab 100755
--- a/hyperion/bin/plot-vector-tsne.py
+++ b/hyperion/bin/plot-vector-tsne.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Plots TSNE embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index a4e7592..d66976f 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening with uncertainty prop.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index b5d3a55..9128e20 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Centering and whitening
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 40996f3..22323f0 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Gaussianization for i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index be34061..da53891 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains LDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe-up.py b/hyperion/bin/train-linear-gbe-up.py
index f381482..6758c34 100755
--- a/hyperion/bin/train-linear-gbe-up.py
+++ b/hyperion/bin/train-linear-gbe-up.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear GBE with uncertainty propagation
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-gbe.py b/hyperion/bin/train-linear-gbe.py
index 4f0aefb..2036930 100755
--- a/hyperion/bin/train-linear-gbe.py
+++ b/hyperion/bin/train-linear-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear Gaussian back-end
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index bb4353d..b849fd0 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear SVM classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 82985a4..61fecd4 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains linear logistic regression classifier
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-mvn.py b/hyperion/bin/train-mvn.py
index a91863b..ca42e4f 100755
--- a/hyperion/bin/train-mvn.py
+++ b/hyperion/bin/train-mvn.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains global mean and variance normalization of i-vectors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index a8755fa..157e7f3 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains NDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-pca.py b/hyperion/bin/train-pca.py
index 2bdb27d..d657183 100755
--- a/hyperion/bin/train-pca.py
+++ b/hyperion/bin/train-pca.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PCA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-plda.py b/hyperion/bin/train-plda.py
index e5af64f..782818a 100755
--- a/hyperion/bin/train-plda.py
+++ b/hyperion/bin/train-plda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PLDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/train-q-scoring-homo-gbe.py b/hyperion/bin/train-q-scoring-homo-gbe.py
index 0ce739c..19d9def 100755
--- a/hyperion/bin/train-q-scoring-homo-gbe.py
+++ b/hyperion/bin/train-q-scoring-homo-gbe.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains Q-scoring back-end
 """
 from __future__ import absolute_import
-- 
2.43.0


From 8299c2ec239d02c76d3c2c0e53dfebf6136c229a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 133/241] fix: --update-mu/--update-t of PCA and
 centering-whitening took False as True

---
 hyperion/transforms/cent_whiten.py | 5 +++--
 hyperion/transforms/pca.py         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index b29d999..bdfd933 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 class CentWhiten(HypModel):
@@ -133,11 +134,11 @@ class CentWhiten(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
 
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
 
         parser.add_argument('--name', dest='name', default='lnorm')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 73629d9..8d335e3 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -13,6 +13,7 @@ import h5py
 import scipy.linalg as la
 
 from ..hyp_model import HypModel
+from ..utils.misc import str2bool
 from ..pdfs import Normal
 
 
@@ -128,10 +129,10 @@ class PCA(HypModel):
             p2 = prefix + '_'
             
         parser.add_argument(p1+'update-mu', dest=(p2+'update_mu'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates centering parameter'))
         parser.add_argument(p1+'update-t', dest=(p2+'update_T'), default=True,
-                            type=bool,
+                            type=str2bool,
                             help=('updates whitening parameter'))
         parser.add_argument(p1+'pca-dim', dest=(p2+'pca_dim'), default=None,
                             type=int,
-- 
2.43.0


From 08cdc005ca5ebd39d8828570f38305cfdab2c943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 134/241] fix: the name option of PCA, CentWhiten and
 Gaussianizer ignored the prefix

---
 hyperion/transforms/cent_whiten.py  | 2 +-
 hyperion/transforms/gaussianizer.py | 2 +-
 hyperion/transforms/pca.py          | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/transforms/cent_whiten.py b/hyperion/transforms/cent_whiten.py
index bdfd933..6750a83 100644
--- a/hyperion/transforms/cent_whiten.py
+++ b/hyperion/transforms/cent_whiten.py
@@ -141,4 +141,4 @@ class CentWhiten(HypModel):
                             type=str2bool,
                             help=('updates whitening parameter'))
 
-        parser.add_argument('--name', dest='name', default='lnorm')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='lnorm')
diff --git a/hyperion/transforms/gaussianizer.py b/hyperion/transforms/gaussianizer.py
index 58ed0c3..b7e5048 100644
--- a/hyperion/transforms/gaussianizer.py
+++ b/hyperion/transforms/gaussianizer.py
@@ -120,4 +120,4 @@ class Gaussianizer(HypModel):
                             type=int,
                             help=('maximum number of background vectors'))
 
-        parser.add_argument('--name', dest='name', default='gauss')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='gauss')
diff --git a/hyperion/transforms/pca.py b/hyperion/transforms/pca.py
index 8d335e3..f3a646e 100644
--- a/hyperion/transforms/pca.py
+++ b/hyperion/transforms/pca.py
@@ -138,4 +138,4 @@ class PCA(HypModel):
                             type=int,
                             help=('output dimension of PCA'))
 
-        parser.add_argument('--name', dest='name', default='pca')
+        parser.add_argument(p1+'name', dest=(p2+'name'), default='pca')
-- 
2.43.0


From 531adbc15b7d083675891d05da99bffa7b48e218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 135/241] fix: train-lda failed for lack of its verbose option

---
 hyperion/bin/train-lda.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/train-lda.py b/hyperion/bin/train-lda.py
index da53891..9a4ebc0 100755
--- a/hyperion/bin/train-lda.py
+++ b/hyperion/bin/train-lda.py
@@ -82,6 +82,7 @@ if __name__ == "__main__":
     parser.add_argument('--no-append-tlist', dest='append_tlist', 
                         default=True, action='store_false')
     parser.add_argument('--name', dest='name', default='lda')
+    parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
     args=parser.parse_args()
     config_logger(args.verbose)
     del args.verbose
-- 
2.43.0


From 9b60afc9a23991ecdab2af80716ff5b95d9d2f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 136/241] fix: train-cw did not load the model that it
 continues from

---
 hyperion/bin/train-cw-up.py | 2 +-
 hyperion/bin/train-cw.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-cw-up.py b/hyperion/bin/train-cw-up.py
index d66976f..7127715 100755
--- a/hyperion/bin/train-cw-up.py
+++ b/hyperion/bin/train-cw-up.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNormUP.load(input_path)
         else:
-            return CentWhitenUP(input_path)
+            return CentWhitenUP.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
diff --git a/hyperion/bin/train-cw.py b/hyperion/bin/train-cw.py
index 9128e20..9d0e487 100755
--- a/hyperion/bin/train-cw.py
+++ b/hyperion/bin/train-cw.py
@@ -36,7 +36,7 @@ def load_model(input_path, with_lnorm, name, **kwargs):
         if with_lnorm:
             return LNorm.load(input_path)
         else:
-            return CentWhiten(input_path)
+            return CentWhiten.load(input_path)
     except:
         tfl = TransformList.load(input_path)
         for tf in tfl.transforms:
-- 
2.43.0


From e390d9cfd922aae3d8d70a75b85d8573893c007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 137/241] fix: train-gaussianizer could not continue from a
 list of transforms

---
 hyperion/bin/train-gaussianizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-gaussianizer.py b/hyperion/bin/train-gaussianizer.py
index 22323f0..c83848c 100755
--- a/hyperion/bin/train-gaussianizer.py
+++ b/hyperion/bin/train-gaussianizer.py
@@ -24,10 +24,10 @@ from hyperion.pdfs.core import Normal
 from hyperion.transforms import TransformList, Gaussianizer
 
 
-def load_model(input_path, **kwargs):
+def load_model(input_path, name, **kwargs):
 
     if input_path is None:
-        return Gaussianizer(**kwargs)
+        return Gaussianizer(name=name, **kwargs)
 
     try:
         return Gaussianizer.load(input_path)
-- 
2.43.0


From 186b67cf788720789bf7da2b778f5312ea254617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:19 +0000
Subject: [PATCH 138/241] fix: train-nda could not import NSbSw

---
 hyperion/transforms/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/transforms/__init__.py b/hyperion/transforms/__init__.py
index d38753d..3cc1260 100644
--- a/hyperion/transforms/__init__.py
+++ b/hyperion/transforms/__init__.py
@@ -6,7 +6,7 @@ from __future__ import absolute_import
 
 from .cent_whiten import CentWhiten
 from .lnorm import LNorm
-from .sb_sw import SbSw
+from .sb_sw import SbSw, NSbSw
 from .pca import PCA
 from .lda import LDA
 from .nda import NDA
-- 
2.43.0


From 7fc3529fe3c1a0a49120104bdbff0afc882868e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 139/241] fix: centering without whitening with uncertainty
 propagation failed

---
 hyperion/transforms/cent_whiten_up.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hyperion/transforms/cent_whiten_up.py b/hyperion/transforms/cent_whiten_up.py
index 98daa09..861d2f6 100644
--- a/hyperion/transforms/cent_whiten_up.py
+++ b/hyperion/transforms/cent_whiten_up.py
@@ -30,7 +30,11 @@ class CentWhitenUP(CentWhiten):
         m_x = x[:,:x_dim]
         s2_x = x[:,x_dim:]
         m_x = super(CentWhitenUP, self).predict(m_x)
-        s2_x = np.dot(s2_x, self.T**2)
+        if self.T is not None:
+            if self.T.ndim == 1:
+                s2_x = s2_x*self.T**2
+            else:
+                s2_x = np.dot(s2_x, self.T**2)
         return np.hstack((m_x, s2_x))
 
 
-- 
2.43.0


From d3b642721fd993262a0a3020ca165c80d7ab47f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:38 +0000
Subject: [PATCH 140/241] fix: train-nda logged statistics with another number
 of neighbours, which failed for small classes

---
 hyperion/bin/train-nda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/train-nda.py b/hyperion/bin/train-nda.py
index 157e7f3..518b794 100755
--- a/hyperion/bin/train-nda.py
+++ b/hyperion/bin/train-nda.py
@@ -49,7 +49,7 @@ def train_nda(iv_file, train_list, preproc_file,
     
     x = model.predict(x)
 
-    s_mat = NSbSw()
+    s_mat = NSbSw(K=K, alpha=alpha)
     s_mat.fit(x, class_ids)
     logging.debug(s_mat.Sb[:4,:4])
     logging.debug(s_mat.Sw[:4,:4])
-- 
2.43.0


From 23cdc6690007ee0ecefc2be6f14cf42fe87da24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 141/241] fix: train-linear-svmc and train-logistic-regression
 failed, their verbose option conflicted with that of the model

---
 hyperion/bin/train-linear-svmc.py         | 2 +-
 hyperion/bin/train-logistic-regression.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/train-linear-svmc.py b/hyperion/bin/train-linear-svmc.py
index b849fd0..8ad2e13 100755
--- a/hyperion/bin/train-linear-svmc.py
+++ b/hyperion/bin/train-linear-svmc.py
@@ -51,7 +51,7 @@ if __name__ == "__main__":
 
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-        fromfile_prefix_chars='@',
+        fromfile_prefix_chars='@', conflict_handler='resolve',
         description='Train linear SVM classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
diff --git a/hyperion/bin/train-logistic-regression.py b/hyperion/bin/train-logistic-regression.py
index 61fecd4..772adf3 100755
--- a/hyperion/bin/train-logistic-regression.py
+++ b/hyperion/bin/train-logistic-regression.py
@@ -51,7 +51,7 @@ if __name__ == "__main__":
 
     parser=argparse.ArgumentParser(
         formatter_class=argparse.ArgumentDefaultsHelpFormatter,
-        fromfile_prefix_chars='@',
+        fromfile_prefix_chars='@', conflict_handler='resolve',
         description='Train linear logistic regression classifier')
 
     parser.add_argument('--iv-file', dest='iv_file', required=True)
-- 
2.43.0


From e192260d05d5ecabfbab3bddb982b3da8bfc8d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 142/241] fix: eval-score-norm called a missing module,
 function and argument

---
 hyperion/bin/eval-score-norm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index c54ec4f..ddaf163 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import config_logger
 from hyperion.score_norm import *
-from hyperion.utils.trial_scroes import TrialScores
+from hyperion.utils.trial_scores import TrialScores
 from hyperion.utils.trial_ndx import TrialNdx
 
 
@@ -52,7 +52,7 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
 
 
 
-def score_norm(score_file, ouput_file, norm_type,
+def score_norm(score_file, output_file, norm_type,
                enr_coh_file=None, coh_test_file=None, coh_coh_file=None,
                adapt_coh=None):
 
@@ -88,7 +88,7 @@ def score_norm(score_file, ouput_file, norm_type,
                                    scores_coh_coh.scores)
 
     scores.scores = scores_norm
-    scores.save(ouput_file)
+    scores.save(output_file)
     
 
     
@@ -114,6 +114,6 @@ if __name__ == "__main__":
     del args.verbose
     logging.debug(args)
     
-    eval_score_norm(**vars(args))
+    score_norm(**vars(args))
 
     
-- 
2.43.0


From 7e70318a914175596c37b25091eba082570ee266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 143/241] fix: eval-score-norm used the sets of cohort scores
 before reading them

---
 hyperion/bin/eval-score-norm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index ddaf163..1777abc 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -33,13 +33,13 @@ def load_scores(score_file, enr_coh_file, coh_test_file, coh_coh_file):
     scores_coh_coh = None
     
     if enr_coh_file is not None:
-        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = TrialScores.load(enr_coh_file)
+        ndx = TrialNdx(scores.model_set, scores_enr_coh.seg_set)
         scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
 
     if coh_test_file is not None:
-        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = TrialScores.load(coh_test_file)
+        ndx = TrialNdx(scores_coh_test.model_set, scores.seg_set)
         scores_coh_test = scores_coh_test.align_with_ndx(ndx)
 
     if coh_coh_file is not None:
-- 
2.43.0


From 011e7edc5a94529abcd6b47bd30c5a997d49bd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 144/241] fix: eval-score-norm did not know the normalisations
 of its own options

---
 hyperion/bin/eval-score-norm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 1777abc..83894c5 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -59,17 +59,17 @@ def score_norm(score_file, output_file, norm_type,
     scores, scores_enr_coh, scores_coh_test, scores_coh_coh = load_scores(
         score_file, enr_coh_file, coh_test_file, coh_coh_file)
 
-    if norm_type == 't_norm':
+    if norm_type == 't-norm':
         assert scores_coh_test is not None
         norm = TNorm()
         scores_norm = norm.predict(scores.scores, scores_coh_test.scores)
 
-    if norm_type == 'z_norm':
+    if norm_type == 'z-norm':
         assert scores_enr_coh is not None
         norm = ZNorm()
         scores_norm = norm.predict(scores.scores, scores_enr_coh.scores)
 
-    if norm_type == 'zt_norm':
+    if norm_type == 'zt-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = ZTNorm()
@@ -78,7 +78,7 @@ def score_norm(score_file, output_file, norm_type,
                                    scores_enr_coh.scores,
                                    scores_coh_coh.scores)
 
-    if norm_type == 's_norm':
+    if norm_type == 's-norm':
         assert(scores_enr_coh is not None and scores_coh_test is not None
                and scores_coh_coh is not None)
         norm = SNorm()
-- 
2.43.0


From d852e6d2cb3330d6c4eba09071444c0bc423513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 145/241] fix: eval-score-norm took the scores between cohorts
 as the mask of s-norm

---
 hyperion/bin/eval-score-norm.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 83894c5..1992936 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -79,13 +79,11 @@ def score_norm(score_file, output_file, norm_type,
                                    scores_coh_coh.scores)
 
     if norm_type == 's-norm':
-        assert(scores_enr_coh is not None and scores_coh_test is not None
-               and scores_coh_coh is not None)
+        assert scores_enr_coh is not None and scores_coh_test is not None
         norm = SNorm()
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
-                                   scores_enr_coh.scores,
-                                   scores_coh_coh.scores)
+                                   scores_enr_coh.scores)
 
     scores.scores = scores_norm
     scores.save(output_file)
-- 
2.43.0


From 30ef2153e94cfccb141134187a96e7c2620090e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:19 +0000
Subject: [PATCH 146/241] fix: eval-score-norm ignored --adapt-coh

---
 hyperion/bin/eval-score-norm.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperion/bin/eval-score-norm.py b/hyperion/bin/eval-score-norm.py
index 1992936..2a93a0e 100755
--- a/hyperion/bin/eval-score-norm.py
+++ b/hyperion/bin/eval-score-norm.py
@@ -80,7 +80,12 @@ def score_norm(score_file, output_file, norm_type,
 
     if norm_type == 's-norm':
         assert scores_enr_coh is not None and scores_coh_test is not None
-        norm = SNorm()
+        if adapt_coh is None:
+            norm = SNorm()
+        else:
+            norm = AdaptSNorm(nbest=adapt_coh)
+            ndx = TrialNdx(scores.model_set, scores_coh_test.model_set)
+            scores_enr_coh = scores_enr_coh.align_with_ndx(ndx)
         scores_norm = norm.predict(scores.scores,
                                    scores_coh_test.scores,
                                    scores_enr_coh.scores)
-- 
2.43.0


From f259c3816333a42a9f7eadfbd2b4fba5cf135864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 147/241] fix: KaldiDataReader ignored the position of the data
 in the ark file

---
 hyperion/io/kaldi_data_reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bc7c3d3..bb53f1f 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -24,13 +24,18 @@ class KaldiDataReader(object):
             self.cur_record=0
             
             scp = SCPList.load(file_path, sep=sep)
+            scp_path = scp.file_path
+            if scp.offset is not None:
+                  # _open takes the position in the file after a colon
+                  scp_path = [v if o < 0 else '%s:%d' % (v, o)
+                              for (v, o) in zip(scp_path, scp.offset)]
             if input_dir is None:
                   self.scp = OrderedDict((k, v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+                                         zip(scp.key, scp_path))
             else:
                   input_dir+='/'
                   self.scp = OrderedDict((k, input_dir+v) for (k, v) in
-                                         zip(scp.key, scp.file_path))
+                                         zip(scp.key, scp_path))
 
                   
       def read(self, keys=None, num_records=None, first_record=None, squeeze=False):
-- 
2.43.0


From b44525936b4e4161ced8363101f005f97a313ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:17 +0000
Subject: [PATCH 148/241] fix: KaldiDataReader forgot that it was at the end
 after reading the rest of the records

---
 hyperion/io/kaldi_data_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/kaldi_data_reader.py b/hyperion/io/kaldi_data_reader.py
index bb53f1f..b78671d 100644
--- a/hyperion/io/kaldi_data_reader.py
+++ b/hyperion/io/kaldi_data_reader.py
@@ -46,7 +46,7 @@ class KaldiDataReader(object):
                         
                   if num_records is None:
                         keys = keys[self.cur_record:]
-                        self.cur_record = len(keys)
+                        self.cur_record = len(self.scp)
                   else:
                         final_record = min(self.cur_record+num_records, len(keys))
                         keys = keys[self.cur_record:final_record]
-- 
2.43.0


From 45ccdc5588535a604d50845d5ca0d1559a29e577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 149/241] fix: intervals of arkvad2nist and h5vad2nist ended
 one frame early

---
 hyperion/bin/arkvad2nist.py | 2 +-
 hyperion/bin/h5vad2nist.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 2186efd..664bbcd 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -22,7 +22,7 @@ from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
     delta = np.abs(np.diff(vad))
-    change_points = np.where(delta>0)[0]
+    change_points = np.where(delta>0)[0] + 1
     num_interv = len(change_points)+1
     if vad[0] == 1:
         speech = True
diff --git a/hyperion/bin/h5vad2nist.py b/hyperion/bin/h5vad2nist.py
index f0e51cf..6c64329 100755
--- a/hyperion/bin/h5vad2nist.py
+++ b/hyperion/bin/h5vad2nist.py
@@ -22,7 +22,7 @@ from hyperion.io import HypDataReader
 
 def bin2intervals(vad):
     delta = np.abs(np.diff(vad))
-    change_points = np.where(delta>0)[0]
+    change_points = np.where(delta>0)[0] + 1
     num_interv = len(change_points)+1
     if vad[0] == 1:
         speech = True
-- 
2.43.0


From ecb55456783228ccfa4c72e6a8bbb49b85e083fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 150/241] fix: arkvad2nist did not import config_logger

---
 hyperion/bin/arkvad2nist.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/arkvad2nist.py b/hyperion/bin/arkvad2nist.py
index 664bbcd..a5559b5 100755
--- a/hyperion/bin/arkvad2nist.py
+++ b/hyperion/bin/arkvad2nist.py
@@ -18,6 +18,7 @@ import logging
 import numpy as np
 
 
+from hyperion.hyp_defs import config_logger
 from hyperion.io import KaldiDataReader
 
 def bin2intervals(vad):
-- 
2.43.0


From 2a8fe21863d93f416f68b99364ca3a8636ba2f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 151/241] fix: eval-2class-performance and ark2hyp failed when
 the output file is in the current directory

---
 hyperion/bin/ark2hyp.py                 | 2 +-
 hyperion/bin/eval-2class-performance.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/ark2hyp.py b/hyperion/bin/ark2hyp.py
index 784d0f8..af64d3d 100755
--- a/hyperion/bin/ark2hyp.py
+++ b/hyperion/bin/ark2hyp.py
@@ -22,7 +22,7 @@ from hyperion.io import HypDataWriter, KaldiDataReader
 def ark2hyp(input_file, input_dir, output_file, field, chunk_size, squeeze):
 
     output_dir = os.path.dirname(output_file)
-    if not os.path.exists(output_dir):
+    if output_dir != '' and not os.path.exists(output_dir):
         os.makedirs(output_dir)
     
     ark_r = KaldiDataReader(input_file, input_dir)
diff --git a/hyperion/bin/eval-2class-performance.py b/hyperion/bin/eval-2class-performance.py
index aea9ef6..a78fee6 100755
--- a/hyperion/bin/eval-2class-performance.py
+++ b/hyperion/bin/eval-2class-performance.py
@@ -29,7 +29,7 @@ def eval_2class_performance(score_file, key_file, output_path):
     key = TrialKey.load(key_file)
 
     output_dir = os.path.dirname(output_path)
-    if not(os.path.isdir(output_dir)):
+    if output_dir != '' and not(os.path.isdir(output_dir)):
         os.makedirs(output_dir, exist_ok=True)
     
     tar, non = scr.get_tar_non(key)
-- 
2.43.0


From 0641e220a34ffe232f77d2ae93f9224b99c7be22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 152/241] fix: init-ubm and compute-gmm-post imported keras,
 which they do not use

---
 hyperion/bin/compute-gmm-post.py | 1 -
 hyperion/bin/init-ubm.py         | 1 -
 2 files changed, 2 deletions(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 1720b37..d9e9f12 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -18,7 +18,6 @@ import logging
 
 import numpy as np
 
-from keras import backend as K
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.io import HypDataWriter
diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index 5556315..dfda77c 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -18,7 +18,6 @@ import logging
 
 import numpy as np
 
-from keras import backend as K
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.utils.multithreading import threadsafe_generator
-- 
2.43.0


From d222a9d155f679f8aa88a9f568873a879404aa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:29 +0000
Subject: [PATCH 153/241] fix: compute-gmm-post called a function that does not
 exist

---
 hyperion/bin/compute-gmm-post.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index d9e9f12..3b76793 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -73,10 +73,10 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-            logging.degug(np.sort(r[0,:])[-12:])
-            logging.degug(np.sort(r2[0,:])[-12:])
-            logging.degug(np.argsort(r[0,:])[-12:])
-            logging.degug(np.argsort(r2[0,:])[-12:])
+            logging.debug(np.sort(r[0,:])[-12:])
+            logging.debug(np.sort(r2[0,:])[-12:])
+            logging.debug(np.argsort(r[0,:])[-12:])
+            logging.debug(np.argsort(r2[0,:])[-12:])
 
         hw.write([key], '.r', [r_s])
         hw.write([key], '.index', [index])
-- 
2.43.0


From e1b104c100b6d39990874296379ad6aa630afacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 154/241] fix: filter_eval_args could not be called without
 prefix, as the tools do

---
 hyperion/classifiers/linear_gbe.py          | 2 +-
 hyperion/classifiers/linear_gbe1.py         | 2 +-
 hyperion/classifiers/linear_svmc.py         | 2 +-
 hyperion/classifiers/logistic_regression.py | 2 +-
 hyperion/classifiers/q_scoring_homo_gbe.py  | 2 +-
 hyperion/helpers/plda_factory.py            | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index 0346153..407403f 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -321,7 +321,7 @@ class LinearGBE(HypModel):
         
 
     @staticmethod
-    def filter_eval_args(prefix, **kwargs):
+    def filter_eval_args(prefix=None, **kwargs):
         if prefix is None:
             p = ''
         else:
diff --git a/hyperion/classifiers/linear_gbe1.py b/hyperion/classifiers/linear_gbe1.py
index 188cfef..fd3c1b8 100644
--- a/hyperion/classifiers/linear_gbe1.py
+++ b/hyperion/classifiers/linear_gbe1.py
@@ -210,7 +210,7 @@ class LinearGBE(HypModel):
         
 
     @staticmethod
-    def filter_eval_args(prefix, **kwargs):
+    def filter_eval_args(prefix=None, **kwargs):
         if prefix is None:
             p = ''
         else:
diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 5f65d05..3a37a87 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -179,7 +179,7 @@ class LinearSVMC(HypModel):
         
 
     @staticmethod
-    def filter_eval_args(prefix, **kwargs):
+    def filter_eval_args(prefix=None, **kwargs):
         if prefix is None:
             p = ''
         else:
diff --git a/hyperion/classifiers/logistic_regression.py b/hyperion/classifiers/logistic_regression.py
index 2352ef0..5de9a8d 100644
--- a/hyperion/classifiers/logistic_regression.py
+++ b/hyperion/classifiers/logistic_regression.py
@@ -270,7 +270,7 @@ class LogisticRegression(HypModel):
         
 
     @staticmethod
-    def filter_eval_args(prefix, **kwargs):
+    def filter_eval_args(prefix=None, **kwargs):
         if prefix is None:
             p = ''
         else:
diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index dea7e77..79ea2c9 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -253,7 +253,7 @@ class QScoringHomoGBE(HypModel):
         
 
     @staticmethod
-    def filter_eval_args(prefix, **kwargs):
+    def filter_eval_args(prefix=None, **kwargs):
         if prefix is None:
             p = ''
         else:
diff --git a/hyperion/helpers/plda_factory.py b/hyperion/helpers/plda_factory.py
index ff91868..7363517 100644
--- a/hyperion/helpers/plda_factory.py
+++ b/hyperion/helpers/plda_factory.py
@@ -141,7 +141,7 @@ class PLDAFactory(object):
         
 
     @staticmethod
-    def filter_eval_args(prefix, **kwargs):
+    def filter_eval_args(prefix=None, **kwargs):
         if prefix is None:
             p = ''
         else:
-- 
2.43.0


From caa6249bdb4eaf4c07647b474dd636257a18ca62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 155/241] fix: compute-gmm-post called a method that does not
 exist

---
 hyperion/bin/compute-gmm-post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 3b76793..0075155 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -69,7 +69,7 @@ def compute_gmm_post(seq_file, file_list, model_file, preproc_file, output_path,
     for i in xrange(sr.num_seqs):
         x, key = sr.read_next_seq()
         logging.info('Extracting i-vector %d/%d for %s, num_frames: %d' % (i, sr.num_seqs, key, x.shape[0]))
-        r = gmm.compute_z(x)
+        r = gmm.compute_pz(x)
         r_s, index = to_sparse(r, num_comp)
         if i==0:
             r2 = to_dense(r_s, index, r.shape[1])
-- 
2.43.0


From ee31ba9431f5049d84f7c0ac3fb40032ea8ea3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 156/241] fix: compute-gmm-post took the number of components
 as text

---
 hyperion/bin/compute-gmm-post.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/compute-gmm-post.py b/hyperion/bin/compute-gmm-post.py
index 0075155..12fd7ad 100755
--- a/hyperion/bin/compute-gmm-post.py
+++ b/hyperion/bin/compute-gmm-post.py
@@ -97,7 +97,7 @@ if __name__ == "__main__":
     parser.add_argument('--preproc-file', dest='preproc_file', default=None)
     parser.add_argument('--model-file', dest='model_file', required=True)
     parser.add_argument('--output-path', dest='output_path', required=True)
-    parser.add_argument('--num-comp', dest='num_comp', default=10)
+    parser.add_argument('--num-comp', dest='num_comp', type=int, default=10)
 
     SR.add_argparse_eval_args(parser)
     parser.add_argument('-v', '--verbose', dest='verbose', default=1, choices=[0, 1, 2, 3], type=int)
-- 
2.43.0


From b6afb6da49a93ec91fcdbd7d8fc7ff665992ea0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:43 +0000
Subject: [PATCH 157/241] fix: init-ubm went on to read data when it had none

---
 hyperion/bin/init-ubm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/bin/init-ubm.py b/hyperion/bin/init-ubm.py
index dfda77c..833ad0e 100755
--- a/hyperion/bin/init-ubm.py
+++ b/hyperion/bin/init-ubm.py
@@ -50,6 +50,7 @@ def init_ubm(seq_file, train_list, x_dim, num_comp,
         model = DiagGMM(x_dim=x_dim, num_comp=1)
         model.initialize()
         model.save(output_path)
+        return
 
         
     sr_args = SR.filter_args(**kwargs)
-- 
2.43.0


From 007cf41d046115acef78d14ae6fab46fdc8e83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:44 +0000
Subject: [PATCH 158/241] fix: SequenceReader ignored its preprocessing
 transforms

---
 hyperion/helpers/sequence_reader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hyperion/helpers/sequence_reader.py b/hyperion/helpers/sequence_reader.py
index 4063dda..7bd1f57 100644
--- a/hyperion/helpers/sequence_reader.py
+++ b/hyperion/helpers/sequence_reader.py
@@ -168,6 +168,8 @@ class SequenceReader(object):
             x, keys = self._read_subseqs_random_1seq()
             
         self.cur_batch +=1
+        if self.preproc is not None:
+            x = [self.preproc.predict(x_i) for x_i in x]
 
         if return_3d:
             x, sample_weight = to3D_by_seq(x, max_length=max_seq_length)
@@ -180,7 +182,10 @@ class SequenceReader(object):
     def read_next_seq(self):
         key = self.scp.file_path[self.cur_seq]
         self.cur_seq += 1
-        return self.r.read([key], field=self.field, return_tensor=False)[0], key
+        x = self.r.read([key], field=self.field, return_tensor=False)[0]
+        if self.preproc is not None:
+            x = self.preproc.predict(x)
+        return x, key
     
 
     
-- 
2.43.0


From 36a8e197305398e190e2a4578637bbda312a8128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:13 +0000
Subject: [PATCH 159/241] fix: log-posteriors of far classes were -inf in
 LinearGBE, QScoringHomoGBE and LinearSVMC

---
 hyperion/classifiers/linear_gbe.py         | 4 ++--
 hyperion/classifiers/linear_svmc.py        | 4 ++--
 hyperion/classifiers/q_scoring_homo_gbe.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hyperion/classifiers/linear_gbe.py b/hyperion/classifiers/linear_gbe.py
index 407403f..8d2c0b6 100644
--- a/hyperion/classifiers/linear_gbe.py
+++ b/hyperion/classifiers/linear_gbe.py
@@ -14,7 +14,7 @@ from scipy.special import gammaln
 
 from ..hyp_defs import float_cpu
 from ..hyp_model import HypModel
-from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax
+from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax, logsumexp
 
 
 
@@ -148,7 +148,7 @@ class LinearGBE(HypModel):
             raise ValueError('wrong eval method %s' % eval_method)
             
         if normalize:
-            logp = np.log(softmax(logp, axis=1))
+            logp = logp - logsumexp(logp, axis=1)[:, None]
             
         return logp
 
diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 3a37a87..000a580 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -14,7 +14,7 @@ from  sklearn.svm import LinearSVC as SVC
 
 from ..hyp_defs import float_cpu
 from ..hyp_model import HypModel
-from ..utils.math import softmax
+from ..utils.math import softmax, logsumexp
 
 
 class LinearSVMC(HypModel):
@@ -83,7 +83,7 @@ class LinearSVMC(HypModel):
         if eval_type == 'cat-post':
             return softmax(s)
         if eval_type == 'cat-logpost':
-            return np.log(softmax(s))
+            return s - logsumexp(s)[:, None]
         
         return s
         
diff --git a/hyperion/classifiers/q_scoring_homo_gbe.py b/hyperion/classifiers/q_scoring_homo_gbe.py
index 79ea2c9..2836d4f 100644
--- a/hyperion/classifiers/q_scoring_homo_gbe.py
+++ b/hyperion/classifiers/q_scoring_homo_gbe.py
@@ -14,7 +14,7 @@ from scipy.special import gammaln
 
 from ..hyp_defs import float_cpu
 from ..hyp_model import HypModel
-from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax
+from ..utils.math import int2onehot, logdet_pdmat, invert_pdmat, softmax, logsumexp
 
 
 
@@ -151,7 +151,7 @@ class QScoringHomoGBE(HypModel):
         logp = 0.5*(r_et +r_e.T + r_t)
 
         if normalize:
-            logp = np.log(softmax(logp, axis=1))
+            logp = logp - logsumexp(logp, axis=1)[:, None]
             
         return logp
 
-- 
2.43.0


From 3a92b876bcf540675e62929de823ce1ed4088e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:43 +0000
Subject: [PATCH 160/241] fix: the --wav-scale option of SequentialAudioReader
 had no effect

---
 hyperion/io/audio_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/audio_reader.py b/hyperion/io/audio_reader.py
index f551d12..8c83631 100644
--- a/hyperion/io/audio_reader.py
+++ b/hyperion/io/audio_reader.py
@@ -254,7 +254,7 @@ class SequentialAudioReader(AudioReader):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('part_idx', 'num_parts')
+        valid_args = ('wav_scale', 'part_idx', 'num_parts')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
-- 
2.43.0


From 99a79474ab419f26c0a3da2020e1bbf18b803948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:43 +0000
Subject: [PATCH 161/241] fix: the compression options of CopyFeats and
 DataWriterFactory ignored the prefix

---
 hyperion/io/copy_feats.py      | 7 ++++---
 hyperion/io/data_rw_factory.py | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/hyperion/io/copy_feats.py b/hyperion/io/copy_feats.py
index d76369f..8e045e8 100644
--- a/hyperion/io/copy_feats.py
+++ b/hyperion/io/copy_feats.py
@@ -97,7 +97,8 @@ class CopyFeats(object):
             p = ''
         else:
             p = prefix + '_'
-        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts')
+        valid_args = ('scp_sep', 'path_prefix', 'part_idx', 'num_parts',
+                      'compress', 'compression_method')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
 
@@ -130,6 +131,6 @@ class CopyFeats(object):
         parser.add_argument(p1+'num-parts', dest=(p2+'num_parts'), type=int, default=1,
                             help=('splits the list of files in num-parts and process part_idx'))
 
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
diff --git a/hyperion/io/data_rw_factory.py b/hyperion/io/data_rw_factory.py
index 463aa48..97bcb1b 100644
--- a/hyperion/io/data_rw_factory.py
+++ b/hyperion/io/data_rw_factory.py
@@ -80,8 +80,8 @@ class DataWriterFactory(object):
             
         parser.add_argument(p1+'scp-sep', dest=(p2+'scp_sep'), default=' ',
                             help=('scp file field separator'))
-        parser.add_argument('--compress', dest='compress', default=False, action='store_true')
-        parser.add_argument('--compression-method', dest='compression_method', default='auto',
+        parser.add_argument(p1+'compress', dest=(p2+'compress'), default=False, action='store_true')
+        parser.add_argument(p1+'compression-method', dest=(p2+'compression_method'), default='auto',
                             choices=compression_methods)
 
 
-- 
2.43.0


From 8c104268873d329e8a30308858ec69eb7b9ddbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:34 +0000
Subject: [PATCH 162/241] fix: MeanVarianceNorm.filter_args failed when
 no_norm_mean was not among the arguments

---
 hyperion/feats/feature_normalization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hyperion/feats/feature_normalization.py b/hyperion/feats/feature_normalization.py
index c78dde5..dfbd2e4 100644
--- a/hyperion/feats/feature_normalization.py
+++ b/hyperion/feats/feature_normalization.py
@@ -230,8 +230,9 @@ class MeanVarianceNorm(object):
         neg_args2 = ('norm_mean',)
 
         for a,b in zip(neg_args1, neg_args2):
-            d[b] = not d[a]
-            del d[a]
+            if a in d:
+                d[b] = not d[a]
+                del d[a]
 
         return d
 
-- 
2.43.0


From 6fe69b4f28b58f6dd6bda047884dfa81ad7f08d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:39 +0000
Subject: [PATCH 163/241] fix: SequentialH5FileDataReader read keys containing
 / as one item per group

---
 hyperion/io/h5_data_reader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hyperion/io/h5_data_reader.py b/hyperion/io/h5_data_reader.py
index 82d15b0..f4b1c78 100644
--- a/hyperion/io/h5_data_reader.py
+++ b/hyperion/io/h5_data_reader.py
@@ -166,7 +166,9 @@ class SequentialH5FileDataReader(SequentialH5DataReader):
         super(SequentialH5FileDataReader, self).__init__(
             file_path, permissive=False, **kwargs)
         self._open_archive(self.file_path)
-        self._keys = list(self.f.keys())
+        self._keys = []
+        # keys that contain / are stored as datasets inside of groups
+        self.f.visititems(self._append_key)
         if self.num_parts > 1:
             if self.split_by_key:
                 self._keys, _ = split_list_group_by_key(
@@ -175,6 +177,12 @@ class SequentialH5FileDataReader(SequentialH5DataReader):
                 self._keys, _ = split_list(self._keys, self.part_idx, self.num_parts)
 
 
+
+    def _append_key(self, name, item):
+        if isinstance(item, h5py.Dataset):
+            self._keys.append(name)
+
+
         
     def reset(self):
         """Puts the file pointer back to the begining of the file"""
-- 
2.43.0


From d9b503ae9c6640aa63a9e5abdccb54b240ca1fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:12 +0000
Subject: [PATCH 164/241] fix: HypDataReader.get_datasets gave the groups
 instead of the datasets for keys containing /

---
 hyperion/io/hyp_data_reader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hyperion/io/hyp_data_reader.py b/hyperion/io/hyp_data_reader.py
index 98213a9..cd3cdf7 100644
--- a/hyperion/io/hyp_data_reader.py
+++ b/hyperion/io/hyp_data_reader.py
@@ -26,8 +26,12 @@ class HypDataReader(object):
 
     def get_datasets(self):
         keys = []
-        for ds in self.f:
-            keys.append(ds)
+        def append_key(name, item):
+            if isinstance(item, h5py.Dataset):
+                keys.append(name)
+
+        # keys that contain / are stored as datasets inside of groups
+        self.f.visititems(append_key)
         return keys
     
 
-- 
2.43.0


From 5c55eb8b858ac08a3620829350e3c0e5a8748618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:14 +0000
Subject: [PATCH 165/241] fix: log-posteriors of far classes were -inf in
 BinaryLogisticRegression and LinearSVMC

---
 hyperion/classifiers/binary_logistic_regression.py | 2 +-
 hyperion/classifiers/linear_svmc.py                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/classifiers/binary_logistic_regression.py b/hyperion/classifiers/binary_logistic_regression.py
index b3735f7..400e5cf 100644
--- a/hyperion/classifiers/binary_logistic_regression.py
+++ b/hyperion/classifiers/binary_logistic_regression.py
@@ -50,7 +50,7 @@ class BinaryLogisticRegression(LogisticRegression):
         y = np.dot(x, self.A).ravel() + self.b
 
         if eval_type == 'log-post':
-            y = - np.log(1+np.exp(-(y+np.log(self.prior/(1-self.prior)))))
+            y = -np.logaddexp(0, -(y+np.log(self.prior/(1-self.prior))))
         if eval_type == 'post':
             y = 1/(1+np.exp(-(y+np.log(self.prior/(1-self.prior)))))
         
diff --git a/hyperion/classifiers/linear_svmc.py b/hyperion/classifiers/linear_svmc.py
index 000a580..2966ec8 100644
--- a/hyperion/classifiers/linear_svmc.py
+++ b/hyperion/classifiers/linear_svmc.py
@@ -77,7 +77,7 @@ class LinearSVMC(HypModel):
         s = np.dot(x, self.A) + self.b
         
         if eval_type == 'bin-logpost':
-            return -np.log(1+np.exp(-s))
+            return -np.logaddexp(0, -s)
         if eval_type == 'bin-post':
             return 1/(1+np.exp(-s))
         if eval_type == 'cat-post':
-- 
2.43.0


From 1fd9d81fd4d4be6b1f21dd1b74c4f21150f1e12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:02 +0000
Subject: [PATCH 166/241] fix: masked cohort trials took places among the best
 ones in AdaptSNorm, and deviations of close scores were nan

---
 hyperion/score_norm/adapt_s_norm.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/hyperion/score_norm/adapt_s_norm.py b/hyperion/score_norm/adapt_s_norm.py
index 3f788ee..d2ae953 100644
--- a/hyperion/score_norm/adapt_s_norm.py
+++ b/hyperion/score_norm/adapt_s_norm.py
@@ -38,10 +38,15 @@ class AdaptSNorm(ScoreNorm):
         if mask_enr_coh is not None:
             scores_enr_coh = np.where(mask_enr_coh, scores_enr_coh, 0)
             
-        best_idx = np.flipud(np.argsort(scores_coh_test, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
+        # masked trials are the last ones in the ranking and are never selected
+        rank_scores = scores_coh_test if mask_coh_test is None else np.where(
+            mask_coh_test, scores_coh_test, -np.inf)
+        best_idx = np.flipud(np.argsort(rank_scores, axis=0))[self.nbest_discard:self.nbest_discard+nbest]
         scores_z_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[1]):
             best_idx_i = best_idx[:,i]
+            if mask_coh_test is not None:
+                best_idx_i = best_idx_i[mask_coh_test[best_idx_i, i]]
                 
             mu_z = np.mean(scores_enr_coh[:, best_idx_i],
                            axis=1, keepdims=True)
@@ -53,17 +58,22 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_enr_coh[:, best_idx_i],
                                axis=1, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_enr_coh[:, best_idx_i]**2,
-                                      axis=1, keepdims=True)/norm - mu_z**2)
+                delta = np.where(mask_enr_coh[:, best_idx_i],
+                                 scores_enr_coh[:, best_idx_i] - mu_z, 0)
+                s_z = np.sqrt(np.mean(delta**2, axis=1, keepdims=True)/norm)
 
             s_z = np.maximum(s_z, self.std_floor)
             scores_z_norm[:,i] = (scores[:,i] - mu_z.T)/s_z.T
 
 
-        best_idx = np.fliplr(np.argsort(scores_enr_coh, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
+        rank_scores = scores_enr_coh if mask_enr_coh is None else np.where(
+            mask_enr_coh, scores_enr_coh, -np.inf)
+        best_idx = np.fliplr(np.argsort(rank_scores, axis=1))[:,self.nbest_discard:self.nbest_discard+nbest]
         scores_t_norm = np.zeros_like(scores)
         for i in xrange(scores.shape[0]):
             best_idx_i = best_idx[i]
+            if mask_enr_coh is not None:
+                best_idx_i = best_idx_i[mask_enr_coh[i, best_idx_i]]
                 
             mu_z = np.mean(scores_coh_test[best_idx_i,:],
                            axis=0, keepdims=True)
@@ -75,8 +85,9 @@ class AdaptSNorm(ScoreNorm):
                 norm = np.mean(mask_coh_test[best_idx_i,:],
                                axis=0, keepdims=True)
                 mu_z /= norm
-                s_z = np.sqrt(np.mean(scores_coh_test[best_idx_i,:]**2,
-                                      axis=0, keepdims=True)/norm - mu_z**2)
+                delta = np.where(mask_coh_test[best_idx_i,:],
+                                 scores_coh_test[best_idx_i,:] - mu_z, 0)
+                s_z = np.sqrt(np.mean(delta**2, axis=0, keepdims=True)/norm)
 
             s_z = np.maximum(s_z, self.std_floor)
             scores_t_norm[i,:] = (scores[i,:] - mu_z)/s_z
-- 
2.43.0


From 865b5a325132f9bd938ad6e48bc16d2bc1d8efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:34 +0000
Subject: [PATCH 167/241] fix: transforms of a named Pipeline got its name
 twice when loaded

---
 hyperion/pipeline/pipeline.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/pipeline/pipeline.py b/hyperion/pipeline/pipeline.py
index ab58940..9857d1f 100644
--- a/hyperion/pipeline/pipeline.py
+++ b/hyperion/pipeline/pipeline.py
@@ -69,5 +69,8 @@ class Pipeline(HypModel):
             class_t = globals()[config_t['class_name']]
             t = class_t.load_params(f, config_t)
             transforms.append(t)
-        return cls(transforms, name=config['name'])
+        # names of the transforms already have the name of the pipeline
+        pipeline = cls(transforms)
+        pipeline.name = config['name']
+        return pipeline
             
-- 
2.43.0


From 688a7badb8fd3ee4298faa5e4511c2e50b7eb5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:22 +0000
Subject: [PATCH 168/241] fix: RTTM.eliminate_overlaps put nan or wrong
 durations in the segments that overlap with the next one

---
 hyperion/utils/rttm.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 8698aee..8a86796 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -468,20 +468,17 @@ class RTTM(object):
         tbeg = segm.tbeg
         tend = segm.tbeg + segm.tdur
         tavg = (tbeg + tend_1)/2
-        index = ((segm.file_id == segm_1.file_id) &
-                 (segm.segment_type == segm_1.segment_type) &
-                 (tbeg < tend_1))
-        # logging.debug(index)
-        # logging.debug(self.segments.loc[index])
-        # logging.debug(self.segments.loc[index])
-        self.segments.loc[index, 'tbeg'] = tavg[index]
-        # logging.debug(self.segments.loc[index])
-        index_1 = index.shift(-1)
-        index_1[index_1.isnull()] = False
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index_1, 'tdur'] = tavg[index] - tbeg[index_1]
-        # logging.debug(self.segments.loc[index_1])
-        self.segments.loc[index, 'tdur'] = tend[index] - tavg[index]
+        index = np.asarray((segm.file_id == segm_1.file_id) &
+                           (segm.segment_type == segm_1.segment_type) &
+                           (tbeg < tend_1))
+        index_1 = np.append(index[1:], False)
+
+        # both segments of an overlap are cut in the middle of it
+        tbeg, tend, tavg = np.array(tbeg), np.array(tend), np.asarray(tavg)
+        tbeg[index] = tavg[index]
+        tend[index_1] = tavg[index]
+        self.segments['tbeg'] = tbeg
+        self.segments['tdur'] = tend - tbeg
 
 
 
-- 
2.43.0


From bb43b45e892f3632c6dfed57ea4f425ae4d62b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:22 +0000
Subject: [PATCH 169/241] fix: RTTM.get_segment_names missed the names of
 segments that lie inside the given one

---
 hyperion/utils/rttm.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 8a86796..38e9143 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -400,10 +400,8 @@ class RTTM(object):
             tend = segment_list.tend[i]
             segments_i = self.segments[(self.segments['segment_type'] == segment_type) &
                                        (self.segments['file_id'] == file_id) &
-                                       ((self.segments['tbeg']<=tbeg) &
-                                        (self.segments['tbeg'] + self.segments['tdur'] > tbeg) |
-                                        (self.segments['tbeg']<tend) &
-                                        (self.segments['tbeg'] + self.segments['tdur'] >=tend))]
+                                       (self.segments['tbeg'] < tend) &
+                                       (self.segments['tbeg'] + self.segments['tdur'] > tbeg)]
             num_segm_i = len(segments_i)
             if num_segm_i == 0:
                 num_names[i] = 0
@@ -432,8 +430,7 @@ class RTTM(object):
                 tend_f = segments_f['tbeg'] + segments_f['tdur']
                 prev_file_id = file_id
 
-            segments_i = segments_f[((tbeg_f<=tbeg) & (tend_f > tbeg)) |
-                                    ((tbeg_f < tend) & (tend_f >=tend))]
+            segments_i = segments_f[(tbeg_f < tend) & (tend_f > tbeg)]
 
             num_segm_i = len(segments_i)
             if num_segm_i == 0:
-- 
2.43.0


From 49b14fd155d0d917cd5768ba5c9cf4efeccbb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:23 +0000
Subject: [PATCH 170/241] fix: RTTM.to_matrix returned nothing and looked only
 at as many segments as names

---
 hyperion/utils/rttm.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index 38e9143..db1ac9b 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -481,19 +481,18 @@ class RTTM(object):
 
     
     def to_matrix(self, file_id, frame_shift=0.001):
-        if self.index_by_file:
-            segments = self.segments[file_id]
-        else:
-            segments = self.segments[self.segments['file_id'] == file_id]
+        segments = self.segments[self.segments['file_id'] == file_id]
 
         u_names, name_ids = np.unique(segments['name'], return_inverse=True)
-        tbeg = np.round(segments['tbeg']/frame_shift).astype(dtype=int)
-        tend = np.round((segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
+        tbeg = np.round(np.asarray(segments['tbeg'])/frame_shift).astype(dtype=int)
+        tend = np.round(np.asarray(segments['tbeg']+segments['tdur'])/frame_shift).astype(dtype=int)
 
-        M = np.zeros((tend[-1], len(u_names)), dtype=int)
-        for i in xrange(len(u_names)):
+        M = np.zeros((np.max(tend), len(u_names)), dtype=int)
+        for i in xrange(len(segments)):
             M[tbeg[i]:tend[i], name_ids[i]] = 1
 
+        return M
+
 
             
     def compute_stats(self, nbins_dur=None):
-- 
2.43.0


From 80f4c1ed6f5256528a54f94d26ab52a8262ad709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:17 +0000
Subject: [PATCH 171/241] fix: RTTM.compute_stats failed without the number of
 bins

---
 hyperion/utils/rttm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index db1ac9b..a6953f8 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -508,7 +508,7 @@ class RTTM(object):
                              index=['mean','std','median','model','min','max'])
 
         if nbins_dur is None:
-            nbins_dur = np.max(5, np.min(100, len(self.segments)/10))
+            nbins_dur = max(5, min(100, len(self.segments)//10))
         hist_dur = np.histogram(self.segments['tdur'], nbins_dur)
 
         
-- 
2.43.0


From edbefda8ec141bdc16da24021a9e3773b63f44b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 172/241] fix: learning rate schedulers without warm-up divided
 by zero in the first batch

---
 hyperion/torch/lr_schedulers/lr_scheduler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/lr_scheduler.py b/hyperion/torch/lr_schedulers/lr_scheduler.py
index ff59dd5..063aadd 100644
--- a/hyperion/torch/lr_schedulers/lr_scheduler.py
+++ b/hyperion/torch/lr_schedulers/lr_scheduler.py
@@ -45,7 +45,7 @@ class LRScheduler(object):
 
     @property
     def in_warmup(self):
-        return self.last_batch <= self.warmup_steps
+        return self.warmup_steps > 0 and self.last_batch <= self.warmup_steps
     
 
     def state_dict(self):
-- 
2.43.0


From f7021e6f2faf7574d731a85e049a270058fcbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 173/241] fix: CosineLR started one step before the maximum of
 the cosine

---
 hyperion/torch/lr_schedulers/cos_lr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 7a8aa61..226a579 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -38,7 +38,7 @@ class CosineLR(LRScheduler):
     """
 
     def __init__(self, optimizer, T, T_mul=1, min_lr=0, warmup_steps=0,
-                 warm_restarts=False, gamma=1, last_restart=1, num_restarts = 0, 
+                 warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
         super(CosineLR, self).__init__(optimizer, min_lr, warmup_steps,
                                        last_epoch, last_batch, update_lr_on_batch)
-- 
2.43.0


From 06ffe7f6f8ba2f4788f736e840284343948321ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 174/241] fix: CosineLR made its period a multiple of one batch
 less than an epoch

---
 hyperion/torch/lr_schedulers/cos_lr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 226a579..203b4a2 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -79,7 +79,8 @@ class CosineLR(LRScheduler):
     def epoch_end_step(self, metrics=None):
         if self.last_epoch==0 and self.update_lr_on_batch and self.warm_restarts:
             # assures that T period is equal to integer number of epochs
-            self.T = math.ceil(self.T/self.last_batch)*self.last_batch
+            epoch_batches = self.last_batch + 1
+            self.T = math.ceil(self.T/epoch_batches)*epoch_batches
             logging.info('readjusting cos_lr T to %d' % (self.T))
 
 
-- 
2.43.0


From 260bdbd474de245a18210f947be23430f0b83b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 175/241] fix: AdamCosineLR could not be created

---
 hyperion/torch/lr_schedulers/cos_lr.py | 22 ++--------------------
 1 file changed, 2 insertions(+), 20 deletions(-)

diff --git a/hyperion/torch/lr_schedulers/cos_lr.py b/hyperion/torch/lr_schedulers/cos_lr.py
index 203b4a2..558d6ec 100644
--- a/hyperion/torch/lr_schedulers/cos_lr.py
+++ b/hyperion/torch/lr_schedulers/cos_lr.py
@@ -89,24 +89,6 @@ class AdamCosineLR(CosineLR):
     def __init__(self, optimizer, T=1, T_mul=2, warmup_steps=0,
                  warm_restarts=False, gamma=1, last_restart=0, num_restarts = 0, 
                  last_epoch=-1, last_batch=-1, update_lr_on_batch=False):
-        super(AdamCosineLR, super).__init__(optimizer, T, T_mul, 0, warmup_steps,
-                 warm_restarts, last_restart, num_restarts, gamma,
+        super(AdamCosineLR, self).__init__(optimizer, T, T_mul, 0, warmup_steps,
+                 warm_restarts, gamma, last_restart, num_restarts,
                  last_epoch, last_batch, update_lr_on_batch)
-
-
-    def get_lr(self, step):
-        x = step - self.last_restart
-        if x > self.T:
-            if self.warm_restarts:
-                self.last_restart = step
-                x = 0
-                self.T *= T_mul
-                self.num_restarts += 1
-            else:
-                return self.min_lrs
-
-        alpha = gamma ** self.num_restarts
-        r = math.pi/self.T
-            
-        return [alpha * base_lr * 0.5 (1 + math.cos(r * x))
-                for base_lr in self.base_lrs]
-- 
2.43.0


From 974287f1c93bd20ce6c31683beda362f189aa551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 176/241] fix: LRSchedulerFactory ignored update_lr_on_batch
 for exp_lr

---
 hyperion/torch/lr_schedulers/factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/lr_schedulers/factory.py b/hyperion/torch/lr_schedulers/factory.py
index c84a730..bf144a6 100644
--- a/hyperion/torch/lr_schedulers/factory.py
+++ b/hyperion/torch/lr_schedulers/factory.py
@@ -31,7 +31,7 @@ class LRSchedulerFactory(object):
             return ExponentialLR(
                 optimizer, decay_rate, decay_steps, hold_steps,
                 min_lr=min_lr, warmup_steps=warmup_steps, 
-                update_lr_on_batch=False)
+                update_lr_on_batch=update_lr_on_batch)
 
         if lrsch_type == 'cos_lr':
             return CosineLR(optimizer, T, T_mul, min_lr=min_lr,
-- 
2.43.0


From d233f2b27568191cd12026b80dbff5561581b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 177/241] fix: CSVLogger failed when appending or without a
 directory in the file name

---
 hyperion/torch/loggers/csv_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/loggers/csv_logger.py b/hyperion/torch/loggers/csv_logger.py
index 4ad551a..93129cc 100644
--- a/hyperion/torch/loggers/csv_logger.py
+++ b/hyperion/torch/loggers/csv_logger.py
@@ -38,11 +38,11 @@ class CSVLogger(Logger):
     def on_train_begin(self, logs=None, **kwargs):
 
         file_dir = os.path.dirname(self.file_path) 
-        if not os.path.exists(file_dir):
+        if file_dir and not os.path.exists(file_dir):
             os.makedirs(file_dir)
         
         if self.append:
-            if os.path.exist(self.file_path):
+            if os.path.exists(self.file_path):
                 with open(self.file_path, 'r') as f:
                     self.append_header = len(f.readline())==0
 
-- 
2.43.0


From 721dbb0a97ba74b16175f594a7d070b9d5edbadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 178/241] fix: TorchTrainer did not tell its loggers that
 training ended

---
 hyperion/torch/loggers/csv_logger.py | 2 +-
 hyperion/torch/torch_trainer.py      | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/hyperion/torch/loggers/csv_logger.py b/hyperion/torch/loggers/csv_logger.py
index 93129cc..c1baf18 100644
--- a/hyperion/torch/loggers/csv_logger.py
+++ b/hyperion/torch/loggers/csv_logger.py
@@ -77,6 +77,6 @@ class CSVLogger(Logger):
         
     def on_train_end(self, logs=None, **kwargs):
         self.csv_file.close()
-        self.writer = None
+        self.csv_writer = None
 
         
diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index d89aeaa..619db16 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -72,6 +72,8 @@ class TorchTrainer(object):
 
             self.save_checkpoint(logs)
 
+        self.loggers.on_train_end()
+
             
             
     def train_epoch(self, data_loader):
-- 
2.43.0


From 434fabc71bd1a9f80a0243cd9c0a3be1b5355f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 179/241] fix: ProgLogger divided by zero in the first batch

---
 hyperion/torch/loggers/prog_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/loggers/prog_logger.py b/hyperion/torch/loggers/prog_logger.py
index f2b23e2..0a03723 100644
--- a/hyperion/torch/loggers/prog_logger.py
+++ b/hyperion/torch/loggers/prog_logger.py
@@ -111,8 +111,8 @@ class ProgLogger(Logger):
         t1 = time.time()
         et = t1 - self.t0
         if self.batches > 0:
-            total_t = et/self.cur_batch * self.batches
-        elif self.samples > 0 and self:
+            total_t = et/(self.cur_batch + 1) * self.batches
+        elif self.samples > 0 and self.cur_sample > 0:
             total_t = et/self.cur_sample * self.samples
         else:
             total_t = -1
-- 
2.43.0


From f55b70a22f022e95d22c8fc37107b798ce87f48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 180/241] fix: TorchTrainer failed without metrics

---
 hyperion/torch/torch_trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/torch_trainer.py b/hyperion/torch/torch_trainer.py
index 619db16..c58118a 100644
--- a/hyperion/torch/torch_trainer.py
+++ b/hyperion/torch/torch_trainer.py
@@ -40,7 +40,7 @@ class TorchTrainer(object):
 
         self.lr_scheduler = lr_scheduler
         
-        self.metrics = metrics
+        self.metrics = {} if metrics is None else metrics
         if device is None:
             device = torch.device("cuda" if torch.cuda.is_available() else "cpu")
         self.device = device
-- 
2.43.0


From 94875f5f415574bdd972d96a672ea3511fa56b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:00 +0000
Subject: [PATCH 181/241] fix: binary_accuracy did not return the mean

---
 hyperion/torch/metrics/accuracy_functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/metrics/accuracy_functional.py b/hyperion/torch/metrics/accuracy_functional.py
index 853f765..770a416 100644
--- a/hyperion/torch/metrics/accuracy_functional.py
+++ b/hyperion/torch/metrics/accuracy_functional.py
@@ -78,7 +78,7 @@ def binary_accuracy(input, target, weight=None, reduction='mean', thr=0.5):
         return ok.sum().item()
 
     acc = ok.mean()/weight_mean
-    return ok.item()
+    return acc.item()
 
 
 def binary_accuracy_with_logits(input, target, weight=None, reduction='mean', thr=0):
-- 
2.43.0


From a5754927f6c8889bac10409d9ecca4ee66d3d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 182/241] fix: activations could not be created from their
 configuration

---
 hyperion/torch/helpers/activation_factory.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hyperion/torch/helpers/activation_factory.py b/hyperion/torch/helpers/activation_factory.py
index 3ee401d..80c6982 100644
--- a/hyperion/torch/helpers/activation_factory.py
+++ b/hyperion/torch/helpers/activation_factory.py
@@ -44,7 +44,7 @@ class ActivationFactory(object):
         if isinstance(activation, dict):
             name = activation['name']
             kwargs = activation.copy()
-            del kwargs.name
+            del kwargs['name']
             return ActivationFactory.create_from_str(name, **kwargs)
             
         
@@ -99,16 +99,16 @@ class ActivationFactory(object):
                     'alpha': activation.alpha,
                     'inplace': activation.inplace}
         if isinstance(activation, nn.Sigmoid):
-            return {'name': 'simoid'}
+            return {'name': 'sigmoid'}
         if isinstance(activation, nn.Softplus):
             return {'name': 'softplus',
                     'beta': activation.beta,
                     'threshold': activation.threshold}
         if isinstance(activation, nn.Softshrink):
-            return {'name': 'softshrink'}
-        if isinstance(activation, nn.Softsign):
-            return {'name': 'softsign',
+            return {'name': 'softshrink',
                     'lambd': activation.lambd}
+        if isinstance(activation, nn.Softsign):
+            return {'name': 'softsign'}
         if isinstance(activation, nn.Tanh):
             return {'name': 'tanh'}
         if isinstance(activation, nn.Tanhshrink):
@@ -130,10 +130,10 @@ class ActivationFactory(object):
             return {'name': 'logsoftmax',
                     'dim': activation.dim}
         if isinstance(activation, nn.AdaptiveLogSoftmaxWithLoss):
-            return {'name': 'asoftmax',
+            return {'name': 'alogsoftmax',
                     'in_features': activation.in_features,
                     'n_classes': activation.n_classes,
-                    'cutoffs': activation.cutoffs,
+                    'cutoffs': activation.cutoffs[:-1],
                     'div_value': activation.div_value,
                     'head_bias': activation.head_bias}
         
-- 
2.43.0


From 0ed97defd4ebb03d08efcc778a1c64f9f7d08e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 183/241] fix: FCNetV1 failed with dropout or batch
 normalization of the output

---
 hyperion/torch/archs/fcnet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/archs/fcnet.py b/hyperion/torch/archs/fcnet.py
index 8fe2007..96885b7 100644
--- a/hyperion/torch/archs/fcnet.py
+++ b/hyperion/torch/archs/fcnet.py
@@ -119,10 +119,10 @@ class FCNetV1(NetArch):
                 x = self.output_act(x)
 
             if self.output_dropout is not None:
-                x = self.droput_layers[self.num_hid_layers](x)
+                x = self.output_dropout(x)
 
         if self.use_output_batchnorm:
-            x = self.output_dropout(x)
+            x = self.output_batchnorm(x)
 
         return x
 
-- 
2.43.0


From b8a6b306a8dfa1d10e01b10941a076a6ae91f6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 184/241] fix: FCNetV1.get_config failed and lacked options

---
 hyperion/torch/archs/fcnet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/torch/archs/fcnet.py b/hyperion/torch/archs/fcnet.py
index 96885b7..fed312f 100644
--- a/hyperion/torch/archs/fcnet.py
+++ b/hyperion/torch/archs/fcnet.py
@@ -138,12 +138,13 @@ class FCNetV1(NetArch):
 
         config = {'num_hid_layers': self.num_hid_layers,
                   'output_units': self.output_units,
-                  'hid_units': self.hidden_units,
+                  'hid_units': self.hid_units,
                   'input_units': self.input_units,
                   'use_batchnorm': self.use_batchnorm,
                   'dropout_rate': self.dropout_rate,
-                  'use_output_batchnorm': self.output_batchnorm,
-                  'use_output_dropout': self.output_dropout,
+                  'without_output_layer': self.without_output_layer,
+                  'use_output_batchnorm': self.use_output_batchnorm,
+                  'use_output_dropout': self.use_output_dropout,
                   'output_act': output_act,
                   'hid_act': hid_act }
         
-- 
2.43.0


From 074784b0125c31b6da0986a4dd0a842a098737eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 185/241] fix: TorchModel.save failed

---
 hyperion/torch/torch_model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/torch_model.py b/hyperion/torch/torch_model.py
index bb3e19e..a2c8113 100644
--- a/hyperion/torch/torch_model.py
+++ b/hyperion/torch/torch_model.py
@@ -7,6 +7,8 @@ from __future__ import print_function
 from __future__ import division
 from six.moves import xrange
 
+import os
+
 import torch
 import torch.nn as nn
 
@@ -22,12 +24,12 @@ class TorchModel(nn.Module):
 
     def save(self, file_path):
         file_dir = os.path.dirname(file_path)
-        if not(os.path.isdir(file_dir)):
+        if file_dir and not(os.path.isdir(file_dir)):
             os.makedirs(file_dir, exist_ok=True)
 
         config = self.get_config()
         torch.save({'config': self.get_config(),
-                    'model_state_dict': self.state_dict()})
+                    'model_state_dict': self.state_dict()}, file_path)
 
 
     def get_reg_loss(self):
-- 
2.43.0


From 40eff14497dc738f3d966c09449c6b8f4010f676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:18 +0000
Subject: [PATCH 186/241] fix: Dropout1d looked for dropout2d in the wrong
 module

---
 hyperion/torch/layers/dropout.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/torch/layers/dropout.py b/hyperion/torch/layers/dropout.py
index afb53f5..5749a19 100644
--- a/hyperion/torch/layers/dropout.py
+++ b/hyperion/torch/layers/dropout.py
@@ -9,7 +9,7 @@ from six.moves import xrange
 
 import torch
 import torch.nn as nn
-import torch.functional as F
+import torch.nn.functional as F
 from torch.nn import Dropout2d
 
 class Dropout1d(Dropout2d):
-- 
2.43.0


From fb66878965a14c4e1b3f726e3897cc15038bef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 187/241] fix: GlobalMaskedMaxPooling1D did not accept weights
 without feature axis

---
 hyperion/keras/layers/pooling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/keras/layers/pooling.py b/hyperion/keras/layers/pooling.py
index 4659405..6f1b4aa 100644
--- a/hyperion/keras/layers/pooling.py
+++ b/hyperion/keras/layers/pooling.py
@@ -33,6 +33,8 @@ class GlobalMaskedMaxPooling1D(Layer):
     
     def call(self, xw, mask=None):
         x, weights = xw
+        if K.ndim(weights) == 2:
+            weights = K.expand_dims(weights, axis=-1)
         return K2.max_with_mask(x, weights, axis=1)
 
     
-- 
2.43.0


From 01f413489ba42141588463eef2684347449ce97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 188/241] fix: maximum with mask was never negative with
 tensorflow

---
 hyperion/keras/backend_addons/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/backend_addons/tensorflow_backend.py b/hyperion/keras/backend_addons/tensorflow_backend.py
index 67cc666..dc55568 100644
--- a/hyperion/keras/backend_addons/tensorflow_backend.py
+++ b/hyperion/keras/backend_addons/tensorflow_backend.py
@@ -22,7 +22,7 @@ def tile(x, n):
 
 def max_with_mask(x, mask, axis=None, keepdims=False):
     y = x - 1e10 * (1-mask)
-    return tf.reduce_max(y*mask, axis=axis, keepdims=keepdims)
+    return tf.reduce_max(y, axis=axis, keepdims=keepdims)
 
 
 
-- 
2.43.0


From 633c806292baa2e53c3f9ba362daea349c3c60bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:48 +0000
Subject: [PATCH 189/241] fix: MultConstCovStdPrior.get_config used an
 undefined class

---
 hyperion/keras/layers/cov.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/layers/cov.py b/hyperion/keras/layers/cov.py
index 4c0a3f0..ebb03bb 100644
--- a/hyperion/keras/layers/cov.py
+++ b/hyperion/keras/layers/cov.py
@@ -206,7 +206,7 @@ class MultConstCovStdPrior(Layer):
                   'D_constraint': constraints.serialize(self.D_constraint)}
         #          'chol_constraint': constraints.serialize(self.chol_constraint)}
         
-        base_config = super(MultConstVarStdPrior, self).get_config()
+        base_config = super(MultConstCovStdPrior, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
     
-- 
2.43.0


From 920c27bd9abd290d654d167d03706057dc368fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 190/241] fix: categorical and Bernoulli losses of sequences
 without time normalization failed

---
 hyperion/keras/losses.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/losses.py b/hyperion/keras/losses.py
index 0222d2d..971fda6 100644
--- a/hyperion/keras/losses.py
+++ b/hyperion/keras/losses.py
@@ -23,14 +23,14 @@ def get_seq_length(x):
 def nllk_categorical(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
-        T = get_seq_length(y_true)
+        T = K.expand_dims(get_seq_length(y_true), axis=-1)
     return T*K.categorical_crossentropy(y_true, y_pred)
 
 
 def nllk_bernoulli(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
-        T = get_seq_length(y_true)
+        T = K.expand_dims(get_seq_length(y_true), axis=-1)
     return T*K.sum(K.binary_crossentropy(y_pred, y_true), axis=-1)
 
 
-- 
2.43.0


From 7cd4949a875795c69d465887bc50c43bc42fb97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 191/241] fix: Bernoulli losses took the predictions as targets

---
 hyperion/keras/losses.py     | 2 +-
 hyperion/keras/objectives.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/losses.py b/hyperion/keras/losses.py
index 971fda6..60976d9 100644
--- a/hyperion/keras/losses.py
+++ b/hyperion/keras/losses.py
@@ -31,7 +31,7 @@ def nllk_bernoulli(y_true, y_pred, time_norm=True):
     T = 1
     if not time_norm:
         T = K.expand_dims(get_seq_length(y_true), axis=-1)
-    return T*K.sum(K.binary_crossentropy(y_pred, y_true), axis=-1)
+    return T*K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
 def nllk_normal_diag_cov(y_true, y_pred, time_norm=True):
diff --git a/hyperion/keras/objectives.py b/hyperion/keras/objectives.py
index 9c4f030..467117f 100644
--- a/hyperion/keras/objectives.py
+++ b/hyperion/keras/objectives.py
@@ -16,7 +16,7 @@ one=np.exp(0).astype(float_keras())
 
 
 def bernoulli(y_true, y_pred):
-    return K.sum(K.binary_crossentropy(y_pred, y_true), axis=-1)
+    return K.sum(K.binary_crossentropy(y_true, y_pred), axis=-1)
 
 
 def diag_normal(y_true, y_pred):
-- 
2.43.0


From bbfaa8cf7c68236d53c4a549a919f42c3f24f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 192/241] fix: ExpTaylor failed and its terms of the series
 were wrong

---
 hyperion/keras/layers/core.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hyperion/keras/layers/core.py b/hyperion/keras/layers/core.py
index b51ac9f..4785d32 100644
--- a/hyperion/keras/layers/core.py
+++ b/hyperion/keras/layers/core.py
@@ -226,17 +226,16 @@ class Exp(Layer):
 
 
 class ExpTaylor(Layer):
-    def __init__(self, order=1):
+    def __init__(self, order=1, **kwargs):
+        super(ExpTaylor, self).__init__(**kwargs)
         self.order = order
 
         
     def call(self, inputs, mask=None):
         y = inputs + 1
-        f = 1
         xx = inputs
-        for i in xrange(1, self.order):
-            f = i*f
-            xx = xx*inputs/f
+        for i in range(2, self.order+1):
+            xx = xx*inputs/i
             y = y + xx
         return y
     
-- 
2.43.0


From a8992ed96158d73b211758cf04647c3a81846c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 193/241] fix: MultConstCovStdPrior failed and its covariance
 was not symmetric

---
 hyperion/keras/layers/cov.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/layers/cov.py b/hyperion/keras/layers/cov.py
index ebb03bb..7ccefb3 100644
--- a/hyperion/keras/layers/cov.py
+++ b/hyperion/keras/layers/cov.py
@@ -180,7 +180,7 @@ class MultConstCovStdPrior(Layer):
     def call(self, x, mask=None):
         logvar = - K.log(1+K.exp(self.D))
         var = K.exp(logvar)
-        cov = K.dot(self.chol.T, var*self.chol)
+        cov = K.dot(self.chol.T*var, self.chol)
         mu  = K.dot(x, cov)
         tile_shape = list(K.shape(mu))
         tile_shape[-1] = 1
@@ -193,7 +193,7 @@ class MultConstCovStdPrior(Layer):
     def compute_output_shape(self, input_shape):
         assert input_shape and len(input_shape) >= 2
         assert input_shape[-1]
-        output_shape_chol = tuple([self.input_dim]*(len(input_shape)+1))
+        output_shape_chol = tuple(input_shape) + (self.units,)
         return [input_shape, input_shape, output_shape_chol]
 
     
-- 
2.43.0


From 4f853b8961654e30147a2b565a7f055b77b51599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 194/241] fix: ExpandAndTile failed and announced a wrong shape
 for negative axes

---
 hyperion/keras/layers/tensor_manipulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/layers/tensor_manipulation.py b/hyperion/keras/layers/tensor_manipulation.py
index 48cedb9..e6bc015 100644
--- a/hyperion/keras/layers/tensor_manipulation.py
+++ b/hyperion/keras/layers/tensor_manipulation.py
@@ -51,14 +51,14 @@ class ExpandAndTile(Layer):
 
     def compute_output_shape(self, input_shape):
         output_shape=list(input_shape)
-        output_shape.insert(self.axis,1)
-        output_shape[self.axis]*=self.n
+        axis = self.axis if self.axis >= 0 else self.axis + len(input_shape) + 1
+        output_shape.insert(axis,self.n)
         return tuple(output_shape)
 
     
     def call(self, inputs, mask=None):
         t=K.expand_dims(inputs, axis=self.axis)
-        tile_shape=[1]*K.ndims()
+        tile_shape=[1]*K.ndim(t)
         tile_shape[self.axis]=self.n
         return K.tile(t, tuple(tile_shape))
 
-- 
2.43.0


From 861e1c38854556ef34644dadb33cc46784774d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 195/241] fix: ExpandDim failed

---
 hyperion/keras/layers/tensor_manipulation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/layers/tensor_manipulation.py b/hyperion/keras/layers/tensor_manipulation.py
index e6bc015..d2176df 100644
--- a/hyperion/keras/layers/tensor_manipulation.py
+++ b/hyperion/keras/layers/tensor_manipulation.py
@@ -75,13 +75,14 @@ class ExpandDim(Layer):
     '''Expand 1 dimension
     '''
     def __init__(self, axis=-1, **kwargs):
-        super(Expand, self).__init__(**kwargs)
+        super(ExpandDim, self).__init__(**kwargs)
         self.axis = axis
     
 
     def compute_output_shape(self, input_shape):
         output_shape=list(input_shape)
-        output_shape.insert(self.axis,1)
+        axis = self.axis if self.axis >= 0 else self.axis + len(input_shape) + 1
+        output_shape.insert(axis,1)
         return tuple(output_shape)
 
     
@@ -91,7 +92,7 @@ class ExpandDim(Layer):
     
     def get_config(self):
         config = {'axis': self.axis}
-        base_config = super(ExpandAndTile, self).get_config()
+        base_config = super(ExpandDim, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
     
-- 
2.43.0


From b186637d145d19152f5dfd4f1636521c24888184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 196/241] fix: KLDivNormalVsStdNormal.get_config lost time_norm

---
 hyperion/keras/layers/losses.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hyperion/keras/layers/losses.py b/hyperion/keras/layers/losses.py
index ef02447..0a825ea 100644
--- a/hyperion/keras/layers/losses.py
+++ b/hyperion/keras/layers/losses.py
@@ -89,7 +89,8 @@ class KLDivNormalVsStdNormal(Layer):
     def get_config(self):
         config = {'in_fmt': '+'.join(self.in_fmt),
                   'min_kl': self.min_kl,
-                  'beta': self.beta}
+                  'beta': self.beta,
+                  'time_norm': self.time_norm}
         base_config =super(KLDivNormalVsStdNormal, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 0b86b044469cfea58f833aaad3af388825a33d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:15 +0000
Subject: [PATCH 197/241] fix: samplers from sequence level could not be made
 from their configuration

---
 hyperion/keras/layers/sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/layers/sampling.py b/hyperion/keras/layers/sampling.py
index 8d4ad14..81b73e3 100644
--- a/hyperion/keras/layers/sampling.py
+++ b/hyperion/keras/layers/sampling.py
@@ -338,7 +338,7 @@ class DiagNormalSamplerFromSeqLevel(DiagNormalSampler):
         
     def get_config(self):
         config = {'seq_length': self.seq_length,
-                  'one_sample': self.one_sample}
+                  'one_sample_per_seq': self.one_sample}
         base_config = super(DiagNormalSamplerFromSeqLevel, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
@@ -469,7 +469,7 @@ class NormalSamplerFromSeqLevel(NormalSampler):
     
     def get_config(self):
         config = {'seq_length': self.seq_length,
-                  'one_sample': self.one_sample}
+                  'one_sample_per_seq': self.one_sample}
         base_config = super(NormalSamplerFromSeqLevel, self).get_config()
         return dict(list(base_config.items()) + list(config.items()))
 
-- 
2.43.0


From 68d5c5d6104631d2e1dff3b8a4ecbe19747ee958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 198/241] fix: models with several of the layers could not be
 loaded

---
 hyperion/keras/keras_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperion/keras/keras_utils.py b/hyperion/keras/keras_utils.py
index 256bac5..be0eef0 100644
--- a/hyperion/keras/keras_utils.py
+++ b/hyperion/keras/keras_utils.py
@@ -16,6 +16,7 @@ from .layers.sampling import *
 from .layers.cov import *
 from .layers.pooling import *
 from .layers.scoring import *
+from .layers.losses import *
 from .layers.tensor_manipulation import *
 from .layers.feats import *
 
@@ -64,12 +65,16 @@ def get_keras_custom_obj():
         'MultConstCovStdPrior': MultConstCovStdPrior,
         'BernoulliSampler': BernoulliSampler,
         'NormalDiagCovSampler': NormalDiagCovSampler,
+        'TiedNormalDiagCovSampler': TiedNormalDiagCovSampler,
         'DiagNormalSampler': DiagNormalSampler,
         'DiagNormalSamplerFromSeqLevel': DiagNormalSamplerFromSeqLevel,
         'CatQScoringDiagNormalPostStdPrior': CatQScoringDiagNormalPostStdPrior,
         'CatQScoringDiagNormalHomoPostStdPrior': CatQScoringDiagNormalHomoPostStdPrior,
         'Repeat': Repeat,
         'ExpandAndTile': ExpandAndTile,
+        'ExpandDim': ExpandDim,
+        'ConvertNormalDiagCovPostStdPriorFmt': ConvertNormalDiagCovPostStdPriorFmt,
+        'KLDivNormalVsStdNormal': KLDivNormalVsStdNormal,
         'Clip': Clip,
         'DCT': DCT,
         'MelFB': MelFB,
-- 
2.43.0


From c07c9660619468be69aa920c5047a663ebf74d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:23 +0000
Subject: [PATCH 199/241] fix: SwishBeta failed

---
 hyperion/keras/layers/advanced_activations.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hyperion/keras/layers/advanced_activations.py b/hyperion/keras/layers/advanced_activations.py
index c4c3264..7fdb8bf 100644
--- a/hyperion/keras/layers/advanced_activations.py
+++ b/hyperion/keras/layers/advanced_activations.py
@@ -5,6 +5,7 @@ from __future__ import division
 import numpy as np
 
 import keras.backend as K
+from keras import initializers
 from keras.engine import InputSpec, Layer
 
 
@@ -42,23 +43,28 @@ class SwishBeta(Layer):
     """
 
     def __init__(self, beta=1, **kwargs):
-        super(Swish, self).__init__(**kwargs)
+        super(SwishBeta, self).__init__(**kwargs)
         self.supports_masking = True
-        self.beta_initializer = K.cast_to_floatx(beta)
+        self.beta_0 = K.cast_to_floatx(beta)
 
     def build(self, input_shape):
         input_dim = input_shape[-1]
         self.beta = self.add_weight((1,),
-                                    initializer=self.beta_initializer,
+                                    initializer=initializers.Constant(float(self.beta_0)),
                                     name='beta')
         self.input_spec = InputSpec(dtype=K.floatx(),
                                     min_ndim=2, axes={-1: input_dim})
-        self.build = True
+        self.built = True
 
         
     def call(self, inputs):
         return inputs * K.sigmoid(self.beta*inputs)
 
+    def get_config(self):
+        config = {'beta': float(self.beta_0)}
+        base_config = super(SwishBeta, self).get_config()
+        return dict(list(base_config.items()) + list(config.items()))
+
 
 
 class NIN(Layer):
-- 
2.43.0


From 1794fc43c27a2f979d47779472846f02c32c300e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 200/241] fix: frames after the first chunk were misplaced by
 the left context

---
 hyperion/keras/embed/seq_embed.py         | 6 ++++--
 hyperion/keras/embed/seq_embed_lde.py     | 6 ++++--
 hyperion/keras/embed/seq_q_embed.py       | 8 +++++---
 hyperion/keras/vae/tied_dvae_qy.py        | 8 +++++---
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 8 +++++---
 5 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/hyperion/keras/embed/seq_embed.py b/hyperion/keras/embed/seq_embed.py
index 293f001..e9cd681 100644
--- a/hyperion/keras/embed/seq_embed.py
+++ b/hyperion/keras/embed/seq_embed.py
@@ -226,20 +226,22 @@ class SeqEmbed(HypModel):
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
+        o_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            k_out = min(j_out+pool_seq_length-o_out, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
-            y[j_out:k_out] = y_i[:l_out]
+            y[j_out:k_out] = y_i[o_out:o_out+l_out]
 
             j_in += in_shift
             j_out += pool_shift
             if i==0:
                 j_out += pool_left_context
+                o_out = pool_left_context
         logging.debug(pool_seq_length)
         logging.debug(pool_left_context)
         logging.debug(pool_right_context)
diff --git a/hyperion/keras/embed/seq_embed_lde.py b/hyperion/keras/embed/seq_embed_lde.py
index a0c2a04..0de51a8 100644
--- a/hyperion/keras/embed/seq_embed_lde.py
+++ b/hyperion/keras/embed/seq_embed_lde.py
@@ -241,20 +241,22 @@ class SeqEmbedLDE(HypModel):
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
+        o_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            k_out = min(j_out+pool_seq_length-o_out, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
-            y[j_out:k_out] = y_i[:l_out]
+            y[j_out:k_out] = y_i[o_out:o_out+l_out]
 
             j_in += in_shift
             j_out += pool_shift
             if i==0:
                 j_out += pool_left_context
+                o_out = pool_left_context
         logging.debug(pool_seq_length)
         logging.debug(pool_left_context)
         logging.debug(pool_right_context)
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 51f5529..c634a41 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -221,21 +221,23 @@ class SeqQEmbed(HypModel):
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
+        o_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            k_out = min(j_out+pool_seq_length-o_out, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
             p1_i, p2_i = self.prepool_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,o_out:o_out+l_out]
+            p2[j_out:k_out] = p2_i[0,o_out:o_out+l_out]
             
             j_in += in_shift
             j_out += pool_shift
             if i==0:
                 j_out += pool_left_context
+                o_out = pool_left_context
 
         p1 = np.expand_dims(p1, axis=0)
         p2 = np.expand_dims(p2, axis=0)
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index bd5fb68..af87856 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -213,21 +213,23 @@ class TiedDVAE_QY(HypModel):
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
+        o_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            k_out = min(j_out+pool_seq_length-o_out, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
             p1_i, p2_i = self.qy_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,o_out:o_out+l_out]
+            p2[j_out:k_out] = p2_i[0,o_out:o_out+l_out]
             
             j_in += in_shift
             j_out += pool_shift
             if i==0:
                 j_out += pool_left_context
+                o_out = pool_left_context
 
         p1 = np.expand_dims(p1, axis=0)
         p2 = np.expand_dims(p2, axis=0)
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index 573011c..d8dcf09 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -299,21 +299,23 @@ class TiedSupVAE_QYQZgY(HypModel):
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
+        o_out = 0
         for i in xrange(num_batches):
             k_in = min(j_in+in_seq_length, in_length)
-            k_out = min(j_out+pool_seq_length, pool_length)
+            k_out = min(j_out+pool_seq_length-o_out, pool_length)
             l_in = k_in - j_in
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
             p1_i, p2_i = self.qy_net.predict(x_i, batch_size=1, **kwargs)
-            p1[j_out:k_out] = p1_i[0,:l_out]
-            p2[j_out:k_out] = p2_i[0,:l_out]
+            p1[j_out:k_out] = p1_i[0,o_out:o_out+l_out]
+            p2[j_out:k_out] = p2_i[0,o_out:o_out+l_out]
             
             j_in += in_shift
             j_out += pool_shift
             if i==0:
                 j_out += pool_left_context
+                o_out = pool_left_context
 
         p1 = np.expand_dims(p1, axis=0)
         p2 = np.expand_dims(p2, axis=0)
-- 
2.43.0


From d42f80729fb46154f0f525d33ec62b22b11a7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 201/241] fix: the last chunk of a sequence was followed by
 frames of the previous one

---
 hyperion/keras/embed/seq_embed.py         | 1 +
 hyperion/keras/embed/seq_embed_lde.py     | 1 +
 hyperion/keras/embed/seq_q_embed.py       | 1 +
 hyperion/keras/vae/tied_dvae_qy.py        | 1 +
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 1 +
 5 files changed, 5 insertions(+)

diff --git a/hyperion/keras/embed/seq_embed.py b/hyperion/keras/embed/seq_embed.py
index e9cd681..9555c3a 100644
--- a/hyperion/keras/embed/seq_embed.py
+++ b/hyperion/keras/embed/seq_embed.py
@@ -234,6 +234,7 @@ class SeqEmbed(HypModel):
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
             y[j_out:k_out] = y_i[o_out:o_out+l_out]
 
diff --git a/hyperion/keras/embed/seq_embed_lde.py b/hyperion/keras/embed/seq_embed_lde.py
index 0de51a8..f556a44 100644
--- a/hyperion/keras/embed/seq_embed_lde.py
+++ b/hyperion/keras/embed/seq_embed_lde.py
@@ -249,6 +249,7 @@ class SeqEmbedLDE(HypModel):
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             y_i = self.enc_net.predict(x_i, batch_size=1, **kwargs)[0]
             y[j_out:k_out] = y_i[o_out:o_out+l_out]
 
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index c634a41..f046b55 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -229,6 +229,7 @@ class SeqQEmbed(HypModel):
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.prepool_net.predict(x_i, batch_size=1, **kwargs)
             p1[j_out:k_out] = p1_i[0,o_out:o_out+l_out]
             p2[j_out:k_out] = p2_i[0,o_out:o_out+l_out]
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index af87856..d8801c6 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -221,6 +221,7 @@ class TiedDVAE_QY(HypModel):
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.qy_net.predict(x_i, batch_size=1, **kwargs)
             p1[j_out:k_out] = p1_i[0,o_out:o_out+l_out]
             p2[j_out:k_out] = p2_i[0,o_out:o_out+l_out]
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index d8dcf09..bb978f2 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -307,6 +307,7 @@ class TiedSupVAE_QYQZgY(HypModel):
             l_out = k_out - j_out
 
             x_i[0,:l_in] = x[j_in:k_in]
+            x_i[0,l_in:] = 0
             p1_i, p2_i = self.qy_net.predict(x_i, batch_size=1, **kwargs)
             p1[j_out:k_out] = p1_i[0,o_out:o_out+l_out]
             p2[j_out:k_out] = p2_i[0,o_out:o_out+l_out]
-- 
2.43.0


From cafac4cb82a06df1643033426312a811bea9f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 202/241] fix: short sequences were not encoded

---
 hyperion/keras/embed/seq_q_embed.py       | 2 +-
 hyperion/keras/vae/tied_dvae_qy.py        | 2 +-
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index f046b55..064ec9e 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -217,7 +217,7 @@ class SeqQEmbed(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index d8801c6..e5776a8 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -209,7 +209,7 @@ class TiedDVAE_QY(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index bb978f2..63b16b8 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -295,7 +295,7 @@ class TiedSupVAE_QYQZgY(HypModel):
         mask[0,:pool_begin_context] = 0
         mask[0,pool_length - pool_end_context:] = 0
 
-        num_batches = int(np.ceil((in_length-in_seq_length)/in_shift+1))
+        num_batches = max(int(np.ceil((in_length-in_seq_length)/in_shift+1)), 1)
         x_i = np.zeros((1,in_seq_length, x.shape[-1]), dtype=float_keras())
         j_in = 0
         j_out = 0
-- 
2.43.0


From 5f8c2bfeef832b38abecbb268c23f0bdf063e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 203/241] fix: MaxPooling1D was not imported

---
 hyperion/keras/embed/seq_q_embed.py       | 2 +-
 hyperion/keras/vae/tied_dvae_qy.py        | 2 +-
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 064ec9e..48da47a 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -12,7 +12,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation
+from keras.layers import Input, Concatenate, Activation, MaxPooling1D
 from keras.models import Model, load_model, model_from_json
 
 from .. import objectives as hyp_obj
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index e5776a8..cc20b48 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -13,7 +13,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation
+from keras.layers import Input, Concatenate, Activation, MaxPooling1D
 from keras.models import Model, load_model, model_from_json
 
 from .. import objectives as hyp_obj
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index 63b16b8..57cf415 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -16,7 +16,7 @@ import numpy as np
 from keras import backend as K
 from keras import optimizers
 from keras import objectives
-from keras.layers import Input, Concatenate, Activation, Reshape
+from keras.layers import Input, Concatenate, Activation, MaxPooling1D, Reshape
 from keras.models import Model, load_model, model_from_json
 
 from ..losses import *
-- 
2.43.0


From 3785b48c2d26aa07f14c9120dc43fe3add7f188a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 204/241] fix: extracted posteriors ignored frame_corr_penalty

---
 hyperion/keras/embed/seq_q_embed.py       | 6 ++++--
 hyperion/keras/vae/tied_dvae_qy.py        | 6 ++++--
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 6 ++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 48da47a..cb147d7 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -184,7 +184,8 @@ class SeqQEmbed(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var,
+            frame_corr_penalty=self.frame_corr_penalty, name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
         
         self.pool_net = Model([p1_frame_embed, p2_frame_embed, mask], q_embed)
@@ -254,7 +255,8 @@ class SeqQEmbed(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=self.pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var,
+            frame_corr_penalty=self.frame_corr_penalty, name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
 
         score = self.score_net(q_embed)
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index cc20b48..e555e1b 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -176,7 +176,8 @@ class TiedDVAE_QY(HypModel):
         q_embed = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var,
+            frame_corr_penalty=self.frame_corr_penalty, name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
         
         self.pool_net = Model([p1_frame_embed, p2_frame_embed, mask], q_embed)
@@ -246,7 +247,8 @@ class TiedDVAE_QY(HypModel):
         q_embed = GlobalNormalDiagCovPostStdPriorPooling1D(
             in_fmt=self.pooling_input,
             out_fmt=self.pooling_output,
-            min_var=self.min_var, name='pooling')(
+            min_var=self.min_var,
+            frame_corr_penalty=self.frame_corr_penalty, name='pooling')(
                 [p1_frame_embed, p2_frame_embed, mask])
 
         score = self.pt_net(q_embed)
diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index 57cf415..ce56650 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -262,7 +262,8 @@ class TiedSupVAE_QYQZgY(HypModel):
         qy = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.qy_pool_in_fmt,
             out_fmt=qy_pool_out_fmt,
-            min_var=self.qy_min_var, name='pooling')(
+            min_var=self.qy_min_var,
+            frame_corr_penalty=self.frame_corr_penalty, name='pooling')(
                 [p1_frame_qy, p2_frame_qy, mask])
         
         self.pool_net = Model([p1_frame_qy, p2_frame_qy, mask], qy)
@@ -332,7 +333,8 @@ class TiedSupVAE_QYQZgY(HypModel):
         qy = GlobalDiagNormalPostStdPriorPooling1D(
             in_fmt=self.qy_pool_in_fmt,
             out_fmt=self.qy_pool_out_fmt,
-            min_var=self.qy_min_var, name='pooling')(
+            min_var=self.qy_min_var,
+            frame_corr_penalty=self.frame_corr_penalty, name='pooling')(
                 [p1_frame_qy, p2_frame_qy, mask])
         y = NormalDiagCovSampler(in_fmt=self.qy_pool_out_fmt, name='qy_sampling')(qy)
         pt = self.pt_net(y)
-- 
2.43.0


From d0efca21635fec629ad9dec1b15ff1f1c1311ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 205/241] fix: fit could not be called

---
 hyperion/keras/embed/seq_meta_embed.py | 2 +-
 hyperion/keras/embed/seq_q_embed.py    | 2 +-
 hyperion/keras/vae/tied_dvae_qy.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/embed/seq_meta_embed.py b/hyperion/keras/embed/seq_meta_embed.py
index 68a2c99..a6a6596 100644
--- a/hyperion/keras/embed/seq_meta_embed.py
+++ b/hyperion/keras/embed/seq_meta_embed.py
@@ -134,7 +134,7 @@ class SeqMetaEmbed(HypModel):
 
     
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index cb147d7..8d9a87a 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -270,7 +270,7 @@ class SeqQEmbed(HypModel):
 
 
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index e555e1b..af979b0 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -262,7 +262,7 @@ class TiedDVAE_QY(HypModel):
 
 
     
-    def fit(**kwargs):
+    def fit(self, **kwargs):
         self.model.fit(**kwargs)
 
 
-- 
2.43.0


From 7ec3e21326630159fe89c593e64b5c2ac835cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 206/241] fix: log-variances could not be chosen for the
 pooling output

---
 hyperion/keras/embed/seq_q_embed.py | 4 ++--
 hyperion/keras/vae/tied_dvae_qy.py  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/hyperion/keras/embed/seq_q_embed.py b/hyperion/keras/embed/seq_q_embed.py
index 8d9a87a..351a82e 100644
--- a/hyperion/keras/embed/seq_q_embed.py
+++ b/hyperion/keras/embed/seq_q_embed.py
@@ -367,9 +367,9 @@ class SeqQEmbed(HypModel):
                                      'mean+var', 'mean+prec', 'mean+prec-1'])
         parser.add_argument(p1+'pooling-output', dest=p2+'pooling_output',
                             default='nat+prec',
-                            choices=['nat+logar', 'nat+logprec',
+                            choices=['nat+logvar', 'nat+logprec',
                                      'nat+var', 'nat+prec',
-                                     'mean+logar', 'mean+logprec',
+                                     'mean+logvar', 'mean+logprec',
                                      'mean+var', 'mean+prec'])
     
         parser.add_argument(p1+'min-var', dest=p2+'min_var', default=0.9, type=float,
diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index af979b0..9e38b87 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -359,9 +359,9 @@ class TiedDVAE_QY(HypModel):
                                      'mean+var', 'mean+prec', 'mean+prec-1'])
         parser.add_argument(p1+'pooling-output', dest=p2+'pooling_output',
                             default='mean+var',
-                            choices=['nat+logar', 'nat+logprec',
+                            choices=['nat+logvar', 'nat+logprec',
                                      'nat+var', 'nat+prec',
-                                     'mean+logar', 'mean+logprec',
+                                     'mean+logvar', 'mean+logprec',
                                      'mean+var', 'mean+prec'])
     
         parser.add_argument(p1+'min-var', dest=p2+'min_var', default=0.9, type=float,
-- 
2.43.0


From 84dd216766ed9489b68ec2a0ee63c74c66c0d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 207/241] fix: TiedDVAE_QY could not be loaded

---
 hyperion/keras/vae/tied_dvae_qy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/vae/tied_dvae_qy.py b/hyperion/keras/vae/tied_dvae_qy.py
index 9e38b87..521f202 100644
--- a/hyperion/keras/vae/tied_dvae_qy.py
+++ b/hyperion/keras/vae/tied_dvae_qy.py
@@ -313,12 +313,12 @@ class TiedDVAE_QY(HypModel):
         file_model = '%s.pt.h5' % (file_path)
         pt_net = load_model(file_model, custom_objects=get_keras_custom_obj())
 
-        filter_args = ('post_pdf', 'pooling_input', 'pooling_output',
+        filter_args = ('loss', 'post_pdf', 'pooling_input', 'pooling_output',
                        'left_context', 'right_context',
                        'begin_context', 'end_context',
                        'min_var', 'kl_weight', 'frame_corr_penalty', 'name')
         kwargs = {k: config[k] for k in filter_args if k in config }
-        return cls(qy_net, config['num_classes'], pt_net, **kwargs)
+        return cls(qy_net, pt_net, **kwargs)
 
     
     
-- 
2.43.0


From e27dfd6c43ec4d897aeb68e7fe45fdb99df6af60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 208/241] fix: SeqEmbedLDE lost lde_order when saved

---
 hyperion/keras/embed/seq_embed_lde.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/keras/embed/seq_embed_lde.py b/hyperion/keras/embed/seq_embed_lde.py
index f556a44..702adf7 100644
--- a/hyperion/keras/embed/seq_embed_lde.py
+++ b/hyperion/keras/embed/seq_embed_lde.py
@@ -318,6 +318,7 @@ class SeqEmbedLDE(HypModel):
         config = { 'pooling': self.pooling,
                    'loss': self.loss,
                    'num_comp': self.num_comp,
+                   'lde_order': self.lde_order,
                    'left_context': self.left_context,
                    'right_context': self.right_context,
                    'begin_context': self.begin_context,
-- 
2.43.0


From a9dcb24a7fd752a0a74ac7e14b04518bbdd49704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 209/241] fix: TiedSupVAE_QYQZgY.predict_pt and build without
 class network failed

---
 hyperion/keras/vae/tied_sup_vae_qyqzgy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
index ce56650..ccd8f73 100644
--- a/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
+++ b/hyperion/keras/vae/tied_sup_vae_qyqzgy.py
@@ -211,7 +211,6 @@ class TiedSupVAE_QYQZgY(HypModel):
             pt = self.pt_net(y)
             self.model = Model(x, [px, pt, kl_qy, kl_qz])
         logging.debug(K.int_shape(self.model.outputs[-1]))
-        logging.debug(K.int_shape(pt))
         self.model.summary()
 
 
@@ -344,7 +343,7 @@ class TiedSupVAE_QYQZgY(HypModel):
 
 
     def predict_pt(self, x, **kwargs):
-        return self.predict_qy(x, **kwargs)
+        return self.compute_qy(x, **kwargs)
 
 
     
-- 
2.43.0


From 7ef0f834adf4137d986b1e5a2fa13c8201c1f588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:45 +0000
Subject: [PATCH 210/241] fix: first layer of the blocks of ResTDNNV1 was
 ignored

---
 hyperion/keras/archs/tdnn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/archs/tdnn.py b/hyperion/keras/archs/tdnn.py
index 810bf24..b95f077 100644
--- a/hyperion/keras/archs/tdnn.py
+++ b/hyperion/keras/archs/tdnn.py
@@ -356,7 +356,7 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
                        kernel_regularizer=kernel_regularizer,
                        bias_regularizer=bias_regularizer,
                        kernel_constraint=kernel_constraint,
-                       bias_constraint=bias_constraint)(h_i)
+                       bias_constraint=bias_constraint)(h_i_1)
 
         if hidden_activation is not None:
             h_i_2 = hidden_activation(h_i_2)
@@ -412,7 +412,7 @@ def ResTDNNV1(num_td_blocks, num_fc_blocks,
                        kernel_regularizer=kernel_regularizer,
                        bias_regularizer=bias_regularizer,
                        kernel_constraint=kernel_constraint,
-                       bias_constraint=bias_constraint)(h_i)
+                       bias_constraint=bias_constraint)(h_i_1)
 
         if hidden_activation is not None:
             h_i_2 = hidden_activation(h_i_2)
-- 
2.43.0


From a08720f39ce018d7b3268b72a63b230972130b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 211/241] fix: mean and log-variance of the embeddings could
 not be extracted

---
 hyperion/bin/keras-extract-seq-q-embed.py    | 2 +-
 hyperion/bin/keras-extract-tied-vae-embed.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index f8d7a08..0c3b482 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -106,7 +106,7 @@ if __name__ == "__main__":
                         default='mean+var',
                         choices=['nat+logvar', 'nat+logprec',
                                  'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec',
+                                 'mean+logvar', 'mean+logprec',
                                  'mean+var', 'mean+prec'])
     parser.add_argument('--write-format', dest='write_format',
                         default='p1',
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index e793209..fa59b3a 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -105,7 +105,7 @@ if __name__ == "__main__":
                         default='mean+var',
                         choices=['nat+logvar', 'nat+logprec',
                                  'nat+var', 'nat+prec',
-                                 'mean+logar', 'mean+logprec',
+                                 'mean+logvar', 'mean+logprec',
                                  'mean+var', 'mean+prec'])
     parser.add_argument('--write-format', dest='write_format',
                         default='p1',
-- 
2.43.0


From 5f97c409d71fe605cfa53a46b5ca04f91d487019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 212/241] fix: keras-extract-tied-vae-embed ignored
 --pooling-output

---
 hyperion/bin/keras-extract-tied-vae-embed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index fa59b3a..88d2674 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -50,7 +50,7 @@ def extract_embed(seq_file, model_file, preproc_file, output_path,
 
     model = TVAE.load(model_file)
     model.build(max_seq_length)
-    model.build_qy('mean+var')
+    model.build_qy(pooling_output)
     y_dim = model.embed_dim
 
     _, seq_lengths = sr.read_num_rows()
-- 
2.43.0


From 8012a483d36851cd50836d4979ef6726c6ea9717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:07 +0000
Subject: [PATCH 213/241] fix: keras command-line tools stopped with a
 SyntaxError (two docstrings before the __future__ imports)

---
 hyperion/bin/keras-adapt-cat-seq-embed.py            | 3 +--
 hyperion/bin/keras-adapt-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-eval-pdda-1vs1.py                 | 3 +--
 hyperion/bin/keras-eval-seq-embed.py                 | 3 +--
 hyperion/bin/keras-eval-seq-q-embed.py               | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector.py      | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector2.py     | 3 +--
 hyperion/bin/keras-extract-gmm-tcvae-ivector3.py     | 3 +--
 hyperion/bin/keras-extract-seq-embed-deprec.py       | 3 +--
 hyperion/bin/keras-extract-seq-embed.py              | 3 +--
 hyperion/bin/keras-extract-seq-embed2.py             | 3 +--
 hyperion/bin/keras-extract-seq-embed5.py             | 3 +--
 hyperion/bin/keras-extract-seq-q-embed.py            | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector-pt.py       | 3 +--
 hyperion/bin/keras-extract-tcvae-ivector.py          | 3 +--
 hyperion/bin/keras-extract-tied-vae-embed.py         | 3 +--
 hyperion/bin/keras-extract-tvae-ivector.py           | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-att.py        | 3 +--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 3 +--
 hyperion/bin/keras-train-cat-seq-meta-embed.py       | 3 +--
 hyperion/bin/keras-train-cat-seq-q-embed.py          | 3 +--
 hyperion/bin/keras-train-cat-tied-dvae.py            | 3 +--
 hyperion/bin/keras-train-cat-tied-sup-vae.py         | 3 +--
 hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py    | 3 +--
 hyperion/bin/keras-train-gmm-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-pdda.py                     | 3 +--
 hyperion/bin/keras-train-sup-tcvae-ivector.py        | 3 +--
 hyperion/bin/keras-train-tcvae-ivector.py            | 3 +--
 28 files changed, 28 insertions(+), 56 deletions(-)

diff --git a/hyperion/bin/keras-adapt-cat-seq-embed.py b/hyperion/bin/keras-adapt-cat-seq-embed.py
index 6731b7c..89fb143 100755
--- a/hyperion/bin/keras-adapt-cat-seq-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-adapt-cat-seq-q-embed.py b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
index 80a32b8..1c061b5 100755
--- a/hyperion/bin/keras-adapt-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-adapt-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Adapts q-embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-pdda-1vs1.py b/hyperion/bin/keras-eval-pdda-1vs1.py
index e7d0bc9..6246bce 100755
--- a/hyperion/bin/keras-eval-pdda-1vs1.py
+++ b/hyperion/bin/keras-eval-pdda-1vs1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals PDDA LLR
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-embed.py b/hyperion/bin/keras-eval-seq-embed.py
index 6e2091e..142e813 100755
--- a/hyperion/bin/keras-eval-seq-embed.py
+++ b/hyperion/bin/keras-eval-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-eval-seq-q-embed.py b/hyperion/bin/keras-eval-seq-q-embed.py
index 4db30a0..52656ef 100755
--- a/hyperion/bin/keras-eval-seq-q-embed.py
+++ b/hyperion/bin/keras-eval-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Evals sequence embeddings net.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
index e88b294..f8711ff 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
index 199d415..9ddc02b 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
index 4657c25..74decb5 100755
--- a/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
+++ b/hyperion/bin/keras-extract-gmm-tcvae-ivector3.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed-deprec.py b/hyperion/bin/keras-extract-seq-embed-deprec.py
index 606f419..08bb493 100755
--- a/hyperion/bin/keras-extract-seq-embed-deprec.py
+++ b/hyperion/bin/keras-extract-seq-embed-deprec.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed.py b/hyperion/bin/keras-extract-seq-embed.py
index 73300da..3ecce0f 100755
--- a/hyperion/bin/keras-extract-seq-embed.py
+++ b/hyperion/bin/keras-extract-seq-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts x-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed2.py b/hyperion/bin/keras-extract-seq-embed2.py
index 0e7ffef..3b57040 100755
--- a/hyperion/bin/keras-extract-seq-embed2.py
+++ b/hyperion/bin/keras-extract-seq-embed2.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-embed5.py b/hyperion/bin/keras-extract-seq-embed5.py
index dcc7320..626bab2 100755
--- a/hyperion/bin/keras-extract-seq-embed5.py
+++ b/hyperion/bin/keras-extract-seq-embed5.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-seq-q-embed.py b/hyperion/bin/keras-extract-seq-q-embed.py
index 0c3b482..2129c81 100755
--- a/hyperion/bin/keras-extract-seq-q-embed.py
+++ b/hyperion/bin/keras-extract-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts sequence Q embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector-pt.py b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
index 441007f..674134d 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector-pt.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector-pt.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tcvae-ivector.py b/hyperion/bin/keras-extract-tcvae-ivector.py
index 1d54b49..3167f93 100755
--- a/hyperion/bin/keras-extract-tcvae-ivector.py
+++ b/hyperion/bin/keras-extract-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TCVAE i-vectors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tied-vae-embed.py b/hyperion/bin/keras-extract-tied-vae-embed.py
index 88d2674..0b12e8c 100755
--- a/hyperion/bin/keras-extract-tied-vae-embed.py
+++ b/hyperion/bin/keras-extract-tied-vae-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Extracts TVAE sequence embeddings
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-extract-tvae-ivector.py b/hyperion/bin/keras-extract-tvae-ivector.py
index 0dac764..465f802 100755
--- a/hyperion/bin/keras-extract-tvae-ivector.py
+++ b/hyperion/bin/keras-extract-tvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-att.py b/hyperion/bin/keras-train-cat-seq-embed-att.py
index c7f1d67..3b035e9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-att.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-att.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vectors with attention
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index e788db4..99b6f7e 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains x-vector with LDE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-meta-embed.py b/hyperion/bin/keras-train-cat-seq-meta-embed.py
index 4263ed6..b62d153 100755
--- a/hyperion/bin/keras-train-cat-seq-meta-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-meta-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE ??
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9c993b3..9e116b9 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with q-scoring
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 87d06a9..b1feefb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with discriminative VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index bd0479b..c463522 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains q-embeddings with supervised VAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
index 8e61bfd..32e3332 100755
--- a/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE with gmm posteriors.
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-gmm-tcvae-ivector.py b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
index c897bb6..730beba 100755
--- a/hyperion/bin/keras-train-gmm-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-gmm-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE with GMM posteriors
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-pdda.py b/hyperion/bin/keras-train-pdda.py
index f6cb09c..3aef7d8 100755
--- a/hyperion/bin/keras-train-pdda.py
+++ b/hyperion/bin/keras-train-pdda.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains PDDA
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-sup-tcvae-ivector.py b/hyperion/bin/keras-train-sup-tcvae-ivector.py
index dd1ca68..0ed93f0 100755
--- a/hyperion/bin/keras-train-sup-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-sup-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains supervised TCVAE
 """
 from __future__ import absolute_import
diff --git a/hyperion/bin/keras-train-tcvae-ivector.py b/hyperion/bin/keras-train-tcvae-ivector.py
index e71911d..578d22a 100755
--- a/hyperion/bin/keras-train-tcvae-ivector.py
+++ b/hyperion/bin/keras-train-tcvae-ivector.py
@@ -2,8 +2,7 @@
 """
  Copyright 2018 Johns Hopkins University  (Author: Jesus Villalba)
  Apache 2.0  (http://www.apache.org/licenses/LICENSE-2.0)
-"""
-"""
+
 Trains TCVAE
 """
 from __future__ import absolute_import
-- 
2.43.0


From 7505cb285787bc462a2849ec859f580165eb8ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:52 +0000
Subject: [PATCH 214/241] fix: ReduceLROnPlateauIncreaseOnImprovement could not
 be created

---
 hyperion/keras/callbacks/lr_schedulers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hyperion/keras/callbacks/lr_schedulers.py b/hyperion/keras/callbacks/lr_schedulers.py
index 1b11d01..3b7efdc 100644
--- a/hyperion/keras/callbacks/lr_schedulers.py
+++ b/hyperion/keras/callbacks/lr_schedulers.py
@@ -5,6 +5,9 @@ from __future__ import division
 from six.moves import xrange
 
 import logging
+import warnings
+
+import numpy as np
 
 import keras.backend as K
 from keras.callbacks import Callback
@@ -70,10 +73,10 @@ class ReduceLROnPlateauIncreaseOnImprovement(Callback):
     def __init__(self, monitor='val_loss', red_factor=0.1, inc_factor=1.1, patience=10,
                  mode='auto', min_delta=1e-4, cooldown=0, min_lr=0,
                  **kwargs):
-        super(ReduceLROnPlateau, self).__init__()
+        super(ReduceLROnPlateauIncreaseOnImprovement, self).__init__()
 
         self.monitor = monitor
-        if factor >= 1.0:
+        if red_factor >= 1.0:
             raise ValueError('ReduceLROnPlateau '
                              'does not support a factor >= 1.0.')
         if 'epsilon' in kwargs:
-- 
2.43.0


From ae52671eb9369a18e518963db9b1730f0eea0d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 215/241] fix: --lr-inc-factor without --lr-red-factor ignored
 --lr-factor and failed

---
 hyperion/keras/helpers/callbacks_factory.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/keras/helpers/callbacks_factory.py b/hyperion/keras/helpers/callbacks_factory.py
index a76e610..8c805e7 100644
--- a/hyperion/keras/helpers/callbacks_factory.py
+++ b/hyperion/keras/helpers/callbacks_factory.py
@@ -49,9 +49,9 @@ class CallbacksFactory(object):
             cbs.append(cb)    
 
         if lr_patience is not None:
+            if lr_red_factor is not None:
+                lr_factor = lr_red_factor
             if lr_inc_factor is None:
-                if lr_red_factor is not None:
-                    lr_factor = lr_red_factor
                 cb = ReduceLROnPlateau(monitor=lr_monitor,
                                        factor=lr_factor, patience=lr_patience,
                                        verbose=1, mode=lr_monitor_mode, min_delta=min_delta,
@@ -59,7 +59,7 @@ class CallbacksFactory(object):
             else:
                 cb = ReduceLROnPlateauIncreaseOnImprovement(
                     monitor=lr_monitor,
-                    red_factor=lr_red_factor, inc_factor=lr_inc_factor,
+                    red_factor=lr_factor, inc_factor=lr_inc_factor,
                     patience=lr_patience,
                     verbose=1, mode=lr_monitor_mode, min_delta=min_delta,
                     cooldown=0, min_lr=min_lr)
-- 
2.43.0


From f269a74e97a4d56525eaf4bdea739f2f5622ba2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 216/241] fix: HypModelCheckpoint ignored its mode and period

---
 hyperion/keras/callbacks/checkpointers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/callbacks/checkpointers.py b/hyperion/keras/callbacks/checkpointers.py
index 5318333..37ccbca 100644
--- a/hyperion/keras/callbacks/checkpointers.py
+++ b/hyperion/keras/callbacks/checkpointers.py
@@ -16,7 +16,7 @@ class HypModelCheckpoint(ModelCheckpoint):
                  mode='auto', period=1):
         super(HypModelCheckpoint, self).__init__(
             filepath, monitor, verbose,
-            save_best_only, False, mode='auto', period=1)
+            save_best_only, False, mode=mode, period=period)
         self.hyp_model = model
 
     
-- 
2.43.0


From e9da0ec3bf9b9e4a9cc996ad7fa4da78cb48eac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:02 +0000
Subject: [PATCH 217/241] fix: option --amsgrad of the keras optimizers was
 ignored

---
 hyperion/keras/helpers/optimizer_factory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/helpers/optimizer_factory.py b/hyperion/keras/helpers/optimizer_factory.py
index 1a72233..fff26f8 100644
--- a/hyperion/keras/helpers/optimizer_factory.py
+++ b/hyperion/keras/helpers/optimizer_factory.py
@@ -43,7 +43,7 @@ class OptimizerFactory(object):
             p = prefix + '_'
         valid_args = ('opt_type', 'lr', 'momentum', 'lr_decay',
                       'rho', 'epsilon', 'beta_1', 'beta_2',
-                      'clipnorm', 'clipvalue')
+                      'clipnorm', 'clipvalue', 'amsgrad')
         return dict((k, kwargs[p+k])
                     for k in valid_args if p+k in kwargs)
     
-- 
2.43.0


From 7a31cf5ec438dbb16fb8191c4510a2f591e0d63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:59 +0000
Subject: [PATCH 218/241] fix: the kind of archive of a script is found when
 the path has the separator in it

---
 hyperion/io/rw_specifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/io/rw_specifiers.py b/hyperion/io/rw_specifiers.py
index d887907..bf90f56 100644
--- a/hyperion/io/rw_specifiers.py
+++ b/hyperion/io/rw_specifiers.py
@@ -338,7 +338,7 @@ class RSpecifier(object):
             
             if spec_type == RSpecType.SCRIPT:
                 with open(archive, 'r') as f:
-                    scp = f.readline().strip().split(scp_sep)[1].split('[')[0].split(':')
+                    scp = f.readline().strip().split(scp_sep, 1)[1].split('[')[0].split(':')
                     if len(scp) == 1:
                         archive_type = ArchiveType.H5
                     else:
-- 
2.43.0


From 49843095b3cd204aabbf709e9d20a7e1ff7fa133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:29 +0000
Subject: [PATCH 219/241] fix: a matrix without rows in a text archive could
 not be read back

---
 hyperion/utils/kaldi_matrix.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/utils/kaldi_matrix.py b/hyperion/utils/kaldi_matrix.py
index c7b9382..3dc5b4c 100644
--- a/hyperion/utils/kaldi_matrix.py
+++ b/hyperion/utils/kaldi_matrix.py
@@ -132,8 +132,8 @@ class KaldiMatrix(object):
 
                 arr = line.strip().split()
                 if first_line:
-                    if arr == '[]':
-                        return np.array([], dtype='float32')
+                    if arr == ['[]']:
+                        return cls(np.array([], dtype='float32'))
                     if arr[0] != '[':
                         raise ValueError('Wrong matrix format %s ' % line)
                     first_line = False
@@ -173,7 +173,7 @@ class KaldiMatrix(object):
             write_int32(f, binary, self.num_cols)
             f.write(self.data.tobytes())
         else:
-            if self.num_cols == 0:
+            if self.data.size == 0:
                 f.write(' [ ]\n')
             else:
                 f.write(' [')
-- 
2.43.0


From 931b1eee0ec4e100daa42d34d913efe10aea027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:25 +0000
Subject: [PATCH 220/241] fix: trial lists, keys and scores with names beyond
 ASCII could not be saved in HDF5

---
 hyperion/utils/trial_key.py    | 10 +++++-----
 hyperion/utils/trial_ndx.py    |  4 ++--
 hyperion/utils/trial_scores.py |  4 ++--
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index 002df25..f031f39 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -102,8 +102,8 @@ class TrialKey(object):
         """
 
         with h5py.File(file_path, 'w') as f:
-            model_set = self.model_set.astype('S')
-            seg_set = self.seg_set.astype('S')
+            model_set = np.char.encode(self.model_set.astype('U'), 'utf-8')
+            seg_set = np.char.encode(self.seg_set.astype('U'), 'utf-8')
             f.create_dataset('ID/row_ids', data=model_set)
             f.create_dataset('ID/column_ids', data=seg_set)
             trial_mask = self.tar.astype('int8') - self.non.astype('int8')
@@ -119,13 +119,13 @@ class TrialKey(object):
                 f.create_dataset('trial_cond',
                                  data=self.trial_cond.astype('uint8'))
             if self.model_cond_name is not None:
-                model_cond_name = self.model_cond_name.astype('S')
+                model_cond_name = np.char.encode(self.model_cond_name.astype('U'), 'utf-8')
                 f.create_dataset('model_cond_name', data=model_cond_name)
             if self.seg_cond_name is not None:
-                seg_cond_name = self.seg_cond_name.astype('S')
+                seg_cond_name = np.char.encode(self.seg_cond_name.astype('U'), 'utf-8')
                 f.create_dataset('seg_cond_name', data=seg_cond_name)
             if self.trial_cond_name is not None:
-                trial_cond_name = self.trial_cond_name.astype('S')
+                trial_cond_name = np.char.encode(self.trial_cond_name.astype('U'), 'utf-8')
                 f.create_dataset('trial_cond_name', data=trial_cond_name)
 
             
diff --git a/hyperion/utils/trial_ndx.py b/hyperion/utils/trial_ndx.py
index 9deacb8..d9b7e0b 100644
--- a/hyperion/utils/trial_ndx.py
+++ b/hyperion/utils/trial_ndx.py
@@ -74,8 +74,8 @@ class TrialNdx(object):
           file_path: File to write the list.
         """
         with h5py.File(file_path, 'w') as f:
-            model_set = self.model_set.astype('S')
-            seg_set = self.seg_set.astype('S')
+            model_set = np.char.encode(self.model_set.astype('U'), 'utf-8')
+            seg_set = np.char.encode(self.seg_set.astype('U'), 'utf-8')
             f.create_dataset('ID/row_ids', data=model_set)
             f.create_dataset('ID/column_ids', data=seg_set)
             f.create_dataset('trial_mask',
diff --git a/hyperion/utils/trial_scores.py b/hyperion/utils/trial_scores.py
index 5fd17bd..6986a1a 100644
--- a/hyperion/utils/trial_scores.py
+++ b/hyperion/utils/trial_scores.py
@@ -86,8 +86,8 @@ class TrialScores(object):
           file_path: File to write the list.
         """
         with h5py.File(file_path, 'w') as f:
-            model_set = self.model_set.astype('S')
-            seg_set = self.seg_set.astype('S')
+            model_set = np.char.encode(self.model_set.astype('U'), 'utf-8')
+            seg_set = np.char.encode(self.seg_set.astype('U'), 'utf-8')
             f.create_dataset('ID/row_ids', data=model_set)
             f.create_dataset('ID/column_ids', data=seg_set)
             f.create_dataset('scores', data=self.scores)
-- 
2.43.0


From 4b4c88fb5f0abfd84870e00c3048b01b93ad79ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:26 +0000
Subject: [PATCH 221/241] fix: audio of two keys that differ in / and - was
 written to the same file, one over the other

---
 hyperion/io/audio_writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hyperion/io/audio_writer.py b/hyperion/io/audio_writer.py
index decef14..e0ca000 100644
--- a/hyperion/io/audio_writer.py
+++ b/hyperion/io/audio_writer.py
@@ -42,6 +42,7 @@ class AudioWriter(object):
         self.script_path = script_path
         self.audio_format = audio_format
         self.scp_sep = scp_sep
+        self._key_of_file = {}
 
         assert '.' + self.audio_format in valid_ext
         if subtype is None:
@@ -106,6 +107,10 @@ class AudioWriter(object):
             assert is_token(key_i), 'Token %s not valid' % key_i
             file_basename = re.sub('/', '-', key_i)
             output_file = '%s/%s.%s' % (self.output_path, file_basename, self.audio_format)
+            # / in the key is changed, so two keys may ask for the same file
+            if self._key_of_file.setdefault(output_file, key_i) != key_i:
+                raise ValueError('Audio of %s would overwrite the one of %s in %s' % (
+                    key_i, self._key_of_file[output_file], output_file))
             fs_i = fs[i] if fs_is_list else fs
             data_i = data[i].astype(dtype, copy=False)
             sf.write(output_file, data_i, fs_i, subtype=self.subtype)
-- 
2.43.0


From aacf591652e06b8fe967f68fba2bbbc071486941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:57 +0000
Subject: [PATCH 222/241] fix: merging script lists where only some have ranges
 or positions dropped them

---
 hyperion/utils/scp_list.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 49e3348..3746f02 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -282,21 +282,30 @@ class SCPList(object):
         """
         key_list = [item.key for item in scp_lists]
         file_list = [item.file_path for item in scp_lists]
-        offset_list = [item.offset for item in scp_lists]
-        range_list =  [item.range_spec for item in scp_lists]
+        # lists without keys say nothing about offsets and ranges
+        filled = [item for item in scp_lists if len(item.key) > 0]
+        offset_list = [item.offset for item in filled]
+        range_list =  [item.range_spec for item in filled]
 
         key = np.concatenate(tuple(key_list))
         file_path = np.concatenate(tuple(file_list))
 
-        if offset_list[0] is None:
+        no_offset = [o is None for o in offset_list]
+        if all(no_offset):
             offset = None
+        elif any(no_offset):
+            raise ValueError('Cannot merge lists with and without data positions')
         else:
             offset = np.concatenate(tuple(offset_list))
 
-        if range_list[0] is None:
+        if all(r is None for r in range_list):
             range_spec = None
         else:
-            range_spec = np.concatenate(tuple(range_list))
+            # lists without ranges read the whole file
+            range_spec = np.concatenate(tuple(
+                np.zeros((len(item.key), 2), dtype=np.int64)
+                if item.range_spec is None else item.range_spec
+                for item in filled))
 
         return cls(key, file_path, offset, range_spec)
 
-- 
2.43.0


From 8fa4216debce97c294b8454fc6455abcc9e83b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:27 +0000
Subject: [PATCH 223/241] fix: the script file of an empty list could not be
 loaded

---
 hyperion/utils/scp_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/utils/scp_list.py b/hyperion/utils/scp_list.py
index 3746f02..d455ae6 100644
--- a/hyperion/utils/scp_list.py
+++ b/hyperion/utils/scp_list.py
@@ -194,7 +194,7 @@ class SCPList(object):
         file_offset = [f[0].split(sep=offset_sep, maxsplit=1) for f in file_range]
         file_path = [f[0] for f in file_offset]
         
-        if len(file_offset[0]) == 2:
+        if len(file_offset) > 0 and len(file_offset[0]) == 2:
             offset = [int(f[1]) if len(f)==2 else -1 for f in file_offset]
             if -1 in offset:
                 raise ValueError('Missing data position for %s' % f[0])
-- 
2.43.0


From 51fb4737ee4c3469fcf3aeceedb228da46b67da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:54 +0000
Subject: [PATCH 224/241] fix: merging trial keys joined their conditions by
 position and not by name, and lost those the first key did not have

---
 hyperion/utils/trial_key.py | 67 ++++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 9 deletions(-)

diff --git a/hyperion/utils/trial_key.py b/hyperion/utils/trial_key.py
index f031f39..45abc31 100644
--- a/hyperion/utils/trial_key.py
+++ b/hyperion/utils/trial_key.py
@@ -235,6 +235,45 @@ class TrialKey(object):
 
 
     
+    @staticmethod
+    def _align_conds(conds, names, shapes):
+        """Puts the conditions of several keys in the same order.
+
+        Args:
+          conds: List with the condition matrices of each key, or None.
+          names: List with the names of the conditions of each key, or None.
+          shapes: List with the shapes of one condition in each key.
+
+        Returns:
+          List of condition matrices where the same row is the same condition.
+          Names of the conditions.
+        """
+        if all(c is None for c in conds):
+            return conds, names[0]
+
+        has_names = [n is not None for c, n in zip(conds, names) if c is not None]
+        if all(has_names):
+            all_names = []
+            for c, n in zip(conds, names):
+                if c is not None:
+                    all_names += [n_j for n_j in n if n_j not in all_names]
+        elif any(has_names) or len(set([c.shape[0] for c in conds if c is not None])) > 1:
+            raise ValueError('Conditions without names are not the same in all the keys')
+        else:
+            all_names = None
+
+        num_conds = max([c.shape[0] for c in conds if c is not None]
+                        if all_names is None else [len(all_names)])
+        aligned = []
+        for c, n, shape in zip(conds, names, shapes):
+            a = np.zeros((num_conds,) + shape, dtype='bool')
+            if c is not None:
+                a[slice(None) if all_names is None else [all_names.index(n_j) for n_j in n]] = c
+            aligned.append(a)
+
+        return aligned, all_names
+
+
     @classmethod
     def merge(cls, key_list):
         """Merges several key objects.
@@ -250,9 +289,21 @@ class TrialKey(object):
         seg_set = key_list[0].seg_set
         tar = key_list[0].tar
         non = key_list[0].non
-        model_cond = key_list[0].model_cond
-        seg_cond = key_list[0].seg_cond
-        trial_cond = key_list[0].trial_cond
+        model_conds, model_cond_name = TrialKey._align_conds(
+            [k.model_cond for k in key_list],
+            [k.model_cond_name for k in key_list],
+            [k.tar.shape[:1] for k in key_list])
+        seg_conds, seg_cond_name = TrialKey._align_conds(
+            [k.seg_cond for k in key_list],
+            [k.seg_cond_name for k in key_list],
+            [k.tar.shape[1:] for k in key_list])
+        trial_conds, trial_cond_name = TrialKey._align_conds(
+            [k.trial_cond for k in key_list],
+            [k.trial_cond_name for k in key_list],
+            [k.tar.shape for k in key_list])
+        model_cond = model_conds[0]
+        seg_cond = seg_conds[0]
+        trial_cond = trial_conds[0]
 
         if model_cond is not None:
             num_model_cond = model_cond.shape[0]
@@ -300,13 +351,13 @@ class TrialKey(object):
             non_2[ix_a] = key_i.non[ix_b]
             if model_cond is not None:
                 model_cond_2 = np.zeros((num_model_cond, shape[0]), dtype ='bool')
-                model_cond_2[:, mi_a] = key_i.model_cond[:, mi_b]
+                model_cond_2[:, mi_a] = model_conds[i][:, mi_b]
             if seg_cond is not None:
                 seg_cond_2 = np.zeros((num_seg_cond, shape[1]), dtype ='bool')
-                seg_cond_2[:, si_a] = key_i.seg_cond[:, si_b]
+                seg_cond_2[:, si_a] = seg_conds[i][:, si_b]
             if trial_cond is not None:
                 trial_cond_2 = np.zeros((num_trial_cond,) + shape, dtype ='bool')
-                trial_cond_2[(slice(None),) + ix_a] = key_i.trial_cond[(slice(None),) + ix_b]
+                trial_cond_2[(slice(None),) + ix_a] = trial_conds[i][(slice(None),) + ix_b]
 
             model_set = new_model_set
             seg_set = new_seg_set
@@ -321,9 +372,7 @@ class TrialKey(object):
                             
         return cls(model_set, seg_set, tar, non,
                    model_cond, seg_cond, trial_cond,
-                   key_list[0].model_cond_name,
-                   key_list[0].seg_cond_name,
-                   key_list[0].trial_cond_name)
+                   model_cond_name, seg_cond_name, trial_cond_name)
                                   
 
     
-- 
2.43.0


From 5b81eeb6fa1d9baf58c914e3f746a8ab8ee6807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:39 +0000
Subject: [PATCH 225/241] fix: the file of an empty utterance information list
 could not be loaded

---
 hyperion/utils/utt2info.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hyperion/utils/utt2info.py b/hyperion/utils/utt2info.py
index 7eb9283..003dfc3 100644
--- a/hyperion/utils/utt2info.py
+++ b/hyperion/utils/utt2info.py
@@ -175,7 +175,10 @@ class Utt2Info(object):
         Returns:
           Utt2Info object
         """
-        df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype, keep_default_na=False)
+        try:
+            df = pd.read_csv(file_path, sep=sep, header=None, dtype=dtype, keep_default_na=False)
+        except pd.errors.EmptyDataError:
+            df = pd.DataFrame(columns=[0, 1], dtype=object)
         df = df.rename(index=str, columns={0:'key'})
         return cls(df)
 
-- 
2.43.0


From 06ebd472a5a2bc20e66ef02cf5f718a1043f5c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:07 +0000
Subject: [PATCH 226/241] fix: the cross-label confusion matrix of labels in
 small integer types was wrong, they wrapped around

---
 hyperion/metrics/confusion_matrix.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hyperion/metrics/confusion_matrix.py b/hyperion/metrics/confusion_matrix.py
index 436c09d..7ebe979 100644
--- a/hyperion/metrics/confusion_matrix.py
+++ b/hyperion/metrics/confusion_matrix.py
@@ -76,6 +76,8 @@ def compute_xlabel_confusion_matrix(y_true, y_pred, labels_train=None, labels_te
     
     if issubclass(y_true.dtype.type, np.integer):
         # shift train labels beyond the test labels
+        y_true, y_pred, labels_train, labels_test = [
+            np.asarray(y, dtype='int64') for y in (y_true, y_pred, labels_train, labels_test)]
         shift = 1 + max(np.max(y_true), np.max(labels_test)) - min(
             np.min(y_pred), np.min(labels_train))
         y_pred = y_pred + shift
-- 
2.43.0


From 869e38b89ad3438fae344edfb7ad1475198afde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:22 +0000
Subject: [PATCH 227/241] fix: frame selection took masks of zeros and ones
 that are not booleans, as those of segment lists, as row numbers

---
 hyperion/feats/frame_selector.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hyperion/feats/frame_selector.py b/hyperion/feats/frame_selector.py
index 77cea7f..f469425 100644
--- a/hyperion/feats/frame_selector.py
+++ b/hyperion/feats/frame_selector.py
@@ -32,6 +32,7 @@ class FrameSelector(object):
         Returns:
           Feature matrix with selected frames.
         """
+        sel = np.asarray(sel).astype('bool')
         num_frames = x.shape[0]
         num_frames_vad = sel.shape[0]
         if num_frames == num_frames_vad:
-- 
2.43.0


From c2a8ac90a66d0e321c901015d2ab6e0e69aa8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:22 +0000
Subject: [PATCH 228/241] fix: the log-energy of a signal in 16 bit integers
 overflowed

---
 hyperion/feats/stft.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/feats/stft.py b/hyperion/feats/stft.py
index 5c3459f..cdfad57 100644
--- a/hyperion/feats/stft.py
+++ b/hyperion/feats/stft.py
@@ -105,7 +105,7 @@ def st_logE(x, frame_length, frame_shift):
         
     num_frames = int(np.floor((len(x) - frame_length + frame_shift)/frame_shift))
         
-    x2 = x**2
+    x2 = np.asarray(x, dtype=float_cpu())**2
     e = np.zeros((num_frames,), dtype=float_cpu())
     j = 0
     for i in xrange(num_frames):
-- 
2.43.0


From bf196b500318b1d8866e93e267a35866c0609d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:10 +0000
Subject: [PATCH 229/241] fix: the isotonic fit of integers was truncated to
 integers

---
 hyperion/metrics/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/metrics/utils.py b/hyperion/metrics/utils.py
index cb7357e..c290e6f 100644
--- a/hyperion/metrics/utils.py
+++ b/hyperion/metrics/utils.py
@@ -64,7 +64,7 @@ def pavx(y):
     l = np.zeros(y.shape, dtype=int)
     # An interval of indices is represented by its left endpoint 
     # ("index") and its length "len" 
-    ghat = np.zeros_like(y)
+    ghat = np.zeros(y.shape, dtype=float_cpu())
 
     ci = 0
     index[ci] = 0
-- 
2.43.0


From d65dc5f29f84e34ede83764a5f868ea8f18c9292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:21 +0000
Subject: [PATCH 230/241] fix: per-speaker subsets of a data directory lost an
 utterance of speakers with less than twice the number asked

---
 hyp_utils/subset_data_dir.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyp_utils/subset_data_dir.sh b/hyp_utils/subset_data_dir.sh
index ffadfa4..c7bf8da 100755
--- a/hyp_utils/subset_data_dir.sh
+++ b/hyp_utils/subset_data_dir.sh
@@ -171,7 +171,7 @@ elif $speakers; then
 elif $perspk; then
   mkdir -p $destdir
   awk '{ n='$numutt'; printf("%s ",$1); skip=1; while(n*(skip+1) <= NF-1) { skip++; }
-         for(x=2; x<=NF && x <= n*skip; x += skip) { printf("%s ", $x); }
+         for(x=2; x<=NF && x <= n*skip+1; x += skip) { printf("%s ", $x); }
          printf("\n"); }' <$srcdir/spk2utt >$destdir/spk2utt
   utils/spk2utt_to_utt2spk.pl < $destdir/spk2utt > $destdir/utt2spk
   do_filtering; # bash function.
-- 
2.43.0


From 0b1feeb7be92632db27b04cfabdc101c93e175fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:09 +0000
Subject: [PATCH 231/241] fix: the options that freeze parts of the x-vector in
 the keras tools called methods that do not exist

---
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 6 +++---
 hyperion/bin/keras-train-cat-seq-embed-gen-v2.py     | 4 ++--
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index 38763c5..f7a9ae9 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -97,11 +97,11 @@ def train_embed(data_path, train_list, val_list,
     
     t1 = time.time()
     if freeze_prepool:
-        model.freeze_prepool_net()
+        model.freeze_enc_net()
     if freeze_prepool_layers is not None:
-        model.freeze_prepool_layers(freeze_prepool_layers)
+        model.freeze_enc_net_layers(freeze_prepool_layers)
     if freeze_postpool_layers is not None:
-        model.freeze_postpool_layers(freeze_postpool_layers)
+        model.freeze_pt_net_layers(freeze_postpool_layers)
     
     model.build(max_length)
     logging.info(time.time()-t1)
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
index 1fe8b59..3c08c2a 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
@@ -99,9 +99,9 @@ def train_embed(data_path, train_list, val_list,
     if freeze_enc:
         model.freeze_enc_net()
     if freeze_enc_layers is not None:
-        model.freeze_enc_layers(freeze_enc_layers)
+        model.freeze_enc_net_layers(freeze_enc_layers)
     if freeze_pt_layers is not None:
-        model.freeze_pt_layers(freeze_pt_layers)
+        model.freeze_pt_net_layers(freeze_pt_layers)
     
     model.build(max_length)
     
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index 99b6f7e..17e5f4a 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -98,11 +98,11 @@ def train_embed(data_path, train_list, val_list,
     
     t1 = time.time()
     if freeze_prepool:
-        model.freeze_prepool_net()
+        model.freeze_enc_net()
     if freeze_prepool_layers is not None:
-        model.freeze_prepool_layers(freeze_prepool_layers)
+        model.freeze_enc_net_layers(freeze_prepool_layers)
     if freeze_postpool_layers is not None:
-        model.freeze_postpool_layers(freeze_postpool_layers)
+        model.freeze_pt_net_layers(freeze_postpool_layers)
     
     model.build(max_length)
     
-- 
2.43.0


From 67aeae1d9a14fc78919b3f500ad1d4fc28797d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:09 +0000
Subject: [PATCH 232/241] fix: resumed keras x-vector trainings repeated the
 last epoch

---
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 2 +-
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index f7a9ae9..ba04b23 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -60,7 +60,7 @@ def train_embed(data_path, train_list, val_list,
                              loss=loss,
                              **emb_args)
         else:
-            kwargs['init_epoch'] = init_epoch
+            kwargs['init_epoch'] = init_epoch + 1
     else:
         logging.info('loading init model: %s' % init_path)
         model = KML.load(init_path)
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index 17e5f4a..fedbac0 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -61,7 +61,7 @@ def train_embed(data_path, train_list, val_list,
                              loss=loss,
                              **emb_args)
         else:
-            kwargs['init_epoch'] = init_epoch
+            kwargs['init_epoch'] = init_epoch + 1
     else:
         logging.info('loading init model: %s' % init_path)
         model = KML.load(init_path)
-- 
2.43.0


From 35245b3830fc7689ab6d7d554af8b5b978284c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:09 +0000
Subject: [PATCH 233/241] fix: keras x-vector trainings without validation list
 failed

---
 hyperion/bin/keras-train-cat-seq-embed-gen-v1.py     | 4 +++-
 hyperion/bin/keras-train-cat-seq-embed-gen-v2.py     | 4 +++-
 hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
index ba04b23..75ff5eb 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v1.py
@@ -83,6 +83,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -90,6 +91,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
     
@@ -112,7 +114,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
index 3c08c2a..47e4c1d 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-gen-v2.py
@@ -81,6 +81,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -88,6 +89,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     sys.stdout.flush()
 
@@ -111,7 +113,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
diff --git a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
index fedbac0..5d1e6f2 100755
--- a/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
+++ b/hyperion/bin/keras-train-cat-seq-embed-lde-gen-v1.py
@@ -84,6 +84,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -91,6 +92,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
     
@@ -112,7 +114,7 @@ def train_embed(data_path, train_list, val_list,
     
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
                           
-- 
2.43.0


From 8e8a42c0352a4f10623f17a45e5c51cc53f969b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:59 +0000
Subject: [PATCH 234/241] fix: tools that train keras posterior embeddings
 imported a class that was moved and renamed

---
 hyperion/bin/keras-train-cat-seq-q-embed.py  | 2 +-
 hyperion/bin/keras-train-cat-tied-dvae.py    | 2 +-
 hyperion/bin/keras-train-cat-tied-sup-vae.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 9e116b9..3cfa5fe 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.utils.multithreading import threadsafe_generator
-from hyperion.helpers import SequenceBatchGenerator as G
+from hyperion.generators import SequenceBatchGeneratorV1 as G
 from hyperion.transforms import TransformList
 from hyperion.keras.backend_addons import reserve_gpu
 from hyperion.keras.keras_utils import *
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index b1feefb..be19bcb 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.utils.multithreading import threadsafe_generator
-from hyperion.helpers import SequenceBatchGenerator as G
+from hyperion.generators import SequenceBatchGeneratorV1 as G
 from hyperion.transforms import TransformList
 from hyperion.keras.backend_addons import reserve_gpu
 from hyperion.keras.keras_utils import *
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index c463522..9921aaa 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -20,7 +20,7 @@ import numpy as np
 
 from hyperion.hyp_defs import set_float_cpu, float_cpu, config_logger
 from hyperion.utils.multithreading import threadsafe_generator
-from hyperion.helpers import SequenceBatchGenerator as G
+from hyperion.generators import SequenceBatchGeneratorV1 as G
 from hyperion.transforms import TransformList
 from hyperion.keras.backend_addons import reserve_gpu
 from hyperion.keras.keras_utils import *
-- 
2.43.0


From f5ce5253ed95af506b8f1349fc8be30712622e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:59 +0000
Subject: [PATCH 235/241] fix: resumed trainings of keras posterior embeddings
 repeated the last epoch

---
 hyperion/bin/keras-train-cat-seq-q-embed.py  | 2 +-
 hyperion/bin/keras-train-cat-tied-dvae.py    | 2 +-
 hyperion/bin/keras-train-cat-tied-sup-vae.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index 3cfa5fe..aa68abf 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -84,7 +84,7 @@ def train_embed(data_path, train_list, val_list,
             model = SeqQEmbed(embed_net, num_classes=sg.num_classes,
                               **embed_args)
         else:
-            sg.cur_epoch = init_epoch
+            sg.cur_epoch = init_epoch + 1
             sg.reset()
     else:
         logging.info('loading init model: %s' % init_path)
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index be19bcb..532abd1 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -85,7 +85,7 @@ def train_embed(data_path, train_list, val_list,
             model = VAE(qy_net, pt_net,
                         **embed_args)
         else:
-            sg.cur_epoch = init_epoch
+            sg.cur_epoch = init_epoch + 1
             sg.reset()
     else:
         logging.info('loading init model: %s' % init_path)
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index 9921aaa..059c79c 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -89,7 +89,7 @@ def train_embed(data_path, train_list, val_list,
             model = VAE(px_net, qy_net, qz_net, pt_net,
                         **embed_args)
         else:
-            sg.cur_epoch = init_epoch
+            sg.cur_epoch = init_epoch + 1
             sg.reset()
     else:
         logging.info('loading init model: %s' % init_path)
-- 
2.43.0


From 5b42df06a82f0ea6d9e70740df4e30415171b284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:59 +0000
Subject: [PATCH 236/241] fix: trainings of keras posterior embeddings without
 validation list failed

---
 hyperion/bin/keras-train-cat-seq-q-embed.py  | 4 +++-
 hyperion/bin/keras-train-cat-tied-dvae.py    | 4 +++-
 hyperion/bin/keras-train-cat-tied-sup-vae.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-seq-q-embed.py b/hyperion/bin/keras-train-cat-seq-q-embed.py
index aa68abf..9aee9a2 100755
--- a/hyperion/bin/keras-train-cat-seq-q-embed.py
+++ b/hyperion/bin/keras-train-cat-seq-q-embed.py
@@ -63,6 +63,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -70,6 +71,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
 
@@ -115,7 +117,7 @@ def train_embed(data_path, train_list, val_list,
 
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
 
diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index 532abd1..b0190cc 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -63,6 +63,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -70,6 +71,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
 
@@ -116,7 +118,7 @@ def train_embed(data_path, train_list, val_list,
 
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
 
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index 059c79c..c837148 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -65,6 +65,7 @@ def train_embed(data_path, train_list, val_list,
            transform=preproc, **sg_args)
     max_length = sg.max_seq_length
     gen_val = None
+    val_steps = None
     if val_list is not None:
         sg_val = G(data_path, val_list,
                     transform=preproc,
@@ -72,6 +73,7 @@ def train_embed(data_path, train_list, val_list,
                     **sg_args)
         max_length = max(max_length, sg_val.max_seq_length)
         gen_val = data_generator(sg_val, max_length)
+        val_steps = sg_val.steps_per_epoch
 
     gen_train = data_generator(sg, max_length)
 
@@ -122,7 +124,7 @@ def train_embed(data_path, train_list, val_list,
 
     h = model.fit_generator(gen_train, validation_data=gen_val,
                             steps_per_epoch=sg.steps_per_epoch,
-                            validation_steps=sg_val.steps_per_epoch,
+                            validation_steps=val_steps,
                             initial_epoch=sg.cur_epoch,
                             epochs=epochs, callbacks=cb, max_queue_size=10)
 
-- 
2.43.0


From db1cdb1dac6003a104f3e58862bcb94f67af0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:59 +0000
Subject: [PATCH 237/241] fix: the tools that train tied VAEs could not freeze
 the network of the embeddings

---
 hyperion/bin/keras-train-cat-tied-dvae.py    | 2 +-
 hyperion/bin/keras-train-cat-tied-sup-vae.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/bin/keras-train-cat-tied-dvae.py b/hyperion/bin/keras-train-cat-tied-dvae.py
index b0190cc..4fae53d 100755
--- a/hyperion/bin/keras-train-cat-tied-dvae.py
+++ b/hyperion/bin/keras-train-cat-tied-dvae.py
@@ -107,7 +107,7 @@ def train_embed(data_path, train_list, val_list,
     t1 = time.time()
     
     if freeze_embed:
-        model.prepool_net.trainable = False
+        model.freeze_embed()
         
     model.build(max_length)
     logging.info(time.time()-t1)
diff --git a/hyperion/bin/keras-train-cat-tied-sup-vae.py b/hyperion/bin/keras-train-cat-tied-sup-vae.py
index c837148..8e9224f 100755
--- a/hyperion/bin/keras-train-cat-tied-sup-vae.py
+++ b/hyperion/bin/keras-train-cat-tied-sup-vae.py
@@ -113,7 +113,7 @@ def train_embed(data_path, train_list, val_list,
     t1 = time.time()
     
     if freeze_embed:
-        model.prepool_net.trainable = False
+        model.freeze_embed()
         
     model.build(max_length)
     logging.info(time.time()-t1)
-- 
2.43.0


From 5cb3edc60f27cf3c598eb48841fd229fe445f36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:01:37 +0000
Subject: [PATCH 238/241] fix: RTTM.to_segment_list gave the same id to the
 segments of a file inside the same seconds

---
 hyperion/utils/rttm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/utils/rttm.py b/hyperion/utils/rttm.py
index a6953f8..5217cc7 100644
--- a/hyperion/utils/rttm.py
+++ b/hyperion/utils/rttm.py
@@ -525,8 +525,8 @@ class RTTM(object):
 
         segments = self.segments[['file_id','tbeg']].copy()
         segments['tend'] = self.segments['tbeg'] + self.segments['tdur']
-        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, tbeg, tdur)
-                                  for file_id, tbeg, tdur in zip(
+        segments['segment_id'] = ['%s-%07d-%07d' % (file_id, round(1000*tbeg), round(1000*tend))
+                                  for file_id, tbeg, tend in zip(
                                           segments['file_id'],
                                           segments['tbeg'],
                                           segments['tend'])]
-- 
2.43.0


From 2c3ff69d1d4896985fdaed527e127a66faa7ea8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:56 +0000
Subject: [PATCH 239/241] fix: torch.sh died silently when free-gpu was not in
 the PATH

---
 hyp_utils/torch.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyp_utils/torch.sh b/hyp_utils/torch.sh
index 8cbee23..b6f4ee8 100755
--- a/hyp_utils/torch.sh
+++ b/hyp_utils/torch.sh
@@ -47,9 +47,9 @@ fi
 
 if [ $num_gpus -gt 0 ];then
     # seach location of free-gpu program in the PATH or hyp_utils directory
-    free_gpu=$(which free-gpu)
+    free_gpu=$(which free-gpu || true)
     if [ -z "$free_gpu" ];then
-	free_gpu=$(which hyp_utils/free-gpu)
+	free_gpu=$(which hyp_utils/free-gpu || true)
     fi
     
     if [ ! -z "$free_gpu" ];then
-- 
2.43.0


From 0f91d003a086305a21710fcb6845d84c8bf3d6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:56 +0000
Subject: [PATCH 240/241] fix: open_device asked for a single gpu whatever the
 number requested

---
 hyperion/torch/utils/devices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hyperion/torch/utils/devices.py b/hyperion/torch/utils/devices.py
index 5798dae..1d3d5cf 100644
--- a/hyperion/torch/utils/devices.py
+++ b/hyperion/torch/utils/devices.py
@@ -12,8 +12,8 @@ def open_device(num_gpus=1, gpu_ids=None):
     os.environ['CUDA_DEVICE_ORDER']='PCI_BUS_ID'
     if gpu_ids is None:
         try:
-            result = subprocess.run('free-gpu', stdout=subprocess.PIPE)
-            gpu_ids = result.stdout.decode('utf-8')
+            result = subprocess.run(['free-gpu', '-n', str(num_gpus)], stdout=subprocess.PIPE)
+            gpu_ids = result.stdout.decode('utf-8').strip()
         except:
             gpu_ids = '0'
 
-- 
2.43.0


From 010532f62e9c135a8f966d70a42ce5598ab36a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:56 +0000
Subject: [PATCH 241/241] fix: reserve_gpu left a line feed in
 CUDA_VISIBLE_DEVICES

---
 hyperion/keras/backend_addons/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hyperion/keras/backend_addons/tensorflow_backend.py b/hyperion/keras/backend_addons/tensorflow_backend.py
index dc55568..53c2249 100644
--- a/hyperion/keras/backend_addons/tensorflow_backend.py
+++ b/hyperion/keras/backend_addons/tensorflow_backend.py
@@ -29,6 +29,6 @@ def max_with_mask(x, mask, axis=None, keepdims=False):
 def reserve_gpu():
     result = subprocess.run('free-gpu', stdout=subprocess.PIPE)
     os.environ['CUDA_DEVICE_ORDER']='PCI_BUS_ID'
-    os.environ['CUDA_VISIBLE_DEVICES'] = result.stdout.decode('utf-8')
+    os.environ['CUDA_VISIBLE_DEVICES'] = result.stdout.decode('utf-8').strip()
     logging.debug(os.environ['CUDA_VISIBLE_DEVICES'])
     return K.get_session()
-- 
2.43.0

